package mdb

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/zzverif/smt"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// removal is the set of certificates that must be removed by pruning at a time: the expired ones, and those
// below them.
func removal(s *snap, expired func(ID) bool) map[ID]bool {
	out := map[ID]bool{}
	for more := true; more; {
		more = false
		for id, r := range s.certs {
			if !out[id] && (expired(id) || r.parent != nil && out[*r.parent]) {
				out[id], more = true, true
			}
		}
	}
	return out
}

// afterPrune tells what is wrong with the tables after pruning.
func afterPrune(before, after *snap, expired func(ID) bool, name func(ID) string) (n int, e string) {
	gone := removal(before, expired)
	for id, r := range before.certs {
		got, ok := after.certs[id]
		switch {
		case gone[id] && ok:
			return 0, fmt.Sprintf("certificate %s is still there (expired itself: %v)", name(id), expired(id))
		case !gone[id] && !ok:
			return 0, fmt.Sprintf("certificate %s was removed", name(id))
		case ok && !reflect.DeepEqual(got, r):
			return 0, fmt.Sprintf("the row of certificate %s changed", name(id))
		}
	}
	for id := range after.certs {
		if _, ok := before.certs[id]; !ok {
			return 0, fmt.Sprintf("a certificate %s was added", name(id))
		}
	}
	for _, x := range []struct {
		name string
		a, b any
	}{
		{"policies", before.pols, after.pols}, {"domain_policies", before.plinks, after.plinks}, {"tree", before.tree, after.tree},
		{"root", before.root, after.root}, {"domain_payloads", before.payloads, after.payloads}, {"domains", before.domains, after.domains},
	} {
		if !reflect.DeepEqual(x.a, x.b) {
			return 0, "the table " + x.name + " changed"
		}
	}
	want := map[ID]bool{}
	for d, c := range before.dirty {
		want[d] = c
	}
	for d, ids := range before.links {
		for id := range ids {
			if gone[id] {
				want[d] = false
				if after.links[d][id] {
					return 0, fmt.Sprintf("the domain %q is still linked to certificate %s, which was removed", before.domains[d], name(id))
				}
			} else if !after.links[d][id] {
				return 0, fmt.Sprintf("the link of domain %q to certificate %s, still there, was removed", before.domains[d], name(id))
			}
		}
	}
	for d, ids := range after.links {
		for id := range ids {
			if !before.links[d][id] {
				return 0, fmt.Sprintf("the domain %q was linked to certificate %s", before.domains[d], name(id))
			}
		}
	}
	for d, c := range want {
		if got, ok := after.dirty[d]; !ok {
			return 0, fmt.Sprintf("the domain %q lost a certificate, but is not recorded as in need of an update", before.domains[d])
		} else if got && !c {
			return 0, fmt.Sprintf("the domain %q is recorded as already updated", before.domains[d])
		}
	}
	for d, c := range after.dirty {
		if old, ok := want[d]; !ok || old && !c {
			return 0, fmt.Sprintf("the domain %q, which lost nothing, is recorded as in need of an update", before.domains[d])
		}
	}
	return len(gone), ""
}

// bundles is a connection that gives changed domains in smaller bundles.
type bundles struct {
	db.Conn
	size uint64
}

func (b *bundles) RetrieveDomainEntriesDirtyBundle(c ctxT, cur *db.DirtyDomainEntriesCursor, n uint64) ([]db.DomainEntryRecord, *db.DirtyDomainEntriesCursor, bool, error) {
	return b.Conn.RetrieveDomainEntriesDirtyBundle(c, cur, min(n, b.size))
}

// cycle brings the entries and the tree up to date.
func cycle(conn db.Conn, cleanup bool) error {
	defer quiet()()
	if err := updater.CoalescePayloadsForDirtyDomains(ctx, conn); err != nil {
		return fmt.Errorf("coalescing: %w", err)
	}
	if err := updater.UpdateSMT(ctx, conn); err != nil {
		return fmt.Errorf("updating the tree: %w", err)
	}
	if cleanup {
		if err := conn.CleanupDirty(ctx); err != nil {
			return fmt.Errorf("cleaning up: %w", err)
		}
	}
	return nil
}

// afterCycle tells what is wrong with the entries and the root after a full cycle.
func afterCycle(s *snap) string {
	if e := s.compareEntries(nil, nil); e != "" {
		return e
	}
	vals := s.values()
	if want := refRoot(vals); string(s.root) != string(want) {
		return fmt.Sprintf("the stored root is %x, but the tree of the %d entries has the root %x", s.root, len(vals), want)
	}
	for d := range s.payloads {
		if _, ok := s.domains[d]; !ok {
			return fmt.Sprintf("the domain %x has an entry but no name", d[:3])
		}
	}
	return ""
}

// TestM05Prune: pruning in any history removes what has expired with what was issued under it.
func TestM05Prune(t *testing.T) {
	rec := vlib.New(t, "M05", "some pruning removes a certificate that has not expired itself, and keeps one")
	d := Open("m05")
	defer d.Drop()
	base := time.Date(2020, 2, 28, 22, 0, 0, 0, time.UTC)
	exps := []time.Time{base, base, base.Add(time.Second), base.Add(-time.Second), base.Add(time.Hour), base.Add(2 * time.Hour), base.AddDate(0, 0, 1),
		base.AddDate(1, 0, 0),
		farFuture, farFuture, farFuture, farFuture, farFuture, farFuture, farFuture, farFuture, farFuture, farFuture, farFuture, farFuture}
	vlib.Check(t, rec, func(rt *rapid.T) {
		d.Reset()
		varied := rapid.Bool().Draw(rt, "varied issuers")
		w := genWorld(rt, worldOpts{varied: varied, loops: varied, policies: true, zones: true, maxItems: 14, expiries: exps})
		m := newModel()
		steps := []string{fmt.Sprintf("names %q", w.names)}
		bad := func(f string, a ...any) { rt.Fatalf("%s\n%s", fmt.Sprintf(f, a...), strings.Join(steps, "\n")) }
		some, cycles := false, 0
		for i, n := 0, rapid.IntRange(2, 6).Draw(rt, "steps"); i < n; i++ {
			step := "insert"
			if i > 0 {
				step = rapid.SampledFrom([]string{"insert", "prune", "prune", "cycle"}).Draw(rt, "step")
			}
			switch step {
			case "insert":
				way := rapid.SampledFrom(ways).Draw(rt, "way")
				c := rapid.IntRange(1, len(w.items)).Draw(rt, "items")
				items := rapid.Permutation(w.items).Draw(rt, "which")[:c]
				s := way + ":"
				for _, it := range items {
					s += " " + it.String()
				}
				var pols []*polDoc
				if way == "keep" {
					pols = w.pols
				}
				steps = append(steps, s)
				if err := insert(rt, way, d, items, pols); err != nil {
					bad("inserting failed: %v", err)
				}
				m.add(items, pols)
			case "prune":
				at := rapid.SampledFrom(exps[:8]).Draw(rt, "time").Add(time.Duration(rapid.SampledFrom([]int{0, 0, -1, 1, 3600, -3600}).Draw(rt, "off")) * time.Second)
				at = at.In(time.FixedZone("z", rapid.SampledFrom([]int{0, 0, 3600, -7200, 5400, 14 * 3600}).Draw(rt, "zone")))
				steps = append(steps, "prune at "+at.Format(time.RFC3339))
				expired := func(id ID) bool { return m.certs[id].NotAfter.Before(at) }
				name := func(id ID) string { return label(m.certs[id]) }
				before := d.snap()
				var conn db.Conn = d
				if rapid.IntRange(0, 3).Draw(rt, "other connection") == 0 {
					conn = connect(d.Name)
					defer conn.Close()
				}
				if err := conn.PruneCerts(ctx, at); err != nil {
					bad("pruning failed: %v", err)
				}
				after := d.snap()
				k, e := afterPrune(before, after, expired, name)
				if e != "" {
					bad("%s", e)
				}
				for id := range before.certs {
					if _, ok := after.certs[id]; !ok && !expired(id) && len(after.certs) > 0 {
						some = true
					}
				}
				// Again: nothing changes.
				if err := conn.PruneCerts(ctx, at); err != nil {
					bad("pruning again failed: %v", err)
				}
				if again := d.snap(); !reflect.DeepEqual(after, again) {
					bad("pruning again at the same time changed something (the first time: %d certificates)", k)
				}
			case "cycle":
				steps = append(steps, "cycle")
				cycles++
				if err := cycle(d, true); err != nil {
					bad("%v", err)
				}
				if e := afterCycle(d.snap()); e != "" {
					bad("after a cycle: %s", e)
				}
			}
		}
		steps = append(steps, "cycle")
		if err := cycle(d, true); err != nil {
			bad("%v", err)
		}
		s := d.snap()
		if e := afterCycle(s); e != "" {
			bad("after the last cycle: %s", e)
		}
		for x, p := range s.payloads {
			for b := p.certs; len(b) >= 32; b = b[32:] {
				if _, ok := s.certs[toID(b[:32])]; !ok {
					bad("the entry of %q lists a certificate that is not there", s.domains[x])
				}
			}
		}
		rec.Case(strings.Join(steps, "\n"), some, func() any { return steps }, classOf(varied, cycles > 0, len(w.pols) > 0)...)
	})
}

func refRoot(vals map[ID]ID) []byte {
	m := map[smt.K]smt.V{}
	for k, v := range vals {
		m[smt.K(k)] = smt.V(v)
	}
	return smt.RefRoot(m)
}
