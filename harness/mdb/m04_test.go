package mdb

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// readable tells whether the stored tree gives the values of all entries.
func readable(conn db.Conn, s *snap) string {
	id, err := conn.LoadRoot(ctx)
	if err != nil {
		return fmt.Sprintf("loading the root: %v", err)
	}
	if (id == nil) != (s.root == nil) || id != nil && !bytes.Equal(id[:], s.root) {
		return fmt.Sprintf("the root is loaded as %x instead of %x", id, s.root)
	}
	var root []byte
	if id != nil {
		root = id[:]
	}
	tr, err := trie.NewTrie(root, common.SHA256Hash, conn)
	if err != nil {
		return fmt.Sprintf("opening the stored tree: %v", err)
	}
	vals := s.values()
	ask := map[ID]bool{hash([]byte("absent")): true}
	for d := range s.domains {
		ask[d] = true
	}
	for d := range vals {
		ask[d] = true
	}
	for d := range ask {
		v, err := tr.Get(ctx, d[:])
		if err != nil {
			return fmt.Sprintf("reading the value of %q in the stored tree: %v", s.domains[d], err)
		}
		want, ok := vals[d]
		if ok && !bytes.Equal(v, want[:]) || !ok && len(v) > 0 {
			return fmt.Sprintf("the value of %q in the stored tree is %x instead of %x (there: %v)", s.domains[d], v, want, ok)
		}
	}
	return ""
}

// TestM04Cycles: any history of update cycles leads to the entries and the root that follow from the
// material, which are those of an empty database filled at once.
func TestM04Cycles(t *testing.T) {
	rec := vlib.New(t, "M04", "at least two cycles have changes, and a later one changes a domain of an earlier one")
	d := Open("m04")
	defer d.Drop()
	d2 := Open("m04b")
	defer d2.Drop()
	soon := time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC)
	vlib.Check(t, rec, func(rt *rapid.T) {
		d.Reset()
		scratch := rapid.IntRange(0, 2).Draw(rt, "compare with an empty database") > 0
		expiries := []time.Time{farFuture}
		if !scratch {
			expiries = append(expiries, soon)
		}
		w := genWorld(rt, worldOpts{varied: !scratch, loops: !scratch, policies: true, maxItems: 10, expiries: expiries})
		m := newModel()
		steps := []string{fmt.Sprintf("names %q", w.names)}
		bad := func(f string, a ...any) { rt.Fatalf("%s\n%s", fmt.Sprintf(f, a...), strings.Join(steps, "\n")) }
		changes, again, small, crash := 0, false, false, false
		last := d.snap()
		ins := func() {
			use := ways
			if scratch {
				use = []string{"keep", "keep", "overwrite", "local", "fetch"}
			}
			way := rapid.SampledFrom(use).Draw(rt, "way")
			items := rapid.Permutation(w.items).Draw(rt, "which")[:rapid.IntRange(1, len(w.items)).Draw(rt, "items")]
			var pols []*polDoc
			if (way == "keep" || way == "overwrite") && len(w.pols) > 0 {
				pols = rapid.Permutation(w.pols).Draw(rt, "policies")[:rapid.IntRange(0, len(w.pols)).Draw(rt, "number of policies")]
			}
			s := way + ":"
			for _, it := range items {
				s += " " + it.String()
			}
			for _, p := range pols {
				s += " " + string(p.raw)
			}
			steps = append(steps, s)
			if err := insert(rt, way, d, items, pols); err != nil {
				bad("inserting failed: %v", err)
			}
			m.add(items, pols)
		}
		for i, n := 0, rapid.IntRange(2, 5).Draw(rt, "rounds"); i < n; i++ {
			for j, k := 0, rapid.IntRange(0, 2).Draw(rt, "insertions"); j < k; j++ {
				ins()
				if rapid.IntRange(0, 4).Draw(rt, "coalesce only") == 0 {
					steps = append(steps, "coalesce")
					if err := coalesce(d); err != nil {
						bad("coalescing: %v", err)
					}
				}
			}
			if !scratch && rapid.IntRange(0, 3).Draw(rt, "prune") == 0 {
				steps = append(steps, "prune")
				if err := d.PruneCerts(ctx, soon.Add(time.Hour)); err != nil {
					bad("pruning: %v", err)
				}
			}
			var conn db.Conn = d
			if rapid.IntRange(0, 3).Draw(rt, "restart") == 0 {
				steps = append(steps, "restart")
				conn = connect(d.Name)
				defer conn.Close()
			}
			size := rapid.SampledFrom([]uint64{1, 2, 3, 7, 33, 1 << 20}).Draw(rt, "bundle")
			cleanup := rapid.IntRange(0, 3).Draw(rt, "cleanup") > 0
			steps = append(steps, fmt.Sprintf("cycle with bundles of %d, cleanup %v", size, cleanup))
			if err := cycle(&bundles{conn, size}, cleanup); err != nil {
				bad("%v", err)
			}
			s := d.snap()
			if e := afterCycle(s); e != "" {
				bad("after a cycle: %s", e)
			}
			if cleanup && len(s.dirty) > 0 {
				bad("after a cycle (cleanup %v) there are %d domains in need of an update", cleanup, len(s.dirty))
			} else if !cleanup {
				crash = true
			}
			if e := readable(conn, s); e != "" {
				bad("after a cycle: %s", e)
			}
			if !bytes.Equal(s.root, last.root) {
				changes++
				small = small || size < uint64(len(s.dirty)) || size == 1
				for x, p := range last.payloads {
					again = again || !reflect.DeepEqual(p, s.payloads[x])
				}
			}
			last = s
			if rapid.IntRange(0, 2).Draw(rt, "again") == 0 { // without new material
				steps = append(steps, "cycle again")
				if err := cycle(conn, cleanup); err != nil {
					bad("repeating the cycle: %v", err)
				}
				s2 := d.snap()
				if !bytes.Equal(s.root, s2.root) || !reflect.DeepEqual(s.payloads, s2.payloads) {
					bad("repeating the cycle without new material changed something: root %x to %x", s.root, s2.root)
				}
				if e := readable(conn, s2); e != "" {
					bad("after repeating the cycle: %s", e)
				}
			}
		}
		cl := []string{"any material"}
		if scratch {
			cl = []string{"compared with an empty database"}
			// All the material at once, in another order.
			d2.Reset()
			var items []*item
			seen := map[ID]bool{}
			for _, i := range rapid.Permutation(w.items).Draw(rt, "order") {
				if id := i.leaf.ID; m.certs[id] != nil && !seen[id] {
					given := false // as a leaf
					for _, n := range i.leaf.Names() {
						given = given || m.links[n][id]
					}
					if given || len(i.leaf.Names()) == 0 {
						items = append(items, i)
						seen[id] = true
					}
				}
			}
			var pols []*polDoc
			for _, p := range w.pols {
				if m.pols[p.id()] != nil {
					pols = append(pols, p)
				}
			}
			if err := insert(rt, rapid.SampledFrom([]string{"keep", "overwrite"}).Draw(rt, "way at once"), d2, items, pols); err != nil {
				bad("inserting everything into an empty database: %v", err)
			}
			if err := cycle(d2, true); err != nil {
				bad("in the other database: %v", err)
			}
			s2 := d2.snap()
			for x, p := range s2.payloads {
				if !reflect.DeepEqual(p, last.payloads[x]) {
					bad("the entry of %q is %s, %s instead of %s, %s, which an empty database with the same material has", s2.domains[x],
						idList(last.payloads[x].certs), idList(last.payloads[x].pols), idList(p.certs), idList(p.pols))
				}
			}
			if len(s2.payloads) != len(last.payloads) || !bytes.Equal(s2.root, last.root) {
				bad("an empty database with the same material has %d entries and the root %x instead of %d and %x", len(s2.payloads), s2.root, len(last.payloads), last.root)
			}
		}
		if small {
			cl = append(cl, "several bundles")
		}
		if crash {
			cl = append(cl, "no cleanup")
		}
		rec.Case(strings.Join(steps, "\n"), changes > 1 && again, func() any { return steps }, cl...)
	})
}
