package mdb

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// exec runs a statement of the harness itself.
func (d *DB) exec(q string, args ...any) {
	if _, err := d.DB().Exec(q, args...); err != nil {
		vlib.Infra("%.200s: %v", q, err)
	}
}

// bulkInsert inserts rows of the harness itself.
func (d *DB) bulkInsert(tbl, cols string, rows [][]any) {
	for len(rows) > 0 {
		n := min(len(rows), 2000)
		var args []any
		for _, r := range rows[:n] {
			args = append(args, r...)
		}
		one := "(" + strings.Repeat("?,", len(rows[0])-1) + "?)"
		d.exec("INSERT INTO "+tbl+" ("+cols+") VALUES "+strings.Repeat(one+",", n-1)+one, args...)
		rows = rows[n:]
	}
}

func coalesce(d *DB) error {
	defer quiet()()
	return updater.CoalescePayloadsForDirtyDomains(ctx, d)
}

// afterCoalesce tells what is wrong with the tables after coalescing, given the ones before.
func afterCoalesce(before, after *snap) string {
	for _, x := range []struct {
		name string
		a, b any
	}{
		{"certs", before.certs, after.certs}, {"policies", before.pols, after.pols}, {"domain_certs", before.links, after.links},
		{"domain_policies", before.plinks, after.plinks}, {"tree", before.tree, after.tree}, {"root", before.root, after.root},
	} {
		if !reflect.DeepEqual(x.a, x.b) {
			return "the table " + x.name + " changed"
		}
	}
	pending := func(d ID) bool { c, ok := before.dirty[d]; return ok && !c }
	if e := after.compareEntries(pending, before.domains); e != "" {
		return e
	}
	for d, p := range before.payloads {
		if !pending(d) && !reflect.DeepEqual(p, after.payloads[d]) {
			return fmt.Sprintf("the entry of the domain %q (%x), in no need of an update, changed from %s, %s to %s, %s", before.domains[d], d[:3],
				idList(p.certs), idList(p.pols), idList(after.payloads[d].certs), idList(after.payloads[d].pols))
		}
	}
	for d, p := range after.payloads {
		if _, ok := before.payloads[d]; !ok && !pending(d) {
			return fmt.Sprintf("the domain %x, in no need of an update, got an entry", d[:3])
		}
		if len(p.certs)+len(p.pols) == 0 && pending(d) {
			return fmt.Sprintf("the domain %x, with nothing left, has a row in the table of entries", d[:3])
		}
	}
	for d, n := range before.domains {
		got, ok := after.domains[d]
		_, has := after.payloads[d]
		if ok && got != n || !ok && (has || !pending(d)) {
			return fmt.Sprintf("the domain %q is now %q (there: %v), with an entry: %v", n, got, ok, has)
		}
	}
	for d := range after.domains {
		if _, ok := before.domains[d]; !ok {
			return fmt.Sprintf("there is a new domain %x", d[:3])
		}
	}
	if len(before.dirty) != len(after.dirty) {
		return fmt.Sprintf("there are %d domains recorded as changed instead of %d", len(after.dirty), len(before.dirty))
	}
	for d := range before.dirty {
		if c, ok := after.dirty[d]; !ok || !c {
			return fmt.Sprintf("the domain %x is not recorded as done (there: %v)", d[:3], ok)
		}
	}
	return ""
}

// graph is a random content of the tables.
type graph struct {
	desc string
	deep int
}

// genGraph fills the tables with a random content.
func genGraph(t *rapid.T, d *DB, maxDomains int) (desc string, nontrivial bool) {
	x := rapid.Uint64().Draw(t, "seed") | 1
	next := func(n int) int { // splitmix64
		x += 0x9e3779b97f4a7c15
		z := x
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		z ^= z >> 31
		return int(z % uint64(n))
	}
	nc := rapid.SampledFrom([]int{1, 3, 10, 40}).Draw(t, "certificates")
	np := rapid.SampledFrom([]int{0, 1, 3, 12}).Draw(t, "policies")
	nd := rapid.IntRange(1, maxDomains).Draw(t, "domains")
	loops := rapid.IntRange(0, 2).Draw(t, "loops") == 0
	links := rapid.SampledFrom([]int{1, 2, 5}).Draw(t, "links")
	onePart := rapid.Bool().Draw(t, "one partition")
	var cids, pids []ID
	gen := func(n int, tag string, tbl, idCol string) (ids []ID) {
		for i := 0; i < n; i++ {
			ids = append(ids, hash([]byte(fmt.Sprint(tag, i))))
		}
		var rows [][]any
		for i := range ids {
			var p any
			switch k := next(10); {
			case k < 2:
			case k == 2: // as LOAD DATA stores a root
				p = []byte{}
			case k == 3: // an issuer that is not there
				m := hash([]byte(fmt.Sprint("missing", i)))
				p = m[:]
			case loops:
				p = ids[next(n)][:]
			case i > 0:
				p = ids[next(i)][:]
			}
			if next(12) == 0 {
				continue // not there
			}
			rows = append(rows, []any{ids[i][:], p, farFuture.Format(dateTime), []byte(fmt.Sprint(tag, i))})
		}
		d.bulkInsert(tbl, idCol+",parent_id,expiration,payload", rows)
		return ids
	}
	cids = gen(nc, "c", "certs", "cert_id")
	pids = gen(np, "p", "policies", "policy_id")
	var doms, dc, dp, dirty, pay [][]any
	many, pending := 0, 0
	for i := 0; i < nd; i++ {
		id := hash([]byte(fmt.Sprint("d", i)))
		if onePart {
			id[0] = 0xf8 | id[0]&7
		}
		if next(10) > 0 {
			doms = append(doms, []any{id[:], fmt.Sprint("d", i)})
		}
		seen := map[ID]bool{}
		k := next(links + 1)
		for j := 0; j < k; j++ {
			if c := cids[next(nc)]; !seen[c] {
				seen[c] = true
				dc = append(dc, []any{id[:], c[:]})
			}
		}
		if np > 0 {
			for j, k := 0, next(3); j < k; j++ {
				if p := pids[next(np)]; !seen[p] {
					seen[p] = true
					dp = append(dp, []any{id[:], p[:]})
				}
			}
		}
		if len(seen) > 1 {
			many++
		}
		if next(4) > 0 {
			c := next(5) == 0
			if !c {
				pending++
			}
			dirty = append(dirty, []any{id[:], c})
		}
		if next(3) == 0 { // a previous entry
			a, b := glued(map[ID]bool{cids[next(nc)]: true}), glued(map[ID]bool{hash([]byte("old")): true})
			ha, hb := hash(a), hash(b)
			switch next(3) {
			case 0:
				pay = append(pay, []any{id[:], a, ha[:], b, hb[:]})
			case 1:
				pay = append(pay, []any{id[:], a, ha[:], nil, nil})
			case 2:
				pay = append(pay, []any{id[:], nil, nil, b, hb[:]})
			}
		}
	}
	d.bulkInsert("domains", "domain_id,domain_name", doms)
	d.bulkInsert("domain_certs", "domain_id,cert_id", dc)
	d.bulkInsert("domain_policies", "domain_id,policy_id", dp)
	d.bulkInsert("dirty", "domain_id,coalesced", dirty)
	d.bulkInsert("domain_payloads", "domain_id,cert_ids,cert_ids_id,policy_ids,policy_ids_id", pay)
	desc = fmt.Sprintf("%d certificates, %d policies, %d domains (one partition: %v), %d+%d links, %d changed domains (%d pending), %d entries, loops: %v",
		nc, np, nd, onePart, len(dc), len(dp), len(dirty), pending, len(pay), loops)
	return desc, many > 0 && pending > 0 && pending < nd
}

// TestM02Graph: coalescing any content of the tables gives the entries that follow from the links.
func TestM02Graph(t *testing.T) {
	rec := vlib.New(t, "M02", "some domain has several links, some domains are to be updated and some not")
	d := Open("m02")
	defer d.Drop()
	vlib.Check(t, rec, func(rt *rapid.T) {
		d.Reset()
		size := 40
		if rapid.IntRange(0, 15).Draw(rt, "large") == 0 {
			size = 3000 // the work of a partition is split in chunks of 1024
		}
		desc, nt := genGraph(rt, d, size)
		before := d.snap()
		if err := coalesce(d); err != nil {
			rt.Fatalf("%s: coalescing failed: %v", desc, err)
		}
		after := d.snap()
		if e := afterCoalesce(before, after); e != "" {
			rt.Fatalf("%s: %s", desc, e)
		}
		// There is nothing left to do.
		if err := coalesce(d); err != nil {
			rt.Fatalf("%s: coalescing again failed: %v", desc, err)
		}
		if again := d.snap(); !reflect.DeepEqual(after, again) {
			rt.Fatalf("%s: coalescing again changed something", desc)
		}
		cl := "small"
		if size > 40 {
			cl = "large"
		}
		rec.Case(desc, nt, func() any { return desc }, cl)
	})
}

// wantEntry is the entry of a domain according to the material given, if every certificate always came with
// the same issuer.
func (m *model) wantEntry(n string) (cs, ps []byte) {
	rows := map[ID]certRow{}
	for id := range m.certs {
		r := certRow{}
		if p := m.first[id]; p != (ID{}) {
			r.parent = &p
		}
		rows[id] = r
	}
	return glued(closure(m.links[n], rows)), glued(m.plinks[n])
}

// TestM02History: after any sequence of insertions, pruning and coalescing, the entries agree with the
// material given.
func TestM02History(t *testing.T) {
	rec := vlib.New(t, "M02", "a domain with an entry is updated again and another one stays as it is")
	d := Open("m02h")
	defer d.Drop()
	soon := time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC)
	vlib.Check(t, rec, func(rt *rapid.T) {
		d.Reset()
		varied := rapid.IntRange(0, 2).Draw(rt, "varied issuers") == 0
		w := genWorld(rt, worldOpts{varied: varied, loops: varied, policies: true, maxItems: 8, expiries: []time.Time{farFuture, farFuture, farFuture, soon}})
		m := newModel()
		steps := []string{fmt.Sprintf("names %q", w.names)}
		exact := !varied // whether the model tells the entries
		again := false
		for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "rounds"); i < n; i++ {
			for j, k := 0, rapid.IntRange(0, 2).Draw(rt, "insertions"); j < k; j++ {
				way := rapid.SampledFrom(ways).Draw(rt, "way")
				c := rapid.IntRange(1, len(w.items)).Draw(rt, "items")
				items := rapid.Permutation(w.items).Draw(rt, "which")[:c]
				var pols []*polDoc
				if (way == "keep" || way == "overwrite") && len(w.pols) > 0 {
					pols = rapid.Permutation(w.pols).Draw(rt, "policies")[:rapid.IntRange(0, len(w.pols)).Draw(rt, "number of policies")]
				}
				s := way + ":"
				for _, it := range items {
					s += " " + it.String()
				}
				for _, p := range pols {
					s += " " + string(p.raw)
				}
				steps = append(steps, s)
				if err := insert(rt, way, d, items, pols); err != nil {
					rt.Fatalf("inserting failed: %v\n%s", err, strings.Join(steps, "\n"))
				}
				exact = exact && way != "manager" // (known finding one-link-per-name)
				m.add(items, pols)
			}
			if rapid.IntRange(0, 5).Draw(rt, "prune") == 0 {
				steps = append(steps, "prune")
				if err := d.PruneCerts(ctx, soon.Add(time.Hour)); err != nil {
					rt.Fatalf("pruning failed: %v\n%s", err, strings.Join(steps, "\n"))
				}
				exact = false
			}
			steps = append(steps, "coalesce")
			before := d.snap()
			if err := coalesce(d); err != nil {
				rt.Fatalf("coalescing failed: %v\n%s", err, strings.Join(steps, "\n"))
			}
			after := d.snap()
			if e := afterCoalesce(before, after); e != "" {
				rt.Fatalf("%s\n%s", e, strings.Join(steps, "\n"))
			}
			if e := after.compareEntries(nil, nil); e != "" { // also the ones of no change
				rt.Fatalf("%s\n%s", e, strings.Join(steps, "\n"))
			}
			if exact {
				for _, n := range w.names {
					cs, ps := m.wantEntry(n)
					if p := after.payloads[hash([]byte(n))]; !bytes.Equal(p.certs, cs) || !bytes.Equal(p.pols, ps) {
						rt.Fatalf("the entry of %q lists %s and %s instead of %s and %s\n%s", n, idList(p.certs), idList(p.pols), idList(cs), idList(ps), strings.Join(steps, "\n"))
					}
				}
			}
			up, same := false, false
			for x := range before.payloads {
				c, ok := before.dirty[x]
				up, same = up || ok && !c, same || !ok || c
			}
			again = again || up && same
			if rapid.Bool().Draw(rt, "cleanup") {
				steps = append(steps, "cleanup")
				if err := d.CleanupDirty(ctx); err != nil {
					rt.Fatalf("CleanupDirty: %v", err)
				}
			}
		}
		cl := []string{"issuers vary"}
		if exact {
			cl = []string{"entries known from the input"}
		}
		rec.Case(strings.Join(steps, "\n"), again, func() any { return steps }, cl...)
	})
}
