package mdb

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

func genFault(t *rapid.T, op string) fault {
	f := fault{Kind: rapid.SampledFrom([]string{"before", "after", "after", "inside", "inside", "rows", "badconn"}).Draw(t, "fault")}
	// How many statements the operations have, about.
	n := map[string]int{"keep": 12, "overwrite": 8, "local": 10, "fetch": 12, "manager": 16, "coalesce": 130, "smt": 110, "cleanup": 1, "prune": 1, "cycle": 240}[op]
	if f.Writes = f.Kind == "inside" || f.Kind != "rows" && rapid.IntRange(0, 2).Draw(t, "writes") > 0; f.Writes {
		n = map[string]int{"keep": 8, "overwrite": 8, "local": 4, "fetch": 4, "manager": 16, "coalesce": 8, "smt": 6, "cleanup": 1, "prune": 1, "cycle": 12}[op]
	} else if rapid.Bool().Draw(t, "early") {
		n = min(n, 6)
	}
	f.At = rapid.IntRange(1, n).Draw(t, "statement")
	f.Row = rapid.SampledFrom([]int{1, 1, 2, 2, 3, 5, 8, 13}).Draw(t, "row")
	f.Stays = rapid.IntRange(0, 2).Draw(t, "stays") == 0
	return f
}

// TestM07Faults: failures of the database during insertions and cycles are reported, and repeating what
// failed leads to where it would have led without them.
func TestM07Faults(t *testing.T) {
	rec := vlib.New(t, "M07", "a fault happens after the first statement of an operation, or in the middle of a statement")
	d := Open("m07")
	defer d.Drop()
	d.failingRows()
	fc := d.faulty()
	defer fc.Close()
	soon := time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)
	vlib.Check(t, rec, func(rt *rapid.T) {
		d.Reset()
		w := genWorld(rt, worldOpts{varied: rapid.Bool().Draw(rt, "varied issuers"), policies: true, maxItems: 8, expiries: []time.Time{farFuture, farFuture, soon}})
		m := newModel()
		steps := []string{fmt.Sprintf("names %q", w.names)}
		bad := func(f string, a ...any) { rt.Fatalf("%s\n%s", fmt.Sprintf(f, a...), strings.Join(steps, "\n")) }
		classes := map[string]bool{}
		midway, managed, pruned := false, false, false
		roots := []*snap{d.snap()} // the states of the tree that may be stored
		stored := func() {
			s := d.snap()
			var e string
			for _, r := range append(roots, s) {
				x := *s
				x.payloads = r.payloads
				if string(refRoot(x.values())) == string(s.root) {
					if e = readable(d, &x); e == "" {
						return
					}
				}
			}
			if e == "" {
				e = fmt.Sprintf("the stored root %x belongs to no entries there were", s.root)
			}
			bad("after a failure: %s", e)
		}
		// run executes the operation, with faults until they are over.
		run := func(op, what string, f func(conn db.Conn) error) {
			for try := 0; ; try++ {
				if try == 3 || rapid.IntRange(0, 3).Draw(rt, "undisturbed") == 0 {
					steps = append(steps, op+" "+what)
					var conn db.Conn = d
					if rapid.Bool().Draw(rt, "same process") {
						conn = fc
					}
					if err := f(conn); err != nil {
						bad("%s failed without a fault: %v", op, err)
					}
					return
				}
				x := genFault(rt, op)
				fc.arm(x)
				var err error
				vlib.Within("M07", fmt.Sprintf("%s with the fault %v\n%s", op, x, strings.Join(steps, "\n")), time.Minute, func() { err = f(fc) })
				fired, where := fc.disarm()
				switch {
				case fired && x.Kind != "badconn" && err == nil:
					bad("%s %s reports success although a statement failed: %v: %s", op, what, x, where)
				case !fired && err != nil:
					bad("%s %s failed without a fault: %v", op, what, err)
				}
				if !fired {
					steps = append(steps, fmt.Sprintf("%s %s", op, what))
					return
				}
				steps = append(steps, fmt.Sprintf("%s %s, fault: %v: %s", op, what, x, where))
				classes[op+" disturbed"], classes[x.Kind] = true, true
				if x.Stays {
					classes["process ends"] = true
				}
				midway = midway || x.At > 1 || x.Kind == "inside"
				stored()
				if err == nil { // the connection was replaced
					return
				}
			}
		}
		for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "rounds"); i < n; i++ {
			for j, k := 0, rapid.IntRange(1, 2).Draw(rt, "insertions"); j < k; j++ {
				way := rapid.SampledFrom(ways).Draw(rt, "way")
				items := rapid.Permutation(w.items).Draw(rt, "which")[:rapid.IntRange(0, len(w.items)).Draw(rt, "items")]
				var pols []*polDoc
				if way == "keep" || way == "overwrite" {
					pols = w.pols[:rapid.IntRange(0, len(w.pols)).Draw(rt, "policies")]
				}
				if way == "manager" && len(items) == 0 {
					way = "local"
				}
				managed = managed || way == "manager"
				var s []string
				for _, it := range items {
					s = append(s, it.String())
				}
				for _, p := range pols {
					s = append(s, string(p.raw))
				}
				run(way, strings.Join(s, " "), func(conn db.Conn) error { return insert(rt, way, conn, items, pols) })
				m.add(items, pols)
				var many func(string) bool
				if managed {
					many = func(string) bool { return true } // known: see M01
				}
				if !pruned {
					if e := m.compareMaterial(d.snap(), many); e != "" {
						bad("%s", e)
					}
				}
			}
			if rapid.IntRange(0, 2).Draw(rt, "prune") == 0 {
				pruned = true
				before := d.snap()
				run("prune", "", func(conn db.Conn) error { return conn.PruneCerts(ctx, soon.Add(time.Second)) })
				if _, e := afterPrune(before, d.snap(), func(id ID) bool { return m.certs[id].NotAfter.Equal(soon) }, func(id ID) string { return label(m.certs[id]) }); e != "" {
					bad("after pruning: %s", e)
				}
			}
			size := rapid.SampledFrom([]uint64{1, 2, 5, 1 << 20}).Draw(rt, "bundle")
			whole := rapid.Bool().Draw(rt, "whole cycle")
			if whole {
				run("cycle", fmt.Sprintf("with bundles of %d", size), func(conn db.Conn) error { return cycle(&bundles{conn, size}, true) })
				m.cleaned()
			} else {
				run("coalesce", "", func(conn db.Conn) error {
					defer quiet()()
					return updater.CoalescePayloadsForDirtyDomains(ctx, conn)
				})
				run("smt", fmt.Sprintf("with bundles of %d", size), func(conn db.Conn) error {
					defer quiet()()
					return updater.UpdateSMT(ctx, &bundles{conn, size})
				})
				if rapid.IntRange(0, 3).Draw(rt, "cleanup") > 0 {
					run("cleanup", "", func(conn db.Conn) error { return conn.CleanupDirty(ctx) })
					m.cleaned()
				}
			}
			s := d.snap()
			if e := afterCycle(s); e != "" {
				bad("after the cycle: %s", e)
			}
			if e := readable(d, s); e != "" {
				bad("after the cycle: %s", e)
			}
			if !bytes.Equal(s.root, roots[len(roots)-1].root) {
				roots = []*snap{s}
			}
		}
		var cl []string
		for c := range classes {
			cl = append(cl, c)
		}
		rec.Case(strings.Join(steps, "\n"), midway, func() any { return steps }, cl...)
	})
}
