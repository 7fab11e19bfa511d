package pipe

import (
	"errors"
	"fmt"
	"testing"
	"time"

	"pgregory.net/rapid"

	pip "github.com/netsec-ethz/fpki/pkg/pipeline"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// genInjections draws the moments at which stages fail.
func (n *net) genInjections(t *rapid.T, label string, max int) []*injection {
	var res []*injection
	for k := rapid.IntRange(1, max).Draw(t, label+"errors"); k > 0; k-- {
		m := n.stages[rapid.IntRange(0, len(n.stages)-1).Draw(t, label+"at")]
		kind := rapid.SampledFrom([]string{"process", "process", "process", "end", "stream"}).Draw(t, label+"kind")
		if m.g.id == 0 && kind == "end" || kind == "stream" && !m.g.stream {
			kind = "process"
		}
		nth := 1
		if kind != "end" {
			nth = rapid.SampledFrom([]int{1, 1, 2, 3, 5, 9, 20}).Draw(t, label+"nth")
		}
		i := &injection{injKey: injKey{m.num, kind, nth}, withO: rapid.Bool().Draw(t, label+"out")}
		i.err = fmt.Errorf("failure of stage %d: %s %d", m.num, kind, nth)
		if rapid.IntRange(0, 4).Draw(t, label+"wrap") == 0 {
			i.err = fmt.Errorf("outer: %w", i.err)
		}
		res = append(res, i)
	}
	return res
}

func (n *net) arm(is []*injection) {
	n.inject = map[injKey]*injection{}
	for _, i := range is {
		n.inject[i.injKey] = i
	}
}

func describe(is []*injection) string {
	s := ""
	for _, i := range is {
		s += fmt.Sprintf("[stage %d %s %d]", i.num, i.kind, i.nth)
	}
	return s
}

// subset tells whether something was processed that should not be.
func (n *net) subset(exp []map[uint64]int) string {
	n.mu.Lock()
	defer n.mu.Unlock()
	if len(n.problems) > 0 {
		return n.problems[0]
	}
	for g := range exp {
		for h, c := range n.got[g] {
			if c > exp[g][h] {
				return fmt.Sprintf("group %d processed a value %d times that it should get %d times", g, c, exp[g][h])
			}
		}
	}
	return ""
}

// TestP02Errors lets stages fail at generated moments.
func TestP02Errors(t *testing.T) {
	rec := vlib.New(t, "P02", "a failure happened in a stage")
	vlib.Check(t, rec, func(t *rapid.T) {
		n := genNet(t, "", genOpts{})
		p, err := pip.NewPipeline(func(*pip.Pipeline) { n.link(everything) }, pip.WithStages(n.likes()...))
		if err != nil {
			t.Fatalf("NewPipeline: %v", err)
		}
		runs := rapid.IntRange(1, 3).Draw(t, "runs")
		for r := 0; r < runs; r++ {
			l := fmt.Sprintf("run%d", r)
			roots := n.genRoots(t, l)
			exp, _ := n.simulate(roots, once)
			n.reset(roots)
			var is []*injection
			if r == 0 || rapid.IntRange(0, 2).Draw(t, l+"fails") > 0 {
				is = n.genInjections(t, l, 3)
				n.infinite = n.srcKind != srcSlice && rapid.IntRange(0, 3).Draw(t, l+"infinite") == 0
			}
			n.arm(is)
			n.startFeed()
			what := fmt.Sprintf("%s run %d %s infinite=%v", n, r, describe(is), n.infinite)
			vlib.Within("P02", what, tooLong, func() {
				p.Resume(bg)
				err = p.Wait(bg)
			})
			calls, busy := n.totalCall.Load(), n.busyTotal.Load()
			n.endFeed()
			infinite := n.infinite
			n.checkError(t, what, err)
			if busy != 0 {
				t.Fatalf("%s: a stage is still processing after the pipeline ended", what)
			}
			if r%2 == 0 {
				time.Sleep(300 * time.Microsecond)
			}
			if c := n.totalCall.Load(); c != calls {
				t.Fatalf("%s: stages go on processing after the pipeline ended", what)
			}
			if !infinite {
				d := ""
				if len(n.triggered) == 0 {
					d = n.compare(exp)
				} else {
					d = n.subset(exp)
				}
				if d != "" {
					t.Fatalf("%s: %s", what, d)
				}
			}
			cs := n.classes(r)
			for _, i := range n.triggered {
				cs = append(cs, "failure in "+i.kind)
			}
			if len(n.triggered) > 1 {
				cs = append(cs, "several failures")
			}
			if infinite {
				cs = append(cs, "infinite source")
			}
			rec.Case(what+fmt.Sprint(n.salt), len(n.triggered) > 0, func() any { return what }, cs...)
		}
	})
}

func (n *net) checkError(t *rapid.T, what string, err error) {
	if len(n.triggered) == 0 {
		if err != nil {
			t.Fatalf("%s: error without reason: %v", what, err)
		}
		return
	}
	for _, i := range n.triggered {
		if !errors.Is(err, i.err) {
			t.Fatalf("%s: the error %q is not in the result %q", what, i.err, fmt.Sprint(err))
		}
	}
}

// TestP02Join does it in joined pipelines.
func TestP02Join(t *testing.T) {
	rec := vlib.New(t, "P02", "a failure happened in a stage of joined pipelines")
	vlib.Check(t, rec, func(t *rapid.T) {
		j, p := genJoint(t)
		runs := rapid.IntRange(1, 2).Draw(t, "runs")
		for r := 0; r < runs; r++ {
			l := fmt.Sprintf("run%d", r)
			roots := j.genRoots(t, l)
			ea, eb := j.expect(roots)
			j.a.reset(roots)
			j.b.reset(nil)
			ia, ib := j.a.genInjections(t, l+"a", 2), j.b.genInjections(t, l+"b", 2)
			switch rapid.IntRange(0, 2).Draw(t, l+"where") {
			case 0:
				ia = nil
			case 1:
				ib = nil
			}
			j.a.arm(ia)
			j.b.arm(ib)
			what := fmt.Sprintf("%s %s JOIN %s %s run %d", j.a, describe(ia), j.b, describe(ib), r)
			j.a.startFeed()
			var err error
			vlib.Within("P02", what, tooLong, func() {
				p.Resume(bg)
				err = p.Wait(bg)
			})
			j.a.endFeed()
			trig := append(append([]*injection{}, j.a.triggered...), j.b.triggered...)
			if len(trig) == 0 {
				if err != nil {
					t.Fatalf("%s: error without reason: %v", what, err)
				}
				if d := j.a.compare(ea); d != "" {
					t.Fatalf("%s: first: %s", what, d)
				}
				if d := j.b.compare(eb); d != "" {
					t.Fatalf("%s: second: %s", what, d)
				}
			}
			for _, i := range trig {
				if !errors.Is(err, i.err) {
					t.Fatalf("%s: the error %q is not in the result %q", what, i.err, fmt.Sprint(err))
				}
			}
			if j.a.busyTotal.Load()+j.b.busyTotal.Load() != 0 {
				t.Fatalf("%s: a stage is still processing after the pipeline ended", what)
			}
			if d := j.a.subset(ea); d != "" {
				t.Fatalf("%s: first: %s", what, d)
			}
			if d := j.b.subset(eb); d != "" {
				t.Fatalf("%s: second: %s", what, d)
			}
			rec.Case(what, len(trig) > 0, func() any { return what }, "joined",
				fmt.Sprintf("failed in first: %v, in second: %v", len(j.a.triggered) > 0, len(j.b.triggered) > 0))
		}
	})
}

// TestP02Resume lets stages fail in pipelines with a stage that stops and is resumed automatically.
func TestP02Resume(t *testing.T) {
	rec := vlib.New(t, "P02", "a failure happened in a pipeline with automatic resumption")
	vlib.Check(t, rec, func(t *rapid.T) {
		n, at := genCut(t)
		p, bundled := n.withResume(t, at)
		runs := rapid.IntRange(1, 2).Draw(t, "runs")
		for r := 0; r < runs; r++ {
			l := fmt.Sprintf("run%d", r)
			roots := n.genRoots(t, l)
			exp, _, _ := n.bundles(roots)
			n.reset(roots)
			is := n.genInjections(t, l, 2)
			n.arm(is)
			n.startFeed()
			what := fmt.Sprintf("%s, group %d stops every %d, run %d %s", n, at, n.bundle, r, describe(is))
			var err error
			vlib.Within("P02", what, tooLong, func() {
				p.Resume(bg)
				err = p.Wait(bg)
			})
			n.endFeed()
			n.checkError(t, what, err)
			if b := n.busyTotal.Load(); b != 0 {
				t.Fatalf("%s: a stage is still processing after the pipeline ended", what)
			}
			d := ""
			if len(n.triggered) == 0 {
				d = n.compare(exp)
			} else {
				d = n.subset(exp)
			}
			if d != "" {
				t.Fatalf("%s: %s", what, d)
			}
			rec.Case(what+fmt.Sprint(n.salt), len(n.triggered) > 0, func() any { return what },
				"auto resume", fmt.Sprintf("resumed before: %v", *bundled > 0))
		}
	})
}
