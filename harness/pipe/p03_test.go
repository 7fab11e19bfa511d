package pipe

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	pip "github.com/netsec-ethz/fpki/pkg/pipeline"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// TestP03Stall pauses the stages of generated pipelines at generated moments.
func TestP03Stall(t *testing.T) {
	rec := vlib.New(t, "P03", "the pipeline was paused at least once while it carried items")
	ignoreOld()
	vlib.Check(t, rec, func(t *rapid.T) {
		n := genNet(t, "", genOpts{maxGroups: 7})
		likes := n.likes()
		pick := func(label string, always bool) []pip.StageLike {
			var res []pip.StageLike
			how := rapid.IntRange(0, 2).Draw(t, label+"how") // few, half, all
			for i := range likes {
				if how == 2 || rapid.IntRange(0, 3).Draw(t, label) <= how {
					res = append(res, likes[i])
				}
			}
			if len(res) == 0 && always {
				res = append(res, likes[rapid.IntRange(0, len(likes)-1).Draw(t, label+"one")])
			}
			return res
		}
		nums := map[pip.StageLike]*member{}
		for i, m := range n.stages {
			nums[likes[i]] = m
		}
		stalled, evalAt := pick("stall", true), pick("eval", true)
		isStalled := map[*member]bool{}
		for _, s := range stalled {
			isStalled[nums[s]] = true
		}
		// Evaluations number i at which to pause.
		seed := rapid.Uint64().Draw(t, "moments")
		every := rapid.SampledFrom([]uint64{1, 2, 3, 7, 20}).Draw(t, "every")
		var mu sync.Mutex // of evals: evaluations are said to be concurrent
		evals := 0
		var requested, done, paused atomic.Int64
		var inWhen atomic.Int32
		expectBad := func(m *member, when string) {
			if isStalled[m] && inWhen.Load() != 0 {
				n.problem("stage %d is inside its function (%s) while the pipeline is paused", m.num, when)
			}
		}
		n.onEnter = func(m *member) { expectBad(m, "entering") }
		n.onLeave = func(m *member) { expectBad(m, "leaving") }
		for _, g := range n.groups {
			g.stream = false // streaming is not part of the processing that is waited for
		}
		p, err := pip.NewPipeline(func(*pip.Pipeline) { n.link(everything) }, pip.WithStages(likes...),
			pip.WithStallStages(stalled,
				func() {
					if inWhen.Add(1) != 1 {
						n.problem("two pauses at the same time")
					}
					for _, s := range stalled {
						if b := nums[s].busy.Load(); b != 0 {
							n.problem("stage %d is inside its function when the pause begins", nums[s].num)
						}
					}
					k := done.Load()
					if n.busyTotal.Load() > 0 {
						paused.Add(1)
					}
					time.Sleep(time.Duration(mix(seed, uint64(k), 1)%150) * time.Microsecond)
					inWhen.Add(-1)
					done.Add(1)
				},
				func(s pip.StageLike) bool {
					if nums[s] == nil {
						n.problem("the pause is evaluated for an unknown stage")
					}
					mu.Lock()
					defer mu.Unlock()
					evals++
					if mix(seed, uint64(evals))%every == 0 && requested.Load() < 60 {
						requested.Add(1)
						return true
					}
					return false
				},
				evalAt))
		if err != nil {
			t.Fatalf("NewPipeline: %v", err)
		}
		runs := rapid.IntRange(1, 2).Draw(t, "runs")
		for r := 0; r < runs; r++ {
			roots := n.genRoots(t, fmt.Sprintf("run%d", r))
			exp, total := n.simulate(roots, once)
			n.reset(roots)
			requested.Store(0)
			done.Store(0)
			n.startFeed()
			what := fmt.Sprintf("%s, %d stages to pause, evaluated at %d", n, len(stalled), len(evalAt))
			vlib.Within("P03", what, tooLong, func() {
				p.Resume(bg)
				err = p.Wait(bg)
			})
			n.endFeed()
			if err != nil {
				t.Fatalf("%s: error without reason: %v", what, err)
			}
			// A pause requested by a stage that is not among the paused ones may outlast the pipeline.
			for end := time.Now().Add(20 * time.Second); done.Load() != requested.Load(); {
				if time.Now().After(end) {
					t.Fatalf("%s: %d pauses were requested, %d took place", what, requested.Load(), done.Load())
				}
				time.Sleep(50 * time.Microsecond)
			}
			if d := n.compare(exp); d != "" {
				t.Fatalf("%s: %d pauses: %s", what, done.Load(), d)
			}
			n.checkEnds(t, once)
			if l := leftovers(); l != "" {
				t.Fatalf("%s: %s", what, l)
			}
			rec.Case(fmt.Sprint(what, n.salt, seed, roots), total > 3 && done.Load() > 0,
				func() any { return fmt.Sprintf("%s: %d pauses, %d deliveries", what, done.Load(), total) },
				append(n.classes(r), fmt.Sprintf("pauses<=%d", 1<<bits(uint(done.Load()))))...)
		}
	})
}

func bits(x uint) (n int) {
	for ; 1<<n < x; n++ {
	}
	return
}

// genCut generates a net with one group through which everything after it passes: the target.
func genCut(t *rapid.T) (*net, int) {
	// A first part with one sink, which becomes the target, followed by a second part.
	a := genNet(t, "a", genOpts{oneSink: true, maxGroups: 5})
	b := genNet(t, "b", genOpts{maxGroups: 5})
	switch rapid.IntRange(0, 4).Draw(t, "target") {
	case 0: // the source
		b.srcKind = srcFunc
		return b.rebuilt(), 0
	case 1: // the sink
		return a, len(a.groups) - 1
	}
	// Replace the sink of a by the root of b.
	tgt := a.groups[len(a.groups)-1]
	off := tgt.id
	for _, g := range b.groups {
		if g.sharedOut >= 0 {
			g.sharedOut += off
		}
		for i := range g.prevs {
			g.prevs[i] += off
		}
		for _, ls := range g.outs {
			for i := range ls {
				ls[i].to += off
			}
		}
	}
	first := b.groups[0]
	tgt.sink = false
	tgt.outs, tgt.sharedOut = first.outs, first.sharedOut
	for _, g := range b.groups[1:] {
		g.id += off
		g.depth += off
		a.groups = append(a.groups, g)
	}
	return a.rebuilt(), off
}

func (n *net) rebuilt() *net {
	n.stages = nil
	for _, g := range n.groups {
		g.stages = nil
	}
	n.build()
	return n
}

// TestP03Resume stops a stage in bundles with the automatic resumption.
func TestP03Resume(t *testing.T) {
	rec := vlib.New(t, "P03", "the target stopped at least once and was resumed")
	ignoreOld()
	vlib.Check(t, rec, func(t *rapid.T) {
		n, at := genCut(t)
		p, resumes := n.withResume(t, at)
		target := n.groups[at]
		runs := rapid.IntRange(1, 2).Draw(t, "runs")
		for r := 0; r < runs; r++ {
			roots := n.genRoots(t, fmt.Sprintf("run%d", r))
			exp, stops, total := n.bundles(roots)
			n.reset(roots)
			*resumes = 0
			var err error
			n.startFeed()
			what := fmt.Sprintf("%s, group %d stops every %d", n, at, n.bundle)
			vlib.Within("P03", what, tooLong, func() {
				p.Resume(bg)
				err = p.Wait(bg)
			})
			n.endFeed()
			if err != nil {
				t.Fatalf("%s: error without reason: %v", what, err)
			}
			if *resumes != stops {
				t.Fatalf("%s: resumed %d times, want %d", what, *resumes, stops)
			}
			if d := n.compare(exp); d != "" {
				t.Fatalf("%s: after %d stops: %s", what, stops, d)
			}
			n.checkEnds(t, func(g *group) int {
				if g.id > at {
					return stops + 1
				}
				return 1
			})
			if l := leftovers(); l != "" {
				t.Fatalf("%s: %s", what, l)
			}
			where := "in the middle"
			if at == 0 {
				where = "at the source"
			} else if target.sink {
				where = "at the sink"
			}
			rec.Case(fmt.Sprint(what, n.salt, roots), stops > 0,
				func() any { return fmt.Sprintf("%s: %d stops, %d deliveries", what, stops, total) },
				append(n.classes(r), where)...)
		}
	})
}

// withResume makes a pipeline of the net whose group at stops every few items and is resumed.
func (n *net) withResume(t *rapid.T, at int) (*pip.Pipeline, *int) {
	n.bundleAt, n.bundle = at, rapid.SampledFrom([]int{1, 2, 3, 5, 10}).Draw(t, "bundle")
	n.groups[at].stream = false
	index, affected := -1, []int{}
	for i, m := range n.stages {
		if m.g.id == at {
			index = i
		} else if m.g.id > at {
			affected = append(affected, i)
		}
	}
	if n.groups[at].size > 1 {
		t.Fatalf("harness: target of size %d", n.groups[at].size)
	}
	for i := range affected { // in any order
		k := rapid.IntRange(0, i).Draw(t, "order")
		affected[i], affected[k] = affected[k], affected[i]
	}
	resumes := 0
	after := func(g *group) bool { return g.id >= at }
	p, err := pip.NewPipeline(func(*pip.Pipeline) { n.link(everything) }, pip.WithStages(n.likes()...),
		pip.WithAutoResumeAtStage(index,
			func() bool {
				if n.inClosed || n.anyTriggered() {
					return false
				}
				resumes++
				return true
			},
			func(*pip.Pipeline) { n.link(after) },
			affected...))
	if err != nil {
		t.Fatalf("NewPipeline: %v", err)
	}
	return p, &resumes
}

// bundles is the simulation for withResume.
func (n *net) bundles(roots []uint64) (exp []map[uint64]int, stops, total int) {
	exp, _ = n.simulate(roots, once)
	items := 0
	for _, c := range exp[n.bundleAt] {
		items += c
	}
	stops = items / n.bundle
	exp, total = n.simulate(roots, func(g *group) int {
		if g.id > n.bundleAt {
			return stops + 1
		}
		return 1
	})
	return exp, stops, total
}
