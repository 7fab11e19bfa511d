package pipe

import (
	"fmt"
	"testing"
	"time"

	"pgregory.net/rapid"

	pip "github.com/netsec-ethz/fpki/pkg/pipeline"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

const tooLong = 60 * time.Second

// TestP01Deliver runs generated pipelines and compares what reaches their stages with a simulation.
func TestP01Deliver(t *testing.T) {
	rec := vlib.New(t, "P01", "a pipeline of more than a source and a sink that carries items")
	ignoreOld()
	vlib.Check(t, rec, func(t *rapid.T) {
		n := genNet(t, "", genOpts{})
		p, err := pip.NewPipeline(func(*pip.Pipeline) { n.link(everything) }, pip.WithStages(n.likes()...))
		if err != nil {
			t.Fatalf("NewPipeline: %v", err)
		}
		runs := rapid.IntRange(1, 3).Draw(t, "runs")
		for r := 0; r < runs; r++ {
			roots := n.genRoots(t, fmt.Sprintf("run%d", r))
			exp, total := n.simulate(roots, once)
			n.reset(roots)
			n.startFeed()
			vlib.Within("P01", n.String(), tooLong, func() {
				p.Resume(bg)
				err = p.Wait(bg)
			})
			n.endFeed()
			if err != nil {
				t.Fatalf("%s: error without reason: %v", n, err)
			}
			if d := n.compare(exp); d != "" {
				t.Fatalf("%s: run %d: %s", n, r, d)
			}
			n.checkEnds(t, once)
			if l := leftovers(); l != "" {
				t.Fatalf("%s: %s", n, l)
			}
			rec.Case(fmt.Sprint(n, n.salt, roots), len(n.groups) > 2 && total > 5,
				func() any { return fmt.Sprintf("%s with %d values, %d deliveries", n, len(roots), total) },
				n.classes(r)...)
		}
	})
}

func (n *net) checkEnds(t *rapid.T, times func(g *group) int) {
	for _, m := range n.stages {
		if m.g.id != 0 && m.ends != times(m.g) {
			t.Fatalf("%s: stage %d was told %d times that there is no more data, want %d", n, m.num, m.ends, times(m.g))
		}
	}
}

func (n *net) classes(run int) []string {
	var cs []string
	add := func(b bool, c string) {
		if b {
			cs = append(cs, c)
		}
	}
	var shared, multi, diamond, strm, cyc, sinks int
	for _, g := range n.groups {
		if g.sharedIn && g.size > 1 {
			shared++
		}
		if g.nIn > 1 {
			diamond++
		}
		if g.nOut() > 1 {
			multi++
		}
		if g.stream {
			strm++
		}
		if g.mode == modeCycles {
			cyc++
		}
		if g.sink {
			sinks++
		}
	}
	add(shared > 0, "shared channels")
	add(multi > 0, "several outputs")
	add(diamond > 0, "several inputs")
	add(strm > 0, "streaming")
	add(cyc > 0, "cycles allowed")
	add(sinks > 1, "several sinks")
	add(run > 0, "resumed again")
	return append(cs, []string{"source function", "source channel", "source slice"}[n.srcKind])
}

// joint is two nets joined into one pipeline: what reaches the sink of the first feeds the second.
type joint struct{ a, b *net }

func genJoint(t *rapid.T) (*joint, *pip.Pipeline) {
	a := genNet(t, "a", genOpts{oneSink: true, maxGroups: 5})
	b := genNet(t, "b", genOpts{chanSrc: true, maxGroups: 5, base: 100})
	pa, err := pip.NewPipeline(func(*pip.Pipeline) { a.link(everything) }, pip.WithStages(a.likes()...))
	if err != nil {
		t.Fatal(err)
	}
	pb, err := pip.NewPipeline(func(*pip.Pipeline) { b.link(everything) }, pip.WithStages(b.likes()...))
	if err != nil {
		t.Fatal(err)
	}
	p, err := pip.JoinTwoPipelines[item](pa, pb)
	if err != nil {
		t.Fatalf("JoinTwoPipelines: %v", err)
	}
	return &joint{a, b}, p
}

func (j *joint) expect(roots []uint64) (ea, eb []map[uint64]int) {
	ea, _ = j.a.simulate(roots, once)
	var vals []uint64
	for h, c := range ea[len(ea)-1] {
		for ; c > 0; c-- {
			vals = append(vals, h)
		}
	}
	eb, _ = j.b.simulate(vals, once)
	return
}

func (j *joint) genRoots(t *rapid.T, label string) []uint64 {
	roots := j.a.genRoots(t, label)
	for len(roots) > 1 {
		_, eb := j.expect(roots)
		total := 0
		for _, m := range eb {
			for _, c := range m {
				total += c
			}
		}
		if total <= 2000 {
			break
		}
		roots = roots[:len(roots)/2]
	}
	return roots
}

// TestP01Join does the same with pairs of joined pipelines.
func TestP01Join(t *testing.T) {
	rec := vlib.New(t, "P01", "joined pipelines where items reach the second one")
	ignoreOld()
	vlib.Check(t, rec, func(t *rapid.T) {
		j, p := genJoint(t)
		runs := rapid.IntRange(1, 2).Draw(t, "runs")
		for r := 0; r < runs; r++ {
			roots := j.genRoots(t, fmt.Sprintf("run%d", r))
			ea, eb := j.expect(roots)
			j.a.reset(roots)
			j.b.reset(nil)
			j.a.startFeed()
			var err error
			vlib.Within("P01", fmt.Sprint(j.a, " JOIN ", j.b), tooLong, func() {
				p.Resume(bg)
				err = p.Wait(bg)
			})
			j.a.endFeed()
			if err != nil {
				t.Fatalf("%s JOIN %s: error without reason: %v", j.a, j.b, err)
			}
			if d := j.a.compare(ea); d != "" {
				t.Fatalf("%s JOIN %s: first: %s", j.a, j.b, d)
			}
			if d := j.b.compare(eb); d != "" {
				t.Fatalf("%s JOIN %s: second: %s", j.a, j.b, d)
			}
			j.a.checkEnds(t, once)
			j.b.checkEnds(t, once)
			if l := leftovers(); l != "" {
				t.Fatalf("%s JOIN %s: %s", j.a, j.b, l)
			}
			rec.Case(fmt.Sprint(j.a, j.b, roots), len(eb[0]) > 0,
				func() any { return fmt.Sprintf("%s JOIN %s with %d values", j.a, j.b, len(roots)) },
				append(j.b.classes(r), "joined")...)
		}
	})
}

// TestP01Sequential checks the order in which a stage reads its channels if told to read them in turn.
func TestP01Sequential(t *testing.T) {
	rec := vlib.New(t, "P01", "at least two channels of different length")
	ignoreOld()
	vlib.Check(t, rec, func(t *rapid.T) {
		lens := rapid.SliceOfN(rapid.IntRange(0, 6), 1, 6).Draw(t, "lens")
		yields := rapid.Uint64().Draw(t, "yields")
		// In turn, starting with 0 and skipping the closed ones.
		var want [][2]int
		for k := 0; k < 6; k++ {
			for c, l := range lens {
				if k < l {
					want = append(want, [2]int{c, k})
				}
			}
		}
		var got [][2]int
		st := pip.NewStage[[2]int, int]("s",
			pip.WithMultiInputChannels[[2]int, int](len(lens)),
			pip.WithSequentialInputs[[2]int, int](),
			pip.WithProcessFunction[[2]int, int](func(in [2]int) ([]int, []int, error) {
				got = append(got, in)
				return nil, nil, nil
			}),
		)
		st.Prepare(bg)
		next := make(chan error)
		close(next)
		end := make(chan error)
		st.NextErrChs[0] = end
		st.OutgoingChs[0] = make(chan int)
		go func() {
			for range st.OutgoingChs[0] {
			}
			close(end)
		}()
		st.Resume(bg)
		for c, l := range lens {
			go func(ch chan [2]int) {
				for k := 0; k < l; k++ {
					if mix(yields, uint64(c), uint64(k))%9 == 0 {
						time.Sleep(50 * time.Microsecond)
					}
					ch <- [2]int{c, k}
				}
				close(ch)
			}(st.IncomingChs[c])
		}
		vlib.Within("P01", fmt.Sprint("sequential inputs ", lens), tooLong, func() {
			if err, ok := <-st.ErrCh; ok {
				t.Fatalf("error without reason: %v", err)
			}
		})
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Fatalf("channels of lengths %v were read as %v, want %v", lens, got, want)
		}
		differ := false
		for _, l := range lens {
			differ = differ || l != lens[0]
		}
		rec.Case(fmt.Sprint(lens), differ, func() any { return lens }, "sequential inputs")
	})
}
