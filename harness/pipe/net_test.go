package pipe

import (
	"context"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	pip "github.com/netsec-ethz/fpki/pkg/pipeline"
)

// item is what travels through the generated pipelines. H identifies it; the rest describes its last hop.
type item struct {
	H     uint64
	From  int // unique number of the sending stage
	Out   int
	Call  int
	No    int
	Order bool // true if the outputs of one call are ordered
}

func mix(xs ...uint64) uint64 {
	h := uint64(0x9E3779B97F4A7C15)
	for _, x := range xs {
		h ^= x
		h *= 0xff51afd7ed558ccd
		h ^= h >> 33
		h *= 0xc4ceb9fe1a85ec53
		h ^= h >> 29
	}
	return h
}

const (
	modeConcurrent = iota
	modeSequential
	modeCycles
)

const (
	srcFunc = iota
	srcChan
	srcSlice
)

type outLink struct{ to, in int }

// group is a set of stages with equal behaviour. If it has several, they share their only input.
type group struct {
	id, size  int
	sharedIn  bool
	nIn       int
	sharedOut int         // target group, or -1
	prevs     []int       // on the target of a shared link
	outs      [][]outLink // per member, direct links
	sink      bool
	depth     int

	mode    int
	maxOut  int
	stream  bool
	cached  bool
	onEnd   int // outputs when there is no more data
	yields  bool
	explSeq bool // pass the mode option explicitly although it is the default

	stages []*member
}

func (g *group) nOut() int {
	if g.sink {
		return 0
	}
	if g.sharedOut >= 0 {
		return 1
	}
	return len(g.outs[0])
}

// member is one stage of the pipeline.
type member struct {
	net   *net
	g     *group
	num   int // unique
	mid   *pip.Stage[item, item]
	src   *pip.Source[item]
	snk   *pip.Sink[item]
	calls int
	procs int // calls to the process function in this run
	ends  int
	strms int

	pending [][]outp
	endNil  bool
	outsBuf []item
	last    map[[2]int]item

	busy atomic.Int32
}

type outp struct {
	ch int
	h  uint64
}

// net is a generated pipeline.
type net struct {
	groups  []*group
	stages  []*member
	srcKind int
	final   bool // the function source sends its last outputs together with NoMoreData
	salt    uint64
	base    int // first stage number

	// Per run:
	roots     []uint64
	infinite  bool
	nextRoot  int
	values    []item
	feed      chan item
	stopFeed  chan struct{}
	mu        sync.Mutex
	got       []map[uint64]int // per group
	problems  []string
	inject    map[injKey]*injection
	triggered []*injection
	dropAfter int // stop of an infinite source that meets no error

	// Hooks of the stall checks.
	onEnter, onLeave func(m *member)
	// Bundles: the group tells when it wants to stop, and resumes are expected.
	bundleAt  int
	bundle    int
	bundleN   int
	inClosed  bool
	p         *pip.Pipeline
	totalCall atomic.Int64
	busyTotal atomic.Int32
}

type injKey struct {
	num  int
	kind string
	nth  int
}

type injection struct {
	injKey
	err   error
	withO bool // together with outputs
}

func (n *net) problem(f string, args ...any) {
	n.mu.Lock()
	if len(n.problems) < 5 {
		n.problems = append(n.problems, fmt.Sprintf(f, args...))
	}
	n.mu.Unlock()
}

func (n *net) hit(num int, kind string, nth int) *injection {
	if len(n.inject) == 0 {
		return nil
	}
	i := n.inject[injKey{num, kind, nth}]
	if i != nil {
		n.mu.Lock()
		n.triggered = append(n.triggered, i)
		n.mu.Unlock()
	}
	return i
}

func (n *net) anyTriggered() bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	return len(n.triggered) > 0
}

// outputsOf says what a stage of the group makes of h.
func (n *net) outputsOf(g *group, h uint64) []outp {
	nOut := uint64(g.nOut())
	if nOut == 0 {
		return nil
	}
	key := n.salt + uint64(g.id)
	if g.id == 0 {
		switch n.srcKind {
		case srcChan: // the same value to some channels
			c := mix(h, key) % 3
			if c == 0 && nOut > 1 {
				all := make([]outp, nOut)
				for i := range all {
					all[i] = outp{i, h}
				}
				return all
			}
			return []outp{{int(mix(h, key, 1) % nOut), h}}
		case srcSlice:
			return []outp{{int(mix(h, key, 1) % nOut), h}}
		}
	}
	c := int(mix(h, key) % uint64(g.maxOut+1))
	res := make([]outp, c)
	for i := range res {
		res[i] = outp{int(mix(h, key, uint64(i), 3) % nOut), mix(h, key, uint64(i), 7)}
	}
	return res
}

// endOf says what a stage of the group sends when there is no more data.
func (n *net) endOf(g *group) []outp {
	nOut := uint64(g.nOut())
	if nOut == 0 || g.id == 0 {
		return nil
	}
	res := make([]outp, g.onEnd)
	for i := range res {
		h := mix(n.salt, uint64(g.id), uint64(i), 99)
		res[i] = outp{int(h % nOut), h}
	}
	return res
}

func (n *net) target(g *group, ch int) int {
	if g.sharedOut >= 0 {
		return g.sharedOut
	}
	return g.outs[0][ch].to
}

// simulate computes how often each value reaches each group. endsOf says how often the stages of a
// group see the end of their input.
func (n *net) simulate(roots []uint64, endsOf func(g *group) int) ([]map[uint64]int, int) {
	exp := make([]map[uint64]int, len(n.groups))
	for i := range exp {
		exp[i] = map[uint64]int{}
	}
	total := 0
	for _, r := range roots {
		exp[0][r]++
	}
	for _, g := range n.groups {
		for h, c := range exp[g.id] {
			total += c
			for _, o := range n.outputsOf(g, h) {
				exp[n.target(g, o.ch)][o.h] += c
			}
		}
		for _, o := range n.endOf(g) {
			exp[n.target(g, o.ch)][o.h] += g.size * endsOf(g)
		}
	}
	return exp, total
}

func once(*group) int { return 1 }

// ---------------------------------------------------------------- generation

type genOpts struct {
	oneSink   bool
	chanSrc   bool
	maxGroups int
	base      int
	cutAt     bool // leave a group through which everything passes
}

func genNet(t *rapid.T, label string, o genOpts) *net {
	n := &net{salt: rapid.Uint64().Draw(t, label+"salt"), base: o.base, bundleAt: -1}
	if o.maxGroups == 0 {
		o.maxGroups = 9
	}
	n.srcKind = rapid.SampledFrom([]int{srcFunc, srcFunc, srcChan, srcSlice}).Draw(t, label+"source")
	if o.chanSrc {
		n.srcKind = srcChan
	}
	n.final = rapid.Bool().Draw(t, label+"final")
	newGroup := func(size int, depth int) *group {
		g := &group{id: len(n.groups), size: size, sharedOut: -1, depth: depth}
		n.groups = append(n.groups, g)
		return g
	}
	root := newGroup(1, 0)
	queue := []*group{root}
	limit := rapid.IntRange(2, o.maxGroups).Draw(t, label+"groups")
	// link direct output i of all stages of g to h.
	direct := func(g *group, h *group) {
		for m := 0; m < g.size; m++ {
			g.outs[m] = append(g.outs[m], outLink{h.id, h.nIn})
			h.nIn++
		}
	}
	order := []*group{}
	for len(queue) > 0 {
		g := queue[0]
		queue = queue[1:]
		order = append(order, g)
		if g.id != 0 && (len(n.groups) >= limit || rapid.IntRange(0, 9).Draw(t, label+"end") == 0) {
			g.sink = true
			continue
		}
		if rapid.IntRange(0, 9).Draw(t, label+"shared") < 4 {
			nxt := newGroup(rapid.IntRange(1, 3).Draw(t, label+"size"), g.depth+1)
			nxt.sharedIn, nxt.nIn = true, 1
			g.sharedOut = nxt.id
			nxt.prevs = append(nxt.prevs, g.id)
			for k := rapid.IntRange(0, 2).Draw(t, label+"join"); k > 0 && len(queue) > 0 && g.id != 0; k-- {
				h := queue[0]
				queue = queue[1:]
				order = append(order, h)
				h.sharedOut = nxt.id
				nxt.prevs = append(nxt.prevs, h.id)
			}
			queue = append(queue, nxt)
			continue
		}
		g.outs = make([][]outLink, g.size)
		for k := rapid.IntRange(1, 3).Draw(t, label+"outs"); k > 0; k-- {
			var old []*group
			for _, h := range queue {
				if !h.sharedIn {
					old = append(old, h)
				}
			}
			if len(old) > 0 && rapid.IntRange(0, 2).Draw(t, label+"old") > 0 {
				direct(g, old[rapid.IntRange(0, len(old)-1).Draw(t, label+"which")])
				continue
			}
			h := newGroup(1, g.depth+1)
			queue = append(queue, h)
			direct(g, h)
		}
	}
	if o.oneSink {
		var sinks []*group
		for _, g := range n.groups {
			if g.sink {
				sinks = append(sinks, g)
			}
		}
		if len(sinks) > 1 || sinks[0].size > 1 {
			end := newGroup(1, 99)
			end.sink = true
			order = append(order, end)
			for _, g := range sinks {
				g.sink = false
				g.outs = make([][]outLink, g.size)
				direct(g, end)
			}
		}
	}
	// Renumber in processing order, which is topological.
	num := make([]int, len(n.groups))
	for i, g := range order {
		num[g.id] = i
	}
	for _, g := range n.groups {
		g.id = num[g.id]
		if g.sharedOut >= 0 {
			g.sharedOut = num[g.sharedOut]
		}
		for i := range g.prevs {
			g.prevs[i] = num[g.prevs[i]]
		}
		for _, ls := range g.outs {
			for i := range ls {
				ls[i].to = num[ls[i].to]
			}
		}
	}
	n.groups = order
	for _, g := range n.groups {
		l := fmt.Sprintf("%sg%d", label, g.id)
		g.mode = rapid.IntRange(0, 2).Draw(t, l+"mode")
		g.maxOut = rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3, 4}).Draw(t, l+"maxOut")
		g.stream = rapid.IntRange(0, 2).Draw(t, l+"stream") == 0
		g.cached = rapid.Bool().Draw(t, l+"cached")
		g.onEnd = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, l+"onEnd")
		g.yields = rapid.IntRange(0, 2).Draw(t, l+"yields") == 0
		g.explSeq = rapid.Bool().Draw(t, l+"explicit")
	}
	n.build()
	return n
}

// genRoots draws the values for the source, few enough for the pipeline not to have too much to do.
func (n *net) genRoots(t *rapid.T, label string) []uint64 {
	k := rapid.SampledFrom([]int{0, 1, 2, 3, 5, 8, 13, 20, 40}).Draw(t, label+"items")
	seed := rapid.Uint64().Draw(t, label+"values")
	roots := make([]uint64, k)
	for i := range roots {
		roots[i] = mix(seed, uint64(i))
	}
	for len(roots) > 1 {
		if _, total := n.simulate(roots, once); total <= 1500 {
			break
		}
		roots = roots[:len(roots)/2]
	}
	return roots
}

func (n *net) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s source;", []string{"function", "channel", "slice"}[n.srcKind])
	for _, g := range n.groups {
		fmt.Fprintf(&b, " %d", g.id)
		if g.size > 1 {
			fmt.Fprintf(&b, "x%d", g.size)
		}
		if g.nIn > 1 {
			fmt.Fprintf(&b, "(in %d)", g.nIn)
		}
		b.WriteString(":" + []string{"C", "S", "Y"}[g.mode])
		if g.stream {
			b.WriteString("~")
		}
		if g.cached {
			b.WriteString("c")
		}
		if g.onEnd > 0 {
			fmt.Fprintf(&b, "+%d", g.onEnd)
		}
		switch {
		case g.sink:
			b.WriteString("=sink;")
		case g.sharedOut >= 0:
			fmt.Fprintf(&b, "=>%d;", g.sharedOut)
		default:
			b.WriteString("->")
			for _, o := range g.outs[0] {
				fmt.Fprintf(&b, "%d,", o.to)
			}
			b.WriteString(";")
		}
	}
	return b.String()
}

// ---------------------------------------------------------------- construction

func (n *net) build() {
	num := n.base
	for _, g := range n.groups {
		for i := 0; i < g.size; i++ {
			m := &member{net: n, g: g, num: num, last: map[[2]int]item{}}
			num++
			g.stages = append(g.stages, m)
			n.stages = append(n.stages, m)
			name := fmt.Sprintf("s%d", m.num)
			switch {
			case g.id == 0:
				n.buildSource(m, name)
			case g.sink:
				n.buildSink(m, name)
			default:
				n.buildMid(m, name)
			}
		}
	}
}

func (n *net) buildMid(m *member, name string) {
	g := m.g
	s := pip.NewStage[item, item](name,
		pip.WithProcessFunction[item, item](m.process),
		pip.WithOutputStreamingFunction[item, item](m.streaming),
		pip.WithOnNoMoreData[item, item](m.noMore),
		pip.WithMultiInputChannels[item, item](g.nIn),
		pip.WithMultiOutputChannels[item, item](g.nOut()),
	)
	switch {
	case g.mode == modeSequential:
		pip.WithSequentialOutputs[item, item]().ApplyToStage(s)
	case g.mode == modeCycles:
		pip.WithCyclesAllowedSequentialOutputs[item, item]().ApplyToStage(s)
	case g.explSeq:
		pip.WithConcurrentOutputs[item, item]().ApplyToStage(s)
	}
	if g.explSeq {
		pip.WithConcurrentInputs[item, item]().ApplyToStage(s)
	}
	m.mid = s
}

func (n *net) buildSink(m *member, name string) {
	m.snk = pip.NewSink[item](name,
		pip.WithSinkFunction[item](func(in item) error {
			_, _, err := m.process(in)
			return err
		}),
		pip.WithOnNoMoreData[item, pip.None](func() ([]pip.None, []int, error) {
			_, _, err := m.noMore()
			return nil, nil, err
		}),
		pip.WithMultiInputChannels[item, pip.None](m.g.nIn),
	)
}

func (n *net) buildSource(m *member, name string) {
	g := m.g
	var s *pip.Source[item]
	outs := pip.WithMultiOutputChannels[pip.None, item](g.nOut())
	stream := pip.WithOutputStreamingFunction[pip.None, item](m.streaming)
	switch n.srcKind {
	case srcFunc:
		s = pip.NewSource[item](name, outs, stream, pip.WithSourceFunction[item](m.generate))
	case srcChan:
		n.feed = make(chan item)
		s = pip.NewSource[item](name, outs, pip.WithSourceChannel[item](&n.feed, func(in item) ([]int, error) {
			_, chs, err := m.source(in)
			return chs, err
		}))
	case srcSlice:
		s = pip.NewSource[item](name, outs, pip.WithSourceSlice[item](&n.values, func(in item) (int, error) {
			_, chs, err := m.source(in)
			return chs[0], err
		}))
	}
	st := pip.SourceAsStage(s)
	switch {
	case g.mode == modeSequential:
		pip.WithSequentialOutputs[pip.None, item]().ApplyToStage(st)
	case g.mode == modeCycles:
		pip.WithCyclesAllowedSequentialOutputs[pip.None, item]().ApplyToStage(st)
	}
	m.src = s
}

// likes returns the stages of the pipeline in topological order.
func (n *net) likes() []pip.StageLike {
	var res []pip.StageLike
	for _, m := range n.stages {
		res = append(res, m.like())
	}
	return res
}

func (m *member) like() pip.StageLike {
	switch {
	case m.src != nil:
		return m.src
	case m.snk != nil:
		return m.snk
	}
	return m.mid
}

// link links the stages of the groups at and after the given ones.
func (n *net) link(from func(g *group) bool) {
	for _, g := range n.groups {
		if !from(g) || g.sink {
			continue
		}
		if g.sharedOut >= 0 {
			tgt := n.groups[g.sharedOut]
			if tgt.prevs[0] != g.id {
				continue // linked with the first one
			}
			var mids []*pip.Stage[item, item]
			var snks []*pip.Stage[item, pip.None]
			for _, m := range tgt.stages {
				if m.snk != nil {
					snks = append(snks, pip.SinkAsStage(m.snk))
				} else {
					mids = append(mids, m.mid)
				}
			}
			if g.id == 0 {
				s := pip.SourceAsStage(g.stages[0].src)
				if tgt.sink {
					pip.LinkStagesDistribute(s, snks...)
				} else {
					pip.LinkStagesDistribute(s, mids...)
				}
				continue
			}
			var prevs []*pip.Stage[item, item]
			for _, p := range tgt.prevs {
				for _, m := range n.groups[p].stages {
					prevs = append(prevs, m.mid)
				}
			}
			if tgt.sink {
				pip.LinkStagesCrissCross(prevs, snks)
			} else {
				pip.LinkStagesCrissCross(prevs, mids)
			}
			continue
		}
		for i, m := range g.stages {
			// A fan out if possible.
			fan := true
			var mids []*pip.Stage[item, item]
			for _, l := range g.outs[i] {
				tgt := n.groups[l.to]
				if tgt.sink || l.in != 0 {
					fan = false
					break
				}
				mids = append(mids, tgt.stages[0].mid)
			}
			if fan && g.explSeq {
				if g.id == 0 {
					pip.LinkStagesFanOut(pip.SourceAsStage(m.src), mids...)
				} else {
					pip.LinkStagesFanOut(m.mid, mids...)
				}
				continue
			}
			for k, l := range g.outs[i] {
				tgt := n.groups[l.to].stages[0]
				switch {
				case g.id == 0 && tgt.snk != nil:
					pip.LinkStagesAt(pip.SourceAsStage(m.src), k, pip.SinkAsStage(tgt.snk), l.in)
				case g.id == 0:
					pip.LinkStagesAt(pip.SourceAsStage(m.src), k, tgt.mid, l.in)
				case tgt.snk != nil:
					pip.LinkStagesAt(m.mid, k, pip.SinkAsStage(tgt.snk), l.in)
				default:
					pip.LinkStagesAt(m.mid, k, tgt.mid, l.in)
				}
			}
		}
	}
}

func everything(*group) bool { return true }

// ---------------------------------------------------------------- run time

// reset prepares a run with the given values.
func (n *net) reset(roots []uint64) {
	n.roots = roots
	n.nextRoot = 0
	n.infinite = false
	n.values = make([]item, len(roots))
	for i, r := range roots {
		n.values[i] = item{H: r}
	}
	n.got = make([]map[uint64]int, len(n.groups))
	for i := range n.got {
		n.got[i] = map[uint64]int{}
	}
	n.problems = nil
	n.inject = nil
	n.triggered = nil
	n.bundleN = 0
	n.inClosed = false
	for _, m := range n.stages {
		m.calls, m.procs, m.ends, m.strms = 0, 0, 0, 0
		m.pending = nil
		m.last = map[[2]int]item{}
	}
}

// startFeed feeds the source channel, if there is one.
func (n *net) startFeed() {
	if n.srcKind != srcChan {
		return
	}
	feed, stop := make(chan item), make(chan struct{})
	n.feed, n.stopFeed = feed, stop
	values, infinite := n.values, n.infinite
	go func() {
		defer close(feed)
		for i := 0; i < len(values) || infinite; i++ {
			var v item
			if i < len(values) {
				v = values[i]
			} else {
				v = item{H: mix(uint64(i), 5)}
				if i > 2000 && !n.anyTriggered() {
					return
				}
			}
			select {
			case feed <- v:
			case <-stop:
				return
			}
		}
	}()
}

func (n *net) endFeed() {
	if n.stopFeed != nil {
		close(n.stopFeed)
		n.stopFeed = nil
	}
}

func (m *member) pause(h uint64) {
	if !m.g.yields {
		return
	}
	switch mix(h, uint64(m.num), 17) % 16 {
	case 0:
		time.Sleep(time.Duration(mix(h, 3)%200) * time.Microsecond)
	case 1, 2, 3, 4:
		runtime.Gosched()
	}
}

func (m *member) enter() {
	if m.busy.Add(1) != 1 {
		m.net.problem("two calls to the functions of stage %d at the same time", m.num)
	}
	m.net.busyTotal.Add(1)
	m.net.totalCall.Add(1)
	if m.net.onEnter != nil {
		m.net.onEnter(m)
	}
}

func (m *member) leave() {
	if m.net.onLeave != nil {
		m.net.onLeave(m)
	}
	m.net.busyTotal.Add(-1)
	m.busy.Add(-1)
}

// received does the accounting for an incoming value.
func (m *member) received(in item) {
	n := m.net
	n.mu.Lock()
	n.got[m.g.id][in.H]++
	n.mu.Unlock()
	if m.g.id == 0 || in.Call == 0 || in.From < n.base {
		return // of unknown order: sources of a channel or a slice pass on what they got
	}
	k := [2]int{in.From, in.Out}
	if prev, ok := m.last[k]; ok {
		if in.Call < prev.Call || in.Order && in.Call == prev.Call && in.No <= prev.No {
			n.problem("stage %d got output %d of call %d from stage %d channel %d after output %d of call %d",
				m.num, in.No, in.Call, in.From, in.Out, prev.No, prev.Call)
		}
	}
	m.last[k] = in
}

var idxCache sync.Map

// pack makes the returned slices.
func (m *member) pack(os []outp) ([]item, []int) {
	m.calls++
	if len(os) == 0 && m.calls%2 == 0 {
		return nil, nil
	}
	ordered := m.g.mode == modeSequential
	var items []item
	var chs []int
	if m.g.cached {
		items = m.outsBuf[:0]
	}
	key := ""
	for i, o := range os {
		items = append(items, item{H: o.h, From: m.num, Out: o.ch, Call: m.calls, No: i, Order: ordered})
		chs = append(chs, o.ch)
		key += string(rune('0' + o.ch))
	}
	if m.g.cached {
		m.outsBuf = items
		// Constant slices with the indices, shared by the calls of this stage.
		k := fmt.Sprintf("%p/%s", m, key)
		if c, ok := idxCache.LoadOrStore(k, chs); ok {
			chs = c.([]int)
			for i, o := range os {
				if chs[i] != o.ch {
					m.net.problem("stage %d: a slice of channel indices was modified by the pipeline", m.num)
					chs[i] = o.ch
				}
			}
		}
	}
	return items, chs
}

// chunk splits the outputs if this stage streams them.
func (m *member) chunk(h uint64, os []outp) ([]outp, bool) {
	if !m.g.stream || len(os) == 0 || mix(h, 23)%3 == 0 {
		return os, false
	}
	r := mix(h, 29)
	first := int(r % uint64(len(os)+1))
	rest := os[first:]
	m.pending = nil
	for len(rest) > 0 {
		r = mix(r, 31)
		k := int(r%2) + 1
		if r%7 == 0 {
			k = 0
		}
		if k > len(rest) {
			k = len(rest)
		}
		m.pending = append(m.pending, rest[:k])
		rest = rest[k:]
	}
	m.endNil = r%3 == 0
	if r%5 == 0 || len(m.pending) == 0 {
		m.pending = append(m.pending, nil)
	}
	return os[:first], true
}

func (m *member) streaming(outs *[]item, chs *[]int) error {
	m.enter()
	defer m.leave()
	m.strms++
	if inj := m.net.hit(m.num, "stream", m.strms); inj != nil {
		return inj.err
	}
	if len(m.pending) == 0 {
		m.net.problem("stage %d: the streaming function is called after it ended the stream", m.num)
		return pip.NoMoreData
	}
	*outs, *chs = m.pack(m.pending[0])
	m.pending = m.pending[1:]
	if len(m.pending) > 0 {
		return pip.StreamOutput
	}
	if m.endNil {
		return nil
	}
	return pip.NoMoreData
}

// process is the function of all stages and sinks.
func (m *member) process(in item) ([]item, []int, error) {
	m.enter()
	defer m.leave()
	m.procs++
	if len(m.pending) > 0 {
		m.net.problem("stage %d: processes a value while it streams", m.num)
	}
	m.received(in)
	m.pause(in.H)
	os := m.net.outputsOf(m.g, in.H)
	if inj := m.net.hit(m.num, "process", m.procs); inj != nil {
		if inj.withO {
			items, chs := m.pack(os)
			return items, chs, inj.err
		}
		return nil, nil, inj.err
	}
	var err error
	if m.net.bundleAt == m.g.id {
		m.net.bundleN++
		if m.net.bundleN%m.net.bundle == 0 {
			err = pip.NoMoreData
		}
	} else if first, streams := m.chunk(in.H, os); streams {
		os, err = first, pip.StreamOutput
	}
	items, chs := m.pack(os)
	return items, chs, err
}

// noMore is called when the input ends.
func (m *member) noMore() ([]item, []int, error) {
	m.enter()
	defer m.leave()
	m.ends++
	m.pause(uint64(m.ends))
	if m.net.bundleAt == m.g.id {
		m.net.inClosed = true
	}
	if inj := m.net.hit(m.num, "end", m.ends); inj != nil {
		return nil, nil, inj.err
	}
	items, chs := m.pack(m.net.endOf(m.g))
	return items, chs, nil
}

// source handles a value of a slice or channel.
func (m *member) source(in item) ([]item, []int, error) {
	m.enter()
	defer m.leave()
	m.procs++
	m.received(in)
	m.pause(in.H)
	os := m.net.outputsOf(m.g, in.H)
	items, chs := m.pack(os)
	if inj := m.net.hit(m.num, "process", m.procs); inj != nil {
		return items, chs, inj.err
	}
	return items, chs, nil
}

// generate is the function of source functions.
func (m *member) generate() ([]item, []int, error) {
	m.enter()
	defer m.leave()
	n := m.net
	var h uint64
	last := false
	switch {
	case n.nextRoot < len(n.roots):
		h = n.roots[n.nextRoot]
		last = n.nextRoot == len(n.roots)-1 && n.final && !n.infinite && n.bundleAt != 0
	case n.infinite && (n.anyTriggered() || n.nextRoot < 2000):
		h = mix(uint64(n.nextRoot), 5)
	default:
		if n.bundleAt == 0 {
			n.inClosed = true
		}
		return nil, nil, pip.NoMoreData
	}
	n.nextRoot++
	m.procs++
	m.received(item{H: h})
	m.pause(h)
	os := n.outputsOf(m.g, h)
	if inj := n.hit(m.num, "process", m.procs); inj != nil {
		return nil, nil, inj.err
	}
	var err error
	switch {
	case n.bundleAt == 0:
		n.bundleN++
		if n.bundleN%n.bundle == 0 {
			err = pip.NoMoreData
		}
	case last:
		err = pip.NoMoreData
	default:
		if first, streams := m.chunk(h, os); streams {
			os, err = first, pip.StreamOutput
		}
	}
	items, chs := m.pack(os)
	return items, chs, err
}

// ---------------------------------------------------------------- checks

// compare returns a description of what differs from the expectation.
func (n *net) compare(exp []map[uint64]int) string {
	n.mu.Lock()
	defer n.mu.Unlock()
	if len(n.problems) > 0 {
		return strings.Join(n.problems, "; ")
	}
	for g := range exp {
		if d := diff(exp[g], n.got[g]); d != "" {
			return fmt.Sprintf("group %d: %s", g, d)
		}
	}
	return ""
}

func diff(exp, got map[uint64]int) string {
	var lost, extra, wanted int
	for h, c := range exp {
		wanted += c
		if got[h] < c {
			lost += c - got[h]
		}
	}
	for h, c := range got {
		if exp[h] < c {
			extra += c - exp[h]
		}
	}
	if lost > 0 || extra > 0 {
		return fmt.Sprintf("of %d values, %d are missing and %d are too many", wanted, lost, extra)
	}
	return ""
}

var ignored = map[string]bool{}

func goid(stack string) string { return strings.SplitN(stack, " [", 2)[0] }

// ignoreOld makes leftovers disregard the goroutines of the tests run before in this process.
func ignoreOld() {
	buf := make([]byte, 1<<22)
	for _, s := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		ignored[goid(s)] = true
	}
}

// leftovers waits for the goroutines of the pipelines to end and returns the ones that do not.
func leftovers() string {
	buf := make([]byte, 1<<20)
	var found []string
	for end := time.Now().Add(10 * time.Second); ; {
		found = found[:0]
		k := runtime.Stack(buf, true)
		for _, s := range strings.Split(string(buf[:k]), "\n\n") {
			if strings.Contains(s, "fpki/pkg/pipeline") && !strings.Contains(s, "leftovers") && !ignored[goid(s)] {
				found = append(found, s)
			}
		}
		if len(found) == 0 {
			return ""
		}
		if time.Now().After(end) {
			sort.Strings(found)
			return fmt.Sprintf("%d goroutines remain, e.g.\n%s", len(found), found[0])
		}
		time.Sleep(200 * time.Microsecond)
	}
}

var bg = context.Background()
