package logv

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/google/trillian"
	"github.com/google/trillian/types"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"k8s.io/klog/v2"
	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/logverifier"
	"github.com/netsec-ethz/fpki/pkg/policylog/client"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// ---- a log server with the semantics of Trillian's, over the reference of RFC 6962.

var devNull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

func init() { // Trillian's client reports every connection
	klog.LogToStderr(false)
	klog.SetOutput(io.Discard)
	fs := flag.NewFlagSet("klog", flag.PanicOnError)
	klog.InitFlags(fs)
	fs.Set("stderrthreshold", "FATAL")
	fs.Set("logtostderr", "false")
}

// plan is how the server treats a leaf; one per leaf content.
type plan struct {
	queue   codes.Code // OK, or the code every QueueLeaf of the leaf is refused with
	notYet  int        // so many proof requests are answered with NotFound first
	proof   codes.Code // OK, or the code every proof request is refused with
	noProof bool       // answers without a proof
	badRoot int        // 1: answers with an unreadable tree head, 2: without one
	blocks  bool       // requests are not answered before their context ends
}

type proofReq struct {
	leaf string // leaf hash
	size int64
}

type fakeLog struct {
	trillian.UnimplementedTrillianLogServer
	trillian.UnimplementedTrillianAdminServer
	mu      sync.Mutex
	id      int64
	dedupe  bool
	pending [][]byte // values
	leaves  [][]byte // values
	hashes  [][]byte
	plans   map[string]*plan // of a value
	stamp   uint64

	queued  map[string]int // accepted or refused calls of QueueLeaf by value
	proofs  []proofReq
	polls   int
	perPoll int         // leaves integrated at each poll of the root
	idle    int         // polls that integrate nothing first
	failAt  int         // this poll fails (from 1)
	foreign map[int]int // so many leaves of others get in at this QueueLeaf call
	calls   int
	serial  int
	rootNil bool

	createErr codes.Code
	created   []*trillian.Tree
	inited    []int64
	initFails int // Unavailable so many times
}

func (f *fakeLog) plan(v []byte) *plan {
	if p := f.plans[string(v)]; p != nil {
		return p
	}
	return &plan{}
}

func (f *fakeLog) planOfHash(h []byte) *plan {
	for v, p := range f.plans {
		if bytes.Equal(leafHash([]byte(v)), h) {
			return p
		}
	}
	return &plan{}
}

func (f *fakeLog) has(v []byte) bool {
	for _, l := range append(append([][]byte{}, f.leaves...), f.pending...) {
		if bytes.Equal(l, v) {
			return true
		}
	}
	return false
}

func (f *fakeLog) integrate(n int) {
	for ; n > 0 && len(f.pending) > 0; n-- {
		f.leaves = append(f.leaves, f.pending[0])
		f.hashes = append(f.hashes, leafHash(f.pending[0]))
		f.pending = f.pending[1:]
		f.stamp++
	}
}

func (f *fakeLog) root() *types.LogRootV1 {
	return &types.LogRootV1{TreeSize: uint64(len(f.leaves)), RootHash: mth(f.hashes), TimestampNanos: 1000 + f.stamp}
}

func (f *fakeLog) signed() *trillian.SignedLogRoot {
	b, err := f.root().MarshalBinary()
	if err != nil {
		panic(err)
	}
	return &trillian.SignedLogRoot{LogRoot: b}
}

func (f *fakeLog) wrong(id int64) error {
	if id != f.id {
		return status.Errorf(codes.NotFound, "no tree %d", id)
	}
	return nil
}

func (f *fakeLog) QueueLeaf(ctx context.Context, r *trillian.QueueLeafRequest) (*trillian.QueueLeafResponse, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if err := f.wrong(r.LogId); err != nil {
		return nil, err
	}
	v := r.Leaf.GetLeafValue()
	f.queued[string(v)]++
	f.calls++
	for i := 0; i < f.foreign[f.calls]; i++ {
		f.serial++
		f.pending = append(f.pending, []byte(fmt.Sprintf("of someone else %d", f.serial)))
	}
	p := f.plan(v)
	if p.blocks {
		f.mu.Unlock()
		<-ctx.Done()
		f.mu.Lock()
		return nil, ctx.Err()
	}
	if p.queue != codes.OK {
		return nil, status.Error(p.queue, "refused")
	}
	q := &trillian.QueuedLogLeaf{Leaf: r.Leaf}
	if f.dedupe && f.has(v) {
		q.Status = status.New(codes.AlreadyExists, "leaf already exists").Proto()
	} else {
		f.pending = append(f.pending, v)
	}
	return &trillian.QueueLeafResponse{QueuedLeaf: q}, nil
}

func (f *fakeLog) GetLatestSignedLogRoot(ctx context.Context, r *trillian.GetLatestSignedLogRootRequest) (*trillian.GetLatestSignedLogRootResponse, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if err := f.wrong(r.LogId); err != nil {
		return nil, err
	}
	f.polls++
	if f.polls == f.failAt {
		return nil, status.Error(codes.Internal, "injected")
	}
	if f.polls > f.idle {
		f.integrate(f.perPoll)
	}
	if f.rootNil {
		return &trillian.GetLatestSignedLogRootResponse{}, nil
	}
	return &trillian.GetLatestSignedLogRootResponse{SignedLogRoot: f.signed()}, nil
}

func (f *fakeLog) GetInclusionProofByHash(ctx context.Context, r *trillian.GetInclusionProofByHashRequest) (*trillian.GetInclusionProofByHashResponse, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if err := f.wrong(r.LogId); err != nil {
		return nil, err
	}
	f.proofs = append(f.proofs, proofReq{string(r.LeafHash), r.TreeSize})
	if r.TreeSize <= 0 {
		return nil, status.Error(codes.InvalidArgument, "tree size")
	}
	p := f.planOfHash(r.LeafHash)
	switch {
	case p.blocks:
		f.mu.Unlock()
		<-ctx.Done()
		f.mu.Lock()
		return nil, ctx.Err()
	case p.notYet > 0:
		p.notYet--
		return nil, status.Error(codes.NotFound, "not yet")
	case p.proof != codes.OK:
		return nil, status.Error(p.proof, "refused")
	}
	ps := f.genuine(r.LeafHash, int(r.TreeSize))
	if len(ps) == 0 {
		return nil, status.Error(codes.NotFound, "no leaf found")
	}
	resp := &trillian.GetInclusionProofByHashResponse{SignedLogRoot: f.signed(), Proof: ps}
	if p.noProof {
		resp.Proof = nil
	}
	switch p.badRoot {
	case 1:
		resp.SignedLogRoot = &trillian.SignedLogRoot{LogRoot: []byte{7, 7, 7}}
	case 2:
		resp.SignedLogRoot = nil
	}
	return resp, nil
}

// genuine returns the proofs of a leaf in the tree of the given size.
func (f *fakeLog) genuine(h []byte, size int) (ps []*trillian.Proof) {
	if size > len(f.hashes) {
		return nil
	}
	for i := 0; i < size; i++ {
		if bytes.Equal(f.hashes[i], h) {
			ps = append(ps, &trillian.Proof{LeafIndex: int64(i), Hashes: path(i, f.hashes[:size])})
		}
	}
	return ps
}

func (f *fakeLog) GetConsistencyProof(ctx context.Context, r *trillian.GetConsistencyProofRequest) (*trillian.GetConsistencyProofResponse, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if err := f.wrong(r.LogId); err != nil {
		return nil, err
	}
	if r.FirstTreeSize <= 0 || r.SecondTreeSize < r.FirstTreeSize {
		return nil, status.Error(codes.InvalidArgument, "sizes")
	}
	resp := &trillian.GetConsistencyProofResponse{SignedLogRoot: f.signed()}
	if int(r.SecondTreeSize) <= len(f.hashes) {
		resp.Proof = &trillian.Proof{Hashes: consistency(int(r.FirstTreeSize), f.hashes[:r.SecondTreeSize])}
	}
	return resp, nil
}

func (f *fakeLog) CreateTree(ctx context.Context, r *trillian.CreateTreeRequest) (*trillian.Tree, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.createErr != codes.OK {
		return nil, status.Error(f.createErr, "refused")
	}
	t := r.Tree
	t.TreeId = f.id
	f.created = append(f.created, t)
	return t, nil
}

func (f *fakeLog) InitLog(ctx context.Context, r *trillian.InitLogRequest) (*trillian.InitLogResponse, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.initFails > 0 {
		f.initFails--
		return nil, status.Error(codes.Unavailable, "busy")
	}
	f.inited = append(f.inited, r.LogId)
	return &trillian.InitLogResponse{Created: f.signed()}, nil
}

// serve starts the server on the loopback interface.
func (f *fakeLog) serve() (addr string, stop func()) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		vlib.Infra("listen: %v", err)
	}
	s := grpc.NewServer()
	trillian.RegisterTrillianLogServer(s, f)
	trillian.RegisterTrillianAdminServer(s, f)
	go s.Serve(l)
	return l.Addr().String(), s.Stop
}

func newFake(rt *rapid.T) *fakeLog {
	return &fakeLog{
		id:      rapid.Int64Range(1, 1<<62).Draw(rt, "tree"),
		dedupe:  rapid.Bool().Draw(rt, "dedupe"),
		plans:   map[string]*plan{},
		queued:  map[string]int{},
		foreign: map[int]int{},
		perPoll: 0,
	}
}

func newClient(rt *rapid.T, f *fakeLog, addr, dir string) *client.LogClient {
	cfg := &client.LogClientConfig{
		TreeId: f.id, RPCAddress: addr, PolicyLogExchangePath: dir,
		MaxReceiveMessageSize: rapid.SampledFrom([]int{0, 1 << 20}).Draw(rt, "max message"),
		NumOfWorker:           rapid.SampledFrom([]int{1, 1, 2, 3, 5, 8}).Draw(rt, "workers"),
	}
	file := filepath.Join(dir, "client.json")
	if err := client.SaveLogClientConfigToFile(cfg, file); err != nil {
		rt.Fatalf("saving the configuration: %v", err)
	}
	id := f.id
	later := rapid.IntRange(0, 3).Draw(rt, "tree id set later") == 3
	if later {
		id = 0
	}
	c, err := client.NewLogClient(file, id)
	if err != nil {
		rt.Fatalf("NewLogClient: %v", err)
	}
	if later {
		c.SetTreeId(f.id)
	}
	return c
}

func strs(b [][]byte) []string {
	out := make([]string, len(b))
	for i := range b {
		out[i] = string(b[i])
	}
	sort.Strings(out)
	return out
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func codesOf(errs []error) []string {
	out := make([]string, len(errs))
	for i, e := range errs {
		out[i] = status.Code(e).String()
	}
	sort.Strings(out)
	return out
}

func name(v []byte) string { return base64.URLEncoding.EncodeToString(leafHash(v)) }

var refusals = []codes.Code{codes.Internal, codes.Unavailable, codes.PermissionDenied, codes.ResourceExhausted, codes.FailedPrecondition, codes.Unknown}

func within(what string, f func()) { vlib.Within("Q01", what, 120*time.Second, f) }

// checkFetch compares the result of FetchInclusions for the leaves of data at the given size with the log.
// blocked tells that the context ended while requests were waiting.
type poi = client.PoIAndSTH

func checkFetch(rt *rapid.T, f *fakeLog, data [][]byte, size int64, pois map[string]*poi, failed [][]byte, names []string, errs []error, before map[string]plan, blocked bool) (got int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if len(failed) != len(names) || len(failed) != len(errs) {
		rt.Fatalf("%d failed leaves, %d names, %d errors", len(failed), len(names), len(errs))
	}
	var wantOK map[string]bool = map[string]bool{}
	var wantFailed []string
	want := map[string]codes.Code{} // of the failing ones; OK: any error
	for _, v := range data {
		p := before[string(v)]
		ps := f.genuine(leafHash(v), int(size))
		switch {
		case size <= 0:
			want[string(v)] = codes.InvalidArgument
		case blocked && (p.blocks || len(ps) == 0): // reported below, whatever the code
			want[string(v)] = codes.OK
		case p.proof != codes.OK:
			want[string(v)] = p.proof
		case len(ps) == 0:
			want[string(v)] = codes.NotFound
		case p.noProof || p.badRoot != 0:
			want[string(v)] = codes.OK
		default:
			wantOK[name(v)] = true
			continue
		}
		wantFailed = append(wantFailed, string(v))
	}
	if blocked {
		// any leaf may have been caught by the end of the context
		have := map[string]bool{}
		for i, v := range failed {
			if names[i] != name(v) {
				rt.Fatalf("failed leaf %s is named %s, not %s", vlib.Hex(v), names[i], name(v))
			}
			have[string(v)] = true
		}
		n := 0
		for _, v := range data {
			_, ok := pois[name(v)]
			if !ok && !have[string(v)] {
				rt.Fatalf("leaf %s neither retrieved nor failed", vlib.Hex(v))
			}
			if _, bad := want[string(v)]; bad && ok {
				rt.Fatalf("leaf %s retrieved, although the log gave no proof", vlib.Hex(v))
			}
			if !have[string(v)] {
				n++
			}
		}
		for v := range have {
			found := false
			for _, d := range data {
				found = found || string(d) == v
			}
			if !found {
				rt.Fatalf("failed leaf %s was not asked for", vlib.Hex([]byte(v)))
			}
		}
	} else {
		sort.Strings(wantFailed)
		if !same(strs(failed), wantFailed) {
			rt.Fatalf("failed leaves %q, expected %q", strs(failed), wantFailed)
		}
		for i, v := range failed {
			if names[i] != name(v) {
				rt.Fatalf("failed leaf %s is named %s, not %s", vlib.Hex(v), names[i], name(v))
			}
			if errs[i] == nil {
				rt.Fatalf("failed leaf %s without an error", vlib.Hex(v))
			}
			if w := want[string(v)]; w != codes.OK && status.Code(errs[i]) != w {
				rt.Fatalf("failed leaf %s: error %v, the log gave %v", vlib.Hex(v), errs[i], w)
			}
		}
		if len(pois) != len(wantOK) {
			rt.Fatalf("%d leaves with proofs, expected %d", len(pois), len(wantOK))
		}
	}
	ver := logverifier.NewLogVerifier(nil)
	var at types.LogRootV1
	if size > 0 && int(size) <= len(f.hashes) {
		at = types.LogRootV1{TreeSize: uint64(size), RootHash: mth(f.hashes[:size])}
	}
	for n, p := range pois {
		if !wantOK[n] {
			rt.Fatalf("a proof for %s, which is not in the log or was not asked for", n)
		}
		h, _ := base64.URLEncoding.DecodeString(n)
		g := f.genuine(h, int(size))
		if p == nil || len(p.PoIs) != len(g) {
			rt.Fatalf("%s: not the %d proofs of the log: %v", n, len(g), p)
		}
		for i := range g {
			if p.PoIs[i].LeafIndex != g[i].LeafIndex || !eq(p.PoIs[i].Hashes, g[i].Hashes) {
				rt.Fatalf("%s: proof %d is not that of the log", n, i)
			}
			one := []*trillian.Proof{p.PoIs[i]}
			if err := ver.VerifyInclusionByHash(&at, h, one); err != nil {
				rt.Fatalf("%s: proof %d does not verify: %v", n, i, err)
			}
		}
		r := f.root()
		if p.STH.TreeSize != r.TreeSize || !bytes.Equal(p.STH.RootHash, r.RootHash) || p.STH.TimestampNanos != r.TimestampNanos {
			rt.Fatalf("%s: tree head %+v, that of the log is %+v", n, p.STH, r)
		}
		got++
	}
	return got
}

func TestQ01Client(t *testing.T) {
	rec := vlib.New(t, "Q01", "a history with at least two leaves queued and one fetched with a proof that verifies")
	dir := vlib.TempDir()
	defer os.RemoveAll(dir)
	vlib.Check(t, rec, func(rt *rapid.T) {
		f := newFake(rt)
		addr, stop := f.serve()
		defer stop()
		c := newClient(rt, f, addr, dir)
		bg := context.Background()
		ver := logverifier.NewLogVerifier(nil)
		var pool [][]byte // every leaf used
		size := int64(0)  // as known to the client
		var roots []*types.LogRootV1
		nadd, nfetch := 0, 0
		classes := map[string]bool{}
		slow := 0

		leaf := func(what string) []byte {
			if len(pool) > 0 && rapid.IntRange(0, 3).Draw(rt, what+" again") == 3 {
				return pool[rapid.IntRange(0, len(pool)-1).Draw(rt, "which")]
			}
			v := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, what)
			pool = append(pool, v)
			return v
		}
		before := func(data [][]byte) map[string]plan {
			m := map[string]plan{}
			for _, v := range data {
				m[string(v)] = *f.plan(v)
			}
			return m
		}
		end := func() (context.Context, context.CancelFunc, bool) {
			blocked := false
			for _, p := range f.plans {
				blocked = blocked || p.blocks
			}
			if blocked {
				ctx, cancel := context.WithTimeout(bg, 150*time.Millisecond)
				return ctx, cancel, true
			}
			return bg, func() {}, false
		}

		n := rapid.IntRange(4, 11).Draw(rt, "steps")
		for i := 0; i < n+5; i++ {
			op := rapid.SampledFrom([]int{5, 0, 4, 3, 7, 6, 1, 5, 2}).Draw(rt, "op")
			if i < 3 && rapid.IntRange(0, 5).Draw(rt, "usual start") < 5 {
				op = []int{0, 3, 4}[i]
			}
			if i >= n { // in the end
				op = []int{3, 4, 5, 7, 7}[i-n]
			}
			switch op {
			case 0, 1, 2: // add
				k := rapid.SampledFrom([]int{3, 2, 1, 5, 8, 0, 13, 30}).Draw(rt, "leaves")
				data := make([][]byte, k)
				for j := range data {
					data[j] = leaf("leaf")
				}
				f.plans = map[string]*plan{}
				for j := range data {
					if rapid.IntRange(0, 7).Draw(rt, "refuse") == 7 {
						f.plans[string(data[j])] = &plan{queue: rapid.SampledFrom(refusals).Draw(rt, "code")}
						classes["leaf refused"] = true
					}
				}
				if k > 0 && rapid.IntRange(0, 15).Draw(rt, "block") == 15 {
					f.plans[string(data[rapid.IntRange(0, k-1).Draw(rt, "blocked")])] = &plan{blocks: true}
				}
				bef := before(data)
				f.queued = map[string]int{}
				f.calls = 0
				ctx, cancel, blocked := end()
				var failed []string
				var errs []error
				within("AddLeaves", func() {
					r := c.AddLeaves(ctx, data)
					failed, errs = strs(r.FailedLeaves), r.Errs
				})
				cancel()
				f.mu.Lock()
				times := map[string]int{}
				var wantFailed []string
				var wantCodes []error
				for _, v := range data {
					times[string(v)]++
					if p := bef[string(v)]; p.queue != codes.OK || p.blocks {
						wantFailed = append(wantFailed, string(v))
						wantCodes = append(wantCodes, status.Error(p.queue, ""))
					}
				}
				sort.Strings(wantFailed)
				if blocked {
					classes["context ended while adding"] = true
					if len(failed) != len(errs) || len(failed) < len(wantFailed) || len(failed) > len(data) {
						rt.Fatalf("%d failed leaves and %d errors; the log refused %d of %d", len(failed), len(errs), len(wantFailed), len(data))
					}
					for v, q := range f.queued {
						if q > times[v] {
							rt.Fatalf("leaf %s queued %d times, wanted %d", vlib.Hex([]byte(v)), q, times[v])
						}
					}
					cnt := map[string]int{}
					for _, v := range failed {
						cnt[v]++
					}
					for v, q := range cnt {
						if q > times[v] {
							rt.Fatalf("leaf %s failed %d times of %d", vlib.Hex([]byte(v)), q, times[v])
						}
					}
					for v, q := range times { // what did not fail was queued
						if p := bef[v]; f.queued[v] < q-cnt[v] || ((p.queue != codes.OK || p.blocks) && cnt[v] != q) {
							rt.Fatalf("leaf %s: wanted %d times, failed %d times, queued %d times", vlib.Hex([]byte(v)), q, cnt[v], f.queued[v])
						}
					}
				} else {
					if !same(failed, wantFailed) || !same(codesOf(errs), codesOf(wantCodes)) {
						rt.Fatalf("failed %q with %v, the log refused %q with %v", failed, codesOf(errs), wantFailed, codesOf(wantCodes))
					}
					if len(f.queued) != len(times) {
						rt.Fatalf("%d different leaves queued, wanted %d", len(f.queued), len(times))
					}
					for v, q := range times {
						if f.queued[v] != q {
							rt.Fatalf("leaf %s queued %d times, wanted %d", vlib.Hex([]byte(v)), f.queued[v], q)
						}
						if q > 1 {
							classes["leaf several times in a list"] = true
						}
					}
				}
				f.mu.Unlock()
				if k == 0 {
					classes["no leaves"] = true
				}
				nadd += k - len(failed)
				f.plans = map[string]*plan{}
			case 3: // the log integrates
				f.mu.Lock()
				f.integrate(rapid.SampledFrom([]int{40, 3, 1, 7}).Draw(rt, "integrated"))
				f.mu.Unlock()
			case 4: // new tree head
				fail := 7 - rapid.IntRange(0, 7).Draw(rt, "fails")
				f.mu.Lock()
				if fail == 0 {
					f.failAt = f.polls + 1
				}
				f.rootNil = fail == 1
				want := f.root()
				f.mu.Unlock()
				var err error
				within("UpdateTreeSize", func() { err = c.UpdateTreeSize(bg) })
				if (err != nil) != (fail < 2) {
					rt.Fatalf("UpdateTreeSize: %v, server failing: %v", err, fail < 2)
				}
				f.rootNil = false
				if err == nil {
					size = int64(want.TreeSize)
				}
				r, err := c.GetCurrentLogRoot(bg)
				if err != nil || r.TreeSize != want.TreeSize || !bytes.Equal(r.RootHash, want.RootHash) || r.TimestampNanos != want.TimestampNanos {
					rt.Fatalf("GetCurrentLogRoot: %+v %v, the log has %+v", r, err, want)
				}
				roots = append(roots, r)
			case 5, 6: // fetch
				k := rapid.SampledFrom([]int{3, 2, 1, 5, 8, 0, 13, 30}).Draw(rt, "leaves")
				data := make([][]byte, k)
				unknown := 0
				for j := range data {
					if len(f.leaves) > 0 && rapid.IntRange(0, 7).Draw(rt, "from the log") < 7 {
						data[j] = f.leaves[rapid.IntRange(0, len(f.leaves)-1).Draw(rt, "which")]
					} else if unknown++; unknown <= 3 {
						data[j] = leaf("leaf")
					} else {
						data = data[:j]
						break
					}
				}
				if unknown > 0 {
					if slow++; slow > 3 {
						continue
					}
				}
				f.plans = map[string]*plan{}
				for j := range data {
					p := &plan{}
					switch 14 - rapid.IntRange(0, 14).Draw(rt, "plan") {
					case 0:
						p.proof = rapid.SampledFrom(refusals).Draw(rt, "code")
						classes["proof refused"] = true
					case 1:
						p.notYet = rapid.IntRange(1, 5).Draw(rt, "not yet")
						classes["leaf found at a repeated request"] = true
					case 2:
						p.noProof = true
						classes["answer without proof"] = true
					case 3:
						p.badRoot = rapid.IntRange(1, 2).Draw(rt, "root")
						classes["answer without readable tree head"] = true
					default:
						continue
					}
					f.plans[string(data[j])] = p
				}
				if len(data) > 0 && rapid.IntRange(0, 15).Draw(rt, "block") == 15 {
					f.plans[string(data[rapid.IntRange(0, len(data)-1).Draw(rt, "blocked")])] = &plan{blocks: true}
				}
				bef := before(data)
				f.proofs = nil
				ctx, cancel, blocked := end()
				var got int
				within("FetchInclusions", func() {
					start := time.Now()
					r := c.FetchInclusions(ctx, data)
					if d := time.Since(start); blocked && d > 20*time.Second {
						rt.Fatalf("FetchInclusions went on for %v after the end of its context", d)
					}
					got = checkFetch(rt, f, data, size, r.PoIs, r.FailedLeaves, r.FailedLeavesName, r.Errs, bef, blocked)
				})
				cancel()
				if blocked {
					classes["context ended while fetching"] = true
				}
				f.mu.Lock()
				for _, q := range f.proofs {
					if q.size != size {
						rt.Fatalf("proof asked for size %d, the client's is %d", q.size, size)
					}
				}
				if got > 0 && size < int64(len(f.leaves)) {
					classes["log larger than the client knows"] = true
				}
				f.mu.Unlock()
				nfetch += got
				f.plans = map[string]*plan{}
			case 7: // consistency
				if len(roots) == 0 {
					continue
				}
				a := roots[rapid.IntRange(0, len(roots)-1).Draw(rt, "from")]
				b := roots[len(roots)-1-rapid.IntRange(0, len(roots)-1).Draw(rt, "to")]
				beyond := rapid.IntRange(0, 4).Draw(rt, "beyond") == 4
				if beyond {
					b = &types.LogRootV1{TreeSize: uint64(len(f.leaves)) + uint64(rapid.IntRange(1, 9).Draw(rt, "by"))}
				}
				p, err := c.GetConsistencyProof(bg, a, b)
				if beyond || a.TreeSize == 0 || a.TreeSize > b.TreeSize {
					if err == nil {
						rt.Fatalf("a consistency proof from %d to %d of a log with %d", a.TreeSize, b.TreeSize, len(f.leaves))
					}
					continue
				}
				if err != nil || !eq(p, consistency(int(a.TreeSize), f.hashes[:b.TreeSize])) {
					rt.Fatalf("consistency proof from %d to %d: %x %v", a.TreeSize, b.TreeSize, p, err)
				}
				if _, err := ver.VerifyRoot(a, b, p); err != nil {
					rt.Fatalf("consistency proof from %d to %d does not verify: %v", a.TreeSize, b.TreeSize, err)
				}
				if a.TreeSize < b.TreeSize {
					classes["consistency proof"] = true
				}
			}
		}
		var cl []string
		for k := range classes {
			cl = append(cl, k)
		}
		rec.Case(fmt.Sprintf("%x %v %d %d", mth(f.hashes), cl, nadd, nfetch), nadd >= 2 && nfetch >= 1, func() any {
			return map[string]any{"leaves in the log": len(f.leaves), "queued": nadd, "fetched": nfetch, "dedupe": f.dedupe, "classes": cl}
		}, cl...)
	})
}

func policyCert(rt *rapid.T) *common.PolicyCertificate {
	tm := time.Unix(rapid.Int64Range(0, 4e9).Draw(rt, "time"), 0).UTC()
	return common.NewPolicyCertificate(
		rapid.IntRange(0, 3).Draw(rt, "version"), rapid.IntRange(0, 1e9).Draw(rt, "serial"),
		rapid.SampledFrom([]string{"fpki.com", "a.b.ch", ""}).Draw(rt, "domain"), tm, tm.Add(time.Hour),
		rapid.Bool().Draw(rt, "issues"), rapid.Bool().Draw(rt, "owns"),
		rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(rt, "key"), common.RSA, common.SHA256, tm,
		common.PolicyAttributes{}, []byte{1}, []byte{2}, nil, []byte{3}, []byte{4})
}

func TestQ01Queue(t *testing.T) {
	rec := vlib.New(t, "Q01", "at least two files queued and retrieved")
	vlib.Check(t, rec, func(rt *rapid.T) {
		dir := vlib.TempDir()
		defer os.RemoveAll(dir)
		if err := os.Mkdir(filepath.Join(dir, "rpc"), 0o755); err != nil {
			vlib.Infra("%v", err)
		}
		f := newFake(rt)
		f.perPoll = rapid.SampledFrom([]int{5, 2, 100, 1}).Draw(rt, "integrated per poll")
		addr, stop := f.serve()
		defer stop()
		c := newClient(rt, f, addr, dir)
		classes := map[string]bool{}

		// what the log has before
		certs := []*common.PolicyCertificate{}
		for i, n := 0, rapid.IntRange(2, 9).Draw(rt, "policy certificates"); i < n; i++ {
			certs = append(certs, policyCert(rt))
		}
		stored := func(pc *common.PolicyCertificate) []byte { // as it is stored
			b, err := common.ToJSON(pc)
			if err != nil {
				vlib.Infra("%v", err)
			}
			file := filepath.Join(dir, "x.json")
			if err := os.WriteFile(file, b, 0o644); err != nil {
				vlib.Infra("%v", err)
			}
			return b
		}
		for i, n := 0, rapid.IntRange(0, 9).Draw(rt, "leaves before"); i < n; i++ {
			if rapid.IntRange(0, 3).Draw(rt, "own") == 3 {
				f.pending = append(f.pending, stored(certs[rapid.IntRange(0, len(certs)-1).Draw(rt, "which")]))
			} else {
				f.pending = append(f.pending, []byte("old "+strconv.Itoa(i)))
			}
		}
		f.integrate(rapid.IntRange(0, 9).Draw(rt, "of them integrated"))
		if rapid.Bool().Draw(rt, "size known") {
			if err := c.UpdateTreeSize(context.Background()); err != nil {
				rt.Fatalf("UpdateTreeSize: %v", err)
			}
		}

		for run, runs := 0, rapid.IntRange(1, 2).Draw(rt, "runs"); run < runs; run++ {
			// files
			os.RemoveAll(filepath.Join(dir, "rpc"))
			os.Mkdir(filepath.Join(dir, "rpc"), 0o755)
			var data [][]byte
			files := map[string][]byte{}
			n := rapid.SampledFrom([]int{3, 2, 5, 1, 8, 12, 0}).Draw(rt, "files")
			if run > 0 && rapid.IntRange(0, 2).Draw(rt, "more certificates") == 0 {
				certs = append(certs, policyCert(rt))
			}
			for i := 0; i < n; i++ {
				pc := certs[i%len(certs)]
				if rapid.IntRange(0, 5).Draw(rt, "other") == 5 {
					pc = certs[rapid.IntRange(0, len(certs)-1).Draw(rt, "which")]
				}
				b := stored(pc)
				fn := filepath.Join(dir, "rpc", fmt.Sprintf("%c%d", 'a'+rune(rapid.IntRange(0, 20).Draw(rt, "name")), i))
				os.WriteFile(fn, b, 0o644)
				files[fn] = b
				data = append(data, b)
			}
			bad := rapid.IntRange(0, 15).Draw(rt, "unreadable") == 15
			if bad {
				fn := filepath.Join(dir, "rpc", fmt.Sprintf("%c", 'a'+rune(rapid.IntRange(0, 20).Draw(rt, "name"))))
				b := rapid.SampledFrom([]string{"", "{", `{"T":"pcsr","O":{}}`, `[]`, `{"T":"*pcrev","O":{}}`}).Draw(rt, "text")
				os.WriteFile(fn, []byte(b), 0o644)
				files[fn] = []byte(b)
			}
			f.plans = map[string]*plan{}
			for _, v := range data {
				p := &plan{}
				switch 11 - rapid.IntRange(0, 11).Draw(rt, "plan") {
				case 0, 1:
					p.queue = rapid.SampledFrom(refusals).Draw(rt, "code")
				case 2:
					p.proof = rapid.SampledFrom(refusals).Draw(rt, "code")
				case 3:
					p.notYet = rapid.IntRange(1, 3).Draw(rt, "not yet")
				default:
					continue
				}
				f.plans[string(v)] = p
			}
			f.queued, f.proofs, f.calls, f.polls, f.failAt, f.foreign = map[string]int{}, nil, 0, 0, 0, map[int]int{}
			f.idle = rapid.IntRange(0, 3).Draw(rt, "idle polls")
			if rapid.IntRange(0, 7).Draw(rt, "root fails") == 7 {
				f.failAt = rapid.IntRange(1, 4).Draw(rt, "at")
			}
			if n > 0 && rapid.IntRange(0, 3).Draw(rt, "others") == 3 {
				f.foreign[rapid.IntRange(1, n).Draw(rt, "when")] = rapid.IntRange(1, 3).Draw(rt, "how many")
			}
			bef := map[string]plan{}
			for _, v := range data {
				bef[string(v)] = *f.plan(v)
			}
			f.mu.Lock()
			lenBefore := len(f.leaves)
			pendBefore := len(f.pending)
			f.mu.Unlock()

			ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
			var res *client.QueueRPCResult
			var err error
			within("QueueRPCs", func() {
				out := os.Stdout // it prints its times
				os.Stdout = devNull
				defer func() { os.Stdout = out }()
				res, err = c.QueueRPCs(ctx)
			})
			if ctx.Err() != nil {
				rt.Fatalf("QueueRPCs waited until the end of its context, the log has integrated %d of %d leaves", len(f.leaves)-lenBefore, len(f.leaves)+len(f.pending)-lenBefore)
			}
			cancel()

			f.mu.Lock()
			for fn, b := range files { // never lost
				_, serr := os.Stat(fn)
				accepted := f.queued[string(b)] > 0 && bef[string(b)].queue == codes.OK
				if serr != nil && !accepted {
					rt.Fatalf("file %s was removed, although the log does not have it (result %+v, %v)", filepath.Base(fn), res, err)
				}
				if serr == nil && accepted {
					rt.Fatalf("file %s is still there, although the log has it (result %+v, %v)", filepath.Base(fn), res, err)
				}
			}
			if bad {
				classes["unreadable file"] = true
				if err == nil || len(f.queued) > 0 {
					rt.Fatalf("an unreadable file: error %v, %d leaves queued", err, len(f.queued))
				}
				f.mu.Unlock()
				continue
			}
			if f.failAt > 0 && f.polls >= f.failAt {
				classes["tree head fails"] = true
				if err == nil {
					rt.Fatalf("no error although the log did not give its tree head")
				}
				f.mu.Unlock()
				continue
			}
			if err != nil {
				rt.Fatalf("QueueRPCs: %v", err)
			}
			times, fresh := map[string]int{}, 0
			var wantFailed []string
			var wantCodes []error
			for _, v := range data {
				times[string(v)]++
				if p := bef[string(v)]; p.queue != codes.OK {
					wantFailed = append(wantFailed, string(v))
					wantCodes = append(wantCodes, status.Error(p.queue, ""))
				}
			}
			sort.Strings(wantFailed)
			for v, q := range times {
				if f.queued[v] != q {
					rt.Fatalf("a certificate was queued %d times, wanted %d", f.queued[v], q)
				}
				if q > 1 {
					classes["equal files"] = true
				}
			}
			if len(f.queued) != len(times) {
				rt.Fatalf("%d different leaves queued, wanted %d", len(f.queued), len(times))
			}
			if res.NumOfSucceedAddedLeaves != len(data)-len(wantFailed) || !same(strs(res.FailToAddLeaves), wantFailed) ||
				!same(codesOf(res.AddLeavesErrs), codesOf(wantCodes)) {
				rt.Fatalf("reported %d added, %d failed with %v; the log refused %d of %d with %v", res.NumOfSucceedAddedLeaves,
					len(res.FailToAddLeaves), codesOf(res.AddLeavesErrs), len(wantFailed), len(data), codesOf(wantCodes))
			}
			// everything accepted that the log was to append is there (if nobody else's leaves were counted in its place)
			_ = fresh
			if len(f.foreign) == 0 && pendBefore == 0 && len(f.pending) > 0 {
				rt.Fatalf("QueueRPCs did not wait: %d of its leaves are not integrated", len(f.pending))
			}
			size := int64(-1)
			for _, q := range f.proofs {
				if size >= 0 && q.size != size {
					rt.Fatalf("proofs asked for sizes %d and %d", size, q.size)
				}
				size = q.size
			}
			if len(f.foreign) > 0 {
				classes["others add leaves"] = true
			}
			if f.dedupe && len(f.leaves)+len(f.pending) < lenBefore+pendBefore+len(data)-len(wantFailed) {
				classes["leaf already in the log"] = true
			}
			if len(wantFailed) > 0 {
				classes["leaf refused"] = true
			}
			f.mu.Unlock()
			got := 0
			if len(data) > 0 {
				if size < 0 {
					rt.Fatalf("no proof was asked for")
				}
				// proofs of refused leaves may be asked for or not
				fl, fn, fe := res.FailToRetrievedLeaves, res.FailToRetrieveLeavesName, res.RetrieveLeavesErrs
				if len(fl) != len(fn) || len(fl) != len(fe) {
					rt.Fatalf("%d failed leaves, %d names, %d errors", len(fl), len(fn), len(fe))
				}
				failed := map[string]int{}
				for i, v := range fl {
					failed[string(v)]++
					if fn[i] != name(v) || fe[i] == nil {
						rt.Fatalf("failed leaf %s is named %s, error %v", name(v), fn[i], fe[i])
					}
				}
				f.mu.Lock()
				for v, q := range times {
					p := bef[v]
					ok := p.proof == codes.OK && len(f.genuine(leafHash([]byte(v)), int(size))) > 0
					if ok {
						got++
					}
					if p.queue != codes.OK {
						if ok { // it may have been asked for, or not
							got--
							res.NumOfRetrievedLeaves--
							if failed[v] != 0 {
								rt.Fatalf("proof of a leaf in the log reported as failed")
							}
						}
						continue
					}
					if (ok && failed[v] != 0) || (!ok && failed[v] != q) {
						rt.Fatalf("leaf in the log: %v, reported %d times as failed, is %d times in the list", ok, failed[v], q)
					}
				}
				f.mu.Unlock()
				if res.NumOfRetrievedLeaves != got {
					rt.Fatalf("%d leaves retrieved, the log gave proofs for %d", res.NumOfRetrievedLeaves, got)
				}
			}
			var cl []string
			for k := range classes {
				cl = append(cl, k)
			}
			rec.Case(fmt.Sprintf("%x %v", mth(f.hashes), cl), got >= 2, func() any {
				return map[string]any{"files": len(data), "refused": len(wantFailed), "retrieved": got, "log before": lenBefore, "pending before": pendBefore, "dedupe": f.dedupe, "classes": cl}
			}, cl...)
		}
	})
}

func TestQ01Tree(t *testing.T) {
	rec := vlib.New(t, "Q01", "a tree was created")
	dir := vlib.TempDir()
	defer os.RemoveAll(dir)
	vlib.Check(t, rec, func(rt *rapid.T) {
		f := newFake(rt)
		f.initFails = rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(rt, "init fails")
		if rapid.IntRange(0, 3).Draw(rt, "refused") == 0 {
			f.createErr = codes.PermissionDenied
		}
		addr, stop := f.serve()
		defer stop()
		out := filepath.Join(dir, "out")
		os.RemoveAll(out)
		missing := rapid.IntRange(0, 4).Draw(rt, "no folder") == 0
		if !missing {
			os.MkdirAll(filepath.Join(out, "trees_config"), 0o755)
		}
		text := rapid.StringOfN(rapid.RuneFrom([]rune("ab \"é{\\0")), 0, 12, -1)
		cfg := &client.AdminClientConfig{
			RpcMaxWaitingTimeInSec: rapid.IntRange(5, 9).Draw(rt, "wait"), LogAddress: addr, OutPutPath: out,
			DisplayName: text.Draw(rt, "name"), Description: text.Draw(rt, "description"),
		}
		if f.createErr != codes.OK {
			cfg.RpcMaxWaitingTimeInSec = 1
		}
		file := filepath.Join(dir, "admin.json")
		if err := client.SaveAdminClientConfigToFile(cfg, file); err != nil {
			rt.Fatalf("saving: %v", err)
		}
		a, err := client.GetAdminClient(file)
		if err != nil {
			rt.Fatalf("GetAdminClient: %v", err)
		}
		var tree *trillian.Tree
		within("CreateNewTree", func() { tree, err = a.CreateNewTree() })
		if (err != nil) != (missing || f.createErr != codes.OK) {
			rt.Fatalf("CreateNewTree: %v; refused: %v, no folder to write to: %v", err, f.createErr, missing)
		}
		if err == nil {
			if tree.TreeId != f.id || tree.DisplayName != cfg.DisplayName || tree.Description != cfg.Description ||
				tree.TreeType != trillian.TreeType_LOG || tree.TreeState != trillian.TreeState_ACTIVE || len(f.created) != 1 {
				rt.Fatalf("created %v (%d trees), configured %+v", tree, len(f.created), cfg)
			}
			if len(f.inited) != 1 || f.inited[0] != f.id {
				rt.Fatalf("initialised %v, not %d", f.inited, f.id)
			}
			b, err := os.ReadFile(filepath.Join(out, "trees_config", strconv.FormatInt(f.id, 10)))
			var back trillian.Tree
			if err != nil || json.Unmarshal(b, &back) != nil || back.TreeId != f.id || back.DisplayName != cfg.DisplayName || back.Description != cfg.Description {
				rt.Fatalf("the file of the tree reads %s (%v)", b, err)
			}
		}
		rec.Case(fmt.Sprint(f.id, cfg.DisplayName, cfg.Description), err == nil, func() any {
			return map[string]any{"tree": f.id, "name": cfg.DisplayName}
		})
	})
}
