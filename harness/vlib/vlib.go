// Package vlib is the shared part of the generated-input checks in /verif/harness: it counts what was
// generated, keeps samples, hands known findings and infrastructure failures to the runner, and wraps
// rapid.Check. It lives in a virtual package laid over /repo by the build overlay.
package vlib

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Rec accumulates the coverage of one test function of one property.
type Rec struct {
	mu       sync.Mutex
	Prop     string
	Test     string
	Rule     string
	evals    int
	hashes   map[uint64]struct{}
	classes  map[string]int
	samples  []any
	nsamples int
	known    map[string]string
	known0   map[string]int
	excluded map[string]int
}

func New(t testing.TB, prop, rule string) *Rec {
	r := &Rec{
		Prop: prop, Test: t.Name(), Rule: rule,
		hashes: map[uint64]struct{}{}, classes: map[string]int{},
		known: map[string]string{}, known0: map[string]int{}, excluded: map[string]int{},
	}
	t.Cleanup(func() { r.flush() })
	return r
}

// Case records one evaluated case: fingerprint identifies it, nontrivial tells whether it counts.
func (r *Rec) Case(fingerprint string, nontrivial bool, sample func() any, classes ...string) {
	h := fnv.New64a()
	h.Write([]byte(fingerprint))
	x := h.Sum64()
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	for _, c := range classes {
		r.classes[c]++
	}
	if !nontrivial {
		r.classes["trivial"]++
		return
	}
	if _, ok := r.hashes[x]; ok {
		return
	}
	r.hashes[x] = struct{}{}
	// A few samples, spread over the run: 1st, 2nd, 4th, 8th ... non-trivial case.
	n := len(r.hashes)
	if n&(n-1) == 0 && sample != nil && len(r.samples) < 14 {
		r.samples = append(r.samples, sample())
	}
}

// Class counts an event without counting a case.
func (r *Rec) Class(c string) {
	r.mu.Lock()
	r.classes[c]++
	r.mu.Unlock()
}

// Known returns true if the finding with this key is listed for the property; it is then counted and
// the caller must go on as if the behaviour were right. Otherwise the caller must fail.
func (r *Rec) Known(key, detail string) bool {
	if !knownListed(r.Prop, key) {
		return false
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.known0[key]++
	if _, ok := r.known[key]; !ok {
		r.known[key] = detail
	}
	return true
}

var knownOnce sync.Once
var knownSet map[string]bool

func knownListed(prop, key string) bool {
	knownOnce.Do(func() {
		knownSet = map[string]bool{}
		data, err := os.ReadFile(os.Getenv("VERIF_KNOWN"))
		if err != nil {
			return
		}
		for _, l := range strings.Split(string(data), "\n") {
			f := strings.Fields(l)
			if len(f) >= 3 && f[0] == "known:" {
				knownSet[strings.TrimPrefix(f[1], "property=")+"/"+strings.TrimPrefix(f[2], "key=")] = true
			}
		}
	})
	return knownSet[prop+"/"+key]
}

func (r *Rec) flush() {
	dir := os.Getenv("VERIF_OUT")
	if dir == "" {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	hs := make([]uint64, 0, len(r.hashes))
	for h := range r.hashes {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	buf := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(buf[8*i:], h)
	}
	base := filepath.Join(dir, r.Prop+"."+strings.ReplaceAll(r.Test, "/", "_"))
	_ = os.WriteFile(base+".hashes", buf, 0o644)
	out, _ := json.Marshal(map[string]any{
		"property": r.Prop, "test": r.Test, "rule": r.Rule, "evaluations": r.evals,
		"classes": r.classes, "samples": r.samples, "known": r.known, "known_counts": r.known0,
		"wall": time.Since(start).Seconds(),
	})
	_ = os.WriteFile(base+".json", out, 0o644)
}

var start = time.Now()
var stderr = os.Stderr // also when a test silences it

// Check runs prop as a rapid property.
func Check(t *testing.T, r *Rec, prop func(t *rapid.T)) {
	t.Helper()
	// A case that does not end is a violation too. The seconds are counted, so that the time does not count in which
	// the machine is stopped.
	limit := int64(Scale(240, 900))
	var ticks, begun atomic.Int64
	var running atomic.Bool
	end := make(chan struct{})
	defer close(end)
	go func() {
		for {
			select {
			case <-end:
				return
			case <-time.After(time.Second):
			}
			if n := ticks.Add(1); running.Load() && n-begun.Load() > limit {
				Hang(r.Prop, fmt.Sprintf("%s: one case has not ended after %d s", t.Name(), limit))
			}
		}
	}()
	rapid.Check(t, func(rt *rapid.T) {
		begun.Store(ticks.Load())
		running.Store(true)
		defer running.Store(false)
		prop(rt)
	})
}

// Infra ends the process in a way the runner maps to an error (not a violation).
func Infra(format string, args ...any) {
	fmt.Fprintf(stderr, "\nVERIF-INFRA: "+format+"\n", args...)
	os.Exit(3)
}

// Hang ends the process reporting that the code under test did not end; the runner maps this to a
// violation. The limit given must be far above any possible honest duration.
func Hang(prop, what string) {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	fmt.Fprintf(stderr, "\nVERIF-HANG: property=%s %s\n%s\n", prop, what, buf[:n])
	os.Exit(4)
}

// Within runs f, and reports a hang of the code under test if f has not returned after d. It loads
// the machine check: when the process got no CPU the wait is extended.
func Within(prop, what string, d time.Duration, f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	timer := time.NewTimer(d)
	defer timer.Stop()
	select {
	case p := <-done:
		if p != nil {
			panic(p)
		}
	case <-timer.C:
		Hang(prop, what)
	}
}

// NoPanic runs f and returns a description of the panic, if any.
func NoPanic(f func()) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(runtime.Error); ok || true {
				buf := make([]byte, 4096)
				n := runtime.Stack(buf, false)
				msg = fmt.Sprintf("panic: %v\n%s", p, buf[:n])
			}
		}
	}()
	f()
	return ""
}

// Thorough tells whether this is the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Scale returns q in the quick tier and th in the thorough tier.
func Scale(q, th int) int {
	if Thorough() {
		return th
	}
	return q
}

// Seed returns the seed of this shard.
func Seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SHARD_SEED"), 10, 64)
	return n
}

// TempDir returns a scratch directory of this process.
func TempDir() string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	p, err := os.MkdirTemp(d, "case")
	if err != nil {
		Infra("mkdir: %v", err)
	}
	return p
}

func Hex(b []byte) string {
	if len(b) > 8 {
		return fmt.Sprintf("%x..(%d)", b[:8], len(b))
	}
	return fmt.Sprintf("%x", b)
}
