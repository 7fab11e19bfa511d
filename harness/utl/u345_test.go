package utl

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/cache"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/pkg/util/noallocs"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// ---------------------------------------------------------------- U03

func TestU03Dedup(t *testing.T) {
	rec := vlib.New(t, "U03", "at least three elements of which two are equal")
	vlib.Check(t, rec, func(rt *rapid.T) {
		m := rapid.SliceOfN(rapid.IntRange(0, 6), 0, 14).Draw(rt, "master")
		// The aligned slices identify the position, so a mix-up of positions is seen.
		s1, s2 := make([]string, len(m)), make([]*int, len(m))
		ptrs := make([]*int, len(m))
		for i := range m {
			s1[i] = fmt.Sprintf("%d@%d", m[i], i)
			v, w := m[i], i
			ptrs[i], s2[i] = &v, &w
		}
		orig := append([]int{}, m...)
		how := rapid.IntRange(0, 2).Draw(rt, "how")
		storage := map[int]struct{}{}
		for _, k := range rapid.SliceOfN(rapid.IntRange(0, 6), 0, 3).Draw(rt, "used") {
			storage[k] = struct{}{} // left over from another use
		}
		if msg := vlib.NoPanic(func() {
			switch how {
			case 0:
				util.DeduplicateSlice(util.WithSlice(m), util.Wrap(&m), util.Wrap(&s1), util.Wrap(&s2), util.Wrap(&ptrs))
			case 1:
				util.DeduplicateSlice(util.WithSlicePtr(ptrs), util.Wrap(&ptrs), util.Wrap(&s1), util.Wrap(&m), util.Wrap(&s2))
			default:
				util.DeduplicateSliceWithStorage(storage, util.WithSlice(m), util.Wrap(&m), util.Wrap(&s1), util.Wrap(&s2), util.Wrap(&ptrs))
			}
		}); msg != "" {
			rt.Fatalf("deduplicating %v: %s", orig, msg)
		}
		distinct := map[int]bool{}
		for _, v := range orig {
			distinct[v] = true
		}
		if len(m) != len(distinct) || len(s1) != len(m) || len(s2) != len(m) || len(ptrs) != len(m) {
			rt.Fatalf("deduplicating %v yields %v with aligned %q (lengths %d, %d)", orig, m, s1, len(s2), len(ptrs))
		}
		seen := map[int]bool{}
		for i, v := range m {
			if seen[v] || *s2[i] >= len(orig) || orig[*s2[i]] != v || s1[i] != fmt.Sprintf("%d@%d", v, *s2[i]) || *ptrs[i] != v {
				rt.Fatalf("deduplicating %v yields %v with aligned %q", orig, m, s1)
			}
			seen[v] = true
		}
		rec.Case(fmt.Sprint(orig, how), len(orig) > 2 && len(distinct) < len(orig), func() any { return fmt.Sprintf("%v -> %q", orig, s1) })
	})
}

func TestU03Slices(t *testing.T) {
	rec := vlib.New(t, "U03", "at least three elements")
	vlib.Check(t, rec, func(rt *rapid.T) {
		a := rapid.SliceOfN(rapid.IntRange(-5, 5), 0, 20).Draw(rt, "a")
		sorted := append([]int{}, a...)
		if got := util.Qsort(sorted); !slices.IsSorted(got) || !sameInts(got, a) || !slices.Equal(got, sorted) {
			rt.Fatalf("sorting %v: %v", a, got)
		}
		// Removal of elements at distinct positions.
		s := make([]int, len(a))
		for i := range s {
			s[i] = i
		}
		var rm []int
		for i := range s {
			if rapid.IntRange(0, 2).Draw(rt, "rm") == 0 {
				rm = append(rm, i)
			}
		}
		perm := rapid.Permutation(append([]int{}, rm...)).Draw(rt, "perm")
		var want []int
		for i := range s {
			if !slices.Contains(rm, i) {
				want = append(want, i)
			}
		}
		in := append([]int{}, s...)
		if msg := vlib.NoPanic(func() { util.RemoveElementsFromSlice(&in, append([]int{}, perm...)) }); msg != "" || !sameInts(in, want) {
			rt.Fatalf("removing positions %v from %d elements leaves %v %s", perm, len(s), in, msg)
		}
		if len(s) > 0 {
			k := rapid.IntRange(0, len(s)-1).Draw(rt, "one")
			in := append([]int{}, s...)
			util.RemoveElemFromSlice(&in, k)
			if want := append(append([]int{}, s[:k]...), s[k+1:]...); !sameInts(in, want) {
				rt.Fatalf("removing position %d from %d elements leaves %v", k, len(s), in)
			}
		}
		n := rapid.IntRange(0, 30).Draw(rt, "size")
		r := append(make([]int, 0, rapid.IntRange(0, 30).Draw(rt, "cap")), a...)
		if cap(r) > len(r) { // dirt behind the end
			x := r[:cap(r)]
			for i := len(r); i < cap(r); i++ {
				x[i] = 77
			}
		}
		util.ResizeSlice(&r, n, -9)
		for i := range r {
			if i < len(a) && r[i] != a[i] || i >= len(a) && r[i] != -9 {
				rt.Fatalf("resizing %v to %d: %v", a, n, r)
			}
		}
		if len(r) != n {
			rt.Fatalf("resizing %v to %d: %v", a, n, r)
		}
		// Conversions.
		mixed := make([]any, len(a))
		var ints []int
		for i, v := range a {
			if v < -3 {
				mixed[i] = fmt.Sprint(v)
			} else {
				mixed[i] = v
				ints = append(ints, v)
			}
		}
		conv, rest := util.SliceToTypedSlice[int](mixed)
		if !slices.Equal(conv, ints) || len(rest) != len(a)-len(ints) {
			rt.Fatalf("converting %v: %v, %v", mixed, conv, rest)
		}
		for _, e := range rest {
			if _, ok := e.(string); !ok {
				rt.Fatalf("converting %v leaves %v", mixed, rest)
			}
		}
		all, err := util.ToTypedSlice[int](mixed)
		if (err == nil) != (len(rest) == 0) || err == nil && !slices.Equal(all, ints) {
			rt.Fatalf("converting %v: %v, %v", mixed, all, err)
		}
		rec.Case(fmt.Sprint(a, perm, n), len(a) > 2, func() any { return fmt.Sprintf("%v remove %v", a, perm) })
	})
}

func sameInts(a, b []int) bool {
	a, b = append([]int{}, a...), append([]int{}, b...)
	sort.Ints(a)
	sort.Ints(b)
	return slices.Equal(a, b)
}

func TestU03IDs(t *testing.T) {
	rec := vlib.New(t, "U03", "at least two identifiers")
	vlib.Check(t, rec, func(rt *rapid.T) {
		n := rapid.IntRange(0, 8).Draw(rt, "n")
		ids := make([]common.SHA256Output, n)
		for i := range ids {
			// Differences are at the beginning, in the middle, or at the end.
			ids[i][rapid.SampledFrom([]int{0, 1, 15, 30, 31}).Draw(rt, "at")] = rapid.SampledFrom([]byte{0, 1, 0x7f, 0x80, 0xff}).Draw(rt, "v")
			ids[i][5] = byte(i)
		}
		in := append([]common.SHA256Output{}, ids...)
		glued := common.SortIDsAndGlue(in)
		hash := common.SortIDsAndHash(in)
		if !slices.Equal(in, ids) {
			rt.Fatalf("sorting identifiers alters the original")
		}
		w := append([]common.SHA256Output{}, ids...)
		sort.Slice(w, func(i, j int) bool { return string(w[i][:]) < string(w[j][:]) })
		var want []byte
		for _, id := range w {
			want = append(want, id[:]...)
		}
		if !bytes.Equal(glued, want) {
			rt.Fatalf("sorting and joining %x: %x", ids, glued)
		}
		if n > 0 && !bytes.Equal(hash, common.SHA256Hash(want)) || n == 0 && len(hash) != 0 {
			rt.Fatalf("hash of %x: %x", ids, hash)
		}
		if back := common.BytesToIDs(common.IDsToBytes(ids)); !slices.Equal(back, ids) {
			rt.Fatalf("%x joined and split is %x", ids, back)
		}
		// The order given does not matter.
		p := rapid.Permutation(append([]common.SHA256Output{}, ids...)).Draw(rt, "perm")
		if !bytes.Equal(common.SortIDsAndGlue(p), glued) || !bytes.Equal(common.SortIDsAndHash(p), hash) {
			rt.Fatalf("the order of %x matters", ids)
		}
		rec.Case(fmt.Sprintf("%x", ids), n > 1, func() any { return fmt.Sprintf("%d ids", n) })
	})
}

func TestU03Errors(t *testing.T) {
	rec := vlib.New(t, "U03", "at least two errors that are not nil")
	vlib.Check(t, rec, func(rt *rapid.T) {
		pool := []error{nil, errors.New("a"), errors.New("b"), errors.New("a"), errors.New("c")}
		var gen func(depth int) (error, []error)
		gen = func(depth int) (error, []error) {
			if depth > 0 && rapid.IntRange(0, 3).Draw(rt, "nest") == 0 {
				var errs, flat []error
				for i := rapid.IntRange(0, 3).Draw(rt, "k"); i > 0; i-- {
					e, f := gen(depth - 1)
					errs, flat = append(errs, e), append(flat, f...)
				}
				return util.ErrorsCoalesce(errs...), flat
			}
			e := rapid.SampledFrom(pool).Draw(rt, "e")
			if e == nil {
				return nil, nil
			}
			return e, []error{e}
		}
		var errs, flat []error
		for i := rapid.IntRange(0, 5).Draw(rt, "n"); i > 0; i-- {
			e, f := gen(2)
			errs, flat = append(errs, e), append(flat, f...)
		}
		err := util.ErrorsCoalesce(errs...)
		if (err == nil) != (len(flat) == 0) {
			rt.Fatalf("coalescing %v: %v", flat, err)
		}
		if err != nil {
			msgs := map[string]bool{}
			for _, e := range flat {
				msgs[e.Error()] = true
			}
			lines := strings.Split(err.Error(), "\n")
			if len(msgs) > 1 {
				if !strings.Contains(lines[0], fmt.Sprint(len(msgs))) {
					rt.Fatalf("coalescing %v: %q", flat, err)
				}
				lines = lines[1:]
			}
			if len(lines) != len(msgs) {
				rt.Fatalf("coalescing %v: %q", flat, err)
			}
			for _, l := range lines {
				if !msgs[l] {
					rt.Fatalf("coalescing %v: %q", flat, err)
				}
			}
			for m := range msgs {
				found := false
				for _, e := range flat {
					found = found || e.Error() == m && errors.Is(err, e)
				}
				if !found {
					rt.Fatalf("the coalesced error of %v is not %q", flat, m)
				}
			}
		}
		rec.Case(fmt.Sprint(errs), len(flat) > 1, func() any { return fmt.Sprint(flat) })
	})
}

func TestU03Channels(t *testing.T) {
	rec := vlib.New(t, "U03", "at least two channels")
	vlib.Check(t, rec, func(rt *rapid.T) {
		n := rapid.IntRange(0, 6).Draw(rt, "n")
		chs := make([]chan int, n)
		for i := range chs {
			chs[i] = make(chan int, rapid.IntRange(0, 1).Draw(rt, "cap"))
		}
		order := rapid.Permutation(append([]chan int{}, chs...)).Draw(rt, "order")
		done := make(chan struct{})
		go func() { util.SendToAllChannels(chs, 42); close(done) }()
		vlib.Within("U03", "sending to all channels", time.Minute, func() {
			for i, ch := range order {
				if i == len(order)-1 && cap(ch) == 0 {
					select {
					case <-done:
						rt.Fatalf("SendToAllChannels returned before the value was received by all")
					default:
					}
				}
				if v := <-ch; v != 42 {
					rt.Fatalf("received %d", v)
				}
			}
			<-done
		})
		rec.Case(fmt.Sprint(n), n > 1, func() any { return n })
	})
}

func TestU03Math(t *testing.T) {
	rec := vlib.New(t, "U03", "the argument is over 1")
	vlib.Check(t, rec, func(rt *rapid.T) {
		n := uint(rapid.Uint64Range(0, 1<<63).Draw(rt, "n"))
		if rapid.Bool().Draw(rt, "edge") {
			n = uint(1)<<rapid.IntRange(0, 62).Draw(rt, "bit") + uint(rapid.IntRange(0, 2).Draw(rt, "d")) - 1
		}
		want := uint(0)
		if n > 0 {
			want = uint(new(big.Int).SetUint64(uint64(n - 1)).BitLen())
		}
		if got := util.Log2(n); got != want {
			rt.Fatalf("Log2(%d) = %d, want %d", n, got, want)
		}
		x, e := int64(rapid.IntRange(-12, 12).Draw(rt, "x")), uint(rapid.IntRange(0, 17).Draw(rt, "e"))
		p := new(big.Int).Exp(big.NewInt(x), new(big.Int).SetUint64(uint64(e)), nil)
		if got := util.Pow(x, e); p.IsInt64() && got != p.Int64() {
			rt.Fatalf("Pow(%d, %d) = %d", x, e, got)
		}
		rec.Case(fmt.Sprint(n, x, e), n > 1, func() any { return fmt.Sprint(n, x, e) })
	})
}

// ---------------------------------------------------------------- U04

var refDur = regexp.MustCompile(`^(-?[0-9]+)(y|w|d|h|m|s|ms|us|µs|ns)$`)
var refUnits = map[string]int64{"ns": 1, "us": 1e3, "µs": 1e3, "ms": 1e6, "s": 1e9, "m": 60e9, "h": 3600e9, "d": 24 * 3600e9, "w": 7 * 24 * 3600e9, "y": 365 * 24 * 3600e9}

func refParse(s string) (time.Duration, bool) {
	m := refDur.FindStringSubmatch(s)
	if m == nil {
		return 0, false
	}
	n, _ := new(big.Int).SetString(m[1], 10)
	n.Mul(n, big.NewInt(refUnits[m[2]]))
	return time.Duration(n.Int64()), n.IsInt64()
}

func TestU04Durations(t *testing.T) {
	rec := vlib.New(t, "U04", "the text is malformed, or the duration is not a round number of seconds")
	units := []string{"y", "w", "d", "h", "m", "s", "ms", "us", "µs", "ns", "", "S", "min", "µ", "1s"}
	vlib.Check(t, rec, func(rt *rapid.T) {
		var s string
		switch rapid.IntRange(0, 3).Draw(rt, "kind") {
		case 0:
			s = rapid.StringOfN(rapid.SampledFrom([]rune("-+0123456789ywdhmsnuµ. _")), 0, 6, -1).Draw(rt, "text")
		case 1:
			s = rapid.StringMatching(`-{0,2}[0-9]{0,3}-?[0-9]{1,21}`).Draw(rt, "num") + rapid.SampledFrom(units).Draw(rt, "unit")
		default:
			s = fmt.Sprint(rapid.Int64Range(-400, 40000).Draw(rt, "n")) + rapid.SampledFrom(units).Draw(rt, "unit")
		}
		want, ok := refParse(s)
		got, err := util.ParseDuration(s)
		if ok != (err == nil) {
			rt.Fatalf("ParseDuration(%q) = %v, %v", s, got, err)
		}
		if ok && got != want {
			rt.Fatalf("ParseDuration(%q) = %v, want %v", s, got, want)
		}
		var d time.Duration
		switch rapid.IntRange(0, 2).Draw(rt, "dkind") {
		case 0:
			d = time.Duration(rapid.Int64().Draw(rt, "any"))
		case 1:
			d = time.Duration(rapid.SampledFrom([]int64{math.MinInt64, math.MaxInt64, 0, 1, -1, 1e9, 365 * 24 * 3600e9}).Draw(rt, "edge"))
		default:
			us := []int64{1, 1e3, 1e6, 1e9, 60e9, 3600e9, 24 * 3600e9, 7 * 24 * 3600e9, 365 * 24 * 3600e9}
			d = time.Duration(rapid.SampledFrom(us).Draw(rt, "u") * rapid.Int64Range(-250, 250).Draw(rt, "n"))
		}
		text := util.FmtDuration(d)
		back, err := util.ParseDuration(text)
		if err != nil || back != d {
			rt.Fatalf("%d ns is written as %q, and read as %d ns, %v", int64(d), text, int64(back), err)
		}
		w := util.DurationWrap{Duration: d}
		js, err := json.Marshal(map[string]any{"d": w})
		if err != nil {
			rt.Fatalf("marshalling %v: %v", d, err)
		}
		var x struct{ D util.DurationWrap }
		if err := json.Unmarshal(js, &x); err != nil || x.D.Duration != d || w.String() != text {
			rt.Fatalf("duration %v as JSON is %s, and is read as %v, %v", d, js, x.D, err)
		}
		var f util.DurationWrap
		if err := f.Set(s); (err == nil) != ok || ok && f.Duration != want {
			rt.Fatalf("Set(%q): %v, %v", s, f.Duration, err)
		}
		rec.Case(s+"/"+text, !ok || d%time.Second != 0, func() any { return fmt.Sprintf("%q %s", s, text) }, fmt.Sprintf("well-formed-%v", ok))
	})
}

func TestU04TimeOfDay(t *testing.T) {
	rec := vlib.New(t, "U04", "the time of day has a fraction of a second, or is malformed")
	vlib.Check(t, rec, func(rt *rapid.T) {
		h, m, s := rapid.UintRange(0, 25).Draw(rt, "h"), rapid.UintRange(0, 61).Draw(rt, "m"), rapid.UintRange(0, 61).Draw(rt, "s")
		ns := rapid.SampledFrom([]uint{1, 1000, 1e6, 1e9}).Draw(rt, "unit") * rapid.UintRange(0, 999).Draw(rt, "frac") % 1e9
		tod := util.NewTimeOfDay(h, m, s, ns)
		wh, wm, ws := min(h, 23), min(m, 59), min(s, 59)
		check := func(x util.TimeOfDayWrap, how string) {
			if uint(x.Hour()) != wh || uint(x.Minute()) != wm || uint(x.Second()) != ws || uint(x.Nanosecond()) != ns {
				rt.Fatalf("time of day %d:%d:%d and %d ns is %v (%s)", h, m, s, ns, x, how)
			}
		}
		check(tod, "made")
		text, err := tod.MarshalText()
		if err != nil {
			rt.Fatalf("%v", err)
		}
		var back, back2, back3 util.TimeOfDayWrap
		if err := back.UnmarshalText(text); err != nil {
			rt.Fatalf("reading %q: %v", text, err)
		}
		check(back, "read from text")
		js, err := json.Marshal(tod)
		if err != nil {
			rt.Fatalf("%v", err)
		}
		if err := json.Unmarshal(js, &back2); err != nil {
			rt.Fatalf("reading %s: %v", js, err)
		}
		check(back2, "read from JSON")
		if err := back3.Set(tod.String()); err != nil {
			rt.Fatalf("reading %s: %v", tod, err)
		}
		check(back3, "read from a flag")
		// Malformed.
		txt := rapid.StringOfN(rapid.SampledFrom([]rune("0123456789:. -")), 0, 10, -1).Draw(rt, "text")
		good := regexp.MustCompile(`^([01][0-9]|2[0-3]|[0-9]):[0-5][0-9]:[0-5][0-9]([.][0-9]+)?$`).MatchString(txt)
		if err := back3.Set(txt); (err == nil) != good {
			// The standard library decides which lengths of each part are accepted.
			if _, err2 := time.Parse(time.TimeOnly, txt); (err == nil) != (err2 == nil) {
				rt.Fatalf("time of day %q: %v", txt, err)
			}
		}
		rec.Case(string(text)+txt, ns != 0 || !good, func() any { return string(text) })
	})
}

func TestU04Next(t *testing.T) {
	rec := vlib.New(t, "U04", "the local time zone is not UTC")
	saved := time.Local
	defer func() { time.Local = saved }()
	vlib.Check(t, rec, func(rt *rapid.T) {
		zone := rapid.IntRange(-14*4, 14*4).Draw(rt, "zone") * 900
		wait := time.Duration(rapid.Int64Range(0, 3*24*3600*1000).Draw(rt, "wait")) * time.Millisecond
		h, m, s := rapid.UintRange(0, 23).Draw(rt, "h"), rapid.UintRange(0, 59).Draw(rt, "m"), rapid.UintRange(0, 59).Draw(rt, "s")
		ns := rapid.SampledFrom([]uint{0, 1, 5e8, 999_999_999}).Draw(rt, "ns")
		if rapid.IntRange(0, 3).Draw(rt, "exact") == 0 {
			wait, ns = wait.Truncate(time.Second), 0
			sec := uint(wait/time.Second) % 86400
			h, m, s = sec/3600, sec/60%60, sec%60 // the time of day is now
		}
		var fail string
		synctest.Test(t, func(*testing.T) {
			time.Sleep(wait) // in virtual time, which starts at midnight
			time.Local = time.FixedZone("local", zone)
			defer func() { time.Local = saved }()
			now := time.Now()
			next := util.NewTimeOfDay(h, m, s, ns).NextTimeOfDay()
			u := next.UTC()
			switch {
			case next.Before(now):
				fail = "is in the past"
			case next.Sub(now) > 24*time.Hour:
				fail = "is more than a day ahead"
			case uint(u.Hour()) != h || uint(u.Minute()) != m || uint(u.Second()) != s || uint(u.Nanosecond()) != ns:
				fail = "is at another time of day"
			}
			if fail != "" {
				fail = fmt.Sprintf("at %s the next %d:%d:%d.%09d is %s, which %s", now, h, m, s, ns, next, fail)
			}
		})
		if fail != "" {
			rt.Fatalf("%s", fail)
		}
		rec.Case(fmt.Sprint(zone, wait, h, m, s, ns), zone != 0, func() any { return fmt.Sprintf("zone %ds, after %v, %d:%d:%d", zone, wait, h, m, s) })
	})
}

func TestU04Periodic(t *testing.T) {
	rec := vlib.New(t, "U04", "a run lasts longer than the period, or the context ends before the start or during a run")
	vlib.Check(t, rec, func(rt *rapid.T) {
		when := time.Duration(rapid.IntRange(-50, 200).Draw(rt, "when")) * 100 * time.Millisecond
		repeat := time.Duration(rapid.IntRange(1, 40).Draw(rt, "repeat")) * 100 * time.Millisecond
		durs := rapid.SliceOfN(rapid.IntRange(0, 100), 1, 6).Draw(rt, "durations")
		cancelAt := time.Duration(rapid.IntRange(0, 400).Draw(rt, "cancel"))*100*time.Millisecond + 50*time.Millisecond
		var starts, ends []time.Duration
		var fail string
		overlap := false
		synctest.Test(t, func(*testing.T) {
			ctx, cancel := context.WithCancel(context.Background())
			t0 := time.Now()
			running := false
			util.RunWhen(ctx, t0.Add(when), repeat, func(context.Context) {
				if running {
					fail = "runs at the same time as itself"
				}
				running = true
				starts = append(starts, time.Since(t0))
				// Offsets of 20 ms, so that ends and ticks do not coincide.
				if d := durs[(len(starts)-1)%len(durs)]; d > 0 {
					time.Sleep(time.Duration(d)*100*time.Millisecond - 20*time.Millisecond)
				}
				ends = append(ends, time.Since(t0))
				running = false
			})
			time.Sleep(cancelAt)
			cancel()
			time.Sleep(time.Hour)
		})
		first := max(when, 0)
		// The reference: runs start at ticks first + k*repeat; a tick during a run makes one
		// run immediately after it; nothing starts after the cancellation.
		var want []time.Duration
		at := first
		for k := 0; at < cancelAt; {
			want = append(want, at)
			end := at
			if d := durs[(len(want)-1)%len(durs)]; d > 0 {
				end += time.Duration(d)*100*time.Millisecond - 20*time.Millisecond
			}
			overlap = overlap || end > first+time.Duration(k+1)*repeat || end > cancelAt
			next := first + time.Duration(k+1)*repeat
			if end < next {
				k, at = k+1, next
			} else {
				// The oldest tick not yet used is waiting; the ones after it were dropped.
				k, at = int((end-first)/repeat), end
			}
		}
		if fail == "" && fmt.Sprint(starts) != fmt.Sprint(want) {
			fail = fmt.Sprintf("runs started at %v, want %v", starts, want)
		}
		desc := fmt.Sprintf("start at %v, every %v, runs of %v*100ms, cancelled at %v", when, repeat, durs, cancelAt)
		if fail != "" {
			rt.Fatalf("%s: %s", desc, fail)
		}
		rec.Case(desc, overlap || cancelAt < when, func() any { return desc }, fmt.Sprintf("cancelled-before-start-%v", cancelAt < when))
	})
}

// ---------------------------------------------------------------- U05

func cid(i int) *common.SHA256Output {
	id := common.SHA256Hash32Bytes([]byte(fmt.Sprint(i)))
	return &id
}

func TestU05Model(t *testing.T) {
	rec := vlib.New(t, "U05", "more distinct elements than the cache holds, or a lookup of an element not added")
	vlib.Check(t, rec, func(rt *rapid.T) {
		size := rapid.IntRange(1, 6).Draw(rt, "size")
		lru := cache.NewLruCache(size)
		pres := cache.NewPresenceCache(rapid.IntRange(0, 4).Draw(rt, "presence"))
		no := cache.NewNoCache()
		var order []int // by time of addition, oldest first
		added := map[int]bool{}
		nt := false
		hist := ""
		for i := rapid.IntRange(1, 25).Draw(rt, "ops"); i > 0; i-- {
			if rapid.Bool().Draw(rt, "add") {
				ks := rapid.SliceOfN(rapid.IntRange(0, 9), 0, 4).Draw(rt, "keys")
				ids := make([]*common.SHA256Output, len(ks))
				for j, k := range ks {
					ids[j] = cid(k)
					added[k] = true
					if p := slices.Index(order, k); p >= 0 {
						order = slices.Delete(order, p, p+1)
					}
					order = append(order, k)
				}
				lru.AddIDs(ids...)
				pres.AddIDs(ids...)
				no.AddIDs(ids...)
				for _, id := range ids {
					*id = common.SHA256Output{} // the caller reuses its memory
				}
				hist += fmt.Sprint("+", ks)
			}
			nt = nt || len(added) > size
			for k := 0; k < 10; k++ {
				id := cid(k)
				inLru := slices.Contains(order[max(0, len(order)-size):], k)
				if lru.Contains(id) != inLru {
					rt.Fatalf("size %d, %s: the LRU cache says %v about %d", size, hist, !inLru, k)
				}
				if pres.Contains(id) != added[k] {
					rt.Fatalf("%s: the presence cache says %v about %d", hist, !added[k], k)
				}
				if no.Contains(id) {
					rt.Fatalf("the empty cache contains %d", k)
				}
				nt = nt || !added[k]
			}
			if pres.Size() != len(added) {
				rt.Fatalf("%s: the presence cache has size %d", hist, pres.Size())
			}
		}
		rec.Case(fmt.Sprint(size, hist), nt, func() any { return fmt.Sprintf("size %d %s", size, hist) })
	})
}

func TestU05Ring(t *testing.T) {
	rec := vlib.New(t, "U05", "more steps than elements")
	vlib.Check(t, rec, func(rt *rapid.T) {
		n := rapid.IntRange(1, 6).Draw(rt, "n")
		made := 0
		rc := noallocs.NewRingCache(n, noallocs.WithPerNewElement(func(b *[]byte) { made++; *b = []byte{byte(made)} }))
		if made != n {
			rt.Fatalf("%d of %d elements were made", made, n)
		}
		at, steps := 0, ""
		k := rapid.IntRange(0, 20).Draw(rt, "steps")
		for i := 0; i < k; i++ {
			var e []byte
			if op := rapid.IntRange(0, 2).Draw(rt, "op"); op == 0 {
				e = rc.Rotate()
				steps += "r"
				if int(e[0]) != at+1 {
					rt.Fatalf("ring of %d after %s yields element %d", n, steps, e[0])
				}
				at = (at + 1) % n
			} else if op == 1 {
				rc.Next()
				steps += "n"
				at = (at + 1) % n
			}
			if e = rc.Current(); int(e[0]) != at+1 {
				rt.Fatalf("ring of %d after %s is at element %d", n, steps, e[0])
			}
		}
		rec.Case(fmt.Sprint(n, steps), len(steps) > n, func() any { return fmt.Sprint(n, steps) })
	})
}

// TestU05Concurrent is built with the race detector.
func TestU05Concurrent(t *testing.T) {
	rec := vlib.New(t, "U05", "at least two writers and two readers")
	vlib.Check(t, rec, func(rt *rapid.T) {
		writers, readers := rapid.IntRange(1, 4).Draw(rt, "writers"), rapid.IntRange(1, 4).Draw(rt, "readers")
		batches, per := rapid.IntRange(1, 30).Draw(rt, "batches"), rapid.IntRange(1, 5).Draw(rt, "per")
		total := writers * batches * per
		lru := rapid.Bool().Draw(rt, "lru")
		var c cache.Cache
		if lru {
			c = cache.NewLruCache(total)
		} else {
			c = cache.NewPresenceCache(rapid.IntRange(0, 10).Draw(rt, "size"))
		}
		ids := make([]*common.SHA256Output, total+10)
		for i := range ids {
			ids[i] = cid(i)
		}
		// done[w] is the number of batches of writer w that were added for sure, begun[w] of those begun.
		var mu sync.Mutex
		done, begun := make([]int, writers), make([]int, writers)
		var fail string
		report := func(s string) { mu.Lock(); fail = s; mu.Unlock() }
		stop := make(chan struct{})
		var ww, rw sync.WaitGroup
		vlib.Within("U05", "concurrent use of a cache", 5*time.Minute, func() {
			for w := 0; w < writers; w++ {
				ww.Add(1)
				go func() {
					defer ww.Done()
					for b := 0; b < batches; b++ {
						mu.Lock()
						begun[w]++
						mu.Unlock()
						at := (w*batches + b) * per
						c.AddIDs(ids[at : at+per]...)
						if !c.Contains(ids[at+per-1]) {
							report("an element just added is absent")
						}
						mu.Lock()
						done[w]++
						mu.Unlock()
					}
				}()
			}
			for r := 0; r < readers; r++ {
				rw.Add(1)
				go func() {
					defer rw.Done()
					for i := r; ; i++ {
						select {
						case <-stop:
							return
						default:
						}
						k := i * 7 % (total + 10)
						mu.Lock()
						isDone := k < total && k%(batches*per)/per < done[k/(batches*per)]
						mu.Unlock()
						has := c.Contains(ids[k])
						mu.Lock()
						isBegun := k < total && k%(batches*per)/per < begun[k/(batches*per)]
						mu.Unlock()
						if isDone && !has {
							report("an element added before is absent")
						}
						if has && !isBegun {
							report("an element not added is present")
						}
					}
				}()
			}
			ww.Wait()
			close(stop)
			rw.Wait()
		})
		for k := range ids {
			if c.Contains(ids[k]) != (k < total) {
				fail = fmt.Sprintf("in the end, presence of element %d of %d is %v", k, total, k >= total)
			}
		}
		if fail != "" {
			rt.Fatalf("%d writers, %d readers, lru %v: %s", writers, readers, lru, fail)
		}
		rec.Case(fmt.Sprint(writers, readers, batches, per, lru), writers > 1 && readers > 1, func() any {
			return fmt.Sprintf("%d writers of %d batches of %d, %d readers, lru %v", writers, batches, per, readers, lru)
		})
	})
}
