package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/cmd/ingest/journal"
	"github.com/netsec-ethz/fpki/pkg/statistics"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// TestI04Runs: wholeRuns drives whole runs of the ingestion, with stand-ins for the work on batches, through
// histories with failures and interruptions, and compares what every run works on with a model.
func TestI04Runs(t *testing.T) { wholeRuns(t, "I04") }

// TestI05Runs: the same, for what the program promises of a run that fails or is interrupted between its steps.
func TestI05Runs(t *testing.T) { wholeRuns(t, "I05") }

func wholeRuns(t *testing.T, prop string) {
	rec := vlib.New(t, prop, "histories with at least two runs, one of which did not complete")
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	stdout := os.Stdout
	os.Stdout = null
	defer func() { os.Stdout = stdout }()
	base := vlib.TempDir()
	n := 0
	errInjected := errors.New("injected")
	vlib.Check(t, rec, func(rt *rapid.T) {
		n++
		root := filepath.Join(base, fmt.Sprint(n))
		defer os.RemoveAll(root)
		dir := filepath.Join(root, "https:__log.example.org_2026_a")
		if os.MkdirAll(filepath.Join(dir, "bundled"), 0o755) != nil {
			vlib.Infra("cannot create %s", dir)
		}
		present := map[string][2]int{}
		addFiles := func(k int) {
			for ; k > 0; k-- {
				a := rapid.IntRange(0, 14).Draw(rt, "a")
				b := a + rapid.IntRange(0, 3).Draw(rt, "len")
				same := false // no two with the same start: their order is not specified
				for _, iv := range present {
					same = same || iv[0] == a
				}
				if same {
					continue
				}
				name := fmt.Sprintf("%d-%d.gz", a, b)
				present[name] = [2]int{a, b}
				if os.WriteFile(filepath.Join(dir, "bundled", name), nil, 0o644) != nil {
					vlib.Infra("cannot write a file")
				}
			}
		}
		addFiles(rapid.IntRange(0, 7).Draw(rt, "files"))
		done := map[int]bool{}
		coalesced, smt, size := false, false, int64(0)
		var hist []string
		failed := 0
		runs := rapid.IntRange(1, 5).Draw(rt, "runs")
		for r := 0; r < runs; r++ {
			strategy := rapid.SampledFrom([]string{"", "", "onlyingest", "onlyingest", "skipingest", "onlysmtupdate", "recordctsize"}).Draw(rt, "strategy")
			batch := rapid.IntRange(0, 4).Draw(rt, "batch")
			failAt := rapid.SampledFrom([]int{-1, -1, 0, 1, 2, 3, 4, 5, 6, 8}).Draw(rt, "failAt")
			how := rapid.SampledFrom([]string{"error", "cancel"}).Draw(rt, "how")
			stats := rapid.IntRange(0, 9).Draw(rt, "stats") == 0
			cfg := RunConfig{Directory: dir, Strategy: strategy, JournalFile: filepath.Join(root, "journal.json"), FileBatch: batch}
			desc := fmt.Sprintf("run(%q,batch=%d,%s@%d)", strategy, batch, how, failAt)

			// The model of this run: the calls expected, until the failing one.
			type call struct{ what, arg string }
			var want []call
			wantErr := false
			steps, cancelled := 0, false
			do := func(what, arg string) bool { // whether the call succeeds
				want = append(want, call{what, arg})
				steps++
				if steps-1 == failAt {
					if how == "error" {
						return false
					}
					cancelled = true
				}
				return true
			}
			ingest := strategy == "" || strategy == "onlyingest"
			switch {
			case strategy == "recordctsize":
				prefix := 0
				for done[prefix] {
					prefix++
				}
				if prefix == 0 {
					wantErr = true
				} else if !do("size", fmt.Sprintf("https://log.example.org/2026/a %d", prefix)) {
					wantErr = true
				} else {
					size = int64(prefix)
				}
			case !ingest:
				if strategy == "skipingest" {
					if !do("coalesce", "") {
						wantErr = true
						break
					}
					coalesced, smt = true, false
				}
				if cancelled || !do("smt", "") {
					wantErr = true
					break
				}
				coalesced, smt = true, true
			default:
				var pending []string
				for f, iv := range present {
					for i := iv[0]; i <= iv[1]; i++ {
						if !done[i] {
							pending = append(pending, f)
							break
						}
					}
				}
				less := func(i, k int) bool { return present[pending[i]][0] < present[pending[k]][0] }
				sort.SliceStable(pending, less)
				b := batch
				if b <= 0 || b > len(pending) {
					b = max(len(pending), 1)
				}
				for i := 0; i < len(pending) && !wantErr; i += b {
					if cancelled {
						wantErr = true
						break
					}
					files := pending[i:min(i+b, len(pending))]
					num := fmt.Sprintf("%d/%d", i/b+1, (len(pending)+b-1)/b)
					if !do("before", num) || !do("batch", fmt.Sprint(len(files))) ||
						strategy == "" && (!do("coalesce", "") || !do("smt", "")) {
						wantErr = true
						break
					}
					for _, f := range files {
						for x := present[f][0]; x <= present[f][1]; x++ {
							done[x] = true
						}
					}
					coalesced, smt = strategy == "", strategy == ""
				}
			}

			// The run itself.
			ctx, cancel := context.WithCancel(context.Background())
			var got []call
			starts := []int{}
			at := 0
			act := func(what, arg string) error {
				got = append(got, call{what, arg})
				at++
				if at-1 == failAt {
					if how == "error" {
						return errInjected
					}
					cancel()
				}
				return nil
			}
			deps := RunDependencies{
				NewJournal: func(cfg RunConfig, jobCfg journal.JobConfiguration) (*journal.Journal, error) {
					return journal.NewJournal(cfg.JournalFile, jobCfg, cfg.Directory)
				},
				NewStatistics: func() *statistics.Stats {
					if stats {
						return statistics.NewStatistics(1e12, func(*statistics.Stats) {})
					}
					return nil
				},
				BeforeBatch: func(b, c int) error { return act("before", fmt.Sprintf("%d/%d", b, c)) },
				RunBatch: func(_ *statistics.Stats, files []string) error {
					for _, f := range files {
						starts = append(starts, present[filepath.Base(f)][0])
					}
					return act("batch", fmt.Sprint(len(files)))
				},
				Coalesce:  func() error { return act("coalesce", "") },
				UpdateSMT: func() error { return act("smt", "") },
				RecordCTSize: func(_ context.Context, url string, size int64) error {
					return act("size", fmt.Sprintf("%s %d", url, size))
				},
			}
			var err error
			hist = append(hist, desc)
			if msg := vlib.NoPanic(func() { err = runIngest(ctx, cfg, deps) }); msg != "" {
				rt.Fatalf("%v: %s", hist, msg)
			}
			cancel()
			if (err != nil) != wantErr {
				rt.Fatalf("%v with files %v: error %v, want one: %v; calls %v, want %v", hist, present, err, wantErr, got, want)
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				rt.Fatalf("%v with files %v: calls %v, want %v", hist, present, got, want)
			}
			if !sort.IntsAreSorted(starts) {
				rt.Fatalf("%v: files out of order: %v", hist, starts)
			}
			if wantErr {
				failed++
			}
			if how == "error" && failAt >= 0 && failAt < steps && !errors.Is(err, errInjected) {
				rt.Fatalf("%v: the error %v does not include the failure", hist, err)
			}
			// What a restart finds.
			jc, _ := journal.NewJobConfiguration("onlyingest", 0, false)
			j, err := journal.NewJournal(cfg.JournalFile, jc, dir)
			if err != nil {
				rt.Fatalf("%v: journal unreadable: %v", hist, err)
			}
			last := j.Jobs[len(j.Jobs)-1]
			covered := map[int]bool{}
			for _, iv := range last.CompletedIndices[filepath.Base(dir)] {
				for i := iv.Start; i <= iv.End; i++ {
					covered[int(i)] = true
				}
			}
			if fmt.Sprint(covered) != fmt.Sprint(done) {
				rt.Fatalf("%v with files %v: completed %v, want %v", hist, present, covered, done)
			}
			if last.Coalesced != coalesced || last.UpdatedSMT != smt || last.RecordedCTLogSize != size {
				rt.Fatalf("%v: flags %v %v %d, want %v %v %d", hist, last.Coalesced, last.UpdatedSMT, last.RecordedCTLogSize, coalesced, smt, size)
			}
			j.Close()
			if rapid.IntRange(0, 2).Draw(rt, "more") == 0 {
				addFiles(rapid.IntRange(1, 3).Draw(rt, "newfiles"))
			}
		}
		rec.Case(fmt.Sprint(hist, present), runs > 1 && failed > 0, func() any { return strings.Join(hist, "; ") + fmt.Sprint(" files ", present) })
	})
}
