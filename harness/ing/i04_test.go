package ing

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/cmd/ingest/journal"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

var bundleRe = regexp.MustCompile(`^(\d+)-(\d+)\.(gz|csv)$`)

// bundleOf parses a bundle name; ok is false if it is none.
func bundleOf(p string) (a, b uint, ok bool) {
	m := bundleRe.FindStringSubmatch(filepath.Base(p))
	if m == nil {
		return 0, 0, false
	}
	x, e1 := strconv.ParseInt(m[1], 10, 63)
	y, e2 := strconv.ParseInt(m[2], 10, 63)
	return uint(x), uint(y), e1 == nil && e2 == nil && x <= y
}

// listRef is the reference of the listing: the compressed files in every directory "bundled", and the
// plain ones beside such a directory.
func listRef(dir string, plain bool) (out []string) {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		p := filepath.Join(dir, e.Name())
		if !e.IsDir() {
			continue
		}
		if e.Name() != "bundled" {
			out = append(out, listRef(p, plain)...)
			continue
		}
		gz, _ := os.ReadDir(p)
		for _, g := range gz {
			if strings.HasSuffix(g.Name(), ".gz") {
				out = append(out, filepath.Join(p, g.Name()))
			}
		}
		if plain {
			for _, c := range es {
				if strings.HasSuffix(c.Name(), ".csv") {
					out = append(out, filepath.Join(dir, c.Name()))
				}
			}
		}
	}
	return out
}

// jmodel is the model of the state a journal has to remember.
type jmodel struct {
	done                map[string]map[uint]bool // directory name -> completed indices
	coalesced, smt      bool
	size                int64
	jobs                int
	strategies, batches []string
}

func (m *jmodel) covered(key string, a, b uint) bool {
	for i := a; i <= b; i++ {
		if !m.done[key][i] {
			return false
		}
	}
	return true
}

func sorted(l []string) []string { l = append([]string(nil), l...); sort.Strings(l); return l }

func TestI04Journal(t *testing.T) {
	rec := vlib.New(t, "I04", "histories with a completion, a restart and pending files left")
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	stdout := os.Stdout
	os.Stdout = null
	defer func() { os.Stdout = stdout }()
	base := vlib.TempDir()
	n := 0
	vlib.Check(t, rec, func(rt *rapid.T) {
		n++
		root := filepath.Join(base, fmt.Sprint(n))
		defer os.RemoveAll(root)
		// The directory is a long way from real paths; its removal is bounded by base.
		dirs := []string{
			filepath.Join(root, "https:__log.example_a"),
			filepath.Join(root, "other", "https:__log.example_a"), // same name: same key
			filepath.Join(root, "b[1]*"),
		}
		for _, d := range dirs {
			if err := os.MkdirAll(d, 0o755); err != nil {
				vlib.Infra("%v", err)
			}
		}
		file := filepath.Join(root, "journal.json")
		var hist []string
		m := &jmodel{done: map[string]map[uint]bool{}}
		var j *journal.Journal
		var cfg journal.JobConfiguration
		var dir, given string
		commits, restarts, left := 0, 0, 0

		fail := func(f string, a ...any) {
			rt.Helper()
			rt.Fatalf("after %s: %s", strings.Join(hist, "; "), fmt.Sprintf(f, a...))
		}
		open := func() {
			strategy := rapid.SampledFrom([]string{"", "onlyingest", "skipingest", "onlysmtupdate", "recordctsize"}).Draw(rt, "strategy")
			plain := rapid.Bool().Draw(rt, "plain")
			batch := rapid.IntRange(-1, 3).Draw(rt, "batch")
			var err error
			cfg, err = journal.NewJobConfiguration(strategy, batch, plain)
			if err != nil {
				fail("configuration %q refused: %v", strategy, err)
			}
			want := journal.JobConfiguration{
				IngestFiles: strategy == "" || strategy == "onlyingest", Coalesce: strategy == "" || strategy == "skipingest",
				UpdateSMT: strategy == "" || strategy == "skipingest" || strategy == "onlysmtupdate", RecordCTSize: strategy == "recordctsize",
				FileBatch: batch, IncludePlainCSVs: plain,
			}
			if cfg != want {
				fail("configuration of %q is %+v", strategy, cfg)
			}
			dir = rapid.SampledFrom(dirs).Draw(rt, "dir")
			given = dir + rapid.SampledFrom([]string{"", "/", "/."}).Draw(rt, "slash")
			hist = append(hist, fmt.Sprintf("open(%q,plain=%v,%s)", strategy, plain, strings.TrimPrefix(given, root)))
			j, err = journal.NewJournal(file, cfg, given)
			if err != nil {
				fail("the journal cannot be opened: %v", err)
			}
			m.jobs++
			restarts++
		}
		// check compares everything the journal says with the model.
		check := func() {
			key := filepath.Base(dir)
			list := listRef(dir, cfg.IncludePlainCSVs)
			bad := false
			var want []string
			for _, f := range list {
				a, b, ok := bundleOf(f)
				bad = bad || !ok
				if ok && !m.covered(key, a, b) {
					want = append(want, f)
				}
			}
			got, err := j.PendingFiles()
			if bad {
				if err == nil {
					fail("files with a malformed name are ignored: listing %q", list)
				}
			} else {
				if err != nil {
					fail("pending files: %v", err)
				}
				clean := make([]string, len(got))
				last := uint(0)
				for i, f := range got {
					clean[i] = filepath.Clean(f)
					a, _, _ := bundleOf(f)
					if a < last {
						fail("pending files out of order: %q", got)
					}
					last = a
				}
				if g, w := sorted(clean), sorted(want); fmt.Sprint(g) != fmt.Sprint(w) {
					fail("pending files %q\nwant %q", g, w)
				}
				if len(want) > 0 {
					left++
				}
			}
			if len(j.Jobs) != m.jobs {
				fail("%d jobs recorded, want %d", len(j.Jobs), m.jobs)
			}
			last := j.Jobs[len(j.Jobs)-1]
			if last.JobConfiguration != cfg {
				fail("configuration of the job is %+v", last.JobConfiguration)
			}
			if last.Coalesced != m.coalesced || last.UpdatedSMT != m.smt || last.RecordedCTLogSize != m.size {
				fail("flags coalesced=%v smt=%v size=%d, want %v %v %d", last.Coalesced, last.UpdatedSMT, last.RecordedCTLogSize, m.coalesced, m.smt, m.size)
			}
			// The intervals of every directory are exactly the completed indices, sorted and minimal.
			for k, set := range m.done {
				checkIntervals(fail, k, last.CompletedIndices[k], set)
			}
			for k := range last.CompletedIndices {
				if m.done[k] == nil && len(last.CompletedIndices[k]) > 0 {
					fail("intervals for unknown directory %q", k)
				}
			}
		}
		open()
		steps := rapid.IntRange(2, 14).Draw(rt, "steps")
		for s := 0; s < steps; s++ {
			switch rapid.IntRange(0, 7).Draw(rt, "op") {
			case 0, 1, 2: // files appear
				for k := rapid.IntRange(1, 4).Draw(rt, "files"); k > 0; k-- {
					d := rapid.SampledFrom(dirs).Draw(rt, "in")
					sub := rapid.SampledFrom([]string{"bundled", "bundled", "bundled", "", "aa/bundled", "zz/bundled", "q[a]/bundled", "zz", "aa/bb/bundled"}).Draw(rt, "sub")
					a := rapid.IntRange(0, 12).Draw(rt, "a")
					b := a + rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 8}).Draw(rt, "len")
					ext := rapid.SampledFrom([]string{".gz", ".gz", ".csv"}).Draw(rt, "ext")
					name := fmt.Sprintf("%d-%d%s", a, b, ext)
					if rapid.IntRange(0, 9).Draw(rt, "zeros") == 0 {
						name = "0" + name
					}
					if rapid.IntRange(0, 59).Draw(rt, "odd") == 0 {
						name = rapid.SampledFrom([]string{"x.gz", "3-1.gz", "1-2.csv.gz", "5.gz", "99999999999999999999-99999999999999999999.gz", "a.csv", "1-2.txt", "-1-2.gz"}).Draw(rt, "oddname")
					}
					p := filepath.Join(d, sub, name)
					if os.MkdirAll(filepath.Dir(p), 0o755) != nil || os.WriteFile(p, nil, 0o644) != nil {
						vlib.Infra("cannot write %s", p)
					}
					hist = append(hist, "file "+strings.TrimPrefix(p, root))
				}
			case 3, 4: // some pending files are completed
				pend, err := j.PendingFiles()
				var files []string
				if err == nil {
					for _, f := range pend {
						if rapid.IntRange(0, 2).Draw(rt, "take") > 0 {
							files = append(files, f)
						}
					}
				}
				if rapid.IntRange(0, 3).Draw(rt, "reversed") == 0 {
					for x, y := 0, len(files)-1; x < y; x, y = x+1, y-1 {
						files[x], files[y] = files[y], files[x]
					}
				}
				c, u := rapid.Bool().Draw(rt, "c"), rapid.Bool().Draw(rt, "u")
				hist = append(hist, fmt.Sprintf("commit(%s,%v,%v)", strings.ReplaceAll(strings.Join(files, ","), root, ""), c, u))
				if err := j.CommitProgress(files, c, u); err != nil {
					fail("commit failed: %v", err)
				}
				key := filepath.Base(dir)
				for _, f := range files {
					if m.done[key] == nil {
						m.done[key] = map[uint]bool{}
					}
					a, b, _ := bundleOf(f)
					for i := a; i <= b; i++ {
						m.done[key][i] = true
					}
					commits++
				}
				m.coalesced, m.smt = c || u, u
			case 5:
				m.size = int64(rapid.IntRange(0, 30).Draw(rt, "size"))
				hist = append(hist, fmt.Sprintf("size(%d)", m.size))
				if err := j.CommitCTLogSize(m.size); err != nil {
					fail("commit of the size failed: %v", err)
				}
			case 6: // orderly end and restart
				hist = append(hist, "close")
				if err := j.Close(); err != nil {
					fail("close: %v", err)
				}
				if j.CommitProgress(nil, true, true) == nil || j.CommitCTLogSize(9) == nil {
					fail("a closed journal accepts progress")
				}
				open()
			case 7: // the process ends without closing; maybe in the middle of a write
				hist = append(hist, "crash")
				data, err := os.ReadFile(file)
				if err != nil {
					fail("no journal file: %v", err)
				}
				cut := rapid.IntRange(0, len(data)).Draw(rt, "cut")
				if err := os.WriteFile(file+".tmp-123", data[:cut], 0o600); err != nil {
					vlib.Infra("%v", err)
				}
				// A journal that is cut off is reported, not taken for another state.
				if cut := rapid.IntRange(0, len(data)-1).Draw(rt, "trunc"); len(bytes.TrimSpace(data[cut:])) > 0 {
					trunc := filepath.Join(root, "trunc.json")
					os.WriteFile(trunc, data[:cut], 0o600)
					var jt *journal.Journal
					var err error
					if msg := vlib.NoPanic(func() { jt, err = journal.NewJournal(trunc, cfg, dir) }); msg != "" {
						fail("journal cut to %d bytes: %s", cut, msg)
					}
					if err == nil {
						fail("journal cut to %d of %d bytes is accepted with %d jobs", cut, len(data), len(jt.Jobs))
					}
					if now, _ := os.ReadFile(trunc); !bytes.Equal(now, data[:cut]) {
						fail("a journal that cannot be read was overwritten")
					}
				}
				open()
			}
			check()
		}
		// What is on disk is what the journal says.
		data, err := os.ReadFile(file)
		var disk struct {
			Jobs []struct {
				CompletedIndices map[string][]string
			}
		}
		if err != nil || json.Unmarshal(data, &disk) != nil || len(disk.Jobs) != m.jobs {
			fail("journal file: %v, %d jobs", err, len(disk.Jobs))
		}
		rec.Case(strings.Join(hist, ";"), commits > 0 && restarts > 1 && left > 0, func() any { return strings.ReplaceAll(strings.Join(hist, "; "), root, "") })
	})
}

func checkIntervals(fail func(string, ...any), key string, got []journal.Interval, want map[uint]bool) {
	n, last := 0, -2
	for _, iv := range got {
		if iv.Start > iv.End || int(iv.Start) <= last+1 {
			fail("intervals of %q are not sorted and minimal: %v", key, got)
		}
		last = int(iv.End)
		for i := iv.Start; i <= iv.End; i++ {
			if !want[i] {
				fail("index %d of %q counts as completed: %v", i, key, got)
			}
			n++
		}
	}
	if n != len(want) {
		fail("intervals of %q cover %d indices, want %d: %v", key, n, len(want), got)
	}
}
