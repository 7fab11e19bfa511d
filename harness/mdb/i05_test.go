package mdb

import (
	"bytes"
	"compress/gzip"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// buildIngest gives the path of the ingestion program of the current tree, which uses the private MySQL server
// instead of the one of the system.
func buildIngest() string {
	const system = "/var/run/mysqld/mysqld.sock"
	dir, repo := vlib.TempDir(), os.Getenv("VERIF_REPO")
	replace := map[string]string{}
	filepath.WalkDir(repo, func(p string, e fs.DirEntry, err error) error {
		if err != nil || e.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil || !bytes.Contains(b, []byte(system)) {
			return nil
		}
		f := filepath.Join(dir, fmt.Sprintf("over%d.go", len(replace)))
		if err := os.WriteFile(f, bytes.ReplaceAll(b, []byte(system), []byte(os.Getenv("VERIF_MYSQL_SOCK"))), 0644); err != nil {
			vlib.Infra("%v", err)
		}
		replace[p] = f
		return nil
	})
	o, _ := json.Marshal(map[string]any{"Replace": replace})
	over, out := filepath.Join(dir, "overlay.json"), filepath.Join(dir, "ingest")
	if err := os.WriteFile(over, o, 0644); err != nil {
		vlib.Infra("%v", err)
	}
	cmd := exec.Command("go", "build", "-buildvcs=false", "-overlay", over, "-o", out, "./cmd/ingest")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	if b, err := cmd.CombinedOutput(); err != nil {
		vlib.Infra("building the program: %v\n%s", err, b)
	}
	return out
}

// ingestFile is an input file.
type ingestFile struct {
	from, to int
	plain    bool
	path     string
	data     []byte
	bad      string // "", "missing", "truncated"
}

// ingestDir is an input directory, with the entries of one log.
type ingestDir struct {
	dir, base, url string
	entries        []*item
	expired        []bool
	files          []*ingestFile
	written        int
	done           map[int]bool // completed, as the journal says
	maybe          map[int]bool // may be in the database
}

func (l *ingestDir) row(i int) []string {
	it := l.entries[i]
	var chain []string
	for _, x := range it.chain {
		chain = append(chain, b64(x))
	}
	exp := it.leaf.NotAfter
	if l.expired[i] {
		exp = time.Unix(1e9, 0)
	}
	return []string{"x", "y", "z", b64(it.leaf), strings.Join(chain, ";"), fmt.Sprintf("%d.0", exp.Unix())}
}

func (l *ingestDir) add(rt *rapid.T, from, to int, plain bool) {
	for _, f := range l.files {
		if f.from == from && (f.to != to || f.plain == plain) {
			return // the order of files with the same begin is not specified
		}
	}
	var b bytes.Buffer
	c := csv.NewWriter(&b)
	for i := from; i <= to; i++ {
		c.Write(l.row(i))
	}
	c.Flush()
	f := &ingestFile{from: from, to: to, plain: plain, data: b.Bytes()}
	sub := filepath.Join(l.dir, rapid.SampledFrom([]string{"", "", "sub", "a/b"}).Draw(rt, "directory"))
	if err := os.MkdirAll(filepath.Join(sub, "bundled"), 0755); err != nil {
		vlib.Infra("%v", err)
	}
	f.path = filepath.Join(sub, fmt.Sprintf("%d-%d.csv", from, to))
	if !plain {
		var z bytes.Buffer
		zw := gzip.NewWriter(&z)
		zw.Write(f.data)
		zw.Close()
		f.data = z.Bytes()
		f.path = filepath.Join(sub, "bundled", fmt.Sprintf("%d-%d.gz", from, to))
	}
	l.files = append(l.files, f)
}

func (f *ingestFile) write() {
	os.Remove(f.path)
	var err error
	switch f.bad {
	case "":
		err = os.WriteFile(f.path, f.data, 0644)
	case "missing": // e.g. on another file system that is not there
		err = os.Symlink(f.path+".elsewhere", f.path)
	case "truncated":
		err = os.WriteFile(f.path, f.data[:len(f.data)*2/3], 0644)
	}
	if err != nil {
		vlib.Infra("%v", err)
	}
}

// grow makes more files, up to the given number of entries.
func (l *ingestDir) grow(rt *rapid.T, size int) {
	for l.written < size {
		to := min(size, l.written+rapid.IntRange(1, 4).Draw(rt, "rows")) - 1
		kind := rapid.SampledFrom([]string{"gz", "gz", "gz", "csv", "both", "overlap"}).Draw(rt, "kind")
		l.add(rt, l.written, to, kind == "csv")
		switch kind {
		case "both":
			l.add(rt, l.written, to, true)
		case "overlap":
			from := rapid.IntRange(0, l.written).Draw(rt, "from")
			l.add(rt, from, rapid.IntRange(from, to).Draw(rt, "to"), rapid.Bool().Draw(rt, "plain"))
		}
		l.written = to + 1
	}
	for _, f := range l.files {
		f.write()
	}
}

func (l *ingestDir) pending(plain bool) (out []*ingestFile) {
	for _, f := range l.files {
		if f.plain && !plain {
			continue
		}
		for i := f.from; i <= f.to; i++ {
			if !l.done[i] {
				out = append(out, f)
				break
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].from < out[j].from })
	return
}

// prefix is the number of completed entries from the first one on.
func (l *ingestDir) prefix() int {
	n := 0
	for l.done[n] {
		n++
	}
	return n
}

func (l *ingestDir) String() string {
	var s []string
	for _, f := range l.files {
		p, _ := filepath.Rel(l.dir, f.path)
		s = append(s, strings.TrimSpace(p+" "+f.bad))
	}
	return l.base + " with " + strings.Join(s, ", ")
}

// TestI05Program: histories of runs of the program, some of which are interrupted, or find bad files.
func TestI05Program(t *testing.T) {
	rec := vlib.New(t, "I05", "at least one run was interrupted or failed because of an input file, and later runs completed the content")
	bin := buildIngest()
	d := Open("i05")
	defer d.Drop()
	root := vlib.TempDir()
	defer os.RemoveAll(root)
	n := 0
	many := func(e string) bool { return rec.Known("one-link-per-name", e) }
	vlib.Check(t, rec, func(rt *rapid.T) {
		d.Reset()
		n++
		wd := genWorld(rt, worldOpts{maxItems: 8, varied: rapid.Bool().Draw(rt, "varied")})
		dir := filepath.Join(root, fmt.Sprint(n))
		if err := os.MkdirAll(dir, 0755); err != nil {
			vlib.Infra("%v", err)
		}
		defer os.RemoveAll(dir)
		var steps []string
		step := func(f string, a ...any) { steps = append(steps, fmt.Sprintf(f, a...)) }
		var p *process
		bad := func(f string, a ...any) {
			out := ""
			if p != nil {
				out = p.out.String()
				out = "\nthe program wrote:\n" + out[max(0, len(out)-4000):]
			}
			rt.Fatalf("%s\n%s%s", fmt.Sprintf(f, a...), strings.Join(steps, "\n"), out)
		}
		defer func() {
			if p != nil {
				p.cmd.Process.Kill()
				<-p.done
			}
		}()
		classes := map[string]bool{}

		var logs []*ingestDir
		for i, k := 0, rapid.SampledFrom([]int{1, 1, 2}).Draw(rt, "logs"); i < k; i++ {
			l := &ingestDir{base: fmt.Sprintf("https:__log%d.example.org_2026", i), url: fmt.Sprintf("https://log%d.example.org/2026", i),
				done: map[int]bool{}, maybe: map[int]bool{}}
			l.dir = filepath.Join(dir, "in", l.base)
			for j, m := 0, rapid.IntRange(1, 14).Draw(rt, "entries"); j < m; j++ {
				l.entries = append(l.entries, rapid.SampledFrom(wd.items).Draw(rt, "entry"))
				l.expired = append(l.expired, rapid.IntRange(0, 4).Draw(rt, "expired") == 0)
			}
			l.grow(rt, rapid.IntRange(1, len(l.entries)).Draw(rt, "size"))
			step("%v", l)
			logs = append(logs, l)
		}
		journalFile := filepath.Join(dir, rapid.SampledFrom([]string{"fpki-journal.json", "j.json", "with space"}).Draw(rt, "journal"))
		// completed reads the journal.
		completed := func() map[string]map[int]bool {
			out := map[string]map[int]bool{}
			b, err := os.ReadFile(journalFile)
			if os.IsNotExist(err) {
				return out
			}
			var j struct {
				Jobs []struct{ CompletedIndices map[string][]string }
			}
			if err == nil {
				err = json.Unmarshal(b, &j)
			}
			if err != nil || len(j.Jobs) == 0 {
				bad("the journal cannot be read: %v\n%s", err, b)
			}
			for base, list := range j.Jobs[len(j.Jobs)-1].CompletedIndices {
				out[base] = map[int]bool{}
				for _, r := range list {
					var a, z int
					if k, err := fmt.Sscanf(r, "%d-%d", &a, &z); k != 2 || err != nil {
						bad("the journal has the range %q", r)
					}
					for ; a <= z; a++ {
						out[base][a] = true
					}
				}
			}
			return out
		}
		// material checks what is stored: everything completed, and nothing that no run may have stored.
		material := func(s *snap) string {
			must, all := newModel(), newModel()
			for _, l := range logs {
				for i, it := range l.entries {
					if l.expired[i] {
						continue
					}
					if l.done[i] {
						must.add([]*item{it}, nil)
					}
					if l.done[i] || l.maybe[i] {
						all.add([]*item{it}, nil)
					}
				}
			}
			must.cleaned()
			// What may be there without being completed is left out.
			f := *s
			f.certs, f.domains, f.links, f.dirty = map[ID]certRow{}, map[ID]string{}, map[ID]map[ID]bool{}, map[ID]bool{}
			for id, r := range s.certs {
				if must.certs[id] != nil || all.certs[id] == nil {
					f.certs[id] = r
				}
				if must.certs[id] != nil {
					must.parents[id] = all.parents[id]
				}
			}
			mustD, allD := map[ID]map[ID]bool{}, map[ID]map[ID]bool{}
			for nm, ids := range must.links {
				mustD[hash([]byte(nm))] = ids
			}
			for nm, ids := range all.links {
				allD[hash([]byte(nm))] = ids
			}
			for id, nm := range s.domains {
				if mustD[id] != nil || allD[id] == nil {
					f.domains[id] = nm
				}
			}
			for id, ids := range s.links {
				for c := range ids {
					if mustD[id][c] || !allD[id][c] {
						if f.links[id] == nil {
							f.links[id] = map[ID]bool{}
						}
						f.links[id][c] = true
					}
				}
			}
			if e := must.compareMaterial(&f, many); e != "" {
				return e
			}
			for id := range s.dirty {
				if allD[id] == nil {
					return fmt.Sprintf("the domain %x needs an update, but nothing was given for it", id[:])
				}
			}
			return ""
		}
		// uptodate checks that every domain whose entry does not agree with its certificates, or is not in the tree, is
		// recorded as needing an update, and that the tree can be read.
		uptodate := func(s *snap) string {
			clean := func(id ID) bool { _, is := s.dirty[id]; return !is }
			if e := s.compareEntries(clean, nil); e != "" {
				return e + ", and it is not recorded as needing an update"
			}
			tr, err := trie.NewTrie(s.root, common.SHA256Hash, d.Conn)
			if err != nil {
				return fmt.Sprintf("opening the tree: %v", err)
			}
			for id, nm := range s.domains {
				v, err := tr.Get(ctx, id[:])
				if err != nil {
					return fmt.Sprintf("reading the value of %q in the tree: %v", nm, err)
				}
				if want := leafValue(s.payloads[id].certs, s.payloads[id].pols); clean(id) && !bytes.Equal(v, want) {
					return fmt.Sprintf("the tree has %x for %q instead of %x, and it is not recorded as needing an update", v, nm, want)
				}
			}
			return ""
		}
		end := func(what string) int {
			select {
			case <-p.done:
			case <-time.After(2 * patience):
				out := p.out.String()
				p.cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(time.Second)
				vlib.Hang("I05", fmt.Sprintf("the program does not end: %s\n%s\n%s\n%s", what, strings.Join(steps, "\n"), out, p.out))
			}
			if p.crashed() {
				bad("the program crashed: %s", what)
			}
			return p.cmd.ProcessState.ExitCode()
		}
		args := func(strategy string, rest ...string) []string {
			a := []string{"-dbname", d.Name}
			if filepath.Base(journalFile) != "fpki-journal.json" {
				a = append(a, "-journal", journalFile)
			}
			if strategy != "" {
				a = append(a, "-strategy", strategy)
			}
			return append(a, rest...)
		}
		flags := func() []string {
			var a []string
			for _, f := range []struct {
				name   string
				values []int
			}{{"-numfiles", []int{1, 2, 4}}, {"-numparsers", []int{1, 2, 5}}, {"-numdechainers", []int{1, 2, 4}}, {"-numdbworkers", []int{1, 2, 8, 32}}, {"-multiinsert", []int{1, 2, 7, 1000}}} {
				if rapid.IntRange(0, 9).Draw(rt, "default") > 0 {
					a = append(a, f.name, fmt.Sprint(rapid.SampledFrom(f.values).Draw(rt, f.name)))
				}
			}
			return a
		}
		// signals are what happens to a running program. It gives whether it was interrupted.
		disturb := func() bool {
			what := rapid.SampledFrom([]string{"", "", "USR1", "TERM", "INT", "kill", "TERM", "kill", "twice"}).Draw(rt, "event")
			if what == "" {
				return false
			}
			// It has no influence before the program has begun.
			begun := func() bool { return strings.Contains(p.out.String(), "listing directory") }
			ms := rapid.SampledFrom([]int{0, 2, 5, 10, 15, 20, 30, 40, 50, 70, 100, 200}).Draw(rt, "after ms")
			for limit := time.Now().Add(patience); !begun() && p.running() && time.Now().Before(limit); time.Sleep(time.Millisecond) {
			}
			time.Sleep(time.Duration(ms) * time.Millisecond)
			step("%s after %d ms", what, ms)
			switch what {
			case "USR1":
				p.cmd.Process.Signal(syscall.SIGUSR1)
				classes["diagnostics"] = true
				return false
			case "TERM":
				p.cmd.Process.Signal(syscall.SIGTERM)
			case "INT":
				p.cmd.Process.Signal(syscall.SIGINT)
			case "kill":
				p.cmd.Process.Kill()
			case "twice":
				p.cmd.Process.Signal(syscall.SIGINT)
				time.Sleep(time.Duration(ms/4) * time.Millisecond)
				p.cmd.Process.Signal(syscall.SIGTERM)
			}
			classes[what] = true
			return true
		}
		failures := false
		check := func() {
			// The MySQL server may still be busy with the last statements of a process that is gone.
			for i := 0; ; i++ {
				s := d.snap()
				e := material(s)
				if e == "" {
					e = uptodate(s)
				}
				if e == "" {
					break
				}
				if i == 3 {
					bad("%s", e)
				}
				rec.Class("looked at again")
				time.Sleep(time.Second)
			}
		}
		// ingest runs the program on the files of a log.
		ingest := func(strategy string, l *ingestDir, plain, skip, disturbed bool) {
			batch := rapid.IntRange(0, 4).Draw(rt, "file batch")
			a := args(strategy, flags()...)
			if batch > 0 || rapid.Bool().Draw(rt, "explicit") {
				a = append(a, "-filebatch", fmt.Sprint(batch))
			}
			if plain {
				a = append(a, "-includeplaincsvs")
			}
			if skip {
				a = append(a, "-skipmissingfiles")
			}
			pending := l.pending(plain)
			if batch == 0 {
				batch = max(1, len(pending))
			}
			// What the journal may say, after so many batches.
			states := []map[int]bool{clone(l.done)}
			fails := false
			for i := 0; i < len(pending) && !fails; i += batch {
				next := clone(states[len(states)-1])
				for _, f := range pending[i:min(i+batch, len(pending))] {
					fails = fails || f.bad == "truncated" || f.bad == "missing" && !skip
					if f.bad != "missing" {
						for x := f.from; x <= f.to; x++ {
							next[x] = true
							l.maybe[x] = true
						}
					}
				}
				if !fails {
					states = append(states, next)
				}
			}
			path := l.dir
			if rapid.Bool().Draw(rt, "relative") {
				path, _ = filepath.Rel(dir, path)
			}
			if rapid.IntRange(0, 3).Draw(rt, "slash") == 0 {
				path += "/"
			}
			a = append(a, path)
			step("run %q with %v, %d files pending, fails: %v", a, l, len(pending), fails)
			p = spawn(d, dir, bin, a...)
			interrupted := disturbed && disturb()
			code := end("ingesting")
			got := completed()
			at := -1
			for i, st := range states {
				if reflect.DeepEqual(st, clone(got[l.base])) {
					at = i
				}
			}
			if at < 0 {
				bad("the journal has %v completed, but expected is one of %v", got[l.base], states)
			}
			for _, o := range logs {
				if o != l && !reflect.DeepEqual(o.done, clone(got[o.base])) {
					bad("the journal has %v completed of another log instead of %v", got[o.base], o.done)
				}
			}
			all := at == len(states)-1
			l.done = states[at]
			switch {
			case fails && code == 0:
				bad("the program ends with success although a file cannot be read")
			case !fails && !interrupted && code != 0:
				bad("the exit code is %d", code)
			case code == 0 && !all:
				bad("the program ends with success, but the journal has %v completed instead of %v", got[l.base], states[len(states)-1])
			case !interrupted && !all:
				bad("the journal has %v completed instead of %v", got[l.base], states[len(states)-1])
			case code != 0 && len(strings.TrimSpace(p.out.String())) == 0 && !interrupted:
				bad("the program does not say what is wrong")
			}
			if fails && !interrupted {
				classes["bad file"] = true
				for _, f := range pending {
					if f.bad == "truncated" || f.bad == "missing" && !skip {
						if !strings.Contains(p.out.String(), filepath.Base(f.path)) {
							rec.Class("bad file not named")
						}
						break
					}
				}
			}
			if fails || interrupted {
				failures = true
			}
			if _, rest, ok := strings.Cut(p.out.String(), "Diagnostics dumped to "); ok {
				where, _, _ := strings.Cut(rest, "\n")
				for _, f := range []string{"heap.pprof", "heap-after-gc.pprof", "allocs.pprof", "goroutines.txt", "memstats.txt", "meta.txt"} {
					if st, err := os.Stat(filepath.Join(where, f)); err != nil || st.Size() == 0 {
						bad("there is no %s in the diagnostics in %s", f, where)
					}
				}
				classes["diagnostics written"] = true
			}
			check()
			if strategy == "" && code == 0 && len(states) > 1 {
				s := d.snap()
				if e := afterCycle(s); e != "" {
					bad("after a complete run: %s", e)
				}
				if len(s.dirty) > 0 {
					bad("after a complete run, %d domains need an update", len(s.dirty))
				}
			}
		}
		// follow runs the steps after the ingestion.
		follow := func(strategy string, disturbed bool) {
			pend := 0
			for _, co := range d.snap().dirty {
				if !co {
					pend++
				}
			}
			a := args(strategy, flags()...)
			step("run %q", a)
			p = spawn(d, dir, bin, a...)
			interrupted := false
			if disturbed && rapid.IntRange(0, 2).Draw(rt, "disturb") == 0 {
				ms := rapid.SampledFrom([]int{0, 10, 15, 20, 25, 30, 40, 50, 70, 100}).Draw(rt, "after ms")
				time.Sleep(time.Duration(ms) * time.Millisecond)
				sig := rapid.SampledFrom([]os.Signal{syscall.SIGTERM, syscall.SIGKILL}).Draw(rt, "signal")
				step("%v after %d ms", sig, ms)
				p.cmd.Process.Signal(sig)
				interrupted, failures = true, true
				classes["interrupted "+strategy] = true
			}
			code := end(strategy)
			check()
			if strategy == "onlysmtupdate" && pend > 0 {
				classes["tree update before coalescing"] = true
				return
			}
			if code != 0 && !interrupted {
				bad("the exit code is %d", code)
			}
			if code == 0 {
				s := d.snap()
				if e := afterCycle(s); e != "" {
					bad("after %s: %s", strategy, e)
				}
				if len(s.dirty) > 0 {
					bad("after %s, %d domains need an update", strategy, len(s.dirty))
				}
			}
		}
		record := func(l *ingestDir) {
			before := d.positions()
			a := args("recordctsize", l.dir)
			step("run %q, completed %v", a, l.done)
			p = spawn(d, dir, bin, a...)
			code := end("recordctsize")
			want := l.prefix()
			pos := d.positions()
			if want == 0 {
				if code == 0 || !reflect.DeepEqual(pos, before) {
					bad("the size is recorded although the first entry is not completed: exit code %d, %v instead of %v", code, pos, before)
				}
				return
			}
			if got := pos[hash([]byte(l.url))].size; code != 0 || got != want {
				bad("the size of %s is recorded as %d instead of %d, exit code %d", l.url, got, want, code)
			}
			if got, _, err := d.LastCTlogServerState(ctx, l.url); err != nil || int(got) != want {
				bad("the recorded size is read as %d (%v) instead of %d", got, err, want)
			}
			for id, q := range before {
				if id != hash([]byte(l.url)) && pos[id].size != q.size {
					bad("the size of another log changed")
				}
			}
			classes["size recorded"] = true
		}
		wrong := func(l *ingestDir) {
			before := d.snap()
			pos := d.positions()
			what := rapid.SampledFrom([]string{"strategy", "no directory", "missing directory", "damaged journal", "journal nowhere", "no database", "flag", "count", "count", "name", "other directory"}).Draw(rt, "wrong")
			step("run with wrong %s", what)
			a := args("", flags()...)
			undo := func() {}
			switch what {
			case "strategy":
				a = append(a, "-strategy", rapid.SampledFrom([]string{"all", "ingest", " ", "OnlyIngest", "recordctsize "}).Draw(rt, "strategy"), l.dir)
			case "no directory":
				a = append(a, "-strategy", rapid.SampledFrom([]string{"", "onlyingest", "recordctsize"}).Draw(rt, "strategy"))
			case "missing directory":
				a = append(a, "-strategy", rapid.SampledFrom([]string{"", "onlyingest", "recordctsize"}).Draw(rt, "strategy"), l.dir+"x")
			case "damaged journal":
				f := filepath.Join(dir, "damaged")
				content := rapid.SampledFrom([]string{"", "{", "[]", "null x", `{"Jobs":[{"CompletedIndices":{"a":["5-3"]}}]}`, `{"Jobs":[{"CompletedIndices":{"a":["x"]}}]}`}).Draw(rt, "content")
				if err := os.WriteFile(f, []byte(content), 0644); err != nil {
					vlib.Infra("%v", err)
				}
				a = append(a, "-journal", f, l.dir)
			case "journal nowhere":
				a = append(a, "-journal", filepath.Join(dir, "none", "j"), l.dir)
			case "no database":
				if len(l.pending(false)) == 0 {
					return
				}
				a = append(a, "-dbname", "verif_none", l.dir)
			case "flag":
				a = append(a, rapid.SampledFrom([]string{"-numfiles=x", "-filebatch=1.5", "-nosuchflag", "-includeplaincsvs=maybe"}).Draw(rt, "flag"), l.dir)
			case "count":
				if len(l.pending(false)) == 0 {
					return
				}
				f := rapid.SampledFrom([]string{"-numfiles", "-numparsers", "-numdechainers", "-numdbworkers", "-multiinsert"}).Draw(rt, "count")
				a = append(a, f, rapid.SampledFrom([]string{"0", "-1", "-5"}).Draw(rt, "value"), l.dir)
				step("%s %s", f, a[len(a)-2])
			case "name":
				f := filepath.Join(filepath.Dir(l.files[0].path), rapid.SampledFrom([]string{"x.gz", "5-3.gz", "1-.gz", "a-b.csv", "1-2-3.gz"}).Draw(rt, "name"))
				if filepath.Base(filepath.Dir(f)) != "bundled" {
					f = filepath.Join(filepath.Dir(f), "bundled", filepath.Base(f))
				}
				if filepath.Ext(f) == ".csv" {
					f = filepath.Join(filepath.Dir(filepath.Dir(f)), filepath.Base(f))
				}
				if err := os.WriteFile(f, nil, 0644); err != nil {
					vlib.Infra("%v", err)
				}
				undo = func() { os.Remove(f) }
				a = append(a, "-includeplaincsvs", l.dir)
				step("%s", f)
			case "other directory":
				other := filepath.Join(dir, "in", rapid.SampledFrom([]string{"log", "_", "http:_x"}).Draw(rt, "other"))
				os.MkdirAll(other, 0755)
				a = append(a, "-strategy", "recordctsize", other)
			}
			p = spawn(d, dir, bin, a...)
			code := end("wrong " + what)
			undo()
			if code == 0 {
				bad("the program ends with success: %q", a)
			}
			if len(strings.TrimSpace(p.out.String())) == 0 {
				bad("the program does not say what is wrong")
			}
			if !reflect.DeepEqual(before, d.snap()) || !reflect.DeepEqual(pos, d.positions()) {
				bad("the content of the database changed")
			}
			got := completed()
			for _, l := range logs {
				if !reflect.DeepEqual(l.done, clone(got[l.base])) {
					bad("the journal has %v completed of %s instead of %v", got[l.base], l.base, l.done)
				}
			}
			classes["wrong "+what] = true
		}
		for i, k := 0, rapid.IntRange(1, 6).Draw(rt, "runs"); i < k; i++ {
			l := rapid.SampledFrom(logs).Draw(rt, "log")
			if rapid.IntRange(0, 2).Draw(rt, "grow") == 0 {
				l.grow(rt, rapid.IntRange(l.written, len(l.entries)).Draw(rt, "size"))
			}
			kind := rapid.SampledFrom([]string{"ingest", "ingest", "ingest", "ingest", "follow", "record", "wrong"}).Draw(rt, "run")
			switch kind {
			case "ingest":
				if rapid.IntRange(0, 2).Draw(rt, "bad") == 0 {
					f := rapid.SampledFrom(l.files).Draw(rt, "bad file")
					twin := false
					for _, g := range l.files {
						twin = twin || g != f && g.from == f.from
					}
					if kinds := []string{"missing", "truncated"}; !twin {
						f.bad = rapid.SampledFrom(kinds).Draw(rt, "how")
						if f.plain {
							f.bad = "missing"
						}
						f.write()
					}
				}
				ingest(rapid.SampledFrom([]string{"", "", "onlyingest"}).Draw(rt, "strategy"), l, rapid.Bool().Draw(rt, "plain"), rapid.Bool().Draw(rt, "skip"), true)
				if rapid.Bool().Draw(rt, "repair") {
					for _, f := range l.files {
						f.bad = ""
						f.write()
					}
				}
			case "follow":
				follow(rapid.SampledFrom([]string{"skipingest", "onlysmtupdate"}).Draw(rt, "strategy"), true)
			case "record":
				record(l)
			case "wrong":
				wrong(l)
			}
		}
		// At last, everything.
		for _, l := range logs {
			l.grow(rt, len(l.entries))
			for _, f := range l.files {
				f.bad = ""
				f.write()
			}
			ingest("", l, true, false, false)
		}
		follow("skipingest", false)
		m := newModel()
		for _, l := range logs {
			for i, it := range l.entries {
				if !l.expired[i] {
					m.add([]*item{it}, nil)
				}
			}
		}
		m.cleaned()
		s := d.snap()
		if e := m.compareMaterial(s, many); e != "" {
			bad("at the end: %s", e)
		}
		for _, l := range logs {
			record(l)
			if l.prefix() != len(l.entries) {
				bad("%d of %d entries completed", l.prefix(), len(l.entries))
			}
			step("once more")
			ingest("", l, true, false, false)
		}
		if !reflect.DeepEqual(s, d.snap()) {
			bad("a run without anything pending changed the database")
		}
		var cl []string
		for c := range classes {
			cl = append(cl, c)
		}
		rec.Case(strings.Join(steps, "\n"), failures, func() any { return steps }, cl...)
	})
}

func clone(m map[int]bool) map[int]bool {
	out := map[int]bool{}
	for i := range m {
		out[i] = true
	}
	return out
}
