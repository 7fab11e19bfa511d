package logfetcher

import (
	"bytes"
	"compress/gzip"
	"context"
	"crypto/sha256"
	"encoding/base64"
	"encoding/csv"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/zzverif/certs"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// ---------------------------------------------------------------- a mirrored log

var localNow = time.Date(2030, 6, 1, 12, 0, 0, 0, time.UTC)

type localRow struct {
	cert    *certs.Cert
	chain   []*certs.Cert
	column  time.Time // the expiration in the row
	fields  []string
	exclude bool
}

func (r localRow) key() string {
	k := fmt.Sprintf("%x:", r.cert.ID)
	for _, c := range r.chain {
		k += fmt.Sprintf(" %x", c.ID)
	}
	return k
}

type localFile struct {
	start, end int64
	gz         bool
	dir        string
	rows       []localRow
	fault      string
	data       []byte
}

func (f *localFile) name() string {
	ext := ".csv"
	if f.gz {
		ext = ".gz"
	}
	return filepath.Join(f.dir, fmt.Sprintf("%d-%d%s", f.start, f.end, ext))
}

func genRow(rt *rapid.T) localRow {
	ends := []time.Time{localNow.AddDate(-1, 0, 0), localNow.Add(-time.Second), localNow, localNow.Add(time.Second), localNow.AddDate(5, 0, 0), localNow.AddDate(5, 0, 0), localNow.AddDate(5, 0, 0)}
	end := rapid.SampledFrom(ends).Draw(rt, "not after")
	r := localRow{cert: certs.Make(certs.Spec{
		Serial:   int64(rapid.IntRange(0, 20).Draw(rt, "serial")),
		CN:       rapid.SampledFrom([]string{"a.com", "b.a.com", "", "c.org"}).Draw(rt, "cn"),
		Issuer:   rapid.SampledFrom([]string{"CA one", "CA two", ""}).Draw(rt, "issuer"),
		NotAfter: end,
		Weird:    rapid.IntRange(0, 9).Draw(rt, "weird") == 0,
	})}
	r.column = end
	if rapid.IntRange(0, 7).Draw(rt, "other column") == 0 {
		r.column = rapid.SampledFrom(ends).Draw(rt, "column")
	}
	r.exclude = localNow.After(r.column) || localNow.After(end)
	var chain []string
	for k := rapid.IntRange(0, 3).Draw(rt, "chain length"); k > 0; k-- {
		c := genCert(rt, true)
		r.chain = append(r.chain, c)
		chain = append(chain, base64.StdEncoding.EncodeToString(c.DER))
	}
	col := fmt.Sprintf("%d.%s", r.column.Unix(), rapid.SampledFrom([]string{"0", "5", "000000"}).Draw(rt, "fraction"))
	r.fields = []string{"x", rapid.SampledFrom([]string{"y", "", "a,b", `with "quotes"`}).Draw(rt, "text"), "z",
		base64.StdEncoding.EncodeToString(r.cert.DER), strings.Join(chain, ";")}
	for k := rapid.IntRange(0, 4).Draw(rt, "more columns"); k > 0; k-- {
		r.fields = append(r.fields, rapid.SampledFrom([]string{"", "san", "a, b", "1.2"}).Draw(rt, "column text"))
	}
	r.fields = append(r.fields, col)
	return r
}

func rowText(fields []string) []byte {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	w.Write(fields)
	w.Flush()
	return b.Bytes()
}

var rowFaults = []string{"expiration not a number", "expiration without fraction", "expiration missing", "one column", "few columns", "certificate not base64", "certificate garbage", "certificate cut", "certificate missing", "chain not base64", "chain garbage", "chain separator", "quote"}
var fileFaults = []string{"cut", "deleted", "directory", "not gzip", "cut gzip"}

func (f *localFile) render(rt *rapid.T) {
	var b bytes.Buffer
	at := -1
	if f.fault != "" && len(f.rows) > 0 {
		at = rapid.IntRange(0, len(f.rows)-1).Draw(rt, "faulty row")
	}
	for i, r := range f.rows {
		if i == at {
			fs := append([]string{}, r.fields...)
			live := fmt.Sprintf("%d.0", localNow.AddDate(1, 0, 0).Unix())
			switch f.fault {
			case "expiration not a number":
				fs[len(fs)-1] = "soon.0"
			case "expiration without fraction":
				fs[len(fs)-1] = fmt.Sprint(r.column.Unix())
			case "expiration missing":
				fs = fs[:len(fs)-1]
				if n := len(fs) - 1; n > CertChainColumn {
					fs[n] = ""
				}
			case "one column":
				fs = []string{live}
			case "few columns":
				fs = append(fs[:rapid.IntRange(0, 3).Draw(rt, "columns")], live)
			case "certificate not base64":
				fs[3], fs[len(fs)-1] = "*"+fs[3], live
			case "certificate garbage":
				fs[3], fs[len(fs)-1] = "AAAA", live
			case "certificate cut":
				fs[3], fs[len(fs)-1] = base64.StdEncoding.EncodeToString(r.cert.DER[:len(r.cert.DER)-1]), live
			case "certificate missing":
				fs[3], fs[len(fs)-1] = "", live
			case "chain not base64", "chain garbage", "chain separator":
				// Of an expired certificate the chain is not looked at.
				c := certs.Make(certs.Spec{Serial: 1, CN: "a.com", NotAfter: localNow.AddDate(2, 0, 0)})
				fs[3], fs[len(fs)-1] = base64.StdEncoding.EncodeToString(c.DER), live
				good := base64.StdEncoding.EncodeToString(genCert(rt, true).DER)
				fs[4] = map[string]string{"chain not base64": good + ";-", "chain garbage": "AAAA;" + good, "chain separator": good + ";"}[f.fault]
			}
			text := rowText(fs)
			switch f.fault {
			case "quote":
				text = append([]byte(`a"b,`), text...)
			case "cut":
				dot := bytes.LastIndexByte(text, '.')
				b.Write(text[:rapid.IntRange(1, dot).Draw(rt, "cut at")])
				goto done
			}
			b.Write(text)
			continue
		}
		b.Write(rowText(r.fields))
		if rapid.IntRange(0, 9).Draw(rt, "empty line") == 0 {
			b.WriteByte('\n')
		}
	}
done:
	f.data = b.Bytes()
	if f.gz && f.fault != "not gzip" {
		var z bytes.Buffer
		w := gzip.NewWriter(&z)
		w.Write(f.data)
		w.Close()
		f.data = z.Bytes()
		if f.fault == "cut gzip" {
			f.data = f.data[:rapid.IntRange(0, len(f.data)-1).Draw(rt, "cut gzip at")]
		}
	}
}

func (f *localFile) write(root string) {
	p := filepath.Join(root, f.name())
	must(0, os.MkdirAll(filepath.Dir(p), 0o755))
	must(0, os.WriteFile(p, f.data, 0o644))
}

func (f *localFile) damage(root string) {
	p := filepath.Join(root, f.name())
	switch f.fault {
	case "deleted":
		must(0, os.Remove(p))
	case "directory":
		must(0, os.Remove(p))
		must(0, os.Mkdir(p, 0o755))
	}
}

// genFile makes a file for the entries from start on.
func genFile(rt *rapid.T, start int64) *localFile {
	f := &localFile{start: start, gz: rapid.Bool().Draw(rt, "gzip"), dir: rapid.SampledFrom([]string{"", "x", "x/y", "bundled/deep/er"}).Draw(rt, "dir")}
	n := rapid.SampledFrom([]int{1, 2, 3, 5, 8, 20}).Draw(rt, "rows")
	f.end = start + int64(n) - 1
	for i := 0; i < n; i++ {
		f.rows = append(f.rows, genRow(rt))
	}
	return f
}

// ---------------------------------------------------------------- reading

type localGot struct {
	rows     map[string]int
	n        int
	excluded int
	batches  int
	err      error
}

func collectLocal(rt *rapid.T, f *LocalLogFetcher, max int) (g localGot, ended bool) {
	g.rows = map[string]int{}
	for k := 0; k < max; k++ {
		if !f.NextBatch(context.Background()) {
			return g, true
		}
		cs, hs, ex, err := f.ReturnNextBatch()
		if err != nil {
			g.err = err
			return g, true
		}
		if len(cs) != len(hs) {
			rt.Fatalf("%d certificates with %d chains", len(cs), len(hs))
		}
		if n := int64(len(cs) + ex); n > f.processBatchSize || n == 0 {
			rt.Fatalf("batch of %d entries", n)
		}
		for i := range cs {
			k := fmt.Sprintf("%x:", sha256.Sum256(cs[i].Raw))
			for _, c := range hs[i] {
				k += fmt.Sprintf(" %x", sha256.Sum256(c.Raw))
			}
			g.rows[k]++
			g.n++
		}
		g.excluded += ex
		g.batches++
	}
	return g, false
}

// within compares what was delivered with the rows of the files.
func (g localGot) check(files []*localFile, complete bool) string {
	want := map[string]int{}
	excluded, total := 0, 0
	for _, f := range files {
		for _, r := range f.rows {
			if r.exclude {
				excluded++
			} else {
				want[r.key()]++
				total++
			}
		}
	}
	for k, n := range g.rows {
		if n > want[k] {
			return fmt.Sprintf("delivered %d times, stored %d times: %.20s with a chain of %d", n, want[k], k, strings.Count(k, " "))
		}
	}
	if g.excluded > excluded {
		return fmt.Sprintf("%d excluded of %d expired", g.excluded, excluded)
	}
	if complete && (g.n != total || g.excluded != excluded) {
		return fmt.Sprintf("%d delivered of %d, %d excluded of %d expired", g.n, total, g.excluded, excluded)
	}
	return ""
}

// chainFrom gives the files that follow one after the other from the position on.
func chainFrom(files []*localFile, from int64) (out []*localFile) {
	for {
		var next *localFile
		for _, f := range files {
			if f.start == from {
				next = f
			}
		}
		if next == nil {
			return out
		}
		out = append(out, next)
		from = next.end + 1
	}
}

// TestL02Local: a directory that grows is read round by round, like the updater does it.
func TestL02Local(t *testing.T) {
	quiet(t)
	rec := vlib.New(t, "L02", "at least two files are read, or a damaged one")
	vlib.Check(t, rec, func(rt *rapid.T) {
		root := vlib.TempDir()
		defer os.RemoveAll(root)
		maxRows := uint64(rapid.SampledFrom([]int64{0, 1, 4, 10, 25, 1000, math.MaxInt64}).Draw(rt, "max rows"))
		f := must(NewLocalLogFetcher("the url", root, maxRows))
		f.processBatchSize = int64(rapid.SampledFrom([]int{1, 2, 3, 7, 50, defaultProcessBatchSize}).Draw(rt, "batch"))
		if f.URL() != "the url" {
			rt.Fatalf("URL is %q", f.URL())
		}
		for _, junk := range []string{"README", "1-2-3.csv", "data.csv", "y/7.gz", "0-4.txt"} {
			if rapid.IntRange(0, 4).Draw(rt, "junk") == 0 {
				must(0, os.MkdirAll(filepath.Join(root, filepath.Dir(junk)), 0o755))
				must(0, os.WriteFile(filepath.Join(root, junk), []byte("junk"), 0o644))
			}
		}
		var files []*localFile
		at := int64(0)
		if rapid.IntRange(0, 4).Draw(rt, "offset") == 0 {
			at = int64(rapid.IntRange(1, 1<<40).Draw(rt, "base"))
		}
		last := at
		next := at // start of the next new file
		desc := fmt.Sprintf("max rows %d, batches of %d:", maxRows, f.processBatchSize)
		nread, faults, abandoned, delivered := 0, []string{}, 0, 0
		vlib.Within("L02", "reading the local log does not end", patience, func() {
			for round := rapid.IntRange(1, 5).Draw(rt, "rounds"); round > 0; round-- {
				for k := rapid.IntRange(0, 4).Draw(rt, "new files"); k > 0; k-- {
					if rapid.IntRange(0, 9).Draw(rt, "gap") == 0 {
						next += int64(rapid.IntRange(1, 3).Draw(rt, "gap size"))
					}
					nf := genFile(rt, next)
					if rapid.IntRange(0, 11).Draw(rt, "damage") == 0 {
						nf.fault = rapid.SampledFrom(append(append([]string{}, rowFaults...), fileFaults...)).Draw(rt, "fault")
						if nf.fault == "not gzip" || nf.fault == "cut gzip" {
							nf.gz = true
						}
					}
					nf.render(rt)
					nf.write(root)
					files = append(files, nf)
					next = nf.end + 1
					desc += fmt.Sprintf(" %s", nf.name())
					if nf.fault != "" {
						desc += "(" + nf.fault + ")"
					}
				}
				if err := f.Initialize(localNow); err != nil {
					rt.Fatalf("%s: Initialize: %v", desc, err)
				}
				state, err := f.GetCurrentState(context.Background(), State{Size: uint64(last)})
				if err != nil {
					rt.Fatalf("%s: GetCurrentState: %v", desc, err)
				}
				// The state is the end of the last file that still is within the limit.
				avail := chainFrom(files, last)
				var use []*localFile
				for i, lf := range avail {
					if i > 0 && uint64(lf.end-last+1) > maxRows {
						break
					}
					use = append(use, lf)
				}
				target := last
				if len(use) > 0 {
					target = use[len(use)-1].end + 1
				}
				desc += fmt.Sprintf(" [%d,%d]", last, target-1)
				if state.Size != uint64(target) {
					rt.Fatalf("%s: state %d, expected %d", desc, state.Size, target)
				}
				bad := ""
				for _, lf := range use {
					if lf.fault != "" {
						bad = lf.fault
						lf.damage(root)
					}
				}
				f.StartFetching(last, target-1)
				batches := 1000
				if rapid.IntRange(0, 3).Draw(rt, "abandon") == 0 {
					batches = rapid.IntRange(0, 3).Draw(rt, "batches")
				}
				g, ended := collectLocal(rt, f, batches)
				if rapid.Bool().Draw(rt, "stop") {
					f.StopFetching()
				}
				if msg := g.check(use, ended && g.err == nil); msg != "" {
					rt.Fatalf("%s: %s (error: %v)", desc, msg, g.err)
				}
				delivered += g.n
				switch {
				case bad != "" && ended && g.err == nil:
					rt.Fatalf("%s: %d delivered and %d excluded without error", desc, g.n, g.excluded)
				case bad == "" && g.err != nil:
					rt.Fatalf("%s: %v", desc, g.err)
				case bad != "":
					faults = append(faults, bad)
					desc += " failed"
					// The damaged files are replaced by good ones.
					for _, lf := range use {
						if lf.fault == "directory" {
							must(0, os.Remove(filepath.Join(root, lf.name())))
						}
						if lf.fault != "" {
							lf.fault = ""
							lf.render(rt)
							lf.write(root)
						}
					}
				case !ended:
					abandoned++
					desc += " abandoned"
				default:
					last = target
					nread += len(use)
				}
			}
			f.StopFetching()
		})
		cls := []string{fmt.Sprintf("abandoned %d", abandoned)}
		cls = append(cls, faults...)
		rec.Case(desc, nread > 1 || len(faults) > 0, func() any {
			return map[string]any{"case": desc, "delivered": delivered, "files": len(files)}
		}, cls...)
	})
}

// TestL02Names: directories whose files do not fit together are refused or read right, never end the
// process.
func TestL02Names(t *testing.T) {
	quiet(t)
	rec := vlib.New(t, "L02", "at least two files with ranges")
	vlib.Check(t, rec, func(rt *rapid.T) {
		root := vlib.TempDir()
		defer os.RemoveAll(root)
		n := rapid.IntRange(0, 7).Draw(rt, "files")
		var files []*localFile
		inverted, dup := false, false
		seen := map[string]bool{}
		starts := map[int64]bool{}
		var names []string
		for i := 0; i < n; i++ {
			lf := &localFile{start: int64(rapid.IntRange(0, 12).Draw(rt, "start")), gz: rapid.Bool().Draw(rt, "gzip"), dir: rapid.SampledFrom([]string{"", "x", "x/y"}).Draw(rt, "dir")}
			lf.end = lf.start + int64(rapid.SampledFrom([]int{0, 0, 1, 2, 2, 3, 5}).Draw(rt, "length"))
			if rapid.IntRange(0, 14).Draw(rt, "inverted") == 0 {
				lf.end = lf.start - int64(rapid.IntRange(1, 3).Draw(rt, "by"))
			}
			if lf.end < 0 || seen[lf.name()] {
				continue
			}
			seen[lf.name()] = true
			inverted = inverted || lf.end < lf.start
			dup = dup || starts[lf.start]
			starts[lf.start] = true
			for k := lf.start; k <= lf.end; k++ {
				lf.rows = append(lf.rows, genRow(rt))
			}
			lf.render(rt)
			lf.write(root)
			files = append(files, lf)
			names = append(names, lf.name())
		}
		sort.Strings(names)
		dir := root
		missing := rapid.IntRange(0, 19).Draw(rt, "missing") == 0
		if missing {
			dir = filepath.Join(root, "not", "there")
		}
		f := must(NewLocalLogFetcher("u", dir, 1000))
		desc := fmt.Sprintf("files %v, missing %v", names, missing)
		var result string
		vlib.Within("L02", "reading a directory does not end", patience, func() {
			defer f.StopFetching()
			err := f.Initialize(localNow)
			if err != nil {
				result = "refused"
				if !inverted && !dup && !missing {
					rt.Fatalf("%s: %v", desc, err)
				}
				return
			}
			if dup || missing {
				rt.Fatalf("%s: no error", desc)
			}
			result = "read"
			var good []*localFile
			for _, lf := range files {
				if lf.end >= lf.start {
					good = append(good, lf)
				}
			}
			from := int64(rapid.IntRange(0, 12).Draw(rt, "from"))
			s, err := f.GetCurrentState(context.Background(), State{Size: uint64(from), STH: []byte("x")})
			if err != nil {
				rt.Fatalf("%s: %v", desc, err)
			}
			use := chainFrom(good, from)
			to := from
			if len(use) > 0 {
				to = use[len(use)-1].end + 1
			}
			if s.Size != uint64(to) {
				rt.Fatalf("%s: state from %d is %d, expected %d", desc, from, s.Size, to)
			}
			f.StartFetching(from, to-1)
			g, _ := collectLocal(rt, f, 1000)
			if g.err != nil {
				rt.Fatalf("%s from %d: %v", desc, from, g.err)
			}
			if msg := g.check(use, true); msg != "" {
				rt.Fatalf("%s from %d: %s", desc, from, msg)
			}
			result += fmt.Sprintf(" %d files", len(use))
		})
		rec.Case(desc, len(files) > 1, func() any { return desc + ": " + result }, result, fmt.Sprintf("inverted %v", inverted))
	})
}

// quiet drops what the fetcher prints.
func quiet(t *testing.T) {
	null := must(os.OpenFile(os.DevNull, os.O_WRONLY, 0))
	o, e := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = null, null
	t.Cleanup(func() { os.Stdout, os.Stderr = o, e; null.Close() })
}
