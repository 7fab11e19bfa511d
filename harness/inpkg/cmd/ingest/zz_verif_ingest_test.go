package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/base64"
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/cmd/ingest/fastcsv"
	"github.com/netsec-ethz/fpki/cmd/ingest/journal"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/pkg/statistics"
	"github.com/netsec-ethz/fpki/pkg/tests/noopdb"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/zzverif/certs"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// ---------------------------------------------------------------- a database that reads the CSV files

var errDB = errors.New("injected failure of the storage")

type dbCert struct {
	parent, payload string
	exp             string
}

// fakeDB models the tables that bulk ingestion writes, with the rules of LOAD DATA (IGNORE keeps the
// first row of a key), and can fail at one call.
type fakeDB struct {
	noopdb.Conn
	mu      sync.Mutex
	certs   map[string]dbCert
	dirty   map[string]bool
	domains map[string]string
	links   map[string]bool
	calls   map[string]int
	failOp  string
	failAt  int
	after   bool // fail after having done the work
	failed  bool
	slow    *rand.Rand
	broken  string
}

var _ db.Conn = (*fakeDB)(nil)

func newFakeDB() *fakeDB {
	return &fakeDB{certs: map[string]dbCert{}, dirty: map[string]bool{}, domains: map[string]string{}, links: map[string]bool{}, calls: map[string]int{}}
}

// loadData reads a file like MySQL does with FIELDS TERMINATED BY ',' ENCLOSED BY '"' and its default
// escapes.
func loadData(b []byte) (rows [][]string) {
	i := 0
	for i < len(b) {
		var row []string
		for {
			var f []byte
			quoted := i < len(b) && b[i] == '"'
			if quoted {
				i++
			}
			end := byte(0)
			for i < len(b) {
				c := b[i]
				if c == '\\' && i+1 < len(b) {
					i += 2
					switch e := b[i-1]; e {
					case '0':
						f = append(f, 0)
					case 'b':
						f = append(f, '\b')
					case 'n':
						f = append(f, '\n')
					case 'r':
						f = append(f, '\r')
					case 't':
						f = append(f, '\t')
					case 'Z':
						f = append(f, 26)
					default:
						f = append(f, e)
					}
					continue
				}
				if quoted && c == '"' {
					if i+1 < len(b) && b[i+1] == '"' {
						f = append(f, '"')
						i += 2
						continue
					}
					if i+1 == len(b) || b[i+1] == ',' || b[i+1] == '\n' {
						quoted = false
						i++
						continue
					}
				}
				if !quoted && (c == ',' || c == '\n') {
					end = c
					i++
					break
				}
				f = append(f, c)
				i++
			}
			row = append(row, string(f))
			if end != ',' {
				break
			}
		}
		rows = append(rows, row)
	}
	return rows
}

func unb64(s string) string {
	d, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		return "!" + s
	}
	return string(d)
}

func (d *fakeDB) load(op, file string, cols int, row func([]string)) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.calls[op]++
	if d.slow != nil && d.slow.Intn(3) == 0 {
		ms := time.Duration(d.slow.Intn(300)) * time.Microsecond
		d.mu.Unlock()
		time.Sleep(ms)
		d.mu.Lock()
	}
	fail := d.failOp == op && d.failAt == d.calls[op]
	if fail && !d.after {
		d.failed = true
		return fmt.Errorf("%s: %w", op, errDB)
	}
	data, err := os.ReadFile(file)
	if err != nil {
		d.broken = fmt.Sprintf("%s is called with a file that cannot be read: %v", op, err)
		return err
	}
	for _, r := range loadData(data) {
		for len(r) < cols {
			r = append(r, "")
		}
		row(r[:cols])
	}
	if fail {
		d.failed = true
		return fmt.Errorf("%s: %w", op, errDB)
	}
	return nil
}

func (d *fakeDB) InsertCsvIntoCerts(_ context.Context, file string) error {
	return d.load("certs", file, 4, func(r []string) {
		id := unb64(r[0])
		if _, ok := d.certs[id]; !ok {
			d.certs[id] = dbCert{parent: unb64(r[1]), exp: r[2], payload: unb64(r[3])}
		}
	})
}

func (d *fakeDB) InsertCsvIntoDirty(_ context.Context, file string) error {
	return d.load("dirty", file, 1, func(r []string) { d.dirty[unb64(r[0])] = true })
}

func (d *fakeDB) InsertCsvIntoDomains(_ context.Context, file string) error {
	return d.load("domains", file, 2, func(r []string) {
		id := unb64(r[0])
		if _, ok := d.domains[id]; !ok {
			d.domains[id] = r[1]
		}
	})
}

func (d *fakeDB) InsertCsvIntoDomainCerts(_ context.Context, file string) error {
	return d.load("domain_certs", file, 2, func(r []string) { d.links[unb64(r[0])+unb64(r[1])] = true })
}

// ------------------------------------------------------------------------ what the files must lead to

// want is the content that the rows of some files must lead to.
type want struct {
	certs   map[string]*certs.Cert
	parents map[string]map[string]bool // the issuers of a certificate in the chains ("" for none)
	domains map[string]string
	links   map[string]bool
	names   map[string]string // for messages
}

func newWant() *want {
	return &want{certs: map[string]*certs.Cert{}, parents: map[string]map[string]bool{}, domains: map[string]string{}, links: map[string]bool{}, names: map[string]string{}}
}

func (w *want) add(r *irow) {
	if r.expired() {
		return
	}
	all := append([]*certs.Cert{r.leaf}, r.chain...)
	for i, c := range all {
		id := string(c.ID[:])
		w.certs[id] = c
		w.names[id] = c.CN
		if w.parents[id] == nil {
			w.parents[id] = map[string]bool{}
		}
		p := ""
		if i+1 < len(all) {
			p = string(all[i+1].ID[:])
		}
		w.parents[id][p] = true
	}
	for _, n := range r.leaf.Names() {
		h := common.SHA256Hash32Bytes([]byte(n))
		w.domains[string(h[:])] = n
		w.links[string(h[:])+string(r.leaf.ID[:])] = true
	}
}

// compare tells how the database differs from the content wanted.
// Known finding: of several certificates for the same name, the pipeline links only those that pass its
// cache of names seen before to the name (the repository's TestManagerStart expects it); a name without
// any link to its certificates, or with one to another certificate, is still an error.
func (w *want) compare(rec *vlib.Rec, d *fakeDB) string {
	for id, c := range w.certs {
		got, ok := d.certs[id]
		if !ok {
			return fmt.Sprintf("certificate %s is not stored", c.Spec)
		}
		if got.payload != string(c.DER) {
			return fmt.Sprintf("certificate %s is stored with other bytes", c.Spec)
		}
		if e := c.NotAfter.UTC().Format("2006-01-02 15:04:05"); got.exp != e {
			return fmt.Sprintf("certificate %s is stored with expiration %q instead of %q", c.Spec, got.exp, e)
		}
		if !w.parents[id][got.parent] {
			return fmt.Sprintf("certificate %s is stored with an issuer (%s) that it has in no chain", c.Spec, w.names[got.parent])
		}
	}
	for id := range d.certs {
		if w.certs[id] == nil {
			return fmt.Sprintf("a certificate is stored that is in no row to store (%x)", id)
		}
	}
	for id, n := range w.domains {
		if got, ok := d.domains[id]; !ok || got != n {
			return fmt.Sprintf("the domain %q is stored as %q (%v)", n, got, ok)
		}
		if !d.dirty[id] {
			return fmt.Sprintf("the domain %q is not recorded as needing an update", n)
		}
	}
	linked := map[string]int{} // the links of each domain
	for l := range d.links {
		if !w.links[l] {
			return fmt.Sprintf("the domain %q is linked to another certificate (%x)", w.domains[l[:32]], l[32:])
		}
		linked[l[:32]]++
	}
	for l := range w.links {
		if !d.links[l] {
			e := fmt.Sprintf("the domain %q is not linked to certificate %s", w.domains[l[:32]], w.certs[l[32:]].Spec)
			if linked[l[:32]] == 0 || !rec.Known("one-link-per-name", e) {
				return e
			}
		}
	}
	if len(d.domains) != len(w.domains) || len(d.dirty) != len(w.domains) {
		return fmt.Sprintf("%d domains and %d needing an update are stored instead of %d and %d",
			len(d.domains), len(d.dirty), len(w.domains), len(w.domains))
	}
	return ""
}

// ---------------------------------------------------------------------------------- generated files

type irow struct {
	leaf    *certs.Cert
	chain   []*certs.Cert
	expCol  string
	bad     string // the kind of defect of this row
	raw     string
	colPast bool
}

func (r *irow) expired() bool { return r.colPast || r.leaf.NotAfter.Before(time.Now()) }

func b64(c *certs.Cert) string { return base64.StdEncoding.EncodeToString(c.DER) }

func (r *irow) render(quote int) {
	var ch []string
	for _, c := range r.chain {
		ch = append(ch, b64(c))
	}
	f := []string{"17", "https://log", "x", b64(r.leaf), strings.Join(ch, ";"), "y", r.expCol}
	switch r.bad {
	case "cert-base64":
		f[3] = "*" + f[3][1:]
	case "cert-der":
		f[3] = base64.StdEncoding.EncodeToString(r.leaf.DER[:len(r.leaf.DER)/2])
	case "chain-base64":
		f[4] += "=;*"
	case "chain-der":
		f[4] = strings.TrimPrefix(f[4]+";", ";") + "MAA="
	case "expiration":
		f[6] = "tomorrow"
	case "no-dot":
		f[6] = strconv.FormatInt(future.Unix(), 10)
	case "columns":
		f = f[:3]
	case "empty-cert":
		f[3] = ""
	}
	for i := range f {
		if quote&(1<<i) != 0 {
			f[i] = `"` + strings.ReplaceAll(f[i], `"`, `""`) + `"`
		}
	}
	r.raw = strings.Join(f, ",")
}

type gen struct {
	rt     *rapid.T
	cas    []*certs.Cert
	parent []int
	cross  bool
	leaves []*certs.Cert
	names  []string
}

var future = time.Date(2060, 2, 3, 4, 5, 6, 0, time.UTC)

func newGen(rt *rapid.T) *gen {
	g := &gen{rt: rt}
	g.cross = rapid.IntRange(0, 2).Draw(rt, "cross") == 0
	n := rapid.IntRange(1, 6).Draw(rt, "cas")
	for i := 0; i < n; i++ {
		p := -1
		if i > 0 {
			p = rapid.IntRange(-1, i-1).Draw(rt, "parent")
		}
		s := certs.Spec{Serial: int64(1000 + i), CN: fmt.Sprintf("ca%d", i), CA: true, NotAfter: future.Add(time.Duration(i) * time.Hour)}
		if rapid.IntRange(0, 9).Draw(rt, "caExpired") == 0 {
			s.NotAfter = time.Date(2015, 1, 1, 0, 0, i, 0, time.UTC)
		}
		g.cas = append(g.cas, certs.Make(s))
		g.parent = append(g.parent, p)
	}
	g.names = []string{"a.com", "b.com", "a.b.com", "*.c.org", "Acme, Inc.", `we "quote" it`, `back\slash\n`, "two\nlines"}
	m := rapid.IntRange(1, 10).Draw(rt, "leaves")
	for i := 0; i < m; i++ {
		g.leaves = append(g.leaves, g.leaf(i))
	}
	return g
}

func (g *gen) leaf(i int) *certs.Cert {
	s := certs.Spec{Serial: int64(i), Issuer: "someone", NotAfter: future.Add(time.Duration(i) * time.Second)}
	if rapid.IntRange(0, 3).Draw(g.rt, "cn") > 0 {
		k := len(g.names)
		if rapid.IntRange(0, 3).Draw(g.rt, "plain") > 0 {
			k = 4
		}
		s.CN = g.names[rapid.IntRange(0, k-1).Draw(g.rt, "name")]
	}
	for j := rapid.IntRange(0, 4).Draw(g.rt, "sans"); j > 0; j-- {
		s.SANs = append(s.SANs, g.names[rapid.IntRange(0, 3).Draw(g.rt, "name")])
	}
	if rapid.IntRange(0, 7).Draw(g.rt, "expired") == 0 {
		s.NotAfter = time.Date(2019, 1, 1, 0, 0, i, 0, time.UTC)
	}
	return certs.Make(s)
}

func (g *gen) row() *irow {
	rt := g.rt
	r := &irow{expCol: fmt.Sprintf("%d.%s", future.Unix(), rapid.SampledFrom([]string{"0", "25"}).Draw(rt, "frac"))}
	if rapid.IntRange(0, 9).Draw(rt, "caLeaf") == 0 {
		r.leaf = g.cas[rapid.IntRange(0, len(g.cas)-1).Draw(rt, "ca")]
	} else {
		r.leaf = g.leaves[rapid.IntRange(0, len(g.leaves)-1).Draw(rt, "leaf")]
	}
	if rapid.IntRange(0, 9).Draw(rt, "past") == 0 {
		r.colPast = true
		r.expCol = "1500000000.0"
	}
	i := rapid.IntRange(-1, len(g.cas)-1).Draw(rt, "issuer")
	for i >= 0 && len(r.chain) < 6 {
		if g.cas[i] == r.leaf {
			break
		}
		r.chain = append(r.chain, g.cas[i])
		i = g.parent[i]
		if g.cross && rapid.IntRange(0, 2).Draw(rt, "crossed") == 0 {
			i = rapid.IntRange(-1, len(g.cas)-1).Draw(rt, "other")
		}
		for _, c := range r.chain {
			if i >= 0 && c == g.cas[i] {
				i = -1
			}
		}
	}
	quote := 0
	if rapid.IntRange(0, 3).Draw(rt, "quoted") == 0 {
		quote = rapid.IntRange(0, 127).Draw(rt, "quote")
	}
	r.render(quote)
	return r
}

type ifile struct {
	name  string
	rows  []*irow
	gz    bool
	eol   string
	noEnd bool // the last row has no line ending
}

func (f *ifile) content() []byte {
	var b bytes.Buffer
	for i, r := range f.rows {
		b.WriteString(r.raw)
		if i+1 < len(f.rows) || !f.noEnd {
			b.WriteString(f.eol)
		}
	}
	return b.Bytes()
}

func gzipped(b []byte) []byte {
	var out bytes.Buffer
	w := gzip.NewWriter(&out)
	w.Write(b)
	w.Close()
	return out.Bytes()
}

func (f *ifile) write(dir string) {
	b := f.content()
	if f.gz {
		b = gzipped(b)
	}
	f.put(dir, b)
}

func (f *ifile) put(dir string, b []byte) {
	if err := os.WriteFile(filepath.Join(dir, f.name), b, 0o644); err != nil {
		vlib.Infra("cannot write %s: %v", f.name, err)
	}
}

func (g *gen) files(maxFiles, maxRows int) []*ifile {
	var out []*ifile
	for i := rapid.IntRange(1, maxFiles).Draw(g.rt, "files"); i > 0; i-- {
		f := &ifile{eol: "\n", gz: rapid.Bool().Draw(g.rt, "gz")}
		f.name = fmt.Sprintf("%d-%d.csv", 100*len(out), 100*len(out)+99)
		if f.gz {
			f.name = strings.Replace(f.name, ".csv", ".gz", 1)
		}
		if rapid.IntRange(0, 5).Draw(g.rt, "crlf") == 0 {
			f.eol = "\r\n"
		}
		f.noEnd = rapid.IntRange(0, 3).Draw(g.rt, "noEnd") == 0
		for j := rapid.IntRange(0, maxRows).Draw(g.rt, "rows"); j > 0; j-- {
			f.rows = append(f.rows, g.row())
		}
		out = append(out, f)
	}
	return out
}

type iconf struct{ readers, toChains, toCerts, writers, multi int }

func (c iconf) String() string {
	return fmt.Sprintf("readers=%d parsers=%d dechainers=%d writers=%d multi=%d", c.readers, c.toChains, c.toCerts, c.writers, c.multi)
}

func genConf(rt *rapid.T) iconf {
	k := func(n string) int { return rapid.IntRange(1, 5).Draw(rt, n) }
	return iconf{k("readers"), k("parsers"), k("dechainers"), k("writers"), rapid.SampledFrom([]int{1, 2, 3, 5, 8, 100}).Draw(rt, "multi")}
}

func (c iconf) run(prop, what string, conn db.Conn, skipMissing bool, paths []string) (err error) {
	stats := statistics.NewStatistics(time.Hour, nil)
	defer stats.Stop()
	vlib.Within(prop, "ingestion with "+c.String()+" of "+what, 2*time.Minute, func() {
		var p *Processor
		p, err = NewProcessor(context.Background(), conn, c.multi, stats,
			WithNumFileReaders(c.readers), WithNumToChains(c.toChains), WithNumToCerts(c.toCerts),
			WithNumDBWriters(c.writers), WithSkipMissingFiles(skipMissing))
		if err != nil {
			vlib.Infra("no processor: %v", err)
		}
		var fs []util.CsvFile
		for _, n := range paths {
			f, e := util.LoadCsvFile(n)
			if e != nil {
				vlib.Infra("%v", e)
			}
			fs = append(fs, f)
		}
		p.AddCsvFiles(fs)
		p.Resume()
		err = p.Wait()
	})
	return err
}

func quiet(t *testing.T) {
	t.Cleanup(fastcsv.SetStderr(io.Discard))
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	o, e := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = null, null
	t.Cleanup(func() { os.Stdout, os.Stderr = o, e })
	if err := os.MkdirAll(updater.TemporaryDir, 0o777); err != nil {
		vlib.Infra("cannot create %s: %v", updater.TemporaryDir, err)
	}
}

func paths(dir string, fs []*ifile) (out []string) {
	for _, f := range fs {
		out = append(out, filepath.Join(dir, f.name))
	}
	return out
}

func describe(c iconf, fs []*ifile) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s", c)
	for _, f := range fs {
		fmt.Fprintf(&b, " | %s:", f.name)
		for _, r := range f.rows {
			fmt.Fprintf(&b, " #%d(%s)<-", r.leaf.Serial, strings.Join(r.leaf.Names(), "+"))
			for _, c := range r.chain {
				fmt.Fprintf(&b, "%s.", c.CN)
			}
			if r.expired() {
				b.WriteString("expired")
			}
			if r.bad != "" {
				b.WriteString("!" + r.bad)
			}
		}
	}
	return b.String()
}

// TestI02Ingest ingests generated files, in one or more batches, and compares what is stored with the
// union of their rows.
func TestI02Ingest(t *testing.T) {
	rec := vlib.New(t, "I02", "at least two rows to store, one of which shares a certificate or a name with another")
	quiet(t)
	base := vlib.TempDir()
	n := 0
	vlib.Check(t, rec, func(rt *rapid.T) {
		n++
		dir := filepath.Join(base, fmt.Sprint(n))
		if os.MkdirAll(dir, 0o755) != nil {
			vlib.Infra("cannot create %s", dir)
		}
		defer os.RemoveAll(dir)
		g := newGen(rt)
		conn := newFakeDB()
		conn.slow = rand.New(rand.NewSource(rapid.Int64Range(0, 1<<30).Draw(rt, "pauses")))
		w := newWant()
		desc := ""
		classes := []string{}
		stored, occ := 0, map[string]int{}
		for b := rapid.SampledFrom([]int{1, 1, 2}).Draw(rt, "batches"); b > 0; b-- {
			conf := genConf(rt)
			rowsMax := 10
			if vlib.Thorough() {
				rowsMax = 40
			}
			fs := g.files(4, rowsMax)
			for _, f := range fs {
				f.write(dir)
				for _, r := range f.rows {
					w.add(r)
					if !r.expired() {
						stored++
						for _, c := range append([]*certs.Cert{r.leaf}, r.chain...) {
							occ[string(c.ID[:])]++
						}
						for _, nm := range r.leaf.Names() {
							occ["n"+nm]++
						}
					}
				}
			}
			ps := paths(dir, fs)
			skip := rapid.IntRange(0, 4).Draw(rt, "skipMissing") == 0
			if skip && rapid.Bool().Draw(rt, "missing") {
				k := rapid.IntRange(0, len(ps)).Draw(rt, "missingAt")
				ps = append(ps[:k:k], append([]string{filepath.Join(dir, "900-999.gz")}, ps[k:]...)...)
				classes = append(classes, "missing-skipped")
			}
			d := describe(conf, fs)
			desc += " || " + d
			if err := conf.run("I02", d, conn, skip, ps); err != nil {
				rt.Fatalf("ingesting %s: %v", desc, err)
			}
			if conn.broken != "" {
				rt.Fatalf("ingesting %s: %s", desc, conn.broken)
			}
			if e := w.compare(rec, conn); e != "" {
				rt.Fatalf("after ingesting %s: %s", desc, e)
			}
			for _, f := range fs {
				os.Remove(filepath.Join(dir, f.name))
			}
		}
		shared := false
		for _, k := range occ {
			shared = shared || k > 1
		}
		if g.cross {
			classes = append(classes, "cross-signed")
		}
		rec.Case(desc, stored > 1 && shared, func() any { return strings.TrimPrefix(desc, " || ") }, classes...)
	})
}

// -------------------------------------------------------------------------------------------- faults

// rowOK is the reference for what a row must look like.
func rowOK(line string) bool {
	rd := csv.NewReader(strings.NewReader(line))
	rd.FieldsPerRecord = -1
	f, err := rd.Read()
	if err != nil || len(f) < 5 || f[3] == "" {
		return false
	}
	e := f[len(f)-1]
	dot := strings.IndexByte(e, '.')
	if dot <= 0 || dot == len(e)-1 {
		return false
	}
	s, err := strconv.ParseInt(e[:dot], 10, 64)
	if err != nil {
		return false
	}
	if time.Unix(s, 0).Before(time.Now()) {
		return true
	}
	for i, x := range strings.Split(f[3]+";"+f[4], ";") {
		if i == 1 && f[4] == "" {
			continue
		}
		d, err := base64.StdEncoding.DecodeString(x)
		if err != nil || len(d) == 0 {
			return false
		}
	}
	return true
}

type fault struct {
	kind string
	ok   bool // the fault leaves the input as good as it was
}

// spoil puts one fault in one of the files, or in the database.
func (g *gen) spoil(dir string, fs []*ifile, conn *fakeDB) (fault, []string) {
	rt := g.rt
	ps := paths(dir, fs)
	k := rapid.IntRange(0, len(fs)-1).Draw(rt, "file")
	f := fs[k]
	kind := rapid.SampledFrom([]string{"db", "db", "db", "row", "row", "missing", "gz-cut", "gz-flip", "csv-cut", "directory", "not-gz", "none"}).Draw(rt, "fault")
	switch kind {
	case "db":
		conn.failOp = rapid.SampledFrom([]string{"certs", "dirty", "domains", "domain_certs"}).Draw(rt, "op")
		conn.failAt = rapid.IntRange(1, 6).Draw(rt, "call")
		conn.after = rapid.Bool().Draw(rt, "after")
		return fault{fmt.Sprintf("call %d for %s fails", conn.failAt, conn.failOp), false}, ps
	case "row":
		r := g.row()
		if r.expired() {
			r.leaf, r.colPast = certs.Make(certs.Spec{Serial: 99, CN: "d.com", Issuer: "someone", NotAfter: future}), false
			r.expCol = fmt.Sprintf("%d.0", future.Unix())
		}
		r.bad = rapid.SampledFrom([]string{"cert-base64", "cert-der", "chain-base64", "chain-der", "expiration", "no-dot", "columns", "empty-cert"}).Draw(rt, "bad")
		r.render(0)
		at := rapid.IntRange(0, len(f.rows)).Draw(rt, "at")
		f.rows = append(f.rows[:at:at], append([]*irow{r}, f.rows[at:]...)...)
		f.write(dir)
		return fault{"a row with bad " + r.bad, false}, ps
	case "missing":
		at := rapid.IntRange(0, len(ps)).Draw(rt, "at")
		ps = append(ps[:at:at], append([]string{filepath.Join(dir, "900-999.gz")}, ps[at:]...)...)
		return fault{"a missing file", false}, ps
	case "directory":
		p := filepath.Join(dir, "900-999.csv")
		os.Mkdir(p, 0o755)
		at := rapid.IntRange(0, len(ps)).Draw(rt, "at")
		ps = append(ps[:at:at], append([]string{p}, ps[at:]...)...)
		return fault{"a directory in place of a file", false}, ps
	case "not-gz":
		if f.gz {
			b := f.content()
			f.put(dir, b)
			return fault{"a compressed file that is not", false}, ps
		}
	case "gz-cut", "gz-flip":
		if f.gz {
			b := gzipped(f.content())
			if kind == "gz-cut" {
				b = b[:rapid.IntRange(0, len(b)-1).Draw(rt, "cut")]
			} else {
				b[rapid.IntRange(0, len(b)-1).Draw(rt, "flip")] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bit"))
			}
			f.put(dir, b)
			zr, err := gzip.NewReader(bytes.NewReader(b))
			if err == nil {
				_, err = io.ReadAll(zr)
			}
			return fault{fmt.Sprintf("a compressed file damaged (%s)", kind), err == nil}, ps
		}
	case "csv-cut":
		b := f.content()
		if !f.gz && len(b) > 0 {
			cut := rapid.IntRange(1, len(b)).Draw(rt, "cut")
			b = b[:cut]
			lines := strings.SplitAfter(string(b), "\n")
			last := lines[len(lines)-1]
			if last != "" && !rowOK(last) {
				f.put(dir, b)
				return fault{"a plain file cut within a row", false}, ps
			}
		}
	}
	return fault{"none", true}, ps
}

// TestI03Faults ingests files with one fault among them, or with a database that fails once.
func TestI03Faults(t *testing.T) {
	rec := vlib.New(t, "I03", "a fault took effect in an ingestion with at least one row")
	quiet(t)
	base := vlib.TempDir()
	n := 0
	vlib.Check(t, rec, func(rt *rapid.T) {
		n++
		dir := filepath.Join(base, fmt.Sprint(n))
		if os.MkdirAll(dir, 0o755) != nil {
			vlib.Infra("cannot create %s", dir)
		}
		defer os.RemoveAll(dir)
		g := newGen(rt)
		conn := newFakeDB()
		conn.slow = rand.New(rand.NewSource(rapid.Int64Range(0, 1<<30).Draw(rt, "pauses")))
		conf := genConf(rt)
		fs := g.files(4, 12)
		w := newWant()
		rows := 0
		for _, f := range fs {
			f.write(dir)
			for _, r := range f.rows {
				w.add(r)
				rows++
			}
		}
		fl, ps := g.spoil(dir, fs, conn)
		desc := fmt.Sprintf("%s, in %s", fl.kind, describe(conf, fs))
		err := conf.run("I03", desc, conn, false, ps)
		took := !fl.ok
		if conn.failOp != "" {
			took = conn.failed
		}
		switch {
		case took && err == nil:
			rt.Fatalf("no error is reported with %s", desc)
		case conn.failed && !strings.Contains(err.Error(), errDB.Error()):
			rt.Fatalf("with %s another error is reported: %v", desc, err)
		case !took && err != nil:
			rt.Fatalf("an error is reported, but there is %s: %v", desc, err)
		}
		if !took {
			if e := w.compare(rec, conn); e != "" {
				rt.Fatalf("with %s: %s", desc, e)
			}
		}
		class := strings.Fields(fl.kind)[0]
		if took {
			class = "effective"
		}
		rec.Case(desc, took && rows > 0, func() any { return desc + " -> " + firstLine(err) }, class)
	})
}

func firstLine(err error) string {
	if err == nil {
		return "no error"
	}
	s := strings.SplitN(err.Error(), "\n", 2)[0]
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// TestI03Runs drives whole runs of the ingestion, with its journal, over files with a fault, repairs the
// fault, and runs again: nothing of a failed batch may be taken as done.
func TestI03Runs(t *testing.T) {
	rec := vlib.New(t, "I03", "histories where a run failed and a later one had files left to do")
	quiet(t)
	base := vlib.TempDir()
	n := 0
	vlib.Check(t, rec, func(rt *rapid.T) {
		n++
		root := filepath.Join(base, fmt.Sprint(n))
		dir := filepath.Join(root, "https:__log.example.org_2026_a", "bundled")
		if os.MkdirAll(dir, 0o755) != nil {
			vlib.Infra("cannot create %s", dir)
		}
		defer os.RemoveAll(root)
		g := newGen(rt)
		conn := newFakeDB()
		conf := genConf(rt)
		fs := g.files(5, 6)
		w := newWant()
		for _, f := range fs {
			f.gz = true
			f.name = strings.Replace(f.name, ".csv", ".gz", 1)
			f.write(dir)
			for _, r := range f.rows {
				w.add(r)
			}
		}
		cfg := RunConfig{
			Directory: filepath.Dir(dir), Strategy: "onlyingest", JournalFile: filepath.Join(root, "journal.json"),
			FileBatch: rapid.IntRange(0, 3).Draw(rt, "fileBatch"), MultiInsertSize: conf.multi,
			NumFiles: conf.readers, NumParsers: conf.toChains, NumChainToCerts: conf.toCerts, NumDBWriters: conf.writers,
		}
		desc := fmt.Sprintf("batches of %d, %s", cfg.FileBatch, describe(conf, fs))
		pending := func() map[string]bool {
			jc, err := cfg.JobConfiguration()
			if err != nil {
				rt.Fatalf("%v", err)
			}
			j, err := journal.NewJournal(cfg.JournalFile, jc, cfg.Directory)
			if err != nil {
				rt.Fatalf("%s: reading the journal: %v", desc, err)
			}
			ps, err := j.PendingFiles()
			if err != nil {
				rt.Fatalf("%s: pending files: %v", desc, err)
			}
			out := map[string]bool{}
			for _, p := range ps {
				out[filepath.Base(p)] = true
			}
			return out
		}
		failures, leftovers := 0, 0
		var hist []string
		for r := 0; ; r++ {
			conn.failOp, conn.failed = "", false
			restore := func() {}
			var bad *ifile
			kind := rapid.SampledFrom([]string{"db", "db", "row", "cut", "none"}).Draw(rt, "fault")
			if r >= 3 {
				kind = "none"
			}
			switch kind {
			case "db":
				conn.calls = map[string]int{}
				conn.failOp = rapid.SampledFrom([]string{"certs", "dirty", "domains", "domain_certs"}).Draw(rt, "op")
				conn.failAt = rapid.IntRange(1, 8).Draw(rt, "call")
				conn.after = rapid.Bool().Draw(rt, "after")
				kind = fmt.Sprintf("call %d for %s fails", conn.failAt, conn.failOp)
			case "row", "cut":
				bad = fs[rapid.IntRange(0, len(fs)-1).Draw(rt, "file")]
				b := append(bad.content(), []byte("\nno,row\n")...)
				if kind == "cut" {
					b = gzipped(bad.content())
					b = b[:rapid.IntRange(0, len(b)-1).Draw(rt, "cut")]
				} else {
					b = gzipped(b)
				}
				bad.put(dir, b)
				kind += " in " + bad.name
				restore = func() { bad.write(dir) }
			}
			before := pending()
			var batches [][]string
			okBatches := 0
			err := runIngest(context.Background(), cfg, RunDependencies{
				NewJournal: func(cfg RunConfig, jobCfg journal.JobConfiguration) (*journal.Journal, error) {
					return journal.NewJournal(cfg.JournalFile, jobCfg, cfg.Directory)
				},
				NewStatistics: func() *statistics.Stats { return statistics.NewStatistics(time.Hour, nil) },
				RunBatch: func(_ *statistics.Stats, files []string) error {
					var names []string
					for _, f := range files {
						names = append(names, filepath.Base(f))
					}
					batches = append(batches, names)
					err := conf.run("I03", desc, conn, false, files)
					if err == nil {
						okBatches++
					}
					return err
				},
			})
			restore()
			hist = append(hist, fmt.Sprintf("run with %s: %d batches, %s", kind, len(batches), firstLine(err)))
			what := desc + "; " + strings.Join(hist, "; ")
			hit := conn.failed || bad != nil && before[bad.name]
			if hit != (err != nil) {
				rt.Fatalf("%s: error %v, although the fault's effect is %v", what, err, hit)
			}
			after := pending()
			for i, b := range batches {
				for _, f := range b {
					if i < okBatches && after[f] {
						rt.Fatalf("%s: %s is pending although its batch succeeded", what, f)
					}
					if i >= okBatches && !after[f] {
						rt.Fatalf("%s: %s is recorded as completed although its batch failed", what, f)
					}
				}
			}
			if err != nil {
				failures++
				continue
			}
			if failures > 0 && len(before) > 0 {
				leftovers++
			}
			if len(after) != 0 {
				rt.Fatalf("%s: still pending %v", what, after)
			}
			break
		}
		what := desc + "; " + strings.Join(hist, "; ")
		if e := w.compare(rec, conn); e != "" {
			rt.Fatalf("%s: in the end %s", what, e)
		}
		rec.Case(what, leftovers > 0, func() any { return what }, fmt.Sprintf("failures-%d", failures))
	})
}
