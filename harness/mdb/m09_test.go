package mdb

import (
	"bytes"
	"compress/gzip"
	"context"
	"database/sql"
	"encoding/base64"
	"encoding/csv"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	ct "github.com/google/certificate-transparency-go"
	"github.com/google/certificate-transparency-go/tls"
	ctx509 "github.com/google/certificate-transparency-go/x509"
	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/zzverif/certs"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// clog is a log with entries, some of which are expired. It announces a size.
type clog struct {
	kind    string // fake, http, local
	url     string
	entries []*item
	expired []bool
	size    int // announced
	batch   int // per batch (fake), per answer (http), per file (local)

	fault   string // init, state, batch
	at      int    // when: the nth state or batch
	pending bool   // the fault did not happen yet
	grows   int    // how many entries more are announced from the second answer on

	mu     sync.Mutex
	served int
	asked  []string // what was requested

	// fake
	next, end int
	err       error
	// local
	dir      string
	rows     int // at most, per update
	written  int
	badRow   bool
	lastFile string

	fetcher logfetcher.Fetcher

	// what the updater sees
	states    int // asked in this update
	announced int
	started   []string
}

func (l *clog) fail(what string, n int) bool {
	if l.pending && l.fault == what && n >= l.at {
		l.pending = false
		return true
	}
	return false
}

// ---- the real fetchers are wrapped, to see what the updater does and what the logs announce

func (l *clog) Initialize(t time.Time) error {
	l.states, l.announced = 0, -1
	if l.fail("init", 0) {
		return errors.New("verif: initializing")
	}
	if l.fetcher != nil {
		return l.fetcher.Initialize(t)
	}
	return nil
}
func (l *clog) URL() string { return l.url }

func (l *clog) sth() []byte { return []byte(fmt.Sprintf("%s has %d", l.url, l.size)) }

func (l *clog) GetCurrentState(ctx context.Context, last logfetcher.State) (s logfetcher.State, err error) {
	l.states++
	if l.states == 2 && l.kind != "local" {
		l.size = min(l.size+l.grows, len(l.entries))
	}
	if l.fail("state", l.states) {
		return s, errors.New("verif: no state")
	}
	if l.fetcher != nil {
		s, err = l.fetcher.GetCurrentState(ctx, last)
	} else {
		s = logfetcher.State{Size: uint64(l.size), STH: l.sth()}
	}
	if err == nil && l.states == 1 {
		l.announced = int(s.Size)
	}
	return
}

func (l *clog) StartFetching(start, end int64) {
	l.started = append(l.started, fmt.Sprintf("%d-%d", start, end))
	l.served = 0
	if l.fetcher != nil {
		l.fetcher.StartFetching(start, end)
		return
	}
	l.next, l.end = int(start), min(int(end)+1, l.size)
}
func (l *clog) StopFetching() {
	if l.fetcher != nil {
		l.fetcher.StopFetching()
	}
}
func (l *clog) NextBatch(ctx context.Context) bool {
	if l.fetcher != nil {
		return l.fetcher.NextBatch(ctx)
	}
	return l.next < l.end
}
func (l *clog) ReturnNextBatch() ([]ctx509.Certificate, [][]*ctx509.Certificate, int, error) {
	if l.fetcher != nil {
		return l.fetcher.ReturnNextBatch()
	}
	l.served++
	if l.fail("batch", l.served) {
		return nil, nil, 0, errors.New("verif: no batch")
	}
	var items []*item
	excluded := 0
	for n := 0; n < l.batch && l.next < l.end; n++ {
		if l.expired[l.next] {
			excluded++
		} else {
			items = append(items, l.entries[l.next])
		}
		l.next++
	}
	c, ch := split(items)
	return c, ch, excluded, nil
}

// ---- over HTTP

func marshal(v any) []byte {
	b, err := tls.Marshal(v)
	if err != nil {
		vlib.Infra("%v", err)
	}
	return b
}

func (l *clog) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if strings.HasSuffix(r.URL.Path, "/get-sth") {
		sig := marshal(tls.DigitallySigned{Algorithm: tls.SignatureAndHashAlgorithm{Hash: tls.SHA256, Signature: tls.ECDSA}, Signature: l.sth()})
		json.NewEncoder(w).Encode(map[string]any{"tree_size": l.size, "timestamp": 1, "sha256_root_hash": bytes.Repeat([]byte{3}, 32), "tree_head_signature": sig})
		return
	}
	start, _ := strconv.Atoi(r.URL.Query().Get("start"))
	end, _ := strconv.Atoi(r.URL.Query().Get("end"))
	l.asked = append(l.asked, fmt.Sprintf("%d-%d", start, end))
	l.served++
	if l.fail("batch", l.served) {
		http.Error(w, "no", 500)
		return
	}
	if start >= l.size || end < start {
		http.Error(w, "bad range", 400)
		return
	}
	type entry struct {
		Leaf  []byte `json:"leaf_input"`
		Extra []byte `json:"extra_data"`
	}
	out := []entry{}
	for i := start; i <= end && i < l.size && len(out) < l.batch; i++ {
		it := l.entries[i]
		var chain []ct.ASN1Cert
		for _, c := range it.chain {
			chain = append(chain, ct.ASN1Cert{Data: c.DER})
		}
		out = append(out, entry{marshal(ct.MerkleTreeLeaf{Version: ct.V1, LeafType: ct.TimestampedEntryLeafType,
			TimestampedEntry: &ct.TimestampedEntry{Timestamp: uint64(i), EntryType: ct.X509LogEntryType, X509Entry: &ct.ASN1Cert{Data: it.leaf.DER}}}),
			marshal(ct.CertificateChain{Entries: chain})})
	}
	json.NewEncoder(w).Encode(map[string]any{"entries": out})
}

// ---- from files

func b64(c *certs.Cert) string { return base64.StdEncoding.EncodeToString(c.DER) }

// write makes files for the entries up to the announced size.
func (l *clog) write(t *rapid.T) {
	for l.written < l.size {
		to := min(l.size, l.written+l.batch)
		var b bytes.Buffer
		c := csv.NewWriter(&b)
		for i := l.written; i < to; i++ {
			it := l.entries[i]
			var chain []string
			for _, x := range it.chain {
				chain = append(chain, b64(x))
			}
			exp := it.leaf.NotAfter
			if l.expired[i] {
				exp = time.Unix(1e9, 0)
			}
			c.Write([]string{"x", "y", "z", b64(it.leaf), strings.Join(chain, ";"), fmt.Sprintf("%d.0", exp.Unix())})
		}
		c.Flush()
		name := fmt.Sprintf("%d-%d", l.written, to-1)
		data := b.Bytes()
		if rapid.Bool().Draw(t, "gzip") {
			var z bytes.Buffer
			zw := gzip.NewWriter(&z)
			zw.Write(data)
			zw.Close()
			name, data = name+".gz", z.Bytes()
		} else {
			name += ".csv"
		}
		l.lastFile = filepath.Join(l.dir, rapid.SampledFrom([]string{"", "sub"}).Draw(t, "dir"), name)
		if err := os.MkdirAll(filepath.Dir(l.lastFile), 0755); err != nil {
			vlib.Infra("%v", err)
		}
		if err := os.WriteFile(l.lastFile, data, 0644); err != nil {
			vlib.Infra("%v", err)
		}
		l.written = to
	}
}

// setup makes the fetcher, as a new process does.
func (l *clog) setup() {
	var err error
	switch l.kind {
	case "http":
		l.fetcher, err = logfetcher.NewHttpLogFetcher(l.url)
	case "local":
		l.fetcher, err = logfetcher.NewLocalLogFetcher(l.url, l.dir, uint64(l.rows))
	}
	if err != nil {
		vlib.Infra("making a fetcher: %v", err)
	}
}

func (l *clog) String() string {
	return fmt.Sprintf("%s log %s of %d, announcing %d", l.kind, l.url, len(l.entries), l.size)
}

type position struct {
	size int
	sth  []byte
}

func (d *DB) positions() map[ID]position {
	out := map[ID]position{}
	d.rows("SELECT url_hash, size, sth FROM ctlog_server_last_status", func(r *sql.Rows) error {
		var h, sth []byte
		var size int
		err := r.Scan(&h, &size, &sth)
		out[toID(h)] = position{size, sth}
		return err
	})
	return out
}

// TestM09Position: updates from several logs that grow, with failures of fetching and storing.
func TestM09Position(t *testing.T) {
	rec := vlib.New(t, "M09", "a log grows after it was ingested, and a failure happens after something was ingested")
	d := Open("m09")
	defer d.Drop()
	log.SetOutput(io.Discard)
	restore := quiet()
	w := newWebServer(d, false)
	restore()
	fc := d.faulty()
	defer fc.Close()
	var current sync.Map
	srv := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		l, ok := current.Load(strings.Split(r.URL.Path, "/")[1])
		if !ok {
			http.NotFound(rw, r)
			return
		}
		l.(*clog).ServeHTTP(rw, r)
	}))
	defer srv.Close()
	root := vlib.TempDir()
	n := 0
	vlib.Check(t, rec, func(rt *rapid.T) {
		d.Reset()
		n++
		wd := genWorld(rt, worldOpts{maxItems: 10})
		var logs []*clog
		var steps []string
		bad := func(f string, a ...any) { rt.Fatalf("%s\n%s", fmt.Sprintf(f, a...), strings.Join(steps, "\n")) }
		for i, k := 0, rapid.IntRange(1, 3).Draw(rt, "logs"); i < k; i++ {
			l := &clog{kind: rapid.SampledFrom([]string{"fake", "fake", "http", "local"}).Draw(rt, "kind"), batch: rapid.IntRange(1, 4).Draw(rt, "batch"), rows: rapid.SampledFrom([]int{1, 3, 1000, 1000}).Draw(rt, "rows")}
			id := fmt.Sprintf("%d-%d", n, i)
			l.url = "log " + id
			switch l.kind {
			case "http":
				l.url = srv.URL + "/" + id
				current.Store(id, l)
				defer current.Delete(id)
			case "local":
				l.dir = filepath.Join(root, id)
				if err := os.MkdirAll(l.dir, 0755); err != nil {
					vlib.Infra("%v", err)
				}
				defer os.RemoveAll(l.dir)
			}
			for j, m := 0, rapid.IntRange(0, 10).Draw(rt, "entries"); j < m && len(wd.items) > 0; j++ {
				l.entries = append(l.entries, rapid.SampledFrom(wd.items).Draw(rt, "entry"))
				l.expired = append(l.expired, l.kind != "http" && rapid.IntRange(0, 4).Draw(rt, "expired") == 0)
			}
			l.setup()
			steps = append(steps, l.String())
			logs = append(logs, l)
		}
		u := &updater.MapUpdater{}
		restart := func() {
			u = &updater.MapUpdater{}
			for _, l := range logs {
				l.StopFetching()
				l.setup()
				u.Fetchers = append(u.Fetchers, l)
			}
		}
		restart()
		defer func() {
			for _, l := range logs {
				l.StopFetching()
			}
		}()
		heads := map[string]map[int]string{} // that the logs announced, by size
		before := d.positions()
		// check compares the recorded positions to the stored material.
		check := func(when string) {
			s, pos := d.snap(), d.positions()
			byID := map[ID]*clog{}
			for _, l := range logs {
				byID[hash([]byte(l.url))] = l
			}
			for id, p := range pos {
				l := byID[id]
				if l == nil {
					bad("%s: a position is recorded for %x, which is no log", when, id)
				}
				if q, ok := before[id]; ok && p.size < q.size {
					bad("%s: the position of %s went from %d back to %d", when, l, q.size, p.size)
				}
				if p.size > len(l.entries) {
					bad("%s: the position of %s is %d", when, l, p.size)
				}
				if l.kind != "local" && heads[l.url][p.size] != string(p.sth) {
					bad("%s: the tree head %q is recorded for %s with %d entries, instead of %q", when, p.sth, l, p.size, heads[l.url][p.size])
				}
				m := newModel()
				for i := 0; i < p.size; i++ {
					if !l.expired[i] {
						m.add([]*item{l.entries[i]}, nil)
					}
				}
				for cid, c := range m.certs {
					row, ok := s.certs[cid]
					if !ok || !bytes.Equal(row.payload, c.DER) {
						bad("%s: the position of %s is %d, but %s is not stored", when, l, p.size, label(c))
					}
				}
				for name, ids := range m.links {
					for cid := range ids {
						if !s.links[hash([]byte(name))][cid] {
							bad("%s: the position of %s is %d, but the name %q is not linked to %s", when, l, p.size, name, label(m.certs[cid]))
						}
					}
				}
				size, sth, err := d.LastCTlogServerState(ctx, l.url)
				if err != nil || int(size) != p.size || !bytes.Equal(sth, p.sth) {
					bad("%s: the last state of %s is %d %q %v instead of %d %q", when, l, size, sth, err, p.size, p.sth)
				}
			}
			for id, q := range before {
				if _, ok := pos[id]; !ok {
					bad("%s: the position %d of a log is lost", when, q.size)
				}
			}
			before = pos
		}
		grew, failedLate := false, false
		classes := map[string]bool{}
		ingested := 0
		for round, rounds := 0, rapid.IntRange(2, 5).Draw(rt, "rounds"); round < rounds; round++ {
			for _, l := range logs {
				at := before[hash([]byte(l.url))].size
				switch rapid.IntRange(0, 4).Draw(rt, "growth") {
				case 0:
				case 1:
					if l.kind != "local" && at > 0 && rapid.IntRange(0, 3).Draw(rt, "shrinks") == 0 {
						l.size = rapid.IntRange(0, at).Draw(rt, "smaller size")
						classes["a log announces less than before"] = true
						break
					}
					fallthrough
				default:
					l.size = rapid.IntRange(max(at, min(l.size, len(l.entries))), len(l.entries)).Draw(rt, "size")
				}
				if l.kind == "local" {
					l.size = max(l.size, l.written)
					l.write(rt)
				}
				if at > 0 && l.size > at {
					grew = true
				}
				l.grows = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(rt, "grows meanwhile")
				l.pending = false
			}
			// Failures.
			disturbed := rapid.IntRange(0, 2).Draw(rt, "disturbed") > 0
			var bl *clog
			var x fault
			u.Conn = d
			hidden := ""
			if disturbed {
				switch rapid.IntRange(0, 1).Draw(rt, "failure") {
				case 0:
					bl = rapid.SampledFrom(logs).Draw(rt, "failing log")
					bl.fault, bl.at, bl.pending = rapid.SampledFrom([]string{"init", "state", "batch", "batch"}).Draw(rt, "failing"), rapid.IntRange(1, 4).Draw(rt, "at"), true
					if bl.kind == "local" && bl.fault == "batch" && bl.lastFile != "" {
						bl.pending = false
						hidden = bl.lastFile
						if err := os.Rename(hidden, hidden+".hidden"); err != nil {
							vlib.Infra("%v", err)
						}
						if err := os.WriteFile(hidden, []byte("x,y,z,*,,99999999999.0\n"), 0644); err != nil {
							vlib.Infra("%v", err)
						}
					}
					steps = append(steps, fmt.Sprintf("%s fails: %s %d", bl, bl.fault, bl.at))
				default:
					u.Conn = fc
					x = genFault(rt, "fetch")
					for x.Kind == "inside" {
						x.Kind = "after"
					}
					x.At = rapid.IntRange(1, 30).Draw(rt, "statement")
				}
			}
			old := map[string]int{}
			for _, l := range logs {
				old[l.url] = before[hash([]byte(l.url))].size
				l.started, l.asked, l.states = nil, nil, 0
				l.announced = -1
				if heads[l.url] == nil {
					heads[l.url] = map[int]string{}
				}
				heads[l.url][l.size] = string(l.sth())
			}
			if u.Conn == fc {
				fc.arm(x)
			}
			var err error
			whole := rapid.Bool().Draw(rt, "by the server")
			vlib.Within("M09", "the update\n"+strings.Join(steps, "\n"), 2*time.Minute, func() {
				defer quiet()()
				if whole {
					w.Updater = u
					err = w.PruneAndUpdate(ctx)
					return
				}
				if err = u.StartFetchingRemaining(); err != nil {
					return
				}
				for {
					var more bool
					if more, err = u.NextBatch(ctx); err != nil || !more {
						return
					}
					if _, err = u.UpdateNextBatch(ctx); err != nil {
						return
					}
					if u.Conn != fc {
						check("after a batch")
					}
				}
			})
			fired, where := false, ""
			if u.Conn == fc {
				fired, where = fc.disarm()
			}
			for _, l := range logs {
				steps = append(steps, fmt.Sprintf("update: %s fetched %q %q", l, l.started, l.asked))
			}
			steps = append(steps, fmt.Sprintf("result: %v, fault %v %s", err, fired, where))
			check("after an update")
			if hidden != "" {
				if e := os.Rename(hidden+".hidden", hidden); e != nil {
					vlib.Infra("%v", e)
				}
			}
			failed := fired || hidden != "" || bl != nil && !bl.pending
			if err != nil {
				if !failed {
					bad("the update failed: %v", err)
				}
				classes["failed update"] = true
				if len(before) > 0 || ingested > 0 {
					failedLate = true
				}
			} else {
				for _, l := range logs {
					p := before[hash([]byte(l.url))]
					if l.announced < 0 {
						bad("%s was not asked for its size, and no error is reported", l)
					}
					if p.size != max(l.announced, old[l.url]) {
						bad("after an update without error the position of %s is %d; it was %d, and the log announced %d", l, p.size, old[l.url], l.announced)
					}
				}
			}
			for _, l := range logs {
				for _, s := range l.started {
					if l.announced >= old[l.url] && s != fmt.Sprintf("%d-%d", old[l.url], l.announced-1) {
						bad("%s was at %d and announced %d, but fetching starts with the range %s", l, old[l.url], l.announced, s)
					}
				}
				ingested += before[hash([]byte(l.url))].size
			}
			if err != nil && rapid.Bool().Draw(rt, "new process") {
				steps = append(steps, "new process")
				classes["new process after a failure"] = true
				restart()
			}
			if whole {
				classes["update by the server"] = true
			}
		}
		for _, l := range logs {
			classes[l.kind+" log"] = true
		}
		// At last, everything.
		for _, l := range logs {
			l.pending, l.grows, l.size = false, 0, len(l.entries)
			if l.kind == "local" {
				l.write(rt)
			}
			heads[l.url][l.size] = string(l.sth())
		}
		restart()
		u.Conn = d
		for {
			progress := d.positions()
			var err error
			vlib.Within("M09", "the last update\n"+strings.Join(steps, "\n"), 2*time.Minute, func() {
				defer quiet()()
				w.Updater = u
				err = w.PruneAndUpdate(ctx)
			})
			if err != nil {
				bad("the last update failed: %v", err)
			}
			check("at the end")
			same := true
			for id, p := range d.positions() {
				same = same && p.size == progress[id].size
			}
			if same {
				break
			}
		}
		for _, l := range logs {
			if p := before[hash([]byte(l.url))]; p.size != len(l.entries) {
				bad("at the end the position of %s is %d", l, p.size)
			}
		}
		if e := afterCycle(d.snap()); e != "" {
			bad("at the end: %s", e)
		}
		var cl []string
		for c := range classes {
			cl = append(cl, c)
		}
		rec.Case(strings.Join(steps, "\n"), grew && failedLate, func() any { return steps }, cl...)
	})
}
