package logfetcher

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	ct "github.com/google/certificate-transparency-go"
	"github.com/google/certificate-transparency-go/tls"
	ctx509 "github.com/google/certificate-transparency-go/x509"
	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/zzverif/certs"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

const patience = 60 * time.Second

// ---------------------------------------------------------------- a CT log

type logEntry struct {
	leaf, extra []byte
	cert        []byte // what has to be delivered
	chain       [][]byte
	bad         string // why this entry cannot be delivered
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	return v
}

func genCert(rt *rapid.T, ca bool) *certs.Cert {
	s := certs.Spec{
		Serial: int64(rapid.IntRange(0, 30).Draw(rt, "serial")),
		CN:     rapid.SampledFrom([]string{"a.com", "b.a.com", "", "c.org", "CA one", "CA two"}).Draw(rt, "cn"),
		Issuer: rapid.SampledFrom([]string{"CA one", "CA two", ""}).Draw(rt, "issuer"),
		CA:     ca,
		Weird:  rapid.IntRange(0, 9).Draw(rt, "weird") == 0,
	}
	return certs.Make(s)
}

func genEntry(rt *rapid.T, i int) logEntry {
	c := genCert(rt, false)
	var e logEntry
	e.cert = c.DER
	var asn []ct.ASN1Cert
	for k := rapid.IntRange(0, 3).Draw(rt, "chain length"); k > 0; k-- {
		ic := genCert(rt, true)
		e.chain = append(e.chain, ic.DER)
		asn = append(asn, ct.ASN1Cert{Data: ic.DER})
	}
	ts := uint64(1_600_000_000_000 + i)
	if rapid.IntRange(0, 2).Draw(rt, "precert") == 0 {
		e.leaf = must(tls.Marshal(ct.MerkleTreeLeaf{Version: ct.V1, LeafType: ct.TimestampedEntryLeafType,
			TimestampedEntry: &ct.TimestampedEntry{Timestamp: ts, EntryType: ct.PrecertLogEntryType,
				PrecertEntry: &ct.PreCert{TBSCertificate: c.Parsed.RawTBSCertificate}}}))
		e.extra = must(tls.Marshal(ct.PrecertChainEntry{PreCertificate: ct.ASN1Cert{Data: c.DER}, CertificateChain: asn}))
	} else {
		e.leaf = must(tls.Marshal(ct.MerkleTreeLeaf{Version: ct.V1, LeafType: ct.TimestampedEntryLeafType,
			TimestampedEntry: &ct.TimestampedEntry{Timestamp: ts, EntryType: ct.X509LogEntryType, X509Entry: &ct.ASN1Cert{Data: c.DER}}}))
		e.extra = must(tls.Marshal(ct.CertificateChain{Entries: asn}))
	}
	return e
}

// spoil makes an entry that cannot be delivered.
func spoil(rt *rapid.T, e logEntry) logEntry {
	kind := rapid.SampledFrom([]string{"leaf cut", "leaf longer", "leaf type", "leaf empty", "extra cut", "extra longer", "cert garbage", "cert cut", "chain garbage"}).Draw(rt, "damage")
	leaf := append([]byte{}, e.leaf...)
	x509entry := func(der []byte, chain ...[]byte) {
		var asn []ct.ASN1Cert
		for _, c := range chain {
			asn = append(asn, ct.ASN1Cert{Data: c})
		}
		e.leaf = must(tls.Marshal(ct.MerkleTreeLeaf{Version: ct.V1, LeafType: ct.TimestampedEntryLeafType,
			TimestampedEntry: &ct.TimestampedEntry{Timestamp: 1, EntryType: ct.X509LogEntryType, X509Entry: &ct.ASN1Cert{Data: der}}}))
		e.extra = must(tls.Marshal(ct.CertificateChain{Entries: asn}))
	}
	switch kind {
	case "leaf cut":
		e.leaf = leaf[:rapid.IntRange(0, len(leaf)-1).Draw(rt, "cut")]
	case "leaf longer":
		e.leaf = append(leaf, 0)
	case "leaf type":
		leaf[11] = 7
		e.leaf = leaf
	case "leaf empty":
		e.leaf = nil
	case "extra cut":
		e.extra = e.extra[:rapid.IntRange(0, len(e.extra)-1).Draw(rt, "cut")]
	case "extra longer":
		e.extra = append(append([]byte{}, e.extra...), 0)
	case "cert garbage":
		x509entry([]byte("no certificate"))
	case "cert cut":
		x509entry(e.cert[:len(e.cert)-1], e.chain...)
	case "chain garbage":
		x509entry(e.cert, append(append([][]byte{}, e.chain...), []byte{0x30, 3, 1})...)
	}
	e.bad = kind
	return e
}

// ctLog serves entries, at most limit of them per answer, and misbehaves in one answer.
type ctLog struct {
	mu       sync.Mutex
	entries  []logEntry
	limits   []int // per answer, in turns
	requests int
	fault    string
	faultAt  int  // number of the answer that is wrong
	forever  bool // also all following answers
	faulty   bool // a wrong answer was given
	delay    int  // upper bound in microseconds
	rnd      *rand.Rand
	size     uint64
	sthFault string
	asked    []string
}

func (l *ctLog) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	l.mu.Lock()
	pause := time.Duration(0)
	if l.delay > 0 {
		pause = time.Duration(l.rnd.Intn(l.delay)) * time.Microsecond
	}
	n := l.requests
	l.requests++
	fault := ""
	if l.fault != "" && (n == l.faultAt || n > l.faultAt && l.forever) {
		fault = l.fault
	}
	limit := l.limits[n%len(l.limits)]
	l.mu.Unlock()
	time.Sleep(pause)

	if strings.HasSuffix(r.URL.Path, "/ct/v1/get-sth") {
		l.sth(w)
		return
	}
	if !strings.HasSuffix(r.URL.Path, "/ct/v1/get-entries") {
		http.NotFound(w, r)
		return
	}
	start, err1 := strconv.ParseInt(r.URL.Query().Get("start"), 10, 64)
	end, err2 := strconv.ParseInt(r.URL.Query().Get("end"), 10, 64)
	l.mu.Lock()
	l.asked = append(l.asked, fmt.Sprintf("%d-%d", start, end))
	l.mu.Unlock()
	if err1 != nil || err2 != nil || start < 0 || end < start || start >= int64(len(l.entries)) {
		http.Error(w, "bad range", 400)
		return
	}
	to := min(end+1, int64(len(l.entries)), start+int64(limit))
	if fault == "too many" {
		to = int64(len(l.entries))
		if to <= end+1 { // there are not too many: repeat the last one
			fault = "too many with repetitions"
		}
	}
	if fault != "" {
		l.mu.Lock()
		l.faulty = true
		l.mu.Unlock()
	}
	type je struct {
		LeafInput string `json:"leaf_input"`
		ExtraData string `json:"extra_data"`
	}
	rsp := struct {
		Entries []je `json:"entries"`
	}{Entries: []je{}}
	for _, e := range l.entries[start:to] {
		rsp.Entries = append(rsp.Entries, je{base64.StdEncoding.EncodeToString(e.leaf), base64.StdEncoding.EncodeToString(e.extra)})
	}
	switch fault {
	case "too many with repetitions":
		for int64(len(rsp.Entries)) <= end-start+1 {
			rsp.Entries = append(rsp.Entries, rsp.Entries[len(rsp.Entries)-1])
		}
	case "no entries":
		rsp.Entries = []je{}
	case "no list":
		w.Write([]byte("{}"))
		return
	case "null":
		w.Write([]byte(`{"entries":null}`))
		return
	case "bad base64":
		rsp.Entries[len(rsp.Entries)/2].LeafInput += "!"
	case "status 500", "status 429", "status 404":
		w.Header().Set("Retry-After", "0")
		http.Error(w, "not now", must(strconv.Atoi(fault[7:])))
		return
	case "status 204":
		w.WriteHeader(204)
		return
	case "empty body":
		return
	case "not JSON":
		w.Write([]byte("<html>hello</html>"))
		return
	case "other JSON":
		w.Write([]byte(`{"entries":"none"}`))
		return
	case "abort":
		panic(http.ErrAbortHandler)
	}
	body := must(json.Marshal(rsp))
	if fault == "body cut" {
		body = body[:len(body)*2/3]
	} else if fault == "connection cut" {
		w.Header().Set("Content-Length", strconv.Itoa(len(body)))
		w.Write(body[:len(body)/2])
		return
	}
	w.Write(body)
}

var answerFaults = []string{"too many", "no entries", "no list", "null", "bad base64", "status 500", "status 429", "status 404", "status 204", "empty body", "not JSON", "other JSON", "abort", "body cut", "connection cut"}

func (l *ctLog) sth(w http.ResponseWriter) {
	switch l.sthFault {
	case "status":
		http.Error(w, "no", 500)
		return
	case "not JSON":
		w.Write([]byte("hello"))
		return
	}
	sig := must(tls.Marshal(tls.DigitallySigned{Algorithm: tls.SignatureAndHashAlgorithm{Hash: tls.SHA256, Signature: tls.ECDSA}, Signature: []byte(fmt.Sprintf("signature of %d", l.size))}))
	root := bytes.Repeat([]byte{3}, 32)
	if l.sthFault == "root hash" {
		root = root[1:]
	}
	w.Write(must(json.Marshal(map[string]any{"tree_size": l.size, "timestamp": 1, "sha256_root_hash": root, "tree_head_signature": sig})))
}

func serve(l *ctLog) (*httptest.Server, string) {
	srv := httptest.NewUnstartedServer(l)
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	srv.Start()
	return srv, srv.URL + "/some/log"
}

// ---------------------------------------------------------------- reading

type delivery struct {
	certs  []ctx509.Certificate
	chains [][]*ctx509.Certificate
	err    error
	sizes  []int
}

// same tells whether the deliveries are the entries that begin at from.
func (d delivery) prefixOf(l *ctLog, start, end int64) string {
	if len(d.certs) != len(d.chains) {
		return fmt.Sprintf("%d certificates with %d chains", len(d.certs), len(d.chains))
	}
	if int64(len(d.certs)) > max(0, end-start+1) {
		return fmt.Sprintf("%d certificates delivered for the range [%d,%d]", len(d.certs), start, end)
	}
	for i := range d.certs {
		at := int(start) + i
		if at >= len(l.entries) {
			return fmt.Sprintf("entry %d delivered, the log has %d", at, len(l.entries))
		}
		e := l.entries[at]
		if e.bad != "" {
			return fmt.Sprintf("entry %d delivered, but it cannot be read (%s)", at, e.bad)
		}
		if !bytes.Equal(d.certs[i].Raw, e.cert) {
			who := "no entry"
			for j, x := range l.entries {
				if bytes.Equal(x.cert, d.certs[i].Raw) {
					who = fmt.Sprintf("entry %d", j)
					break
				}
			}
			return fmt.Sprintf("in place of entry %d the certificate of %s is delivered", at, who)
		}
		if len(d.chains[i]) != len(e.chain) {
			return fmt.Sprintf("entry %d: chain of %d delivered, it has %d", at, len(d.chains[i]), len(e.chain))
		}
		for j, c := range d.chains[i] {
			if c == nil || !bytes.Equal(c.Raw, e.chain[j]) {
				return fmt.Sprintf("entry %d: position %d of its chain is wrong", at, j)
			}
		}
	}
	return ""
}

// collect reads up to max batches.
func collect(f Fetcher, max int, cancelAt int) (d delivery, ended bool) {
	for k := 0; k < max; k++ {
		ctx := context.Background()
		if k == cancelAt {
			c, cancel := context.WithCancel(ctx)
			cancel()
			ctx = c
		}
		if !f.NextBatch(ctx) {
			return d, true
		}
		cs, hs, excluded, err := f.ReturnNextBatch()
		if err != nil && k == cancelAt && errors.Is(err, context.Canceled) {
			if len(cs) > 0 {
				d.err = fmt.Errorf("harness: entries together with an error")
			}
			continue // Not waiting any longer is not an error of the fetching.
		}
		if err != nil {
			d.err = err
			return d, true
		}
		if excluded != 0 {
			d.err = fmt.Errorf("harness: %d excluded", excluded)
			return d, true
		}
		d.certs = append(d.certs, cs...)
		d.chains = append(d.chains, hs...)
		d.sizes = append(d.sizes, len(cs))
	}
	return d, false
}

func genLog(rt *rapid.T, entries int) *ctLog {
	l := &ctLog{rnd: rand.New(rand.NewSource(int64(rapid.IntRange(0, 1<<20).Draw(rt, "rnd"))))}
	for i := 0; i < entries; i++ {
		l.entries = append(l.entries, genEntry(rt, i))
	}
	for k := rapid.IntRange(1, 3).Draw(rt, "limits"); k > 0; k-- {
		l.limits = append(l.limits, rapid.IntRange(1, 12).Draw(rt, "limit"))
	}
	l.size = uint64(entries)
	return l
}

func genSizes(rt *rapid.T, f *HttpLogFetcher) {
	f.serverBatchSize = int64(rapid.IntRange(1, 9).Draw(rt, "server batch"))
	f.processBatchSize = int64(rapid.IntRange(1, 15).Draw(rt, "process batch"))
	switch rapid.IntRange(0, 5).Draw(rt, "sizes") {
	case 0:
		f.serverBatchSize, f.processBatchSize = defaultServerBatchSize, defaultProcessBatchSize
	case 1:
		f.processBatchSize = f.serverBatchSize * int64(rapid.IntRange(1, 4).Draw(rt, "factor"))
	}
}

// TestL01Fetch: one range of a log, possibly with one misbehaviour.
func TestL01Fetch(t *testing.T) {
	rec := vlib.New(t, "L01", "the range has more than one entry and takes more than one answer or batch, or the log misbehaves")
	vlib.Check(t, rec, func(rt *rapid.T) {
		l := genLog(rt, rapid.IntRange(1, 40).Draw(rt, "entries"))
		n := int64(len(l.entries))
		start := int64(rapid.IntRange(0, int(n)-1).Draw(rt, "start"))
		end := int64(rapid.IntRange(int(start)-1, int(n)-1).Draw(rt, "end"))
		switch rapid.IntRange(0, 8).Draw(rt, "range") {
		case 0:
			start, end = 0, n-1
		case 1:
			end = n - 1
		case 3:
			end = start - int64(rapid.IntRange(1, 4).Draw(rt, "before"))
		case 2:
			end = n + int64(rapid.IntRange(0, 20).Draw(rt, "beyond"))
		}
		mode := rapid.SampledFrom([]string{"good", "good", "good", "answer", "answer", "forever", "entry", "entry"}).Draw(rt, "mode")
		badAt := int64(-1)
		switch mode {
		case "answer", "forever":
			l.fault = rapid.SampledFrom(answerFaults).Draw(rt, "fault")
			l.faultAt = rapid.IntRange(0, 5).Draw(rt, "at")
			l.forever = mode == "forever"
		case "entry":
			if end >= start {
				badAt = min(n-1, int64(rapid.IntRange(int(start), int(end)).Draw(rt, "bad")))
				l.entries[badAt] = spoil(rt, l.entries[badAt])
			}
		}
		srv, url := serve(l)
		defer srv.Close()
		f := must(NewHttpLogFetcher(url))
		genSizes(rt, f)
		how := rapid.SampledFrom([]string{"batches", "batches", "all"}).Draw(rt, "how")
		cancelAt := rapid.IntRange(-1, 6).Draw(rt, "cancel")
		if how == "all" {
			cancelAt = -1
		}

		var d delivery
		ended := true
		vlib.Within("L01", "fetching a range does not end", patience, func() {
			if err := f.Initialize(time.Now()); err != nil {
				panic(fmt.Sprintf("harness: %v", err))
			}
			if how == "all" {
				var ex uint64
				d.certs, d.chains, ex, d.err = f.FetchAllCertificates(context.Background(), start, end)
				if ex != 0 {
					d.err = fmt.Errorf("harness: %d excluded", ex)
				}
				return
			}
			f.StartFetching(start, end)
			d, ended = collect(f, 200, cancelAt)
			if ended && d.err == nil && f.NextBatch(context.Background()) {
				d.err = fmt.Errorf("harness: a batch after the end")
			}
			f.StopFetching()
		})
		l.mu.Lock()
		faulty, reqs := l.faulty, l.requests
		l.mu.Unlock()
		desc := fmt.Sprintf("log of %d entries, range [%d,%d], %d per answer of %v, batches of %d, %s %s at %d, bad entry %d, read by %s, cancelled at %d", n, start, end, f.serverBatchSize, l.limits, f.processBatchSize, mode, l.fault, l.faultAt, badAt, how, cancelAt)
		if !ended {
			rt.Fatalf("%s: still batches after 200", desc)
		}
		if d.err != nil && strings.HasPrefix(d.err.Error(), "harness:") {
			rt.Fatalf("%s: %v", desc, d.err)
		}
		if msg := d.prefixOf(l, start, end); msg != "" {
			rt.Fatalf("%s: %s", desc, msg)
		}
		complete := int64(len(d.certs)) == max(0, end-start+1)
		mustFail := end >= start && (badAt >= 0 || end >= n)
		switch {
		case mustFail && d.err == nil:
			rt.Fatalf("%s: %d entries and no error", desc, len(d.certs))
		case d.err == nil && !complete:
			rt.Fatalf("%s: only %d entries and no error", desc, len(d.certs))
		case d.err != nil && !mustFail && !faulty:
			rt.Fatalf("%s: %v", desc, d.err)
		}
		for i, s := range d.sizes {
			if int64(s) > f.processBatchSize || s == 0 {
				rt.Fatalf("%s: batch %d has %d entries", desc, i, s)
			}
		}
		cls := mode
		if faulty {
			cls += ":" + l.fault
			if d.err == nil {
				cls += " (retried)"
			}
		} else if badAt >= 0 {
			cls += ":" + l.entries[badAt].bad
		} else if end >= n {
			cls += ": beyond the log"
		}
		rec.Case(fmt.Sprintf("%s %x", desc, l.entries[0].leaf), faulty || mustFail || end > start && reqs > 1, func() any {
			return map[string]any{"case": desc, "answers": reqs, "asked": l.asked, "delivered": len(d.certs), "error": fmt.Sprint(d.err)}
		}, cls)
	})
}

// TestL01Again: the same fetcher is used for several ranges, before or after the previous one was
// read to its end.
func TestL01Again(t *testing.T) {
	rec := vlib.New(t, "L01", "at least two ranges of which one is abandoned before its end")
	vlib.Check(t, rec, func(rt *rapid.T) {
		l := genLog(rt, rapid.IntRange(5, 40).Draw(rt, "entries"))
		l.delay = rapid.SampledFrom([]int{0, 300, 2000}).Draw(rt, "delay")
		n := len(l.entries)
		srv, url := serve(l)
		defer srv.Close()
		f := must(NewHttpLogFetcher(url))
		genSizes(rt, f)
		f.processBatchSize = min(f.processBatchSize, 8)
		runs := rapid.IntRange(2, 4).Draw(rt, "runs")
		abandoned := 0
		desc := fmt.Sprintf("log of %d entries, %d per answer of %v, batches of %d:", n, f.serverBatchSize, l.limits, f.processBatchSize)
		vlib.Within("L01", "fetching several ranges does not end", patience, func() {
			for k := 0; k < runs; k++ {
				start := int64(rapid.IntRange(0, n-1).Draw(rt, "start"))
				end := int64(rapid.IntRange(int(start)-1, n-1).Draw(rt, "end"))
				batches := rapid.IntRange(0, 4).Draw(rt, "batches")
				wait := rapid.SampledFrom([]int{0, 0, 100, 1500}).Draw(rt, "wait")
				stop := rapid.Bool().Draw(rt, "stop")
				if k == runs-1 {
					batches = 500
				}
				f.StartFetching(start, end)
				d, ended := collect(f, batches, -1)
				desc += fmt.Sprintf(" [%d,%d]x%d stop=%v wait=%d", start, end, batches, stop, wait)
				if d.err != nil {
					rt.Fatalf("%s: %v", desc, d.err)
				}
				if msg := d.prefixOf(l, start, end); msg != "" {
					rt.Fatalf("%s: %s", desc, msg)
				}
				if complete := int64(len(d.certs)) == end-start+1; ended && !complete {
					rt.Fatalf("%s: only %d entries and no error", desc, len(d.certs))
				} else if k < runs-1 && !complete {
					abandoned++
				}
				time.Sleep(time.Duration(wait) * time.Microsecond)
				if stop {
					f.StopFetching()
				}
			}
			f.StopFetching()
		})
		rec.Case(desc, abandoned > 0, func() any { return desc }, fmt.Sprintf("abandoned %d", abandoned))
	})
}

// TestL01State: the state of the log is what the log says.
func TestL01State(t *testing.T) {
	rec := vlib.New(t, "L01", "the log has entries, or misbehaves")
	vlib.Check(t, rec, func(rt *rapid.T) {
		l := genLog(rt, 0)
		l.size = rapid.SampledFrom([]uint64{0, 1, 2, 127, 128, 1 << 31, 1 << 32, 1<<53 + 1, 1<<63 - 1}).Draw(rt, "size")
		l.sthFault = rapid.SampledFrom([]string{"", "", "status", "not JSON", "root hash"}).Draw(rt, "fault")
		srv, url := serve(l)
		defer srv.Close()
		f := must(NewHttpLogFetcher(url))
		var s State
		var err error
		vlib.Within("L01", "asking for the state does not end", patience, func() {
			s, err = f.GetCurrentState(context.Background(), State{Size: 3})
		})
		if f.URL() != url {
			rt.Fatalf("URL is %q, made with %q", f.URL(), url)
		}
		if l.sthFault != "" {
			if err == nil {
				rt.Fatalf("fault %q: state %v without error", l.sthFault, s)
			}
		} else if err != nil {
			rt.Fatalf("size %d: %v", l.size, err)
		} else if s.Size != l.size || string(s.STH) != fmt.Sprintf("signature of %d", l.size) {
			rt.Fatalf("size %d: state %d %q", l.size, s.Size, s.STH)
		}
		rec.Case(fmt.Sprint(l.size, l.sthFault), l.size > 0 || l.sthFault != "", func() any { return fmt.Sprint(l.size, l.sthFault, s, err) }, "state "+l.sthFault)
	})
}
