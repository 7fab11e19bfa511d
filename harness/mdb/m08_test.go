package mdb

import (
	"bytes"
	"context"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/domain"
	"github.com/netsec-ethz/fpki/pkg/mapserver"
	mapcommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	mapconfig "github.com/netsec-ethz/fpki/pkg/mapserver/config"
	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	"github.com/netsec-ethz/fpki/pkg/mapserver/responder"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// webServer is a map server that listens on a local port.
type webServer struct {
	*mapserver.MapServer
	d      *DB
	base   string
	client *http.Client
}

func newWebServer(d *DB, useTLS bool) *webServer {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		vlib.Infra("%v", err)
	}
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	w := newMapServer(ctx, d, port)
	w.use(port, useTLS)
	go w.listen(ctx, useTLS)
	for end := time.Now().Add(time.Minute); !connects(port); {
		if time.Now().After(end) {
			vlib.Infra("nobody listens on port %d", port)
		}
		time.Sleep(time.Millisecond)
	}
	return w
}

// pemFile writes a file.
func pemFile(path, typ string, b []byte) string {
	if err := os.WriteFile(path, pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: b}), 0600); err != nil {
		vlib.Infra("%v", err)
	}
	return path
}

// serverConfig is a configuration of a map server, with new files.
func serverConfig(d *DB, dir string, port int) *mapconfig.Config {
	key := theKey()
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: "map"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(240 * time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		vlib.Infra("%v", err)
	}
	return &mapconfig.Config{CTLogServerURLs: []string{"http://127.0.0.1:1"}, DBConfig: config(d.Name), HttpAPIPort: port,
		CertificatePemFile: pemFile(dir+"/cert.pem", "CERTIFICATE", der), PrivateKeyPemFile: pemFile(dir+"/key.pem", "RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(key))}
}

// newMapServer is a map server that does not listen yet.
func newMapServer(ctx context.Context, d *DB, port int) *webServer {
	dir := vlib.TempDir()
	defer os.RemoveAll(dir)
	conf := serverConfig(d, dir, port)
	s, err := mapserver.NewMapServer(ctx, conf)
	for i := 0; i < 100 && err != nil && collision(err.Error()); i++ {
		time.Sleep(time.Duration(i) * time.Millisecond)
		s, err = mapserver.NewMapServer(ctx, conf)
	}
	if err != nil {
		vlib.Infra("making a map server: %v", err)
	}
	return &webServer{MapServer: s, d: d}
}

// use sets where the requests go.
func (w *webServer) use(port int, useTLS bool) {
	w.base, w.client = fmt.Sprintf("http://127.0.0.1:%d", port), &http.Client{Timeout: time.Minute, Transport: &http.Transport{MaxIdleConnsPerHost: 8}}
	if useTLS {
		w.base = strings.Replace(w.base, "http:", "https:", 1)
		w.client.Transport = &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true, VerifyPeerCertificate: func(raw [][]byte, _ [][]*x509.Certificate) error {
			if len(raw) != 1 || !bytes.Equal(raw[0], w.Cert.Raw) {
				return errors.New("verif: the server uses another certificate")
			}
			return nil
		}}, MaxIdleConnsPerHost: 8}
	}
}

// listen blocks.
func (w *webServer) listen(ctx context.Context, useTLS bool) error {
	if useTLS {
		return w.Listen(ctx)
	}
	return w.ListenWithoutTLS(ctx)
}

// get sends a request, and gives the status and the body of the answer.
func (w *webServer) get(method, target string, header ...string) (int, []byte, error) {
	req, err := http.NewRequest(method, w.base+target, nil)
	if err != nil {
		vlib.Infra("%s: %v", target, err)
	}
	for i := 0; i+1 < len(header); i += 2 {
		req.Header.Set(header[i], header[i+1])
	}
	res, err := w.client.Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	return res.StatusCode, b, err
}

// feed is a log with batches.
type feed struct {
	url     string
	batches [][]*item
	fail    int // the batch that cannot be fetched, or -1
	next    int
	wait    func() // before each batch
}

func (f *feed) Initialize(time.Time) error { f.next = 0; return nil }
func (f *feed) URL() string                { return f.url }
func (f *feed) GetCurrentState(context.Context, logfetcher.State) (s logfetcher.State, err error) {
	for _, b := range f.batches {
		s.Size += uint64(len(b))
	}
	s.STH = []byte("sth")
	return
}
func (f *feed) StartFetching(int64, int64)     {}
func (f *feed) StopFetching()                  {}
func (f *feed) NextBatch(context.Context) bool { return f.next < len(f.batches) }
func (f *feed) ReturnNextBatch() ([]ctx509.Certificate, [][]*ctx509.Certificate, int, error) {
	if f.wait != nil {
		f.wait()
	}
	if f.next == f.fail {
		return nil, nil, 0, errors.New("verif: no batch")
	}
	l, c := split(f.batches[f.next])
	f.next++
	return l, c, 0, nil
}

func escape(t *rapid.T, s string) string {
	if rapid.IntRange(0, 3).Draw(t, "escape all") == 0 {
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&b, "%%%02X", s[i])
		}
		return b.String()
	}
	return url.QueryEscape(s)
}

var paths = map[string]string{"/getpayloads": "both", "/getcertpayloads": "certificates", "/getpolicypayloads": "policies"}

// genIDs is the value of an ids parameter, with the payloads that the answer must have (nil: it is malformed).
func genIDs(t *rapid.T, s *snap, path string) (string, [][]byte) {
	var known []ID
	for id := range s.certs {
		known = append(known, id)
	}
	for id := range s.pols {
		known = append(known, id)
	}
	sortIDs(known)
	var b strings.Builder
	want := [][]byte{}
	n := rapid.IntRange(0, 6).Draw(t, "ids")
	if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
		n = rapid.SampledFrom([]int{50, 999, 1000, 1001, 2500}).Draw(t, "how many")
	}
	pool := []ID{{}, hash([]byte("unknown"))}
	pool = append(pool, known...)
	off := rapid.IntRange(0, len(pool)-1).Draw(t, "first")
	for i := 0; i < n; i++ {
		id := pool[(off+i)%len(pool)]
		if n < 10 {
			id = rapid.SampledFrom(pool).Draw(t, "id")
		}
		h := hex.EncodeToString(id[:])
		if rapid.IntRange(0, 40).Draw(t, "upper case") == 0 {
			h = strings.ToUpper(h)
		}
		b.WriteString(h)
		var p []byte
		if r, ok := s.certs[id]; ok && path != "/getpolicypayloads" {
			p = r.payload
		}
		if r, ok := s.pols[id]; ok && path != "/getcertpayloads" {
			p = r.payload
		}
		want = append(want, p)
	}
	v := b.String()
	switch rapid.IntRange(0, 9).Draw(t, "malformed") {
	case 0: // another length
		v += rapid.StringMatching(`[0-9a-f]{1,63}`).Draw(t, "more")
		want = nil
	case 1: // not hexadecimal
		if n > 0 {
			i := rapid.IntRange(0, len(v)-1).Draw(t, "where")
			v = v[:i] + rapid.SampledFrom([]string{"g", "G", " ", "-", "+", "%", "\x00", "/", "\xff"}).Draw(t, "char") + v[i+1:]
			want = nil
		}
	}
	return v, want
}

// ask sends a request to the server and tells what is wrong with the answer, given the tables.
func (w *webServer) ask(t *rapid.T, s *snap, names []string) (what, e string, class string) {
	method := rapid.SampledFrom([]string{"GET", "GET", "GET", "GET", "POST", "PUT"}).Draw(t, "method")
	switch rapid.IntRange(0, 2).Draw(t, "endpoint") {
	case 0:
		name := rapid.SampledFrom(names).Draw(t, "name")
		if rapid.IntRange(0, 4).Draw(t, "any name") == 0 {
			name = rapid.OneOf(rapid.String(), rapid.StringMatching(`[a-z*.-]{1,8}\.(com|org|co\.uk|x)\.?`)).Draw(t, "any")
		}
		target := "/getproof?domain=" + escape(t, name)
		if name == "" && rapid.Bool().Draw(t, "no parameter") {
			target = "/getproof"
		}
		what = method + " " + target
		code, body, err := w.get(method, target)
		if err != nil {
			return what, err.Error(), ""
		}
		if _, e := domain.ParseDomainName(name); e != nil {
			if code < 400 || code > 499 {
				return what, fmt.Sprintf("the status is %d although the name is not valid", code), ""
			}
			return what, "", "invalid name"
		}
		if code != 200 {
			return what, fmt.Sprintf("the status is %d: %s", code, body), ""
		}
		var got []*mapcommon.MapServerResponse
		if err := json.Unmarshal(body, &got); err != nil {
			return what, fmt.Sprintf("the answer %q cannot be decoded: %v", body, err), ""
		}
		e, pop, _ := checkResponse(s, w.d, name, got)
		if pop > 0 {
			return what, e, "proof of presence"
		}
		return what, e, "proof of absence"
	default:
		path := rapid.SampledFrom([]string{"/getpayloads", "/getcertpayloads", "/getpolicypayloads"}).Draw(t, "path")
		v, want := genIDs(t, s, path)
		target := path + "?ids=" + url.QueryEscape(v)
		if v == "" && rapid.Bool().Draw(t, "no parameter") {
			target = path
		}
		what = method + " " + target
		code, body, err := w.get(method, target)
		if err != nil {
			return what, err.Error(), ""
		}
		if want == nil {
			if code < 400 || code > 499 {
				return what, fmt.Sprintf("the status is %d although the identifiers are malformed", code), ""
			}
			return what, "", "malformed identifiers"
		}
		if code != 200 {
			return what, fmt.Sprintf("the status is %d: %s", code, body), ""
		}
		var got [][]byte
		if err := json.Unmarshal(body, &got); err != nil {
			return what, fmt.Sprintf("the answer %q cannot be decoded: %v", body, err), ""
		}
		if len(got) != len(want) {
			return what, fmt.Sprintf("there are %d payloads for %d identifiers", len(got), len(want)), ""
		}
		some := false
		for i := range want {
			if !bytes.Equal(got[i], want[i]) || (got[i] == nil) != (want[i] == nil) {
				return what, fmt.Sprintf("payload %d of %d is %q instead of %q", i, len(want), got[i], want[i]), ""
			}
			some = some || want[i] != nil
		}
		if some && len(want) > 50 {
			return what, "", "many payloads"
		} else if some {
			return what, "", "payloads"
		}
		return what, "", "no payloads"
	}
}

var m08Names = []string{"a.com", "b.a.com", "c.b.a.com", "b.com", "x.org", "deep.er.x.org", "sub.a.com", "example.co.uk", "b.example.co.uk", "*.a.com", "com", "UP.com"}

// TestM08Http: any requests to a map server, between and during updates that may fail.
func TestM08Http(t *testing.T) {
	rec := vlib.New(t, "M08", "there are proofs of presence, payloads and refused requests")
	d := Open("m08")
	defer d.Drop()
	restore := quiet()
	w := newWebServer(d, vlib.Seed()%2 == 0)
	restore()
	fc := d.faulty()
	defer fc.Close()
	ownUpdater, ownConn := w.Updater.Conn, w.Conn
	past := time.Now().Add(-48 * time.Hour).Truncate(time.Second)
	vlib.Check(t, rec, func(rt *rapid.T) {
		d.Reset()
		wd := genWorld(rt, worldOpts{policies: true, names: m08Names, maxItems: 8, expiries: []time.Time{farFuture, farFuture, farFuture, past}})
		steps := []string{fmt.Sprintf("names %q", wd.names)}
		bad := func(f string, a ...any) { rt.Fatalf("%s\n%s", fmt.Sprintf(f, a...), strings.Join(steps, "\n")) }
		classes := map[string]bool{}
		w.Updater.Conn, w.Conn = ownUpdater, ownConn
		update := func(possible bool) (err error) {
			vlib.Within("M08", "the update\n"+strings.Join(steps, "\n"), 2*time.Minute, func() {
				defer quiet()()
				if !possible {
					err = w.PruneAndUpdate(ctx)
					return
				}
				for done := false; !done; { // the server may not wait for requests yet
					done, err = w.PruneAndUpdateIfPossible(ctx)
				}
			})
			return
		}
		names := append(queries(rt, wd), "", ".", "..", "a..com", "-a.com", strings.Repeat("a", 64)+".com", strings.Repeat("a.", 130)+"com", "bü.com", "a.com\x00", "1.2.3.4", "%")
		for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "rounds"); i < n; i++ {
			f := &feed{url: fmt.Sprint("u", rapid.Int64().Draw(rt, "url")), fail: -1}
			for j, k := 0, rapid.IntRange(0, 2).Draw(rt, "batches"); j < k; j++ {
				f.batches = append(f.batches, rapid.Permutation(wd.items).Draw(rt, "which")[:rapid.IntRange(0, len(wd.items)).Draw(rt, "items")])
			}
			w.Updater.Fetchers = []logfetcher.Fetcher{f}
			if len(wd.pols) > 0 && rapid.Bool().Draw(rt, "insert policies") {
				steps = append(steps, fmt.Sprintf("%d policies", len(wd.pols)))
				if err := updater.UpdateWithKeepExisting(ctx, d, nil, nil, nil, nil, nil, docs(wd.pols)); err != nil {
					bad("inserting policies: %v", err)
				}
			}
			var sizes []int
			for _, b := range f.batches {
				sizes = append(sizes, len(b))
			}
			steps = append(steps, fmt.Sprintf("a log with batches of %d", sizes))
			switch rapid.IntRange(0, 5).Draw(rt, "failure") {
			case 0: // of the log
				if len(f.batches) == 0 {
					break
				}
				f.fail = rapid.IntRange(0, len(f.batches)-1).Draw(rt, "failing batch")
				steps = append(steps, fmt.Sprintf("update, fetching batch %d fails", f.fail))
				if update(rapid.Bool().Draw(rt, "if possible")) == nil {
					bad("the update succeeded although fetching failed")
				}
				f.fail = -1
				classes["failing log"] = true
			case 1, 2: // of the database, for the updater or the responder
				x := genFault(rt, "cycle")
				x.Kind = rapid.SampledFrom([]string{"before", "after", "rows"}).Draw(rt, "kind")
				for x.Kind == "rows" && x.Writes {
					x.Writes = false
				}
				if rapid.Bool().Draw(rt, "responder") {
					classes["failing responder"] = true
					if w.Responder == nil {
						bad("no responder")
					}
					restore := quiet()
					r, err := responder.NewMapResponder(ctx, fc, theKey())
					restore()
					if err != nil {
						bad("%v", err)
					}
					w.Responder = r
					x = fault{Kind: "before", At: 1}
				} else {
					classes["failing database"] = true
					w.Updater.Conn = fc
				}
				fc.arm(x)
				err := update(rapid.Bool().Draw(rt, "if possible"))
				fired, where := fc.disarm()
				w.Updater.Conn = ownUpdater
				steps = append(steps, fmt.Sprintf("update, with %v: %v %s", x, fired, where))
				if fired && err == nil {
					bad("the update succeeded although the database failed")
				}
				if !fired && err != nil {
					bad("the update failed: %v", err)
				}
			}
			if rapid.IntRange(0, 3).Draw(rt, "concurrent") == 0 {
				// Requests during the update get an answer that verifies, or an error.
				steps = append(steps, "update, with requests meanwhile")
				classes["requests during updates"] = true
				var wg sync.WaitGroup
				stop := make(chan struct{})
				var mu sync.Mutex
				var wrong string
				for k := 0; k < 3; k++ {
					wg.Add(1)
					go func(k int) {
						defer wg.Done()
						for j := 0; ; j++ {
							select {
							case <-stop:
								return
							default:
							}
							e := w.duringUpdate(m08Names[(j*3+k)%len(m08Names)])
							if e != "" {
								mu.Lock()
								wrong = e
								mu.Unlock()
								return
							}
						}
					}(k)
				}
				err := update(false)
				close(stop)
				wg.Wait()
				if err != nil {
					bad("the update failed: %v", err)
				}
				if wrong != "" {
					bad("during the update: %s", wrong)
				}
			} else {
				steps = append(steps, "update")
				if err := update(rapid.Bool().Draw(rt, "if possible")); err != nil {
					bad("the update failed: %v", err)
				}
			}
			s := d.snap()
			if e := afterCycle(s); e != "" {
				bad("after the update: %s", e)
			}
			for id := range s.certs {
				if strings.HasPrefix(s.certs[id].exp, past.UTC().Format("2006-01-02")) && len(f.batches) == 0 {
					bad("an expired certificate is there after an update without new material")
				}
			}
			for j, k := 0, rapid.IntRange(1, 12).Draw(rt, "requests"); j < k; j++ {
				if rapid.IntRange(0, 7).Draw(rt, "database fails") == 0 {
					// A request fails visibly, or is answered rightly.
					w.Conn = fc
					fc.arm(fault{Kind: rapid.SampledFrom([]string{"before", "after", "rows", "badconn"}).Draw(rt, "kind"), At: rapid.IntRange(1, 2).Draw(rt, "statement"), Row: rapid.IntRange(1, 3).Draw(rt, "row")})
					what, e, _ := w.ask(rt, s, names)
					fired, where := fc.disarm()
					w.Conn = ownConn
					steps = append(steps, fmt.Sprintf("%s with a fault %v: %s", what[:min(len(what), 300)], fired, where))
					if fired {
						classes["failing request"] = true
						if e != "" && !strings.HasPrefix(e, "the status is 4") && !strings.HasPrefix(e, "the status is 5") {
							bad("%s: %s", what, e)
						}
						continue
					}
					if e != "" {
						bad("%s: %s", what[:min(len(what), 3000)], e)
					}
					continue
				}
				what, e, class := w.ask(rt, s, names)
				steps = append(steps, what[:min(len(what), 300)])
				if e != "" {
					bad("%s: %s", what[:min(len(what), 3000)], e)
				}
				classes[class] = true
			}
			if rapid.IntRange(0, 9).Draw(rt, "unknown path") == 0 {
				if code, _, err := w.get("GET", "/"+rapid.StringMatching(`[a-z]{1,5}`).Draw(rt, "path")); err != nil || code != 404 {
					bad("an unknown path has the status %d, %v", code, err)
				}
			}
		}
		var cl []string
		for c := range classes {
			cl = append(cl, c)
		}
		rec.Case(strings.Join(steps, "\n"), classes["proof of presence"] && (classes["payloads"] || classes["many payloads"]) && (classes["malformed identifiers"] || classes["invalid name"]),
			func() any { return steps }, cl...)
	})
}

// duringUpdate asks for a proof while an update runs. The tree and its signature must fit; the entries may be
// newer than the tree.
func (w *webServer) duringUpdate(name string) string {
	code, body, err := w.get("GET", "/getproof?domain="+url.QueryEscape(name))
	if err != nil {
		return err.Error()
	}
	if code != 200 {
		if code < 400 {
			return fmt.Sprintf("the status is %d", code)
		}
		return ""
	}
	var got []*mapcommon.MapServerResponse
	if err := json.Unmarshal(body, &got); err != nil {
		return fmt.Sprintf("the answer %q cannot be decoded: %v", body, err)
	}
	for _, r := range got {
		if _, e := checkProof(r); e != "" {
			return name + ": " + e
		}
	}
	return ""
}

func sortIDs(ids []ID) {
	sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
}
