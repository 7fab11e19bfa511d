package mdb

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// ownPort gives the ith port of this process; nobody gets these from the system.
func ownPort(i int) int { return 15000 + os.Getpid()%500*32 + i%32 }

// cycles is a log that shows how updates run. Each update asks for one script.
type cycles struct {
	mu      sync.Mutex
	scripts []*script
	runs    int
	cur     *script
	next    int
}

type script struct {
	batches [][]*item
	fails   bool          // the last batch cannot be fetched
	reached chan struct{} // closed when the first batch is asked for
	release chan struct{} // then it waits for this
}

func newScript(batches [][]*item, fails, waits bool) *script {
	s := &script{batches: batches, fails: fails, reached: make(chan struct{}), release: make(chan struct{})}
	if !waits {
		close(s.release)
	}
	return s
}

func (c *cycles) count() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.runs
}

func (c *cycles) Initialize(time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.cur, c.next = &script{}, 0
	if c.runs < len(c.scripts) {
		c.cur = c.scripts[c.runs]
	}
	c.runs++
	return nil
}
func (c *cycles) URL() string { return "cycles" }
func (c *cycles) GetCurrentState(context.Context, logfetcher.State) (s logfetcher.State, err error) {
	return logfetcher.State{Size: uint64(1000 * (1 + c.count())), STH: []byte("sth")}, nil
}
func (c *cycles) StartFetching(int64, int64) {}
func (c *cycles) StopFetching()              {}
func (c *cycles) NextBatch(context.Context) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.next < len(c.cur.batches)
}
func (c *cycles) ReturnNextBatch() ([]ctx509.Certificate, [][]*ctx509.Certificate, int, error) {
	c.mu.Lock()
	s, n := c.cur, c.next
	c.next++
	c.mu.Unlock()
	if n == 0 {
		close(s.reached)
		<-s.release
	}
	if s.fails && n == len(s.batches)-1 {
		return nil, nil, 0, errors.New("verif: no batch")
	}
	l, ch := split(s.batches[n])
	return l, ch, 0, nil
}

// member is a server with the state that the test expects.
type member struct {
	*webServer
	fc      *faulty
	ownConn db.Conn
	port    int
	names   []string
	items   []*item
	cancel  func()
	dead    bool // its context is done
	pending bool // a stop was requested, and no Listen used it
	dirty   bool // an update failed: the answers need not fit
	snap    *snap
	log     *cycles

	listening bool
	unlisten  func()
	ended     chan error
}

const patience = time.Minute

// TestM10Server: histories of listening, stopping, updating and asking, of one or two servers in a process.
func TestM10Server(t *testing.T) {
	rec := vlib.New(t, "M10", "a server is stopped and listens again or an update is blocked, and there are answers afterwards")
	var dbs []*DB
	var fcs []*faulty
	for i := 0; i < 2; i++ {
		d := Open(fmt.Sprintf("m10_%d", i))
		defer d.Drop()
		fc := d.faulty()
		defer fc.Close()
		dbs, fcs = append(dbs, d), append(fcs, fc)
	}
	log.SetOutput(io.Discard)
	old := os.Stdout
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		vlib.Infra("%v", err)
	}
	os.Stdout = null
	defer func() { os.Stdout = old; null.Close() }()
	ports := 0
	freeOwn := func() int {
		for i := 0; i < 64; i++ {
			ports++
			if l, err := net.Listen("tcp", fmt.Sprintf(":%d", ownPort(ports))); err == nil {
				l.Close()
				return ownPort(ports)
			}
		}
		vlib.Infra("no free port")
		return 0
	}
	vlib.Check(t, rec, func(rt *rapid.T) {
		var steps []string
		var stepsMu sync.Mutex
		step := func(f string, a ...any) {
			stepsMu.Lock()
			steps = append(steps, fmt.Sprintf(f, a...))
			stepsMu.Unlock()
		}
		history := func() string {
			stepsMu.Lock()
			defer stepsMu.Unlock()
			return strings.Join(steps, "\n")
		}
		bad := func(f string, a ...any) { rt.Fatalf("%s\n%s", fmt.Sprintf(f, a...), history()) }
		classes := map[string]bool{}
		soon := func(what string, f func()) { vlib.Within("M10", what+"\n"+history(), patience, f) }
		// result waits for the end of something.
		result := func(what string, c chan error) (err error) {
			soon(what, func() { err = <-c })
			return
		}
		var running sync.WaitGroup
		async := func(f func() error) chan error {
			c := make(chan error, 1)
			running.Add(1)
			go func() { defer running.Done(); c <- f() }()
			return c
		}

		var ms []*member
		var releases []func() // of everything that waits, should the case end early
		defer func() {
			for _, f := range releases {
				f()
			}
			for _, m := range ms {
				m.cancel()
				if m.listening {
					m.unlisten()
				}
				m.client.CloseIdleConnections()
			}
			soon("the end of everything", running.Wait)
			for _, m := range ms {
				m.ownConn.Close()
				m.Updater.Conn.Close()
			}
		}()
		for i, n := 0, rapid.IntRange(1, 2).Draw(rt, "servers"); i < n; i++ {
			dbs[i].Reset()
			wd := genWorld(rt, worldOpts{policies: true, names: m08Names, maxItems: 6})
			c, cancel := context.WithCancel(ctx)
			port := freeOwn()
			m := &member{webServer: newMapServer(c, dbs[i], port), port: port, fc: fcs[i], cancel: cancel, items: wd.items, log: &cycles{}}
			m.ownConn = m.Conn
			m.ReadTimeout, m.WriteTimeout = patience, patience
			m.use(port, false)
			ms = append(ms, m)
			if len(wd.pols) > 0 {
				if err := updater.UpdateWithKeepExisting(ctx, dbs[i], nil, nil, nil, nil, nil, docs(wd.pols)); err != nil {
					bad("inserting policies: %v", err)
				}
				m.dirty = true
			}
			m.names = queries(rt, wd)
			m.Updater.Fetchers = []logfetcher.Fetcher{m.log}
			m.snap = dbs[i].snap()
			step("server %d: names %q, %d items, %d policies", i, wd.names, len(wd.items), len(wd.pols))
		}
		batches := func(m *member, atLeast int) (out [][]*item) {
			for j, k := 0, rapid.IntRange(atLeast, 2).Draw(rt, "batches"); j < k; j++ {
				out = append(out, rapid.Permutation(m.items).Draw(rt, "which")[:rapid.IntRange(0, len(m.items)).Draw(rt, "items")])
			}
			return
		}
		// add sets what the next update gets.
		add := func(m *member, s *script) *script {
			m.log.mu.Lock()
			m.log.scripts = append(m.log.scripts[:min(len(m.log.scripts), m.log.runs)], s)
			m.log.mu.Unlock()
			return s
		}
		outcome := func(m *member, what string, err error, s *script) {
			if (err != nil) != s.fails {
				bad("%s: the result is %v", what, err)
			}
			m.dirty = s.fails
			m.snap = m.d.snap()
			if err == nil {
				if e := afterCycle(m.snap); e != "" {
					bad("%s: %s", what, e)
				}
				model := newModel()
				for _, b := range s.batches {
					model.add(b, nil)
				}
				for id, c := range model.certs {
					if r, ok := m.snap.certs[id]; !ok || !bytes.Equal(r.payload, c.DER) {
						bad("%s: %s is not stored", what, label(c))
					}
				}
			}
		}
		served := false
		ask := func(m *member, n int) {
			for j := 0; j < n; j++ {
				if m.dirty {
					if e := m.duringUpdate(rapid.SampledFrom(m.names).Draw(rt, "name")); e != "" {
						bad("an answer after a failed update: %s", e)
					}
					continue
				}
				what, e, class := m.ask(rt, m.snap, m.names)
				step("server at %d: %s", m.port, what[:min(len(what), 200)])
				if e != "" {
					bad("%s: %s", what[:min(len(what), 2000)], e)
				}
				classes[class] = true
				served = true
			}
		}
		ended := func(m *member, what string) {
			if err := result(what, m.ended); err != nil {
				bad("%s: Listen returned %v", what, err)
			}
			m.unlisten()
			m.listening = false
			if connects(m.port) {
				bad("%s: the port is still served after Listen returned", what)
			}
			l, err := net.Listen("tcp", fmt.Sprintf(":%d", m.port))
			if err != nil {
				bad("%s: the port is not free after Listen returned: %v", what, err)
			}
			l.Close()
			m.client.CloseIdleConnections()
		}
		start := func(m *member) {
			c, cancel := context.WithCancel(ctx)
			useTLS := rapid.Bool().Draw(rt, "TLS")
			m.use(m.port, useTLS)
			m.unlisten, m.ended = cancel, async(func() error { return m.listen(c, useTLS) })
			m.listening = true
		}
		listen := func(m *member) {
			start(m)
			soon("Listen", func() {
				for !connects(m.port) {
					select {
					case err := <-m.ended:
						bad("Listen returned %v", err)
					case <-time.After(time.Millisecond):
					}
				}
			})
		}
		stopped := false
		ops := map[string]func(m *member) bool{
			"listen": func(m *member) bool {
				switch {
				case m.pending:
					step("server at %d: listen, after a stop was requested", m.port)
					start(m)
					ended(m, "a stop before Listen")
					m.pending = false
					classes["stop before listening"] = true
				case m.listening:
					step("server at %d: listen once more", m.port)
					c := async(func() error { return m.ListenWithoutTLS(ctx) })
					if result("listening twice", c) == nil {
						bad("a second Listen on the same port returns without an error")
					}
					classes["port in use"] = true
				case rapid.IntRange(0, 3).Draw(rt, "occupied") == 0:
					step("server at %d: listen, with the port in use", m.port)
					l, err := net.Listen("tcp", fmt.Sprintf(":%d", m.port))
					if err != nil {
						vlib.Infra("occupying a port: %v", err)
					}
					c := async(func() error { return m.ListenWithoutTLS(ctx) })
					err = result("listening on a port in use", c)
					l.Close()
					if err == nil {
						bad("Listen on a port in use returns without an error")
					}
					classes["port in use"] = true
				default:
					step("server at %d: listen", m.port)
					listen(m)
					if stopped {
						classes["listening again"] = true
					}
				}
				return true
			},
			"stop": func(m *member) bool {
				if !m.listening && m.pending {
					step("server at %d: second stop that cannot be noted", m.port)
					c, cancel := context.WithTimeout(ctx, 5*time.Millisecond)
					soon("Shutdown with a context that is done", func() { m.Shutdown(c) })
					cancel()
					return true
				}
				if m.listening && rapid.Bool().Draw(rt, "by the context") {
					step("server at %d: end of the context of Listen", m.port)
					m.unlisten()
					ended(m, "the context of Listen is done")
					stopped = true
					return true
				}
				step("server at %d: stop", m.port)
				soon("Shutdown", func() { m.Shutdown(ctx) })
				if m.listening {
					ended(m, "stop")
					stopped = true
				} else {
					m.pending = true
				}
				return true
			},
			"stop while answering": func(m *member) bool {
				if !m.listening || m.dirty {
					return false
				}
				var id ID
				var want []byte
				for k, r := range m.snap.certs {
					if want == nil || bytes.Compare(k[:], id[:]) < 0 {
						id, want = k, r.payload
					}
				}
				step("server at %d: stop while it answers", m.port)
				m.Conn = m.fc
				m.fc.arm(fault{Kind: "wait", At: 1})
				release := sync.OnceFunc(func() { close(m.fc.release) })
				releases = append(releases, release)
				var body []byte
				var code int
				req := async(func() (err error) {
					code, body, err = m.get("GET", fmt.Sprintf("/getcertpayloads?ids=%x", id))
					return
				})
				soon("asking for a payload", func() {
					select {
					case <-m.fc.reached:
					case err := <-req:
						bad("the request ended early: %d %s %v", code, body, err)
					}
				})
				if rapid.Bool().Draw(rt, "by the context") {
					m.unlisten()
				} else {
					soon("Shutdown", func() { m.Shutdown(ctx) })
				}
				// It does not accept anybody anymore, and waits for the answer.
				soon("the end of accepting", func() {
					for connects(m.port) {
						time.Sleep(time.Millisecond)
					}
				})
				time.Sleep(time.Duration(rapid.SampledFrom([]int{0, 1, 20}).Draw(rt, "ms")) * time.Millisecond)
				select {
				case err := <-m.ended:
					bad("Listen returned %v while a request was being answered", err)
				default:
				}
				release()
				if err := result("the request", req); err != nil || code != 200 {
					bad("the request that was being answered at the stop ended with %d %s %v", code, body, err)
				}
				var got [][]byte
				if err := json.Unmarshal(body, &got); err != nil || len(got) != 1 || !bytes.Equal(got[0], want) {
					bad("the request that was being answered at the stop got %q", body)
				}
				ended(m, "stop")
				m.fc.disarm()
				m.Conn = m.ownConn
				stopped = true
				classes["stop while answering"] = true
				return true
			},
			"update": func(m *member) bool {
				if m.dead {
					return false
				}
				s := add(m, newScript(batches(m, 0), rapid.IntRange(0, 5).Draw(rt, "fails") == 0, false))
				s.fails = s.fails && len(s.batches) > 0
				step("server at %d: update, failing %v", m.port, s.fails)
				var err error
				if rapid.Bool().Draw(rt, "if possible") {
					soon("the update", func() {
						for done := false; !done; {
							done, err = m.PruneAndUpdateIfPossible(ctx)
							if !done && err != nil {
								bad("no update was possible, but there is an error: %v", err)
							}
						}
					})
				} else {
					soon("the update", func() { err = m.PruneAndUpdate(ctx) })
				}
				outcome(m, "the update", err, s)
				return true
			},
			"blocked update": func(m *member) bool {
				if m.dead {
					return false
				}
				s := add(m, newScript(batches(m, 1), rapid.IntRange(0, 2).Draw(rt, "fails") == 0, true))
				release := sync.OnceFunc(func() { close(s.release) })
				releases = append(releases, release)
				before := m.log.count()
				step("server at %d: blocked update, failing %v", m.port, s.fails)
				classes["blocked update"] = true
				c1, cancel1 := context.WithCancel(ctx)
				defer cancel1()
				givenUp := false
				var first chan error
				if rapid.IntRange(0, 2).Draw(rt, "request") == 0 {
					first = async(func() error {
						for {
							if done, err := m.PruneAndUpdateIfPossible(c1); done || err != nil {
								return err
							}
						}
					})
				} else {
					first = async(func() error { return m.PruneAndUpdate(c1) })
				}
				soon("the start of the update", func() {
					select {
					case <-s.reached:
					case err := <-first:
						bad("the update ended early: %v", err)
					}
				})
				var second, third chan error
				var cancel3 func()
				s2 := newScript(batches(m, 0), rapid.IntRange(0, 2).Draw(rt, "second fails") == 0, false)
				s2.fails = s2.fails && len(s2.batches) > 0
				die := false
				for j, k := 0, rapid.IntRange(1, 5).Draw(rt, "meanwhile"); j < k; j++ {
					switch rapid.SampledFrom([]string{"if possible", "if possible", "second", "third", "cancel third", "ask", "stop", "listen", "die", "give up first"}).Draw(rt, "meanwhile") {
					case "if possible":
						var done bool
						var err error
						soon("an update if possible, while one is running", func() { done, err = m.PruneAndUpdateIfPossible(ctx) })
						if done || err != nil {
							bad("an update if possible, while one is running: %v %v", done, err)
						}
						classes["update not possible"] = true
					case "second":
						if second == nil {
							step("a second update request")
							m.log.mu.Lock()
							m.log.scripts = append(m.log.scripts, s2)
							m.log.mu.Unlock()
							second = async(func() error { return m.PruneAndUpdate(ctx) })
							classes["waiting update"] = true
						}
					case "third":
						if third == nil {
							step("a third update request, which will be given up")
							var c context.Context
							c, cancel3 = context.WithCancel(ctx)
							third = async(func() error { return m.PruneAndUpdate(c) })
						}
					case "cancel third":
						if third != nil && cancel3 != nil {
							step("the third is given up")
							cancel3()
							if result("the update request that was given up", third) == nil {
								bad("an update request that was given up while waiting has no error")
							}
							cancel3, third = nil, nil
							classes["update given up"] = true
						}
					case "ask":
						if m.listening {
							if e := m.duringUpdate(rapid.SampledFrom(m.names).Draw(rt, "name")); e != "" {
								bad("an answer during an update: %s", e)
							}
							served = true
						}
					case "stop":
						if m.listening {
							step("stop during the update")
							soon("Shutdown", func() { m.Shutdown(ctx) })
							ended(m, "stop during an update")
							stopped = true
						}
					case "listen":
						if !m.listening && !m.pending {
							step("listen during the update")
							listen(m)
						}
					case "give up first":
						if !givenUp {
							step("the context of the running update is done")
							givenUp = true
							cancel1()
							classes["running update given up"] = true
						}
					case "die":
						if third == nil && !die {
							step("the context of the server is done")
							die = true
							m.cancel()
						}
					}
				}
				if n := m.log.count(); n != before+1 {
					bad("%d updates run at the same time", n-before)
				}
				if third != nil {
					cancel3()
					if result("the update request that was given up", third) == nil {
						bad("an update request that was given up while waiting has no error")
					}
				}
				select {
				case err := <-first:
					if !givenUp || err == nil {
						bad("the update ended while it was fetching: %v", err)
					}
					first <- err
				default:
				}
				if second != nil && !die {
					select {
					case err := <-second:
						bad("the second update ended while the first was running: %v", err)
					default:
					}
				}
				release()
				err := result("the update", first)
				m.dead = die
				// An update that is given up fails, unless it did not notice.
				s = &script{batches: s.batches, fails: s.fails || givenUp && err != nil}
				if second == nil {
					outcome(m, "the update that was blocked", err, s)
					return true
				}
				if (err != nil) != s.fails {
					bad("the result of the first update is %v", err)
				}
				err = result("the second update", second)
				if die && m.log.count() == before+1 {
					if err == nil {
						bad("the second update request was not served when the context of the server was done, but it has no error")
					}
					m.snap, m.dirty = m.d.snap(), s.fails
					return true
				}
				outcome(m, "the second update", err, s2)
				if !s.fails && !s2.fails {
					for _, b := range s.batches {
						for _, it := range b {
							if _, ok := m.snap.certs[it.leaf.ID]; !ok {
								bad("%s of the first update is not stored after the second", label(it.leaf))
							}
						}
					}
				}
				return true
			},
			"end of the server's context": func(m *member) bool {
				if m.dead || rapid.IntRange(0, 2).Draw(rt, "really") > 0 {
					return false
				}
				step("server at %d: its context is done", m.port)
				m.cancel()
				m.dead = true
				return true
			},
			"update of an ended server": func(m *member) bool {
				if !m.dead {
					return false
				}
				step("server at %d: update after the end", m.port)
				if rapid.Bool().Draw(rt, "if possible") {
					var done bool
					var err error
					soon("an update if possible, after the end", func() { done, err = m.PruneAndUpdateIfPossible(ctx) })
					if done && err == nil {
						// The server may have accepted one last request.
						m.snap = m.d.snap()
					}
				} else if before := m.log.count(); result("an update after the end", async(func() error { return m.PruneAndUpdate(ctx) })) == nil && m.log.count() == before {
					bad("an update of a server whose context is done did not run, and has no error")
				}
				m.snap = m.d.snap()
				classes["update after the end"] = true
				return true
			},
			"ask": func(m *member) bool {
				if !m.listening {
					return false
				}
				ask(m, rapid.IntRange(1, 4).Draw(rt, "requests"))
				return true
			},
		}
		kinds := []string{"ask", "listen", "ask", "update", "stop", "blocked update", "stop while answering", "ask", "update", "end of the server's context", "update of an ended server"}
		for i, n := 0, rapid.IntRange(4, 14).Draw(rt, "operations"); i < n; i++ {
			m := rapid.SampledFrom(ms).Draw(rt, "server")
			k := rapid.SampledFrom(kinds).Draw(rt, "operation")
			if !ops[k](m) && !m.listening && !m.pending {
				ops["listen"](m)
			}
		}
		for _, m := range ms {
			if !m.listening && !m.pending {
				step("server at %d: listen", m.port)
				listen(m)
			}
		}
		// All of them answer with their own data.
		all := 0
		for _, m := range ms {
			if m.listening {
				ask(m, 3)
				all++
			}
		}
		if all == 2 {
			classes["two servers listening"] = true
		}
		for _, m := range ms {
			if m.listening {
				ops["stop"](m)
			}
		}
		var cl []string
		for c := range classes {
			cl = append(cl, c)
		}
		rec.Case(strings.Join(steps, "\n"), served && (classes["listening again"] || classes["blocked update"]), func() any { return steps }, cl...)
	})
}
