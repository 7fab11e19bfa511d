package mdb

import (
	"fmt"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/domain"
	"github.com/netsec-ethz/fpki/pkg/grpc/grpcclient"
	"github.com/netsec-ethz/fpki/pkg/grpc/grpcserver"
	mapcommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// freePort returns a port nobody listens on.
func freePort() int {
	l, err := net.Listen("tcp", ":0")
	if err != nil {
		vlib.Infra("listen: %v", err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func connects(port int) bool {
	c, err := net.DialTimeout("tcp", fmt.Sprintf("localhost:%d", port), 5*time.Second)
	if err == nil {
		c.Close()
	}
	return err == nil
}

type working struct {
	port int
	stop chan byte
	done chan error
}

// start runs a server over the tree stored now. port 0: any.
func startGRPC(d *DB, port int) (*working, error) {
	for try := 0; ; try++ {
		w := &working{port: port, stop: make(chan byte), done: make(chan error, 1)}
		if port == 0 {
			w.port = freePort()
		}
		s, err := grpcserver.NewGRPCServer(ctx, d, theKey())
		if err != nil {
			return nil, err
		}
		go func() { w.done <- s.StartWork(w.stop, w.port) }()
		for i := 0; ; i++ {
			select {
			case err = <-w.done:
				if err == nil {
					return nil, fmt.Errorf("the server ended by itself")
				}
			default:
			}
			if err != nil || connects(w.port) {
				break
			}
			if i > 3000 {
				return nil, fmt.Errorf("nobody listens on the port after a minute")
			}
			time.Sleep(20 * time.Millisecond)
		}
		if err == nil {
			return w, nil
		}
		if try > 5 {
			return nil, err
		}
		time.Sleep(50 * time.Millisecond) // someone else took the port
	}
}

func (w *working) end() (e string) {
	w.stop <- 1
	select {
	case err := <-w.done:
		if err != nil {
			return fmt.Sprintf("the server ended with %v", err)
		}
	case <-time.After(60 * time.Second):
		return "the server does not end"
	}
	return ""
}

func TestN01Grpc(t *testing.T) {
	rec := vlib.New(t, "N01", "concurrent queries got at least one presence and one absence proof, and an invalid name was refused")
	d := Open("n01")
	defer d.Drop()
	vlib.Check(t, rec, func(rt *rapid.T) {
		d.Reset()
		names := []string{"a.com", "b.a.com", "c.b.a.com", "b.com", "x.org", "deep.er.x.org", "example.co.uk", "b.example.co.uk", "*.a.com", "www.b.com", "UP.com"}
		w := genWorld(rt, worldOpts{policies: true, names: names, maxItems: 8})
		steps := []string{fmt.Sprintf("names %q", w.names)}
		bad := func(f string, a ...any) { rt.Fatalf("%s\n%s", fmt.Sprintf(f, a...), strings.Join(steps, "\n")) }
		port, pop, poa, refused := 0, 0, 0, 0
		classes := map[string]bool{}
		for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "rounds"); i < n; i++ {
			if rapid.IntRange(0, 4).Draw(rt, "insert") > 0 {
				items := rapid.Permutation(w.items).Draw(rt, "which")[:rapid.IntRange(1, len(w.items)).Draw(rt, "items")]
				s := "insert:"
				for _, it := range items {
					s += " " + it.String()
				}
				steps = append(steps, s)
				if err := insert(rt, "keep", d, items, w.pols); err != nil {
					bad("inserting failed: %v", err)
				}
			}
			if err := cycle(d, true); err != nil {
				bad("%v", err)
			}
			s := d.snap()
			srv, err := startGRPC(d, port)
			if err != nil {
				bad("starting the server on port %d: %v", port, err)
			}
			steps = append(steps, fmt.Sprintf("server on port %d", srv.port))
			if rapid.IntRange(0, 3).Draw(rt, "second server") == 0 {
				other, err := grpcserver.NewGRPCServer(ctx, d, theKey())
				if err != nil {
					bad("%v", err)
				}
				stop := make(chan byte, 1)
				stop <- 1
				vlib.Within("N01", "a second server on the port", time.Minute, func() { err = other.StartWork(stop, srv.port) })
				if err == nil {
					bad("a second server starts on the port without an error")
				}
				classes["port taken"] = true
			}
			qs := queries(rt, w)
			qs = append(qs, rapid.SampledFrom([]string{"", ".", "a..com", "com", "co.uk", "-a.com", "a.com.", "*.", "\xff\xfe.com", strings.Repeat("a", 64) + ".com", strings.Repeat("a.", 130) + "com"}).Draw(rt, "odd name"))
			type answer struct {
				got []*mapcommon.MapServerResponse
				err error
			}
			answers := make([]answer, len(qs))
			par := rapid.IntRange(1, 4).Draw(rt, "clients")
			var wg sync.WaitGroup
			vlib.Within("N01", "queries", 3*time.Minute, func() {
				for g := 0; g < par; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for k := g; k < len(qs); k += par {
							answers[k].got, answers[k].err = grpcclient.GetProofs(qs[k], srv.port)
						}
					}()
				}
				wg.Wait()
			})
			for k, q := range qs {
				a := answers[k]
				if _, e := domain.ParseDomainName(q); (e == nil) != (a.err == nil) {
					if a.err != nil && status.Code(a.err) == codes.DeadlineExceeded {
						vlib.Infra("a query took more than 20 seconds")
					}
					bad("asking for %q gives the error %v, but parsing the name gives %v", q, a.err, e)
				}
				if a.err != nil {
					refused++
					continue
				}
				e, p1, p2 := checkResponse(s, d, q, a.got)
				if e != "" {
					bad("asking for %q: %s", q, e)
				}
				pop, poa = pop+p1, poa+p2
			}
			if e := srv.end(); e != "" {
				bad("%s", e)
			}
			if got, err := grpcclient.GetProofs("a.com", srv.port); err == nil {
				bad("the server answers %v after its end", got)
			}
			port = 0
			if rapid.Bool().Draw(rt, "same port again") {
				l, err := net.Listen("tcp", fmt.Sprintf(":%d", srv.port))
				if err != nil {
					bad("the port is taken after the end of the server: %v", err)
				}
				l.Close()
				port = srv.port
				classes["port free after the end"] = true
			}
		}
		var cl []string
		for k := range classes {
			cl = append(cl, k)
		}
		rec.Case(strings.Join(steps, "\n"), pop > 0 && poa > 0 && refused > 0, func() any {
			return map[string]any{"presence proofs": pop, "absence proofs": poa, "refused": refused, "steps": steps}
		}, cl...)
	})
}
