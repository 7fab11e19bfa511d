package mdb

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	mapconfig "github.com/netsec-ethz/fpki/pkg/mapserver/config"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// buildProgram gives the path of the program of the map server, of the current tree.
func buildProgram() string {
	out := filepath.Join(vlib.TempDir(), "mapserver")
	cmd := exec.Command("go", "build", "-buildvcs=false", "-o", out, "./cmd/mapserver")
	cmd.Dir = os.Getenv("VERIF_REPO")
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	if b, err := cmd.CombinedOutput(); err != nil {
		vlib.Infra("building the program: %v\n%s", err, b)
	}
	return out
}

// process is a running program.
type process struct {
	cmd  *exec.Cmd
	out  *syncBuffer
	done chan struct{} // closed at its end
	d    *DB

	tries int
}

type syncBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *syncBuffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}
func (b *syncBuffer) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.String()
}

// A process that is started in the background may have the interrupt signal ignored, and its children inherit this,
// unless it is notified.
func init() {
	if signal.Ignored(syscall.SIGINT) {
		signal.Notify(make(chan os.Signal, 1), syscall.SIGINT)
	}
}

func spawn(d *DB, dir, bin string, args ...string) *process {
	p := &process{d: d, cmd: exec.Command(bin, args...), out: &syncBuffer{}, done: make(chan struct{})}
	p.cmd.Dir, p.cmd.Stdout, p.cmd.Stderr = dir, p.out, p.out
	p.cmd.Env = append(os.Environ(), "TMPDIR="+dir)
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		vlib.Infra("starting %s: %v", bin, err)
	}
	go func() {
		p.cmd.Wait()
		d.settle()
		close(p.done)
	}()
	return p
}

// settle waits until the MySQL server has noticed that a process that used the database is gone: it completes the
// statements it got before.
func (d *DB) settle() {
	quiet := 0
	for limit := time.Now().Add(20 * time.Second); time.Now().Before(limit) && quiet < 3; time.Sleep(2 * time.Millisecond) {
		n := 0
		quiet++
		if err := d.DB().QueryRow("SELECT COUNT(*) FROM information_schema.processlist WHERE DB = ?", d.Name).Scan(&n); err != nil {
			return
		}
		if n > d.DB().Stats().OpenConnections {
			quiet = 0
		}
	}
}

func (p *process) running() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}

// retry starts the program again if it ended because of other tests.
func (p *process) retry() bool {
	if p.running() || !collision(p.out.String()) || p.tries > 20 {
		return false
	}
	q := spawn(p.d, p.cmd.Dir, p.cmd.Path, p.cmd.Args[1:]...)
	q.tries = p.tries + 1
	*p = *q
	return true
}

func (p *process) crashed() bool {
	return strings.Contains(p.out.String(), "panic:") || strings.Contains(p.out.String(), "goroutine ") || strings.Contains(p.out.String(), "fatal error:")
}

// TestM10Program: histories of runs of the program, some of which are interrupted.
func TestM10Program(t *testing.T) {
	rec := vlib.New(t, "M10", "a run was interrupted or updates happened by schedule, and a later run holds what the logs hold")
	bin := buildProgram()
	d := Open("m10p")
	defer d.Drop()
	root := vlib.TempDir()
	defer os.RemoveAll(root)
	var current sync.Map
	var delay sync.Map
	srv := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		id := strings.Split(r.URL.Path, "/")[1]
		l, ok := current.Load(id)
		if !ok {
			http.NotFound(rw, r)
			return
		}
		if ms, ok := delay.Load(id); ok {
			time.Sleep(time.Duration(ms.(int)) * time.Millisecond)
		}
		l.(*clog).ServeHTTP(rw, r)
	}))
	defer srv.Close()
	n := 0
	vlib.Check(t, rec, func(rt *rapid.T) {
		d.Reset()
		n++
		wd := genWorld(rt, worldOpts{names: m08Names, maxItems: 8, policies: true})
		names := queries(rt, wd)
		dir := filepath.Join(root, fmt.Sprint(n))
		if err := os.MkdirAll(dir, 0755); err != nil {
			vlib.Infra("%v", err)
		}
		defer os.RemoveAll(dir)
		var steps []string
		step := func(f string, a ...any) { steps = append(steps, fmt.Sprintf(f, a...)) }
		var p *process
		bad := func(f string, a ...any) {
			out := ""
			if p != nil {
				out = p.out.String()
				out = "\nthe program wrote:\n" + out[max(0, len(out)-4000):]
			}
			rt.Fatalf("%s\n%s%s", fmt.Sprintf(f, a...), strings.Join(steps, "\n"), out)
		}
		defer func() {
			if p != nil {
				p.cmd.Process.Kill()
				<-p.done
			}
		}()
		classes := map[string]bool{}

		// The logs.
		port := ownPort(n)
		conf := serverConfig(d, dir, port)
		conf.CTLogServerURLs, conf.CertificateFolders = nil, map[string]string{}
		conf.CsvIngestionMaxRows = 1000
		conf.UpdateAt = util.NewTimeOfDay(uint(time.Now().UTC().Hour()+12)%24, 0, 0, 0)
		conf.UpdateTimer = util.DurationWrap{Duration: time.Hour}
		var logs []*clog
		for i, k := 0, rapid.IntRange(1, 3).Draw(rt, "logs"); i < k; i++ {
			l := &clog{kind: rapid.SampledFrom([]string{"http", "local"}).Draw(rt, "kind"), batch: rapid.IntRange(1, 4).Draw(rt, "batch")}
			id := fmt.Sprintf("%d-%d", n, i)
			l.url = srv.URL + "/" + id
			switch l.kind {
			case "http":
				current.Store(id, l)
				defer current.Delete(id)
				if ms := rapid.SampledFrom([]int{0, 0, 5, 30}).Draw(rt, "delay"); ms > 0 {
					delay.Store(id, ms)
					defer delay.Delete(id)
				}
			case "local":
				l.dir = filepath.Join(dir, id)
				if err := os.MkdirAll(l.dir, 0755); err != nil {
					vlib.Infra("%v", err)
				}
				conf.CertificateFolders[l.url] = l.dir
			}
			for j, m := 0, rapid.IntRange(0, 10).Draw(rt, "entries"); j < m && len(wd.items) > 0; j++ {
				l.entries = append(l.entries, rapid.SampledFrom(wd.items).Draw(rt, "entry"))
				l.expired = append(l.expired, l.kind != "http" && rapid.IntRange(0, 4).Draw(rt, "expired") == 0)
			}
			conf.CTLogServerURLs = append(conf.CTLogServerURLs, l.url)
			step("%s log %d", l.kind, i)
			logs = append(logs, l)
		}
		var pols []*polDoc
		grow := func(all bool) {
			for _, l := range logs {
				l.mu.Lock()
				size := len(l.entries)
				if !all {
					size = rapid.IntRange(l.size, len(l.entries)).Draw(rt, "size")
				}
				l.size = size
				l.mu.Unlock()
				if l.kind == "local" {
					l.write(rt)
				}
			}
			step("the logs have %s", sizesOf(logs))
		}
		want := func() *model {
			m := newModel()
			for _, l := range logs {
				for i := 0; i < l.size; i++ {
					if !l.expired[i] {
						m.add([]*item{l.entries[i]}, nil)
					}
				}
			}
			m.add(nil, pols)
			m.cleaned()
			return m
		}
		// complete tells what is missing in the database.
		complete := func() string {
			s := d.snap()
			if e := want().compareMaterial(s, nil); e != "" {
				return e
			}
			if e := afterCycle(s); e != "" {
				return e
			}
			pos := d.positions()
			for _, l := range logs {
				if got := pos[hash([]byte(l.url))].size; got != l.size {
					return fmt.Sprintf("the position of %s is %d instead of %d", l, got, l.size)
				}
			}
			return ""
		}
		confFile := filepath.Join(dir, "config.json")
		write := func(c *mapconfig.Config) string {
			if err := mapconfig.WriteConfigurationToFile(confFile, c); err != nil {
				bad("writing the configuration: %v", err)
			}
			return confFile
		}
		// end waits for the end of the program, and gives its exit code.
		end := func(what string) int {
			select {
			case <-p.done:
			case <-time.After(2 * patience):
				out := p.out.String()
				p.cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(time.Second)
				vlib.Hang("M10", fmt.Sprintf("the program does not end: %s\n%s\n%s\n%s", what, strings.Join(steps, "\n"), out, p.out))
			}
			if p.crashed() {
				bad("the program crashed: %s", what)
			}
			return p.cmd.ProcessState.ExitCode()
		}
		finish := func(what string) int {
			code := end(what)
			for p.retry() {
				code = end(what)
			}
			return code
		}
		w := &webServer{d: d}
		// listens waits until the program answers.
		listens := func() {
			for limit := time.Now().Add(2 * patience); !connects(port); time.Sleep(2 * time.Millisecond) {
				if !p.running() && !p.retry() {
					bad("the program ended with %d", p.cmd.ProcessState.ExitCode())
				}
				if time.Now().After(limit) {
					p.cmd.Process.Signal(syscall.SIGQUIT)
					time.Sleep(time.Second)
					vlib.Hang("M10", fmt.Sprintf("the program does not listen\n%s\n%s", strings.Join(steps, "\n"), p.out))
				}
			}
			w.use(port, false)
		}
		answers := func() {
			s := d.snap()
			for j, k := 0, rapid.IntRange(1, 4).Draw(rt, "requests"); j < k; j++ {
				what, e, class := w.ask(rt, s, names)
				if e != "" {
					bad("%s: %s", what[:min(len(what), 2000)], e)
				}
				classes[class] = true
			}
		}
		terminate := func(what string) int {
			sig := rapid.SampledFrom([]os.Signal{syscall.SIGTERM, syscall.SIGINT}).Draw(rt, "signal")
			step("%v %s", sig, what)
			p.cmd.Process.Signal(sig)
			begin := time.Now()
			code := end(fmt.Sprintf("after %v %s", sig, what))
			if took := time.Since(begin); took > 9*time.Second {
				rec.Class("slow end")
			}
			if connects(port) {
				bad("the port is served although the program ended")
			}
			return code
		}
		good := false
		interrupted := false
		run := map[string]func(){
			"update now": func() {
				grow(false)
				step("run with -updateNow")
				p = spawn(d, dir, bin, "-updateNow", write(conf))
				listens()
				if e := complete(); e != "" {
					bad("after the initial update: %s", e)
				}
				good = good || interrupted
				answers()
				if code := terminate("while it listens"); code != 0 {
					bad("the exit code after the signal is %d", code)
				}
			},
			"serve": func() {
				if complete() != "" {
					return // it would not be consistent
				}
				before := d.positions()
				grow(false)
				step("run without an update")
				p = spawn(d, dir, bin, write(conf))
				listens()
				answers()
				for id, q := range d.positions() {
					if before[id].size != q.size {
						bad("an update happened although none was due")
					}
				}
				if code := terminate("while it listens"); code != 0 {
					bad("the exit code after the signal is %d", code)
				}
			},
			"scheduled": func() {
				before := d.positions()
				c := *conf
				at := time.Now().UTC().Add(time.Duration(rapid.SampledFrom([]int{600, 1000, 1500}).Draw(rt, "ms")) * time.Millisecond).Round(time.Millisecond)
				c.UpdateAt = util.NewTimeOfDay(uint(at.Hour()), uint(at.Minute()), uint(at.Second()), uint(at.Nanosecond()))
				c.UpdateTimer = util.DurationWrap{Duration: 300 * time.Millisecond}
				grow(false)
				step("run with a schedule in %v", time.Until(at).Round(100*time.Millisecond))
				p = spawn(d, dir, bin, write(&c))
				listens()
				if time.Now().After(at.Add(-100 * time.Millisecond)) {
					rec.Class("too slow for the schedule")
					terminate("while it waits or updates")
					return
				}
				if fmt.Sprint(d.positions()) != fmt.Sprint(before) {
					bad("an update happened before it was due, in %v", time.Until(at))
				}
				wait := func(what string) {
					e := "no time"
					for limit := time.Now().Add(patience); time.Now().Before(limit); time.Sleep(20 * time.Millisecond) {
						if e = complete(); e == "" {
							return
						}
						if !p.running() {
							bad("the program ended with %d", p.cmd.ProcessState.ExitCode())
						}
					}
					bad("a minute after %s: %s", what, e)
				}
				wait("the scheduled update")
				grow(false)
				wait("the repeated update")
				good = true
				classes["scheduled updates"] = true
				// An update that runs may be interrupted.
				interrupted = true
				if code := terminate("while it updates now and then"); code != 0 {
					bad("the exit code after the signal is %d", code)
				}
			},
			"interrupted": func() {
				grow(false)
				step("run with -updateNow")
				p = spawn(d, dir, bin, "-updateNow", write(conf))
				ms := rapid.SampledFrom([]int{0, 20, 50, 70, 80, 90, 100, 120, 150, 200, 300}).Draw(rt, "after ms")
				select {
				case <-p.done:
					if !collision(p.out.String()) {
						bad("the program ended with %d", p.cmd.ProcessState.ExitCode())
					}
				case <-time.After(time.Duration(ms) * time.Millisecond):
				}
				interrupted = true
				if rapid.Bool().Draw(rt, "kill") {
					step("killed after %d ms", ms)
					classes["killed"] = true
					p.cmd.Process.Kill()
					<-p.done
					return
				}
				classes["interrupted"] = true
				terminate(fmt.Sprintf("after %d ms", ms))
			},
			"policy file": func() {
				if len(wd.pols) == 0 {
					return
				}
				pol := rapid.SampledFrom(wd.pols).Draw(rt, "policy")
				raw, err := pol.doc.Raw()
				if err != nil || !bytes.Equal(raw, pol.raw) || bytes.Contains(raw, []byte(": ")) {
					return // the program stores what it writes itself
				}
				file := filepath.Join(dir, "policy.json")
				if err := os.WriteFile(file, raw, 0644); err != nil {
					vlib.Infra("%v", err)
				}
				pols = append(pols, pol)
				step("run with -policyFile %s", raw)
				if rapid.Bool().Draw(rt, "kill") { // a run that does not end, whose work the next one completes
					p = spawn(d, dir, bin, "-policyFile", file, write(conf))
					begun := func() bool { return strings.Contains(p.out.String(), "inserting policy") }
					for limit := time.Now().Add(patience); !begun() && p.running() && time.Now().Before(limit); time.Sleep(time.Millisecond) {
					}
					ms := rapid.SampledFrom([]int{20, 5, 10, 30, 40, 50, 60, 80, 100, 150}).Draw(rt, "after ms")
					time.Sleep(time.Duration(ms) * time.Millisecond)
					p.cmd.Process.Kill()
					<-p.done
					step("killed after %d ms", ms)
					classes["killed at inserting a policy"] = true
				}
				p = spawn(d, dir, bin, "-policyFile", file, write(conf))
				if code := finish("inserting a policy"); code != 0 {
					bad("the exit code is %d", code)
				}
				s := d.snap()
				if r, ok := s.pols[pol.id()]; !ok || !bytes.Equal(r.payload, raw) {
					bad("the policy is not stored")
				}
				if e := afterCycle(s); e != "" {
					bad("after inserting a policy: %s", e)
				}
				classes["policy file"] = true
			},
			"bad": func() {
				before := d.snap()
				what := rapid.SampledFrom([]string{"no configuration file", "not JSON", "no arguments", "no certificate", "not a certificate", "no key", "not a key", "other key", "no logs", "duplicated log",
					"no database", "port in use", "no policy", "not a policy", "no folder", "no update timer"}).Draw(rt, "bad")
				step("run with %s", what)
				c := *conf
				args := []string{confFile}
				junk := filepath.Join(dir, "junk")
				if err := os.WriteFile(junk, rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(rt, "junk"), 0644); err != nil {
					vlib.Infra("%v", err)
				}
				switch what {
				case "no certificate":
					c.CertificatePemFile = dir + "/none"
				case "not a certificate":
					c.CertificatePemFile = rapid.SampledFrom([]string{junk, conf.PrivateKeyPemFile}).Draw(rt, "file")
				case "no key":
					c.PrivateKeyPemFile = dir + "/none"
				case "not a key":
					c.PrivateKeyPemFile = rapid.SampledFrom([]string{junk, conf.CertificatePemFile}).Draw(rt, "file")
				case "other key":
					c.PrivateKeyPemFile = filepath.Join(dir, "other.pem")
					if err := os.WriteFile(c.PrivateKeyPemFile, otherKey(), 0600); err != nil {
						vlib.Infra("%v", err)
					}
				case "no logs":
					c.CTLogServerURLs = nil
				case "duplicated log":
					c.CTLogServerURLs = append([]string{c.CTLogServerURLs[len(c.CTLogServerURLs)-1]}, c.CTLogServerURLs...)
				case "no database":
					c.DBConfig = config("verif_none")
				case "no update timer":
					c.UpdateTimer = util.DurationWrap{Duration: rapid.SampledFrom([]time.Duration{0, -time.Second}).Draw(rt, "timer")}
				case "no folder":
					c.CertificateFolders = map[string]string{}
					for _, u := range c.CTLogServerURLs {
						c.CertificateFolders[u] = dir + "/none"
					}
					args = append([]string{"-updateNow"}, args...)
				case "no policy":
					args = append([]string{"-policyFile", dir + "/none"}, args...)
				case "not a policy":
					args = append([]string{"-policyFile", junk}, args...)
				case "port in use":
					l, err := listenOn(port)
					if err != nil {
						vlib.Infra("occupying a port: %v", err)
					}
					defer l.Close()
				}
				write(&c)
				switch what {
				case "no configuration file":
					os.Remove(confFile)
				case "not JSON":
					os.Rename(junk, confFile)
				case "no arguments":
					args = nil
				}
				p = spawn(d, dir, bin, args...)
				if code := finish(what); code == 0 {
					bad("the program ends with success")
				}
				if len(p.out.String()) == 0 {
					bad("the program does not say what is wrong")
				}
				if !reflect.DeepEqual(before, d.snap()) {
					bad("the content of the database changed")
				}
				classes["bad configuration"] = true
			},
			"sample": func() {
				step("run with -v and -createSampleConfig")
				p = spawn(d, dir, bin, rapid.SampledFrom([]string{"-v", "-version", "--version"}).Draw(rt, "flag"))
				if code := finish("version"); code != 0 || !strings.Contains(p.out.String(), "Server") {
					bad("the program does not show its version, exit code %d", code)
				}
				file := filepath.Join(dir, "sample.json")
				p = spawn(d, dir, bin, "-createSampleConfig", file)
				if code := finish("sample"); code != 0 {
					bad("the exit code is %d", code)
				}
				c, err := mapconfig.ReadConfigFromFile(file)
				if err != nil {
					bad("the sample configuration cannot be read: %v", err)
				}
				if len(c.CTLogServerURLs) == 0 || c.DBConfig == nil || c.CertificatePemFile == "" || c.PrivateKeyPemFile == "" || c.HttpAPIPort == 0 || c.UpdateTimer.Duration <= 0 || c.CsvIngestionMaxRows == 0 {
					bad("the sample configuration is not complete: %+v", c)
				}
				c.DBConfig, c.CertificatePemFile, c.PrivateKeyPemFile, c.HttpAPIPort = conf.DBConfig, conf.CertificatePemFile, conf.PrivateKeyPemFile, port
				p = spawn(d, dir, bin, write(c))
				listens()
				if code := terminate("while it listens"); code != 0 {
					bad("the exit code after the signal is %d", code)
				}
			},
		}
		kinds := []string{"update now", "interrupted", "policy file", "bad", "scheduled", "serve", "interrupted", "bad", "update now", "sample"}
		for i, k := 0, rapid.IntRange(2, 5).Draw(rt, "runs"); i < k; i++ {
			run[kinds[rapid.IntRange(0, len(kinds)-1).Draw(rt, "run")]]()
		}
		// At last, everything.
		grow(true)
		step("last run with -updateNow")
		p = spawn(d, dir, bin, "-updateNow", write(conf))
		listens()
		if e := complete(); e != "" {
			bad("after the last update: %s", e)
		}
		answers()
		if code := terminate("while it listens"); code != 0 {
			bad("the exit code after the signal is %d", code)
		}
		var cl []string
		for c := range classes {
			cl = append(cl, c)
		}
		rec.Case(strings.Join(steps, "\n"), good || interrupted, func() any { return steps }, cl...)
	})
}

func sizesOf(logs []*clog) string {
	var s []string
	for _, l := range logs {
		s = append(s, fmt.Sprintf("%d of %d", l.size, len(l.entries)))
	}
	return strings.Join(s, ", ")
}

func listenOn(port int) (net.Listener, error) { return net.Listen("tcp", fmt.Sprintf(":%d", port)) }

var otherKey = sync.OnceValue(func() []byte {
	k, err := rsa.GenerateKey(rand.Reader, 1024)
	if err != nil {
		vlib.Infra("%v", err)
	}
	return pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)})
})
