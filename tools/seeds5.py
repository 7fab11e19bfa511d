#!/usr/bin/env python3
"""Bugs in the map server's cycles and program, the ingestion program, and the database connections (see plant.py)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import bug, main
import seeds2
import plant
plant.BUGS.clear()

def help(pkg, imp):
    return seeds2.HELP % dict(pkg=pkg, imp=imp)

SERVER = '''
// heads is a log whose tree heads wait for the channel.
func heads(t *testing.T, hold <-chan struct{}, asked chan<- struct{}) string {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		select {
		case asked <- struct{}{}:
		default:
		}
		<-hold
		http.Error(w, "no", 500)
	}))
	t.Cleanup(s.Close)
	return s.URL
}

func server(t *testing.T, ctx context.Context, name, url string) *MapServer {
	demoDB(t, name).Close()
	s, err := NewMapServer(ctx, &config.Config{
		CTLogServerURLs: []string{url}, CertificatePemFile: "../../tests/testdata/servercert.pem", PrivateKeyPemFile: "../../tests/testdata/serverkey.pem",
		DBConfig: db.NewConfig(mysql.WithDefaults(), mysql.WithLocalSocket(os.Getenv("DEMO_SOCK")), db.WithDB(name)),
	})
	must(t, err)
	return s
}
'''
def ms(id, edits, body, needs, breaks):
    bug(id, 'M10', edits, 'pkg/mapserver', help('mapserver', '\t"net/http"\n\t"net/http/httptest"\n\t"github.com/netsec-ethz/fpki/pkg/mapserver/config"') + SERVER + body, needs, breaks, mysql=True)

S = 'pkg/mapserver/mapserver.go'
ms('m10-left-answer', [(S, '''		// Wait for the answer (in form of an error).
		err := <-s.updateErrChan
		return true, err
''', '''		// Wait for the answer (in form of an error), but not longer than we are asked to.
		select {
		case err := <-s.updateErrChan:
			return true, err
		case <-ctx.Done():
			return true, ctx.Err()
		}
''')], '''
func TestZZDemo(t *testing.T) {
	hold, asked := make(chan struct{}), make(chan struct{}, 1)
	s := server(t, context.Background(), "left_answer", heads(t, hold, asked))
	ctx, cancel := context.WithCancel(context.Background())
	go func() {
		<-asked
		cancel()
		time.Sleep(time.Second)
		close(hold)
	}()
	var ok bool
	var err error
	for i := 0; i < 100 && !ok; i++ { // until the server is ready
		time.Sleep(10 * time.Millisecond)
		ok, err = s.PruneAndUpdateIfPossible(ctx)
	}
	if !ok || err == nil {
		t.Fatal(ok, err)
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		s.PruneAndUpdate(context.Background())
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		t.Fatal("no update is possible anymore")
	}
}
''', 'the context of an update that was accepted ends while its cycle runs, and another update is requested afterwards',
 'the outcome of the cycle is left unread, and the goroutine of the updates waits for ever: no further update happens')

ms('m10-queued', [(S, '''		updateChan:        make(chan context.Context),
''', '''		updateChan:        make(chan context.Context, 1), // the updater may not be waiting yet
''')], '''
func TestZZDemo(t *testing.T) {
	hold, asked := make(chan struct{}), make(chan struct{}, 1)
	s := server(t, context.Background(), "queued", heads(t, hold, asked))
	go s.PruneAndUpdate(context.Background())
	<-asked
	answer := make(chan bool, 1)
	go func() {
		ok, _ := s.PruneAndUpdateIfPossible(context.Background())
		answer <- ok
	}()
	select {
	case ok := <-answer:
		if ok {
			t.Fatal("an update was accepted during another one")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("waiting for an update during another one")
	}
	close(hold)
}
''', 'a request to update if possible while a cycle runs', 'the request waits for the running cycle, runs another one after it, and may get the outcome of the wrong one')

bug('m10-policy-known', 'M10', [('cmd/mapserver/main.go', '''	pc, err := util.PolicyCertificateFromFile(policyFile)
	if err != nil {
		return err
	}

''', '''	pc, err := util.PolicyCertificateFromFile(policyFile)
	if err != nil {
		return err
	}

	// Is there anything to do?
	raw, err := pc.Raw()
	if err != nil {
		return err
	}
	known, err := server.Conn.CheckPoliciesExist(ctx, []common.SHA256Output{common.SHA256Hash32Bytes(raw)})
	if err != nil {
		return err
	}
	if known[0] {
		fmt.Println("the policy certificate is known already")
		return nil
	}
''')], 'cmd/mapserver', help('main', '\t"flag"\n\t"path/filepath"\n\t"github.com/netsec-ethz/fpki/pkg/mapserver/config"') + '''
func TestZZDemo(t *testing.T) {
	conn := demoDB(t, "policy_known")
	pols := pol(t, "a.com")
	raw, err := pols[0].Raw()
	must(t, err)
	dir := t.TempDir()
	file := filepath.Join(dir, "policy.json")
	must(t, os.WriteFile(file, raw, 0644))
	conf := filepath.Join(dir, "conf.json")
	must(t, config.WriteConfigurationToFile(conf, &config.Config{
		CTLogServerURLs: []string{"http://127.0.0.1:1"}, CertificatePemFile: "../../tests/testdata/servercert.pem", PrivateKeyPemFile: "../../tests/testdata/serverkey.pem",
		DBConfig: db.NewConfig(mysql.WithDefaults(), mysql.WithLocalSocket(os.Getenv("DEMO_SOCK")), db.WithDB("policy_known")),
	}))
	old := flag.CommandLine
	defer func() { flag.CommandLine = old }()
	flag.CommandLine = flag.NewFlagSet("x", flag.ContinueOnError)
	must(t, flag.CommandLine.Parse([]string{conf}))
	must(t, add(t, conn, nil, pols[:1])) // as far as a run came that was killed
	must(t, insertPolicyFromFile(file))
	n, err := conn.DirtyCount(context.Background())
	must(t, err)
	if n != 0 || root(t, conn) == "" {
		t.Fatalf("%d dirty domains, root %q", n, root(t, conn))
	}
}
''', 'a run that inserts a policy certificate is killed after it was stored and before the tree is updated, and repeated', 'the repeated run finds the policy stored and does nothing: it never gets into the tree', mysql=True)

bug('i05-cancel-is-done', 'I05', [('cmd/ingest/processor.go', '''	return p.Pipeline.Wait(p.Ctx)
''', '''	err := p.Pipeline.Wait(p.Ctx)
	if p.Ctx.Err() != nil {
		// Interrupted on request, this is not a failure of the pipeline.
		return nil
	}
	return err
''')], 'cmd/ingest', '''
package main

import (
	"context"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/netsec-ethz/fpki/cmd/ingest/journal"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/statistics"
	"github.com/netsec-ethz/fpki/pkg/tests/noopdb"
	"github.com/netsec-ethz/fpki/pkg/util"
)

// interrupting is a database that notices interruptions.
type interrupting struct {
	noopdb.Conn
}

func (*interrupting) InsertCsvIntoCerts(ctx context.Context, _ string) error { return ctx.Err() }
func (*interrupting) UpdateCerts(ctx context.Context, _ []common.SHA256Output, _ []*common.SHA256Output, _ []time.Time, _ [][]byte) error {
	return ctx.Err()
}

func TestZZDemo(t *testing.T) {
	os.MkdirAll("/mnt/data/tmp", 0777)
	dir := t.TempDir()
	in := filepath.Join(dir, "https:__log.example.org")
	if err := os.MkdirAll(filepath.Join(in, "bundled"), 0755); err != nil {
		t.Fatal(err)
	}
	b, err := os.ReadFile("../../tests/testdata/2-xenon2023.csv.gz")
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(in, "bundled", "0-1.gz"), b, 0644); err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cfg := RunConfig{Directory: in, Strategy: "onlyingest", JournalFile: filepath.Join(dir, "j.json"), FileBatch: 1, MultiInsertSize: 10,
		NumFiles: 1, NumParsers: 1, NumChainToCerts: 1, NumDBWriters: 1}
	err = runIngest(ctx, cfg, RunDependencies{
		NewJournal: func(cfg RunConfig, jobCfg journal.JobConfiguration) (*journal.Journal, error) {
			return journal.NewJournal(cfg.JournalFile, jobCfg, cfg.Directory)
		},
		NewStatistics: func() *statistics.Stats { return statistics.NewStatistics(time.Hour, nil) },
		RunBatch: func(stats *statistics.Stats, files []string) error {
			cancel() // interrupted
			p, err := NewProcessor(ctx, &interrupting{}, 10, stats, WithNumFileReaders(1), WithNumToChains(1), WithNumToCerts(1), WithNumDBWriters(1))
			if err != nil {
				return err
			}
			var csvs []util.CsvFile
			for _, n := range files {
				f, err := util.LoadCsvFile(n)
				if err != nil {
					return err
				}
				csvs = append(csvs, f)
			}
			p.AddCsvFiles(csvs)
			p.Resume()
			return p.Wait()
		},
	})
	if err == nil {
		t.Fatal("an interrupted batch is recorded as completed")
	}
}
''', 'an interruption while a batch is being stored, with the strategy onlyingest (with others the next step fails)', 'the interrupted batch is recorded as completed, and its missing entries are never ingested')

bug('i05-last-batch-only', 'I05', [('cmd/ingest/run.go', '''			if jobCfg.Coalesce {
				if err := coalesce(); err != nil {
					return err
				}
			}
			if jobCfg.UpdateSMT {
				if err := updateSMT(); err != nil {
					return err
				}
			}
''', '''			if jobCfg.Coalesce && len(completed) > 0 {
				if err := coalesce(); err != nil {
					return err
				}
			}
			if jobCfg.UpdateSMT && len(completed) > 0 && ctx.Err() == nil {
				if err := updateSMT(); err != nil {
					return err
				}
			}
''')], 'cmd/ingest', '''
package main

import (
	"context"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/netsec-ethz/fpki/cmd/ingest/journal"
	"github.com/netsec-ethz/fpki/pkg/statistics"
)

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	in := filepath.Join(dir, "https:__log.example.org")
	if err := os.MkdirAll(filepath.Join(in, "bundled"), 0755); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(in, "bundled", "0-1.gz"), nil, 0644); err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	updated := false
	err := runIngest(ctx, RunConfig{Directory: in, JournalFile: filepath.Join(dir, "j.json"), FileBatch: 1, MultiInsertSize: 10,
		NumFiles: 1, NumParsers: 1, NumChainToCerts: 1, NumDBWriters: 1}, RunDependencies{
		NewJournal: func(cfg RunConfig, jobCfg journal.JobConfiguration) (*journal.Journal, error) {
			return journal.NewJournal(cfg.JournalFile, jobCfg, cfg.Directory)
		},
		NewStatistics:     func() *statistics.Stats { return statistics.NewStatistics(time.Hour, nil) },
		EstimateCertCount: func(string) (uint, error) { return 1, nil },
		RunBatch:          func(*statistics.Stats, []string) error { return nil },
		Coalesce:          func() error { cancel(); return nil },
		UpdateSMT:         func() error { updated = true; return ctx.Err() },
	})
	if err == nil && !updated {
		t.Fatal("the run ended with success although its tree update did not happen")
	}
}
''', 'an interruption between coalescing and the update of the tree of the last batch of a run', 'the batch is recorded as completed and the run ends with success, but the tree is not updated, and a later run has nothing to do')

K = '''
package mysql_test

import (
	"context"
	"database/sql"
	"os"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
)

func connection(t *testing.T, c *db.Configuration) *sql.DB {
	conn, err := mysql.Connect(c)
	if err != nil {
		t.Fatal(err)
	}
	return conn.DB()
}

func demoExec(t *testing.T, d *sql.DB, q string) {
	if _, err := d.Exec(q); err != nil {
		t.Fatal(err)
	}
}
'''
bug('k01-isolation-once', 'K01', [('pkg/db/mysql/init.go', '''	db, err := connect(config)
	if err != nil {
		return nil, fmt.Errorf("with DSN: %s, cannot open DB: %w", config.Dsn, err)
	}

''', '''	// Set the isolation when connected, to report it if the server does not support it.
	isolation := config.Values["transaction_isolation"]
	delete(config.Values, "transaction_isolation")
	db, err := connect(config)
	if err != nil {
		return nil, fmt.Errorf("with DSN: %s, cannot open DB: %w", config.Dsn, err)
	}
	if isolation != "" {
		config.Values["transaction_isolation"] = isolation
		if _, err := db.Exec("SET SESSION transaction_isolation = " + isolation); err != nil {
			return nil, fmt.Errorf("setting the isolation: %w", err)
		}
	}

''')], 'pkg/db/mysql', K + '''
func TestZZDemo(t *testing.T) {
	d := connection(t, db.NewConfig(mysql.WithDefaults(), mysql.WithLocalSocket(os.Getenv("DEMO_SOCK")), db.WithDB("mysql")))
	defer d.Close()
	for i := 0; i < 3; i++ {
		c, err := d.Conn(context.Background())
		if err != nil {
			t.Fatal(err)
		}
		defer c.Close()
		var iso string
		if err := c.QueryRowContext(context.Background(), "SELECT @@session.transaction_isolation").Scan(&iso); err != nil || iso != "READ-UNCOMMITTED" {
			t.Fatal(i, iso, err)
		}
	}
}
''', 'more than one connection of the pool in use', 'only the first connection of the pool has the configured isolation', mysql=True)

bug('k01-defaults-keep', 'K01', [('pkg/db/mysql/conf.go', '''		for k, v := range defaults {
			c.Values[k] = v
		}
''', '''		for k, v := range defaults {
			// Keep what is already set, the defaults can come last.
			if c.Values[k] == "" {
				c.Values[k] = v
			}
		}
''')], 'pkg/db/mysql', K.replace('\t"context"\n', '') + '''
func TestZZDemo(t *testing.T) {
	d := connection(t, db.NewConfig(mysql.WithDefaults(), mysql.WithLocalSocket(os.Getenv("DEMO_SOCK")), db.WithDB("mysql")))
	defer d.Close()
	demoExec(t, d, "CREATE USER 'other'@'%'")
	var user string
	f := connection(t, db.NewConfig(mysql.WithDefaults(), mysql.WithUser("other"), mysql.WithDefaults(), mysql.WithLocalSocket(os.Getenv("DEMO_SOCK")), db.WithDB("mysql")))
	defer f.Close()
	if err := f.QueryRow("SELECT CURRENT_USER()").Scan(&user); err != nil || user != "root@localhost" {
		t.Fatal(user, err)
	}
}
''', 'a modifier that sets a user, host or session value, followed by the defaults', 'the defaults do not replace what was set before: the connection is made as the earlier user', mysql=True)

if __name__ == '__main__':
    main()
