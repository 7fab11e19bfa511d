// Package mdb checks the map server's database, update cycle and answers against a reference model, on a
// private MySQL server.
package mdb

import (
	"context"
	"database/sql"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/tools"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

var ctx = context.Background()

type ctxT = context.Context

// DB is a database with the schema of the map server.
type DB struct {
	db.Conn
	Name string
}

func config(name string) *db.Configuration {
	sock := os.Getenv("VERIF_MYSQL_SOCK")
	if sock == "" {
		vlib.Infra("no MySQL server")
	}
	return db.NewConfig(mysql.WithDefaults(), mysql.WithLocalSocket(sock), db.WithDB(name))
}

// Open creates a new database.
func Open(tag string) *DB {
	name := fmt.Sprintf("v%s_%d_%d", tag, os.Getpid(), time.Now().UnixNano()%1000000)
	for i := 0; ; i++ {
		cmd := exec.Command("bash", "-c", tools.CreateSchemaScript()+"\ncreate_new_db "+name+"\n")
		out, err := cmd.CombinedOutput()
		if err == nil {
			break
		}
		if i == 3 {
			vlib.Infra("creating the database %s: %v\n%s", name, err, out)
		}
		time.Sleep(time.Second)
	}
	return &DB{Conn: connect(name), Name: name}
}

func connect(name string) db.Conn {
	conn, err := mysql.Connect(config(name))
	if err != nil {
		vlib.Infra("connecting to the database: %v", err)
	}
	if err := conn.DB().Ping(); err != nil {
		vlib.Infra("connecting to the database: %v", err)
	}
	return conn
}

// collision tells that the server could not be made because of others that use the same MySQL server: it alters
// the instance, which MySQL may refuse.
func collision(e string) bool {
	return strings.Contains(e, "creating new map updater: Error 1213") && strings.Contains(e, "try restarting transaction")
}

// Drop removes the database.
func (d *DB) Drop() {
	d.DB().Exec("DROP DATABASE IF EXISTS " + d.Name)
	d.Close()
}

var tables = []string{"tree", "root", "domains", "certs", "domain_certs", "policies", "domain_policies", "domain_payloads", "dirty",
	"ctlog_server_last_status"}

// Reset empties all tables.
func (d *DB) Reset() {
	for _, t := range tables {
		if _, err := d.DB().Exec("DELETE FROM " + t); err != nil {
			vlib.Infra("emptying table %s: %v", t, err)
		}
	}
}

// rows runs a query of the harness itself.
func (d *DB) rows(q string, f func(r *sql.Rows) error, args ...any) {
	r, err := d.DB().Query(q, args...)
	if err != nil {
		vlib.Infra("%s: %v", q, err)
	}
	defer r.Close()
	for r.Next() {
		if err := f(r); err != nil {
			vlib.Infra("%s: %v", q, err)
		}
	}
	if r.Err() != nil {
		vlib.Infra("%s: %v", q, r.Err())
	}
}

// quiet discards what the code under test prints on the standard output.
func quiet() func() {
	old := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		vlib.Infra("%v", err)
	}
	os.Stdout = w
	done := make(chan struct{})
	go func() { io.Copy(io.Discard, r); close(done) }()
	return func() { os.Stdout = old; w.Close(); <-done; r.Close() }
}

type ID = common.SHA256Output

func hash(b []byte) ID { return common.SHA256Hash32Bytes(b) }
