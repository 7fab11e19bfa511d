package mdb

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"sync"
	"time"

	driverpkg "github.com/go-sql-driver/mysql"

	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// fault is what happens to one statement sent to the database.
type fault struct {
	Kind string // before: it has no effect; after: it has its effect, but an error is reported; rows: reading the result fails;
	// inside: writing a row fails; badconn: the connection broke before; wait: it waits for the release
	At     int  // which statement
	Writes bool // only statements that write count
	Row    int  // which row
	Stays  bool // all later statements fail too: the process ended there, as far as the database can tell
}

func (f fault) String() string {
	s := fmt.Sprintf("%s at statement %d", f.Kind, f.At)
	if f.Writes {
		s = fmt.Sprintf("%s at the writing statement %d", f.Kind, f.At)
	}
	if f.Kind == "rows" || f.Kind == "inside" {
		s += fmt.Sprintf(" row %d", f.Row)
	}
	if f.Stays {
		s += " and all later ones"
	}
	return s
}

var errFault = errors.New("verif: injected fault")

// faulty is a connection to the database with faults.
type faulty struct {
	db.Conn
	mu       sync.Mutex
	armed    bool
	f        fault
	n        int
	fired    bool
	where    string
	inflight int
	reached  chan struct{}
	release  chan struct{}
}

func (d *DB) faulty() *faulty {
	cfg, err := driverpkg.ParseDSN(fmt.Sprintf("root@unix(%s)/%s?interpolateParams=true&collation=binary&maxAllowedPacket=1073741824&parseTime=true&transaction_isolation='READ-UNCOMMITTED'&autocommit=true",
		os.Getenv("VERIF_MYSQL_SOCK"), d.Name))
	if err != nil {
		vlib.Infra("%v", err)
	}
	c, err := driverpkg.NewConnector(cfg)
	if err != nil {
		vlib.Infra("%v", err)
	}
	f := &faulty{}
	pool := sql.OpenDB(&connector{c, f})
	pool.SetMaxOpenConns(64)
	pool.SetMaxIdleConns(64)
	if f.Conn, err = mysql.NewMysqlDB(pool); err != nil {
		vlib.Infra("%v", err)
	}
	return f
}

func (f *faulty) arm(x fault) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.armed, f.f, f.n, f.fired, f.where = true, x, 0, false, ""
	f.reached, f.release = make(chan struct{}), make(chan struct{})
}

// disarm waits for the statements that are still being executed, and tells whether the fault happened.
func (f *faulty) disarm() (bool, string) {
	for calm := 0; calm < 3; {
		f.mu.Lock()
		if calm++; f.inflight > 0 {
			calm = 0
		}
		f.mu.Unlock()
		if calm < 3 {
			time.Sleep(time.Millisecond)
		}
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	f.armed = false
	return f.fired, f.where
}

// begin tells what to do with the next statement.
func (f *faulty) begin(q string) (kind string) {
	if kind = f.next(q); kind == "wait" {
		close(f.reached)
		<-f.release
		return ""
	}
	return kind
}

func (f *faulty) next(q string) (kind string) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.inflight++
	if !f.armed {
		return ""
	}
	if f.fired && f.f.Stays {
		return "before"
	}
	if q = strings.TrimSpace(q); f.f.Writes && strings.HasPrefix(strings.ToUpper(q), "SELECT") {
		return ""
	}
	f.n++
	if f.n != f.f.At {
		return ""
	}
	f.where = strings.Join(strings.Fields(q[:min(len(q), 200)]), " ")
	if f.f.Kind == "before" || f.f.Kind == "after" || f.f.Kind == "badconn" || f.f.Kind == "wait" {
		f.fired = true
	}
	return f.f.Kind
}

func (f *faulty) end() {
	f.mu.Lock()
	f.inflight--
	f.mu.Unlock()
}

func (f *faulty) fire() {
	f.mu.Lock()
	f.fired = true
	f.mu.Unlock()
}

type connector struct {
	driver.Connector
	f *faulty
}

func (c *connector) Connect(ctx context.Context) (driver.Conn, error) {
	x, err := c.Connector.Connect(ctx)
	if err != nil {
		return nil, err
	}
	return &conn{x.(fullConn), c.f}, nil
}

type fullConn interface {
	driver.Conn
	driver.ConnPrepareContext
	driver.ConnBeginTx
	driver.ExecerContext
	driver.QueryerContext
	driver.Pinger
	driver.SessionResetter
	driver.Validator
	driver.NamedValueChecker
}

type conn struct {
	fullConn
	f *faulty
}

func (c *conn) set(ctx context.Context, q string) {
	if _, err := c.fullConn.ExecContext(ctx, q, nil); err != nil {
		vlib.Infra("%s: %v", q, err)
	}
}

// inside has the statement fail when it writes the nth row, and tells whether that happened.
func (c *conn) inside(ctx context.Context, run func() error) error {
	c.set(ctx, fmt.Sprintf("SET @verif_row=%d", c.f.f.Row))
	err := run()
	r, e := c.fullConn.QueryContext(ctx, "SELECT @verif_row<=0", nil)
	if e != nil {
		vlib.Infra("%v", e)
	}
	v := make([]driver.Value, 1)
	if e := r.Next(v); e != nil {
		vlib.Infra("%v", e)
	}
	r.Close()
	c.set(ctx, "SET @verif_row=NULL")
	if fmt.Sprintf("%v", v[0]) == "1" || fmt.Sprintf("%s", v[0]) == "1" {
		c.f.fire()
	}
	return err
}

func (c *conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (r driver.Result, err error) {
	defer c.f.end()
	switch c.f.begin(q) {
	case "before":
		return nil, errFault
	case "badconn":
		return nil, driver.ErrBadConn
	case "after":
		if r, err = c.fullConn.ExecContext(ctx, q, args); err == nil {
			err = errFault
		}
		return nil, err
	case "inside":
		err = c.inside(ctx, func() (err error) {
			r, err = c.fullConn.ExecContext(ctx, q, args)
			return
		})
		return
	}
	return c.fullConn.ExecContext(ctx, q, args)
}

func (c *conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	kind := c.f.begin(q)
	switch kind {
	case "before":
		c.f.end()
		return nil, errFault
	case "badconn":
		c.f.end()
		return nil, driver.ErrBadConn
	}
	r, err := c.fullConn.QueryContext(ctx, q, args)
	if err != nil {
		c.f.end()
		return nil, err
	}
	if kind == "after" {
		r.Close()
		c.f.end()
		return nil, errFault
	}
	return &rows{r, c.f, kind == "rows", 0, false}, nil
}

func (c *conn) PrepareContext(ctx context.Context, q string) (driver.Stmt, error) {
	defer c.f.end()
	switch c.f.begin(q) {
	case "before", "after":
		return nil, errFault
	case "badconn":
		return nil, driver.ErrBadConn
	}
	return c.fullConn.PrepareContext(ctx, q)
}

func (c *conn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	defer c.f.end()
	switch c.f.begin("BEGIN") {
	case "before", "after":
		return nil, errFault
	case "badconn":
		return nil, driver.ErrBadConn
	}
	t, err := c.fullConn.BeginTx(ctx, o)
	if err != nil {
		return nil, err
	}
	return &tx{t, c.f}, nil
}

type tx struct {
	driver.Tx
	f *faulty
}

func (t *tx) Commit() error {
	defer t.f.end()
	switch t.f.begin("COMMIT") {
	case "before":
		t.Tx.Rollback()
		return errFault
	case "after":
		t.Tx.Commit()
		return errFault
	}
	return t.Tx.Commit()
}

type rows struct {
	driver.Rows
	f      *faulty
	fail   bool
	n      int
	closed bool
}

func (r *rows) Next(v []driver.Value) error {
	if r.n++; r.fail && r.n >= r.f.f.Row {
		r.f.fire()
		return errFault
	}
	err := r.Rows.Next(v)
	if err != nil && err != io.EOF {
		return err
	}
	return err
}

func (r *rows) Close() error {
	if !r.closed {
		r.closed = true
		r.f.end()
	}
	return r.Rows.Close()
}

// failingRows prepares the tables so that writing a row can fail in any statement, also inside the stored
// procedures.
func (d *DB) failingRows() {
	for _, t := range tables {
		for _, ev := range []string{"INSERT", "UPDATE", "DELETE"} {
			q := fmt.Sprintf("CREATE TRIGGER verif_%s_%s AFTER %s ON %s FOR EACH ROW BEGIN IF @verif_row IS NOT NULL THEN SET @verif_row=@verif_row-1; "+
				"IF @verif_row=0 THEN SIGNAL SQLSTATE '45000' SET MESSAGE_TEXT='verif: injected fault'; END IF; END IF; END", t, strings.ToLower(ev), ev, t)
			if _, err := d.DB().Exec(q); err != nil {
				vlib.Infra("%s: %v", q, err)
			}
		}
	}
}
