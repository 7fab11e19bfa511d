package mdb

import (
	"database/sql"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	mapconfig "github.com/netsec-ethz/fpki/pkg/mapserver/config"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// The keys of a configuration in files, and the variables of the environment.
var connKeys = []string{"MYSQL_USER", "MYSQL_PASSWORD", "MYSQL_HOST", "MYSQL_PORT"}

func sqlString(s string) string {
	return "'" + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(s) + "'"
}

// TestK01Connect: connections of generated configurations reach what they name, or fail.
func TestK01Connect(t *testing.T) {
	rec := vlib.New(t, "K01", "the connection is made, as another user than the default one, with a password or with a name or path that needs care")
	d := Open("k01")
	defer d.Drop()
	var port string
	if err := d.DB().QueryRow("SELECT @@port").Scan(&port); err != nil {
		vlib.Infra("%v", err)
	}
	do := func(q string) {
		if _, err := d.DB().Exec(q); err != nil {
			vlib.Infra("%s: %v", q, err)
		}
	}
	for _, k := range connKeys {
		if v, ok := os.LookupEnv(k); ok {
			os.Unsetenv(k)
			defer os.Setenv(k, v)
		}
	}
	sock := os.Getenv("VERIF_MYSQL_SOCK")
	dir, err := os.MkdirTemp("/dev/shm", "verif-k01") // the paths of sockets have to be short
	if err != nil {
		vlib.Infra("%v", err)
	}
	defer os.RemoveAll(dir)
	tag := fmt.Sprintf("%d", os.Getpid()%100000)
	pieces := []string{"fpki", "a", "Z", "7", "_", "-", ".", "_map", "%", "%41", "#", "?", "&", "=", "+", " ", "@", "/", "(", ")", "'", "é", "$", ",", ";", "\\", "\""}
	word := func(rt *rapid.T, what string, min, max int, but string) string {
		s := ""
		for i, n := 0, rapid.IntRange(min, max).Draw(rt, what+" length"); i < n; i++ {
			p := rapid.SampledFrom(pieces).Draw(rt, what)
			if !strings.ContainsAny(p, but) {
				s += p
			}
		}
		return s
	}
	type account struct{ user, password string }
	n := 0
	vlib.Check(t, rec, func(rt *rapid.T) {
		n++
		var steps []string
		// Accounts, databases, and paths of the socket.
		var accounts []account
		for i, k := 0, rapid.IntRange(1, 2).Draw(rt, "accounts"); i < k; i++ {
			a := account{user: strings.TrimLeft(word(rt, "user", 0, 3, "é"), " ") + fmt.Sprintf("%s%d", tag, i), password: word(rt, "password", 0, 6, "")}
			if rapid.IntRange(0, 3).Draw(rt, "colon") == 0 {
				a.password += ":x"
			}
			accounts = append(accounts, a)
			who := sqlString(a.user) + "@'%'"
			do("CREATE USER " + who + " IDENTIFIED BY " + sqlString(a.password))
			defer do("DROP USER " + who)
			do("GRANT ALL ON *.* TO " + who)
			steps = append(steps, fmt.Sprintf("user %q with password %q", a.user, a.password))
		}
		empty := word(rt, "database", 0, 3, "/\\. 'é") + "_k01_" + tag
		do("CREATE DATABASE `" + empty + "`")
		defer do("DROP DATABASE `" + empty + "`")
		link := filepath.Join(dir, fmt.Sprint(n)+word(rt, "socket", 0, 3, "/@"))
		if err := os.Symlink(sock, link); err != nil {
			vlib.Infra("%v", err)
		}
		defer os.Remove(link)

		// The modifiers of the configuration, and what it is after them.
		type state struct {
			user, password, host, port, name, socket string
			hasSocket                                bool
			values                                   map[string]string
		}
		want := state{name: "fpki", values: map[string]string{}}
		var mods []db.ConfigurationModFunction
		isolation := map[string]string{"'READ-UNCOMMITTED'": "READ-UNCOMMITTED", "'SERIALIZABLE'": "SERIALIZABLE", "'REPEATABLE-READ'": "REPEATABLE-READ"}
		add := func(kind string) {
			switch kind {
			case "defaults":
				mods = append(mods, mysql.WithDefaults())
				want.user, want.password, want.host, want.port = "root", "", "127.0.0.1", ""
				want.values["transaction_isolation"] = "'READ-UNCOMMITTED'"
				steps = append(steps, "defaults")
			case "environment":
				set := map[string]string{}
				a := rapid.SampledFrom(accounts).Draw(rt, "account")
				for _, k := range connKeys {
					if rapid.IntRange(0, 5).Draw(rt, "set") == 0 {
						continue
					}
					switch k {
					case "MYSQL_USER":
						set[k] = a.user
					case "MYSQL_PASSWORD":
						set[k] = a.password
						if rapid.IntRange(0, 9).Draw(rt, "wrong") == 0 {
							set[k] += "x"
						}
					case "MYSQL_HOST":
						set[k] = rapid.SampledFrom([]string{"127.0.0.1", "127.0.0.1", "127.0.0.2"}).Draw(rt, "host")
					case "MYSQL_PORT":
						set[k] = port
					}
				}
				mods = append(mods, func(c *db.Configuration) *db.Configuration {
					for _, k := range connKeys {
						if v, ok := set[k]; ok {
							os.Setenv(k, v)
							defer os.Unsetenv(k)
						}
					}
					return mysql.WithEnvironment()(c)
				})
				get := func(k, def string) string {
					if v, ok := set[k]; ok {
						return v
					}
					return def
				}
				want.user, want.password = get("MYSQL_USER", "root"), get("MYSQL_PASSWORD", "")
				want.host, want.port = get("MYSQL_HOST", "127.0.0.1"), get("MYSQL_PORT", "")
				steps = append(steps, fmt.Sprintf("environment %q", set))
			case "user":
				u := rapid.SampledFrom(accounts).Draw(rt, "account").user
				mods = append(mods, mysql.WithUser(u))
				want.user = u
				steps = append(steps, fmt.Sprintf("user %q", u))
			case "database":
				nm := rapid.SampledFrom([]string{d.Name, d.Name, empty, "verif_none"}).Draw(rt, "database")
				mods = append(mods, db.WithDB(nm))
				want.name = nm
				steps = append(steps, fmt.Sprintf("database %q", nm))
			case "socket":
				p := rapid.SampledFrom([]string{sock, link, link, dir + "/none"}).Draw(rt, "socket")
				mods = append(mods, mysql.WithLocalSocket(p))
				want.socket, want.hasSocket = p, true
				steps = append(steps, fmt.Sprintf("socket %q", p))
			case "isolation":
				v := rapid.SampledFrom([]string{"'SERIALIZABLE'", "'REPEATABLE-READ'"}).Draw(rt, "isolation")
				mods = append(mods, func(c *db.Configuration) *db.Configuration { c.Values["transaction_isolation"] = v; return c })
				want.values["transaction_isolation"] = v
				steps = append(steps, "isolation "+v)
			}
		}
		add("defaults")
		kinds := []string{"environment", "environment", "user", "database", "socket", "isolation", "database"}
		for i, k := 0, rapid.IntRange(0, 3).Draw(rt, "modifiers"); i < k; i++ {
			add(rapid.SampledFrom(append([]string{"defaults"}, kinds...)).Draw(rt, "modifier"))
		}
		add(rapid.SampledFrom([]string{"environment", "environment", "environment", "user", "isolation"}).Draw(rt, "modifier"))
		add("database")
		if !want.hasSocket && want.port == "" { // whatever listens on the default port
			add("socket")
		}
		check := rapid.IntRange(0, 2).Draw(rt, "check schema") == 0
		c := db.NewConfig(mods...)
		c.CheckSchema = check
		if check {
			steps = append(steps, "check the schema")
		}
		bad := func(f string, a ...any) { rt.Fatalf("%s\n%s", fmt.Sprintf(f, a...), strings.Join(steps, "\n")) }
		if rapid.Bool().Draw(rt, "file") {
			steps = append(steps, "written to a file and read")
			file := filepath.Join(dir, "config")
			if err := mapconfig.WriteConfigurationToFile(file, &mapconfig.Config{DBConfig: c}); err != nil {
				bad("writing the configuration: %v", err)
			}
			r, err := mapconfig.ReadConfigFromFile(file)
			if err != nil {
				bad("reading the configuration: %v", err)
			}
			c = r.DBConfig
		}
		// What must come out.
		known := want.user == "root" && want.password == ""
		for _, a := range accounts {
			known = known || a == account{want.user, want.password}
		}
		why := ""
		switch {
		case want.hasSocket && want.socket == dir+"/none":
			why = "there is no such socket"
		case !want.hasSocket && want.host != "127.0.0.1":
			why = "nothing listens there"
		case !known:
			why = "the user or password is wrong"
		case want.name != d.Name && want.name != empty:
			why = "there is no such database"
		case check && want.name == empty:
			why = "the database has no schema"
		}
		steps = append(steps, fmt.Sprintf("expected: %+v %s", want, why))
		for i := 0; i < 2; i++ { // the configuration can be used again
			var conn db.Conn
			var err error
			if msg := vlib.NoPanic(func() {
				if k, e := mysql.Connect(c); e != nil {
					err = e
				} else {
					conn = k
					err = conn.DB().Ping()
				}
			}); msg != "" {
				bad("connecting: %s", msg)
			}
			if conn != nil {
				defer conn.Close()
			}
			if why != "" {
				if err == nil {
					bad("connection %d is made although %s", i, why)
				}
				continue
			}
			if err != nil {
				bad("connection %d: %v", i, err)
			}
			// As several connections of the pool see it.
			var hold []*sql.Conn
			for j := 0; j < 3; j++ {
				k, err := conn.DB().Conn(ctx)
				if err != nil {
					bad("connection %d.%d: %v", i, j, err)
				}
				hold = append(hold, k)
				var user, name, iso, coll, host string
				var auto int
				var at time.Time
				if err := k.QueryRowContext(ctx, "SELECT CURRENT_USER(), DATABASE(), @@session.transaction_isolation, @@session.autocommit, @@session.collation_connection, CAST('2020-01-02 03:04:05' AS DATETIME), "+
					"(SELECT HOST FROM information_schema.processlist WHERE ID = CONNECTION_ID())").Scan(&user, &name, &iso, &auto, &coll, &at, &host); err != nil {
					bad("connection %d.%d: %v", i, j, err)
				}
				user = user[:strings.LastIndex(user, "@")]
				if user != want.user || name != want.name || iso != isolation[want.values["transaction_isolation"]] || auto != 1 || coll != "binary" ||
					!at.Equal(time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)) {
					bad("connection %d.%d is of %q to %q with isolation %s, autocommit %d, collation %s, time %v", i, j, user, name, iso, auto, coll, at)
				}
				if _, _, err := net.SplitHostPort(host); (err == nil) == want.hasSocket {
					bad("connection %d.%d comes from %q", i, j, host)
				}
			}
			for _, k := range hold {
				k.Close()
			}
			if c.DBName != want.name {
				bad("the configuration has the name %q after connecting", c.DBName)
			}
		}
		cl := []string{"TCP"}
		if want.hasSocket {
			cl[0] = "socket"
		}
		if why != "" {
			cl = append(cl, why)
		}
		rec.Case(strings.Join(steps, "\n"), why == "" && want.user != "root", func() any { return steps }, cl...)
	})
}
