#!/usr/bin/env python3
"""Bugs in the map server (see plant.py)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import bug, main

HELP = '''
package %(pkg)s

import (
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"testing"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/pkg/tests/random"
	"github.com/netsec-ethz/fpki/tools"
	"github.com/netsec-ethz/fpki/pkg/util"
%(imp)s
)

var _ = sha256.Sum256
var _ = time.Now
var _ = util.UnfoldCerts
var _ = strings.Repeat

func demoDB(t *testing.T, name string) db.Conn {
	cmd := exec.Command("bash")
	cmd.Stdin = strings.NewReader(tools.CreateSchemaScript() + "\\ncreate_new_db " + name + "\\n")
	if out, err := cmd.CombinedOutput(); err != nil {
		t.Fatalf("no database: %%s %%s", err, out)
	}
	conn, err := mysql.Connect(db.NewConfig(mysql.WithDefaults(), mysql.WithLocalSocket(os.Getenv("DEMO_SOCK")), db.WithDB(name)))
	if err != nil {
		t.Fatal(err)
	}
	return conn
}

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func add(t *testing.T, conn db.Conn, certs []ctx509.Certificate, pols []common.PolicyDocument) error {
	chains := make([][]*ctx509.Certificate, len(certs))
	certs, ids, parents, names := util.UnfoldCerts(certs, chains)
	return updater.UpdateWithKeepExisting(context.Background(), conn, names, ids, parents, certs, util.ExtractExpirations(certs), pols)
}

func cycle(conn db.Conn) error {
	ctx := context.Background()
	if err := updater.CoalescePayloadsForDirtyDomains(ctx, conn); err != nil {
		return err
	}
	if err := updater.UpdateSMT(ctx, conn); err != nil {
		return err
	}
	return conn.CleanupDirty(ctx)
}

func root(t *testing.T, conn db.Conn) string {
	r, err := conn.LoadRoot(context.Background())
	must(t, err)
	if r == nil {
		return ""
	}
	return fmt.Sprintf("%%x", *r)
}

func id(name string) common.SHA256Output { return common.SHA256Hash32Bytes([]byte(name)) }

// same returns n different names whose identifiers are in the same partition.
func same(n int) []string {
	r := make([]string, 0, n)
	for i := 0; len(r) < n; i++ {
		name := fmt.Sprintf("n%%d.com", i)
		if x := id(name); x[0]>>3 == 5 {
			r = append(r, name)
		}
	}
	return r
}

func pol(t *testing.T, name string) []common.PolicyDocument { return random.BuildTestRandomPolicyHierarchy(t, name) }

var _ = random.RandomX509Cert
'''

def m(id, prop, edits, body, needs, breaks, pkg='pkg/mapserver/updater', imp=()):
    bug(id, prop, edits, pkg, HELP % dict(pkg=pkg.split('/')[-1] + '_test', imp='\n'.join(f'\t"{i}"' for i in imp)) + body, needs, breaks, mysql=True)

m('m03-policies-only', 'M03', [('pkg/mapserver/responder/responder.go', '''			de.PolicyIDsID, de.PolicyIDs, err =
				r.conn.RetrieveDomainPoliciesIDs(ctx, domainPartID)
			if err != nil {
				return nil, fmt.Errorf("error obtaining policies payload for %s: %w",
					domainPart, err)
			}
			// Concat certIDs with polIDs, in alphabetically sorted order.
			allIDs := append(common.BytesToIDs(de.CertIDs), common.BytesToIDs(de.PolicyIDs)...)
			v := common.SortIDsAndGlue(allIDs)
''', '''			de.PolicyIDsID, de.PolicyIDs, err =
				r.conn.RetrieveDomainPoliciesIDs(ctx, domainPartID)
			if err != nil {
				return nil, fmt.Errorf("error obtaining policies payload for %s: %w",
					domainPart, err)
			}
			// The certificate IDs are sorted already: sort only if there are policies.
			v := append([]byte{}, de.CertIDs...)
			if len(de.CertIDs) > 0 && len(de.PolicyIDs) > common.SHA256Size {
				v = common.SortIDsAndGlue(append(common.BytesToIDs(de.CertIDs), common.BytesToIDs(de.PolicyIDs)...))
			} else {
				v = append(v, de.PolicyIDs...)
			}
''')], '''
func TestZZDemo(t *testing.T) {
	conn := demoDB(t, "demo_m03")
	ctx := context.Background()
	for i := 0; i < 6; i++ {
		name := fmt.Sprintf("d%d.com", i)
		must(t, add(t, conn, []ctx509.Certificate{random.RandomX509Cert(t, name)}, pol(t, name)[:1]))
	}
	must(t, cycle(conn))
	r, err := responder.NewMapResponder(ctx, conn, random.RandomRSAPrivateKey(t))
	must(t, err)
	for i := 0; i < 6; i++ {
		p, err := r.GetProof(ctx, fmt.Sprintf("d%d.com", i))
		must(t, err)
		if p[0].PoI.ProofType != mapcommon.PoP || string(p[0].PoI.ProofValue) != string(p[0].DomainEntry.DomainValue[:]) {
			t.Fatalf("the entry does not hash to the proven value")
		}
	}
}
''', 'a domain with certificates and exactly one policy whose identifier does not come after those of the certificates',
  'the value of the entry in the response is not the proven one',
  pkg='pkg/mapserver/responder', imp=['github.com/netsec-ethz/fpki/pkg/mapserver/responder', ])
# the response uses the common package of the map server under another name
import plant
plant.BUGS[-1]['demo'] = plant.BUGS[-1]['demo'].replace('"github.com/netsec-ethz/fpki/pkg/mapserver/responder"', '"github.com/netsec-ethz/fpki/pkg/mapserver/responder"\n\tmapcommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"')

m('m05-emptied-domain', 'M05', [('pkg/mapserver/updater/updater.go', '''		if len(value) == 0 {
			value = trie.DefaultLeaf
		} else {''', '''		if len(value) == 0 {
			if len(entries) > 1 {
				continue // Nothing to store for this domain.
			}
			value = trie.DefaultLeaf
		} else {''')], '''
func TestZZDemo(t *testing.T) {
	conn := demoDB(t, "demo_m05")
	ctx := context.Background()
	certs := make([]ctx509.Certificate, 3)
	for i := range certs {
		certs[i] = random.RandomX509Cert(t, fmt.Sprintf("d%d.com", i))
		certs[i].NotAfter = time.Now().Add(-time.Hour)
	}
	keep := random.RandomX509Cert(t, "keep.com")
	keep.NotAfter = time.Now().Add(100 * time.Hour)
	must(t, add(t, conn, []ctx509.Certificate{keep}, nil))
	must(t, cycle(conn))
	want := root(t, conn)
	must(t, add(t, conn, certs, nil))
	must(t, cycle(conn))
	must(t, conn.PruneCerts(ctx, time.Now()))
	must(t, cycle(conn))
	if got := root(t, conn); got != want {
		t.Fatalf("removed certificates stay in the tree: root %s, expected %s", got, want)
	}
}
''', 'several domains in one bundle of which at least one is left without any certificate or policy by pruning',
  'the tree keeps the entry of a domain whose certificates were all removed')

m('m06-batch-limit', 'M06', [('pkg/db/mysql/mysql.go', 'batchSize = 1000 // deleteme remove this constant', 'batchSize = 2048 // deleteme remove this constant')], '''
func TestZZDemo(t *testing.T) {
	conn := demoDB(t, "demo_m06")
	ids := make([]common.SHA256Output, 1500)
	for i := range ids {
		ids[i] = id(fmt.Sprintf("c%d", i))
	}
	n := len(ids)
	must(t, conn.UpdateCerts(context.Background(), ids[n-10:], make([]*common.SHA256Output, 10), make([]time.Time, 10), make([][]byte, 10)))
	got, err := conn.CheckCertsExist(context.Background(), ids)
	if err != nil {
		t.Logf("FAIL %s", err)
		t.Fatal("refused")
	}
	for i := n - 10; i < n; i++ {
		if !got[i] {
			t.Fatalf("certificate %d exists but is reported as absent", i)
		}
	}
}
''', 'a list of more than 1024 certificates', 'certificates after the 1024th of a list are reported as absent')

m('m07-count-error', 'M07', [('pkg/db/mysql/dirty.go', '''			str := fmt.Sprintf("SELECT COUNT(*) FROM dirty PARTITION(p%d)", partition)
			row := c.db.QueryRowContext(ctx, str)
			if err := row.Err(); err != nil {
				errs[partition] = fmt.Errorf("querying dirty partition %d count: %w", partition, err)
				return
			}

			if err := row.Scan(&counts[partition]); err != nil {
				errs[partition] = fmt.Errorf("scanning dirty partition %d count: %w", partition, err)
			}
''', '''			str := fmt.Sprintf("SELECT COUNT(*) FROM dirty PARTITION(p%d)", partition)
			row := c.db.QueryRowContext(ctx, str)
			if err := row.Scan(&counts[partition]); err != nil && row.Err() == nil {
				errs[partition] = fmt.Errorf("scanning dirty partition %d count: %w", partition, err)
			}
''')], '''
func TestZZDemo(t *testing.T) {
	conn := demoDB(t, "demo_m07")
	must(t, add(t, conn, []ctx509.Certificate{random.RandomX509Cert(t, "a.com")}, nil))
	ctx := context.Background()
	must(t, updater.CoalescePayloadsForDirtyDomains(ctx, conn))
	_, err := conn.DB().Exec("RENAME TABLE dirty TO dirty2")
	must(t, err)
	if err := updater.UpdateSMT(ctx, conn); err == nil {
		t.Fatal("the update of the tree reports no error although it could not read the list of domains")
	}
}
''', 'the query that counts the dirty domains fails (e.g. connection lost)', 'the tree update ends without an error and without having done anything')

m('m09-grown-log', 'M09', [('pkg/mapserver/updater/updater.go', '''			int64(u.targetState.Size),
			u.targetState.STH)''', '''			int64(max(u.targetState.Size, uint64(realMaxIndex))),
			u.targetState.STH)''')], '''
type grown struct {
	certs []ctx509.Certificate
	asked int
	done  bool
}

func (g *grown) URL() string                    { return "log" }
func (g *grown) Initialize(time.Time) error     { g.done = false; return nil }
func (g *grown) StartFetching(from, to int64)   {}
func (g *grown) StopFetching()                  {}
func (g *grown) NextBatch(context.Context) bool { d := g.done; g.done = true; return !d }
func (g *grown) GetCurrentState(context.Context, logfetcher.State) (logfetcher.State, error) {
	g.asked++
	if g.asked == 1 {
		return logfetcher.State{Size: uint64(len(g.certs))}, nil
	}
	return logfetcher.State{Size: uint64(len(g.certs)) + 3}, nil
}
func (g *grown) ReturnNextBatch() ([]ctx509.Certificate, [][]*ctx509.Certificate, int, error) {
	return g.certs, make([][]*ctx509.Certificate, len(g.certs)), 0, nil
}

func TestZZDemo(t *testing.T) {
	conn := demoDB(t, "demo_m09")
	ctx := context.Background()
	f := &grown{certs: []ctx509.Certificate{random.RandomX509Cert(t, "a.com"), random.RandomX509Cert(t, "b.com")}}
	u := &updater.MapUpdater{Fetchers: []logfetcher.Fetcher{f}, Conn: conn}
	must(t, u.StartFetchingRemaining())
	for {
		more, err := u.NextBatch(ctx)
		must(t, err)
		if !more {
			break
		}
		_, err = u.UpdateNextBatch(ctx)
		must(t, err)
	}
	size, _, err := conn.LastCTlogServerState(ctx, "log")
	must(t, err)
	if size != 2 {
		t.Fatalf("2 entries were stored but the recorded position is %d", size)
	}
}
''', 'the log grows while the update fetches its entries', 'the recorded position is ahead of the stored entries: the entries that came meanwhile are never fetched',
  imp=['github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher'])

m('m02-one-chunk', 'M02', [('pkg/db/mysql/dirty.go', '''			for {
				chunkRows, err := callCalc''', '''			// The domains are distributed evenly among the partitions.
			for chunk := uint64(0); chunk <= totalDirtyCount/(NumPartitions*dirtyCoalesceChunkSize); chunk++ {
				chunkRows, err := callCalc''')], '''
func TestZZDemo(t *testing.T) {
	conn := demoDB(t, "demo_m02c")
	ctx := context.Background()
	names := same(1100)
	cert := random.RandomX509Cert(t, "a.com")
	cert.DNSNames = names
	must(t, add(t, conn, []ctx509.Certificate{cert}, nil))
	must(t, updater.CoalescePayloadsForDirtyDomains(ctx, conn))
	n := 0
	must(t, conn.DB().QueryRow("SELECT COUNT(*) FROM domain_payloads").Scan(&n))
	if n < len(names) {
		t.Fatalf("%d domains have an entry, expected %d", n, len(names))
	}
}
''', 'more than 1024 dirty domains in one partition', 'the entries of the domains after the 1024th of a partition are not computed')

m('m01-policy-subject', 'M01', [('pkg/mapserver/updater/updater.go', '''		policyIDs[to] = policyIDs[from]
		payloads[to] = payloads[from]
		policySubjects[to] = policySubjects[from]
	})
	policyIDs = policyIDs[:n]
	payloads = payloads[:n]
	policySubjects = policySubjects[:n]
''', '''		policyIDs[to] = policyIDs[from]
		payloads[to] = payloads[from]
	})
	policyIDs = policyIDs[:n]
	payloads = payloads[:n]
	policySubjects = policySubjects[len(policySubjects)-n:]
''')], '''
func TestZZDemo(t *testing.T) {
	conn := demoDB(t, "demo_m01")
	ctx := context.Background()
	a, b, c := pol(t, "a.com")[0], pol(t, "b.com")[0], pol(t, "c.com")[0]
	must(t, add(t, conn, nil, []common.PolicyDocument{b}))
	must(t, add(t, conn, nil, []common.PolicyDocument{a, b, c}))
	must(t, cycle(conn))
	for _, p := range []common.PolicyDocument{a, b, c} {
		_, ids, err := conn.RetrieveDomainPoliciesIDs(ctx, id(p.Domain()))
		must(t, err)
		if len(ids) != 32 {
			t.Fatalf("domain %s has %d policies instead of 1", p.Domain(), len(ids)/32)
		}
	}
}
''', 'a list of policies with one that exists already between two that do not', 'a new policy is linked to the domain of another one')

m('m08-duplicated-ids', 'M08', [('pkg/db/mysql/common.go', '''	payloads := make([][]byte, len(IDs))
	for i, id := range IDs {
		id := id
		payloads[i] = m[id]
	}
''', '''	payloads := make([][]byte, len(IDs))
	for i, id := range IDs {
		id := id
		payloads[i] = m[id]
		delete(m, id) // Not needed any more: allow its memory to be freed.
	}
''')], '''
func TestZZDemo(t *testing.T) {
	conn := demoDB(t, "demo_m08")
	ctx := context.Background()
	cert := random.RandomX509Cert(t, "a.com")
	must(t, add(t, conn, []ctx509.Certificate{cert}, nil))
	x := common.SHA256Hash32Bytes(cert.Raw)
	got, err := conn.RetrieveCertificateOrPolicyPayloads(ctx, []common.SHA256Output{x, id("b"), x})
	must(t, err)
	if string(got[0]) != string(cert.Raw) || string(got[2]) != string(cert.Raw) {
		t.Fatal("wrong payloads")
	}
}
''', 'a request for payloads that has the same identifier twice', 'the payload is missing at the second place')

if __name__ == '__main__':
    main()
