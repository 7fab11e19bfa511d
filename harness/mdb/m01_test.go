package mdb

import (
	"context"
	"fmt"
	"strings"
	"testing"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/pkg/statistics"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/zzverif/certs"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// oneBatch is a log fetcher that gives its items in one batch.
type oneBatch struct {
	url   string
	items []*item
	done  bool
}

func (f *oneBatch) Initialize(time.Time) error { f.done = false; return nil }
func (f *oneBatch) URL() string                { return f.url }
func (f *oneBatch) GetCurrentState(context.Context, logfetcher.State) (logfetcher.State, error) {
	return logfetcher.State{Size: uint64(len(f.items)), STH: []byte("sth")}, nil
}
func (f *oneBatch) StartFetching(int64, int64)     {}
func (f *oneBatch) StopFetching()                  {}
func (f *oneBatch) NextBatch(context.Context) bool { return !f.done }
func (f *oneBatch) ReturnNextBatch() ([]ctx509.Certificate, [][]*ctx509.Certificate, int, error) {
	f.done = true
	l, c := split(f.items)
	return l, c, 0, nil
}

// expiry is the expiration of a certificate as the generator wrote it (in any time zone).
func expiry(items []*item) map[ID]time.Time {
	m := map[ID]time.Time{}
	for _, it := range items {
		for _, c := range it.all() {
			m[c.ID] = c.NotAfter
		}
	}
	return m
}

var ways = []string{"keep", "keep", "overwrite", "manager", "local", "fetch"}

// insert brings the items and policies into the database in one of the ways there are.
func insert(t *rapid.T, way string, conn db.Conn, items []*item, pols []*polDoc) (err error) {
	defer quiet()()
	switch way {
	case "keep", "overwrite":
		leaves, chains := split(items)
		cs, ids, parents, names := util.UnfoldCerts(leaves, chains)
		exps := util.ExtractExpirations(cs)
		zone := expiry(items)
		for i := range exps {
			exps[i] = zone[ids[i]]
		}
		f := updater.UpdateWithKeepExisting
		if way == "overwrite" {
			f = updater.UpdateWithOverwrite
		}
		return f(ctx, conn, names, ids, parents, cs, exps, docs(pols))
	case "local":
		var ls [][]byte
		var cs [][][]byte
		for _, it := range items {
			ls = append(ls, it.leaf.DER)
			var ch [][]byte
			for _, c := range it.chain {
				ch = append(ch, c.DER)
			}
			cs = append(cs, ch)
		}
		return (&updater.MapUpdater{Conn: conn}).UpdateCertsLocally(ctx, ls, cs)
	case "fetch":
		u := &updater.MapUpdater{Conn: conn, Fetchers: []logfetcher.Fetcher{&oneBatch{url: fmt.Sprint("u", rapid.Int64().Draw(t, "url")), items: items}}}
		if err := u.StartFetchingRemaining(); err != nil {
			return err
		}
		for {
			more, err := u.NextBatch(ctx)
			if err != nil || !more {
				return err
			}
			if n, err := u.UpdateNextBatch(ctx); err != nil {
				return err
			} else if n != len(items) {
				return fmt.Errorf("a batch of %d certificates was reported with %d", len(items), n)
			}
		}
	case "manager":
		workers := rapid.SampledFrom([]int{1, 2, 3, 4}).Draw(t, "workers")
		multi := rapid.SampledFrom([]int{1, 2, 3, 100}).Draw(t, "rows at once")
		m, err := updater.NewManager(workers, conn, multi, statistics.NewStatistics(time.Hour, nil))
		if err != nil {
			return err
		}
		zone := expiry(items)
		parts := rapid.IntRange(1, 2).Draw(t, "parts")
		for p := 0; p < parts; p++ {
			m.Resume(ctx)
			in := m.IncomingCertChan
			go func() { // the pipeline stops taking certificates when it fails
				for _, it := range items[p*len(items)/parts : (p+1)*len(items)/parts] {
					d := &updater.CertWithChainData{CertID: it.leaf.ID, Cert: it.leaf.Parsed}
					for _, c := range it.chain {
						id := c.ID
						d.ChainIDs = append(d.ChainIDs, (*common.SHA256Output)(&id))
						d.ChainPayloads = append(d.ChainPayloads, c.Parsed)
					}
					for _, c := range updater.CertificatesFromChains(d) {
						c.NotAfter = zone[c.CertID]
						in <- c
					}
				}
				close(in)
			}()
			err := m.Wait(ctx)
			go func() {
				for range in {
				}
			}()
			if err != nil {
				return err
			}
		}
		return nil
	}
	panic(way)
}

// TestM01Insert: any sequence of insertions, in all ways, leads to exactly the material given.
func TestM01Insert(t *testing.T) {
	rec := vlib.New(t, "M01", "at least two insertions, of which a later one has a certificate of an earlier one and a new one")
	d := Open("m01")
	defer d.Drop()
	vlib.Check(t, rec, func(rt *rapid.T) {
		d.Reset()
		varied := rapid.Bool().Draw(rt, "varied issuers")
		w := genWorld(rt, worldOpts{varied: varied, loops: varied && rapid.Bool().Draw(rt, "loops"), policies: true, zones: true, maxItems: 8,
			expiries: []time.Time{farFuture, time.Date(2030, 2, 28, 23, 30, 0, 0, time.UTC), time.Date(2049, 12, 31, 23, 59, 59, 0, time.UTC),
				time.Date(2050, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC)}})
		m := newModel()
		var steps []string
		steps = append(steps, fmt.Sprintf("names %q", w.names))
		overlap, second := false, false
		managed := false
		for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "steps"); i < n; i++ {
			way := rapid.SampledFrom(ways).Draw(rt, "way")
			k := rapid.IntRange(1, len(w.items)).Draw(rt, "items")
			items := append([]*item{}, rapid.Permutation(w.items).Draw(rt, "which")[:k]...)
			if rapid.IntRange(0, 3).Draw(rt, "twice") == 0 {
				items = append(items, items[rapid.IntRange(0, k-1).Draw(rt, "which one")])
			}
			var pols []*polDoc
			if (way == "keep" || way == "overwrite") && len(w.pols) > 0 {
				for j, k := 0, rapid.IntRange(0, len(w.pols)).Draw(rt, "policies"); j < k; j++ {
					pols = append(pols, rapid.SampledFrom(w.pols).Draw(rt, "policy"))
				}
			}
			if i > 0 && rapid.IntRange(0, 2).Draw(rt, "cleanup") == 0 {
				if err := d.CleanupDirty(ctx); err != nil {
					rt.Fatalf("CleanupDirty: %v", err)
				}
				m.cleaned()
				steps = append(steps, "cleanup")
			}
			managed = managed || way == "manager"
			var s []string
			old, new := false, false
			for _, it := range items {
				for _, c := range it.all() {
					old = old || m.certs[c.ID] != nil
					new = new || m.certs[c.ID] == nil
				}
				s = append(s, it.String())
			}
			overlap = overlap || i > 0 && old && new
			for _, p := range pols {
				s = append(s, string(p.raw))
			}
			steps = append(steps, way+": "+strings.Join(s, "; "))
			if err := insert(rt, way, d, items, pols); err != nil {
				rt.Fatalf("inserting failed: %v\n%s", err, strings.Join(steps, "\n"))
			}
			m.add(items, pols)
			second = i > 0
			var many func(string) bool
			if managed {
				many = func(e string) bool { return rec.Known("one-link-per-name", e) }
			}
			if e := m.compareMaterial(d.snap(), many); e != "" {
				rt.Fatalf("after inserting: %s\n%s", e, strings.Join(steps, "\n"))
			}
			// The material can be asked for.
			var ids []ID
			var want []*certs.Cert
			for id, c := range m.certs {
				ids, want = append(ids, id), append(want, c)
			}
			got, err := d.RetrieveCertificatePayloads(ctx, ids)
			if err != nil {
				rt.Fatalf("asking for the certificates: %v", err)
			}
			for i, c := range want {
				if string(got[i]) != string(c.DER) {
					rt.Fatalf("asking for certificate %s gives other bytes\n%s", label(c), strings.Join(steps, "\n"))
				}
			}
		}
		rec.Case(strings.Join(steps, "\n"), second && overlap, func() any { return steps }, classOf(varied, managed, len(w.pols) > 0)...)
	})
}

func classOf(varied, managed, pols bool) (out []string) {
	if varied {
		out = append(out, "varied issuers")
	}
	if managed {
		out = append(out, "manager")
	}
	if pols {
		out = append(out, "policies")
	}
	return
}
