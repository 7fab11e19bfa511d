package mdb

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// bulkLen draws the length of a request: often around the limits of the batches.
func bulkLen(t *rapid.T, large int) int {
	switch rapid.IntRange(0, 9).Draw(t, "kind of length") {
	case 0:
		return 0
	case 1, 2:
		return rapid.IntRange(1, 5).Draw(t, "short")
	case 3, 4, 5:
		return rapid.SampledFrom([]int{1000, 2000, 3000}).Draw(t, "batches") * large / 3000
	case 6, 7:
		return (rapid.SampledFrom([]int{1000, 2000, 3000}).Draw(t, "batches") + rapid.SampledFrom([]int{-1, 1}).Draw(t, "off")) * large / 3000
	case 8:
		return rapid.SampledFrom([]int{1023, 1024, 1025, 1026}).Draw(t, "1K") * large / 3000
	}
	return rapid.IntRange(0, large).Draw(t, "length")
}

// bulk draws a request of identifiers, with about the given share (of 8) of known ones.
func bulk(t *rapid.T, n int, known []ID, others []ID) (ids []ID, isKnown int) {
	share := rapid.SampledFrom([]uint64{0, 1, 4, 7, 8}).Draw(t, "share of known ones")
	repeat := rapid.SampledFrom([]uint64{0, 0, 1, 6}).Draw(t, "share of repeated ones")
	lastKnown := rapid.Bool().Draw(t, "last one known")
	x := rapid.Uint64().Draw(t, "seed") | 1
	next := func() uint64 { // splitmix64
		x += 0x9e3779b97f4a7c15
		z := x
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
	for i := 0; i < n; i++ {
		switch {
		case i > 0 && next()%8 < repeat:
			ids = append(ids, ids[next()%uint64(i)])
		case len(known) > 0 && (next()%8 < share || lastKnown && i == n-1):
			ids = append(ids, known[next()%uint64(len(known))])
		case next()%4 == 0 && len(others) > 0: // known elsewhere
			ids = append(ids, others[next()%uint64(len(others))])
		default:
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], next())
			ids = append(ids, hash(b[:]))
		}
	}
	k := map[ID]bool{}
	for _, id := range known {
		k[id] = true
	}
	for _, id := range ids {
		if k[id] {
			isKnown++
		}
	}
	return
}

func sizes(n, known int) (out []string) {
	switch {
	case n == 0:
		out = append(out, "empty")
	case n%1000 == 0:
		out = append(out, "whole batches")
	case n > 1000:
		out = append(out, "several batches")
	default:
		out = append(out, "one batch")
	}
	if known > 0 && known < n {
		out = append(out, "mixed")
	}
	return
}

// TestM06Lookups: every bulk question about certificates and policies has the answer of the single ones.
func TestM06Lookups(t *testing.T) {
	rec := vlib.New(t, "M06", "the request has known and unknown elements")
	d := Open("m06")
	defer d.Drop()
	const N = 700
	cm, pm := map[ID][]byte{}, map[ID][]byte{}
	var cids, pids []ID
	for i := 0; i < N; i++ {
		c, p := bytes.Repeat([]byte{byte(i), byte(i >> 8), 0, '\\', '"', ','}, i%40+1), []byte(fmt.Sprintf(`{"p":%d,"s":"\\\"'\n"}`, i))
		cm[hash(c)], pm[hash(p)] = c, p
		cids, pids = append(cids, hash(c)), append(pids, hash(p))
	}
	put := func(f func(a, b int) error) {
		for a := 0; a < N; a += 100 {
			if err := f(a, a+100); err != nil {
				t.Fatalf("VERIF-FAIL inserting: %v", err)
			}
		}
	}
	pay := func(m map[ID][]byte, ids []ID) (out [][]byte) {
		for _, id := range ids {
			out = append(out, m[id])
		}
		return
	}
	exps := make([]time.Time, 100)
	for i := range exps {
		exps[i] = farFuture
	}
	put(func(a, b int) error {
		return d.UpdateCerts(ctx, cids[a:b], make([]*ID, 100), exps, pay(cm, cids[a:b]))
	})
	put(func(a, b int) error {
		return d.UpdatePolicies(ctx, pids[a:b], make([]*ID, 100), exps, pay(pm, pids[a:b]))
	})
	both := map[ID][]byte{}
	for k, v := range cm {
		both[k] = v
	}
	for k, v := range pm {
		both[k] = v
	}
	vlib.Check(t, rec, func(rt *rapid.T) {
		op := rapid.SampledFrom([]string{"certs exist", "policies exist", "certs", "policies", "both"}).Draw(rt, "op")
		know, other, m := cids, pids, cm
		if op == "policies exist" || op == "policies" {
			know, other, m = pids, cids, pm
		}
		if op == "both" {
			know, other, m = append(append([]ID{}, cids...), pids...), nil, both
		}
		n := bulkLen(rt, 3000)
		if op == "certs exist" || op == "policies exist" {
			n = min(n, rapid.SampledFrom([]int{1002, 3000}).Draw(rt, "at most")) // these are slow
		}
		ids, known := bulk(rt, n, know, other)
		asked := append([]ID{}, ids...)
		bad := func(f string, a ...any) {
			rt.Fatalf("%s of %d identifiers (%d known): %s", op, n, known, fmt.Sprintf(f, a...))
		}
		switch op {
		case "certs exist", "policies exist":
			f := d.CheckCertsExist
			if op == "policies exist" {
				f = d.CheckPoliciesExist
			}
			got, err := f(ctx, ids)
			if err != nil {
				bad("%.300v", err)
			}
			if len(got) != n {
				bad("%d answers", len(got))
			}
			for i, id := range asked {
				if got[i] != (m[id] != nil) {
					bad("the answer for number %d is %v", i, got[i])
				}
			}
		default:
			f := d.RetrieveCertificatePayloads
			if op == "policies" {
				f = d.RetrievePolicyPayloads
			} else if op == "both" {
				f = d.RetrieveCertificateOrPolicyPayloads
			}
			got, err := f(ctx, ids)
			if err != nil {
				bad("%.300v", err)
			}
			if len(got) != n {
				bad("%d answers", len(got))
			}
			for i, id := range asked {
				if !bytes.Equal(got[i], m[id]) || (got[i] == nil) != (m[id] == nil) {
					bad("the answer for number %d is %q instead of %q", i, got[i], m[id])
				}
			}
		}
		for i := range ids {
			if ids[i] != asked[i] {
				bad("the request was changed")
			}
		}
		h := hash(fmt.Append(nil, asked))
		rec.Case(fmt.Sprintf("%s %d %x", op, n, h[:8]), known > 0 && known < n, func() any { return map[string]any{"question": op, "length": n, "known": known} },
			append(sizes(n, known), op)...)
	})
}

// TestM06Tree: tree nodes and the root written, replaced, removed and read, in bulk, behave as a map.
func TestM06Tree(t *testing.T) {
	rec := vlib.New(t, "M06", "the history has a bulk update and a bulk removal of which some nodes exist")
	d := Open("m06t")
	defer d.Drop()
	vlib.Check(t, rec, func(rt *rapid.T) {
		d.Reset()
		m := map[ID][]byte{}
		var pool []ID
		for i := 0; i < 60; i++ {
			pool = append(pool, hash([]byte{byte(i)}))
		}
		var hist []string
		var root *ID
		up, del := false, false
		for i, n := 0, rapid.IntRange(1, 8).Draw(rt, "steps"); i < n; i++ {
			step := rapid.SampledFrom([]string{"update", "update", "delete", "delete", "root", "get"}).Draw(rt, "step")
			k := 0
			if rapid.IntRange(0, 3).Draw(rt, "empty") > 0 {
				k = rapid.SampledFrom([]int{1, 2, 5, 30, 1000, 1001}).Draw(rt, "how many")
			}
			hist = append(hist, fmt.Sprintf("%s %d", step, k))
			bad := func(f string, a ...any) { rt.Fatalf("%v: %s", hist, fmt.Sprintf(f, a...)) }
			switch step {
			case "update":
				var recs []*db.TreeNodeRecord
				for j := 0; j < k; j++ {
					id := hash(binary.LittleEndian.AppendUint32(nil, uint32(j)))
					if j < 60 {
						id = pool[rapid.IntRange(0, len(pool)-1).Draw(rt, "node")]
					}
					v := bytes.Repeat([]byte{byte(i), byte(j), 0, '\'', '\\'}, j%5)
					if v == nil {
						v = []byte{}
					}
					recs = append(recs, &db.TreeNodeRecord{Key: id, Value: v})
				}
				if _, err := d.UpdateTreeNodes(ctx, recs); err != nil {
					bad("%.300v", err)
				}
				for _, r := range recs {
					m[r.Key] = r.Value
				}
				up = up || k > 1
			case "delete":
				var ids []ID
				there := map[ID]bool{}
				for j := 0; j < k; j++ {
					id := hash(binary.LittleEndian.AppendUint32(nil, uint32(j)))
					if j < 60 {
						id = pool[rapid.IntRange(0, len(pool)-1).Draw(rt, "node")]
					}
					ids = append(ids, id)
					if m[id] != nil {
						there[id] = true
					}
					delete(m, id)
				}
				n, err := d.DeleteTreeNodes(ctx, ids)
				if err != nil {
					bad("%.300v", err)
				}
				if n != len(there) {
					bad("%d nodes were removed according to the answer, instead of %d", n, len(there))
				}
				del = del || k > 1 && len(there) > 0 && len(there) < k
			case "root":
				id := rapid.SampledFrom(pool).Draw(rt, "root")
				if err := d.SaveRoot(ctx, &id); err != nil {
					bad("%.300v", err)
				}
				root = &id
			}
			got, err := d.LoadRoot(ctx)
			if err != nil {
				bad("LoadRoot: %v", err)
			}
			if (got == nil) != (root == nil) || got != nil && *got != *root {
				bad("LoadRoot gives %x instead of %x", got, root)
			}
			for j := 0; j < 20; j++ {
				id := pool[rapid.IntRange(0, len(pool)-1).Draw(rt, "read")]
				v, err := d.RetrieveTreeNode(ctx, id)
				if err != nil {
					bad("RetrieveTreeNode: %v", err)
				}
				if !bytes.Equal(v, m[id]) || (v == nil) != (m[id] == nil) {
					bad("node %x is %x instead of %x", id[:3], v, m[id])
				}
			}
			if s := d.snap(); len(s.tree) != len(m) {
				bad("there are %d nodes instead of %d", len(s.tree), len(m))
			}
		}
		rec.Case(fmt.Sprint(hist, len(m)), up && del, func() any { return hist })
	})
}

// TestM06Domains: the entries of domains and the domains in need of an update, asked for in bulk, agree
// with the tables.
func TestM06Domains(t *testing.T) {
	rec := vlib.New(t, "M06", "some asked domain has an entry and some has none")
	d := Open("m06d")
	defer d.Drop()
	vlib.Check(t, rec, func(rt *rapid.T) {
		d.Reset()
		// Entries and dirty domains written directly.
		var all []ID
		n := rapid.SampledFrom([]int{0, 1, 2, 10, 70}).Draw(rt, "domains")
		onePart := rapid.Bool().Draw(rt, "in one partition")
		for i := 0; i < n; i++ {
			id := hash([]byte{byte(i), 7})
			if onePart {
				id[0] = 16 + id[0]%8
			}
			if rapid.IntRange(0, 9).Draw(rt, "extreme") == 0 {
				id[0] = rapid.SampledFrom([]byte{0, 0xff, 7, 8}).Draw(rt, "first byte")
			}
			all = append(all, id)
		}
		ents := map[ID][]byte{} // the payload (identifiers, sorted and glued)
		var dirty []ID
		for i, id := range all {
			set := map[ID]bool{}
			lists := [2][]byte{}
			for k := range lists {
				s := map[ID]bool{}
				for j, c := 0, rapid.IntRange(0, 3).Draw(rt, "identifiers"); j < c; j++ {
					s[hash([]byte{byte(rapid.IntRange(0, 9).Draw(rt, "identifier")), byte(k)})] = true
				}
				lists[k] = glued(s)
				for x := range s {
					set[x] = true
				}
			}
			if rapid.IntRange(0, 3).Draw(rt, "no entry") > 0 {
				ents[id] = glued(set)
				h1, h2 := hash(lists[0]), hash(lists[1])
				null := func(b []byte, x []byte) any {
					if len(b) == 0 {
						return nil
					}
					return x
				}
				if _, err := d.DB().Exec("INSERT INTO domain_payloads (domain_id,cert_ids,cert_ids_id,policy_ids,policy_ids_id) VALUES (?,?,?,?,?)",
					all[i][:], null(lists[0], lists[0]), null(lists[0], h1[:]), null(lists[1], lists[1]), null(lists[1], h2[:])); err != nil {
					vlib.Infra("%v", err)
				}
				// The identifiers of one domain.
				gid, got, err := d.RetrieveDomainCertificatesIDs(ctx, id)
				if err != nil || !bytes.Equal(got, lists[0]) || len(lists[0]) > 0 && gid != h1 {
					rt.Fatalf("the certificates of a domain are %x, %x (%v) instead of %x, %x", gid, got, err, h1, lists[0])
				}
				gid, got, err = d.RetrieveDomainPoliciesIDs(ctx, id)
				if err != nil || !bytes.Equal(got, lists[1]) || len(lists[1]) > 0 && gid != h2 {
					rt.Fatalf("the policies of a domain are %x, %x (%v) instead of %x, %x", gid, got, err, h2, lists[1])
				}
			} else {
				gid, got, err := d.RetrieveDomainCertificatesIDs(ctx, id)
				gid2, got2, err2 := d.RetrieveDomainPoliciesIDs(ctx, id)
				if err != nil || err2 != nil || len(got) > 0 || len(got2) > 0 || gid != (ID{}) || gid2 != (ID{}) {
					rt.Fatalf("a domain without entry has certificates %x, %x (%v), policies %x, %x (%v)", gid, got, err, gid2, got2, err2)
				}
			}
			if rapid.Bool().Draw(rt, "dirty") {
				dirty = append(dirty, id)
			}
		}
		ins := append(append([]ID{}, dirty...), dirty[:len(dirty)/2]...)
		if err := d.InsertDomainsIntoDirty(ctx, ins); err != nil {
			rt.Fatalf("InsertDomainsIntoDirty: %v", err)
		}
		desc := fmt.Sprintf("%d domains, %d entries, %d dirty, one partition: %v", n, len(ents), len(dirty), onePart)
		// Entries of asked domains.
		ids, _ := bulk(rt, bulkLen(rt, 3000), all, nil)
		got, err := d.RetrieveDomainEntries(ctx, ids)
		if err != nil {
			rt.Fatalf("%s: RetrieveDomainEntries(%d): %v", desc, len(ids), err)
		}
		checkEntries(rt, desc+fmt.Sprintf(": entries of %d domains", len(ids)), ids, got, ents, false)
		// Dirty domains.
		if c, err := d.DirtyCount(ctx); err != nil || c != uint64(len(dirty)) {
			rt.Fatalf("%s: DirtyCount is %d (%v)", desc, c, err)
		}
		rd, err := d.RetrieveDirtyDomains(ctx)
		if err != nil {
			rt.Fatalf("%s: RetrieveDirtyDomains: %v", desc, err)
		}
		if a, b := fmt.Sprint(idSet(rd)), fmt.Sprint(idSet(dirty)); a != b || len(rd) != len(dirty) {
			rt.Fatalf("%s: RetrieveDirtyDomains gives %d domains", desc, len(rd))
		}
		// All dirty ones, by ranges.
		step := uint64(rapid.IntRange(1, 40).Draw(rt, "range"))
		var ranged []db.DomainEntryRecord
		for a := uint64(0); a < uint64(len(dirty)); a += step {
			r, err := d.RetrieveDomainEntriesDirtyOnes(ctx, a, a+step)
			if err != nil {
				rt.Fatalf("%s: RetrieveDomainEntriesDirtyOnes(%d,%d): %v", desc, a, a+step, err)
			}
			if want := min(step, uint64(len(dirty))-a); uint64(len(r)) != want {
				rt.Fatalf("%s: RetrieveDomainEntriesDirtyOnes(%d,%d) gives %d entries", desc, a, a+step, len(r))
			}
			ranged = append(ranged, r...)
		}
		checkEntries(rt, desc+": all by ranges", dirty, ranged, ents, true)
		// All dirty ones, by bundles.
		size := uint64(rapid.SampledFrom([]int{1, 2, 3, 5, 31, 32, 33, 64, 1000}).Draw(rt, "bundle"))
		var bundled []db.DomainEntryRecord
		var cur *db.DirtyDomainEntriesCursor
		done, count := false, 0
		for !done {
			var b []db.DomainEntryRecord
			b, cur, done, err = d.RetrieveDomainEntriesDirtyBundle(ctx, cur, size)
			if err != nil {
				rt.Fatalf("%s: RetrieveDomainEntriesDirtyBundle: %v", desc, err)
			}
			if uint64(len(b)) > size || !done && uint64(len(b)) < size {
				rt.Fatalf("%s: a bundle of at most %d has %d entries (last one: %v)", desc, size, len(b), done)
			}
			bundled = append(bundled, b...)
			if count++; count > 2*n+2 {
				rt.Fatalf("%s: there is no end of bundles", desc)
			}
		}
		checkEntries(rt, desc+fmt.Sprintf(": all by bundles of %d", size), dirty, bundled, ents, true)
		// The end of a cycle.
		if err := d.CleanupDirty(ctx); err != nil {
			rt.Fatalf("%s: CleanupDirty: %v", desc, err)
		}
		if c, err := d.DirtyCount(ctx); err != nil || c != 0 {
			rt.Fatalf("%s: DirtyCount after CleanupDirty is %d (%v)", desc, c, err)
		}
		rec.Case(desc+fmt.Sprint(size, step, len(ids)), len(ents) > 0 && len(ents) < n, func() any { return desc })
	})
}

func idSet(l []ID) map[string]bool {
	m := map[string]bool{}
	for _, x := range l {
		m[string(x[:])] = true
	}
	return m
}

// checkEntries compares entries got for the asked domains; missing ones have an empty payload if all must
// be there, or are left out.
func checkEntries(rt *rapid.T, what string, asked []ID, got []db.DomainEntryRecord, ents map[ID][]byte, all bool) {
	want := map[ID]bool{}
	for _, id := range asked {
		if _, ok := ents[id]; ok || all {
			want[id] = true
		}
	}
	seen := map[ID]bool{}
	for _, e := range got {
		if seen[e.DomainID] {
			rt.Fatalf("%s: the entry of a domain comes twice", what)
		}
		seen[e.DomainID] = true
		if !want[e.DomainID] {
			rt.Fatalf("%s: there is an entry for a domain not asked for", what)
		}
		if !bytes.Equal(e.Payload, ents[e.DomainID]) {
			rt.Fatalf("%s: the entry of a domain is %s instead of %s", what, idList(e.Payload), idList(ents[e.DomainID]))
		}
	}
	if len(seen) != len(want) {
		rt.Fatalf("%s: there are %d entries instead of %d", what, len(seen), len(want))
	}
}

var _ = common.SHA256Size
