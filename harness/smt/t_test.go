package smt

import (
	"bytes"
	"context"
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/common"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/prover"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

var ctx = context.Background()

var heights = []int{-1, 0, 4, 32, 128, 200, 252, 256}

func open(t *rapid.T, root []byte, store *memDB, height int) *trie.Trie {
	tr, err := trie.NewTrie(root, common.SHA256Hash, store)
	if err != nil {
		t.Fatalf("opening a tree: %v", err)
	}
	if height >= 0 {
		tr.CacheHeightLimit = height
	}
	return tr
}

type hist struct {
	sb                          strings.Builder
	updates, dels, rewrites     int
	delOps                      int
	commits, reopens, reinserts int
	deleted                     map[K]bool
	shared                      int
}

func (h *hist) note(ops []op, model map[K]V) {
	if h.deleted == nil {
		h.deleted = map[K]bool{}
	}
	h.updates++
	for _, o := range ops {
		_, present := model[o.Key]
		if o.Del {
			h.delOps++
		}
		if o.Del && present {
			h.dels++
			h.deleted[o.Key] = true
		}
		if !o.Del && present {
			h.rewrites++
		}
		if !o.Del && h.deleted[o.Key] {
			h.reinserts++
		}
	}
	fmt.Fprintf(&h.sb, "update{%s}; ", opsString(ops))
}

// checkContent compares the whole tree with the model.
func checkContent(t *rapid.T, tr *trie.Trie, model map[K]V, pool, extra []K, when string) {
	want := refRoot(model)
	if !bytes.Equal(tr.Root, want) {
		t.Fatalf("%s: root %x, want %x for %d keys", when, tr.Root, want, len(model))
	}
	for _, ks := range [][]K{pool, extra} {
		for _, k := range ks {
			got, err := tr.Get(ctx, append([]byte(nil), k[:]...))
			if err != nil {
				t.Fatalf("%s: get %x: %v", when, k, err)
			}
			v, ok := model[k]
			if ok && !bytes.Equal(got, v[:]) {
				t.Fatalf("%s: get %x = %x, want %x", when, k, got, v)
			}
			if !ok && got != nil {
				t.Fatalf("%s: get %x = %x, but the key is absent", when, k, got)
			}
		}
	}
}

// checkProofs verifies proofs for all keys, with the code's verifiers and with an independent one.
func checkProofs(t *rapid.T, tr *trie.Trie, root []byte, model map[K]V, pool, extra []K, when string, past bool) {
	for _, ks := range [][]K{pool, extra} {
		for _, k := range ks {
			key := append([]byte(nil), k[:]...)
			var ap [][]byte
			var incl bool
			var pk, pv []byte
			var err error
			if past {
				ap, incl, pk, pv, err = tr.MerkleProofR(ctx, key, root)
			} else {
				ap, incl, pk, pv, err = tr.MerkleProof(ctx, key)
			}
			if err != nil {
				t.Fatalf("%s: proof of %x: %v", when, k, err)
			}
			v, ok := model[k]
			if incl != ok {
				t.Fatalf("%s: proof of %x says included=%v, want %v", when, k, incl, ok)
			}
			resp := &mapCommon.MapServerResponse{
				DomainEntry: &mapCommon.DomainEntry{DomainID: k, DomainValue: v},
				PoI:         mapCommon.PoI{Proof: ap, Root: root, ProofKey: pk, ProofValue: pv},
			}
			if ok {
				if !bytes.Equal(pv, v[:]) {
					t.Fatalf("%s: proof of %x has value %x, want %x", when, k, pv, v)
				}
				if !trie.VerifyInclusion(root, ap, key, pv) {
					t.Fatalf("%s: presence proof of %x does not verify", when, k)
				}
				if !refVerify(root, ap, key, h(key, v[:], []byte{byte(256 - len(ap))})) {
					t.Fatalf("%s: presence proof of %x is not a path from its leaf to the root", when, k)
				}
				resp.PoI.ProofType = mapCommon.PoP
			} else {
				if !trie.VerifyNonInclusion(root, ap, key, pv, pk) {
					t.Fatalf("%s: absence proof of %x does not verify", when, k)
				}
				if root != nil {
					leaf := []byte{0}
					at := key
					if len(pk) != 0 {
						leaf, at = h(pk, pv, []byte{byte(256 - len(ap))}), pk
					}
					if !refVerify(root, ap, at, leaf) {
						t.Fatalf("%s: absence proof of %x is not a path to the root", when, k)
					}
				}
				resp.PoI.ProofType = mapCommon.PoA
			}
			pt, good, err := prover.VerifyProofByDomain(resp)
			if err != nil || !good || pt != resp.PoI.ProofType {
				t.Fatalf("%s: domain-level verification of %x: type %v ok %v err %v", when, k, pt, good, err)
			}
			if past || root == nil {
				continue
			}
			bm, mp, length, incl2, pk2, pv2, err := tr.MerkleProofCompressed(ctx, key)
			if err != nil {
				t.Fatalf("%s: compressed proof of %x: %v", when, k, err)
			}
			if incl2 != ok {
				t.Fatalf("%s: compressed proof of %x says included=%v", when, k, incl2)
			}
			if ok {
				if !bytes.Equal(pv2, v[:]) || !tr.VerifyInclusionC(bm, key, pv2, mp, length) {
					t.Fatalf("%s: compressed presence proof of %x does not verify", when, k)
				}
			} else if !tr.VerifyNonInclusionC(mp, length, bm, key, pv2, pk2) {
				t.Fatalf("%s: compressed absence proof of %x does not verify", when, k)
			}
		}
	}
}

func TestT01Model(t *testing.T) {
	rec := vlib.New(t, "T01", "history of batched updates over a pool of up to 24 prefix-sharing keys; non-trivial: at least two batches, "+
		"some key shares >= 5 bits with another and there is a delete of a present key or an overwrite")
	vlib.Check(t, rec, func(t *rapid.T) {
		pool := genPool(t, 24)
		atomic := rapid.IntRange(0, 3).Draw(t, "atomic") == 0
		height := rapid.SampledFrom(heights).Draw(t, "cacheHeight")
		del := rapid.IntRange(0, 6).Draw(t, "delWeight")
		steps := rapid.IntRange(1, 7).Draw(t, "steps")
		store := newMemDB()
		tr := open(t, nil, store, height)
		model := map[K]V{}
		var hs hist
		defer func() { t.Log(hs.sb.String()) }()
		type past struct {
			root  []byte
			model map[K]V
		}
		var pasts []past
		for i := 0; i < steps; i++ {
			ops := genBatch(t, pool, model, del)
			hs.note(ops, model)
			keys, values := kv(ops)
			k2, v2 := kv(ops)
			var root []byte
			var err error
			if atomic {
				root, err = tr.AtomicUpdate(ctx, keys, values)
			} else {
				root, err = tr.Update(ctx, keys, values)
			}
			if err != nil {
				t.Fatalf("update: %v", err)
			}
			for j := range keys {
				if !bytes.Equal(keys[j], k2[j]) || !bytes.Equal(values[j], v2[j]) {
					t.Fatalf("update changed its arguments at %d", j)
				}
			}
			apply(model, ops)
			if !bytes.Equal(root, tr.Root) {
				t.Fatalf("update returned %x but the root is %x", root, tr.Root)
			}
			checkContent(t, tr, model, pool, probes(t, pool, 3), fmt.Sprintf("after batch %d", i))
			if atomic {
				// all intermediate states must stay provable until they are committed
				pasts = append(pasts, past{append([]byte(nil), root...), clone(model)})
			}
			if !atomic && rapid.IntRange(0, 4).Draw(t, "commit") == 0 {
				if err := tr.Commit(ctx); err != nil {
					t.Fatalf("commit: %v", err)
				}
				hs.commits++
				hs.sb.WriteString("commit; ")
				checkContent(t, tr, model, pool, nil, fmt.Sprintf("after commit %d", i))
			}
		}
		if hs.delOps > 0 {
			pasts = nil // deleting moves leaves up, and intermediate states are not kept then
		}
		for i, p := range pasts {
			if len(p.root) > 0 {
				checkProofs(t, tr, p.root, p.model, pool, nil, fmt.Sprintf("past state %d", i), true)
			}
		}
		// one batch
		var all []op
		for _, k := range sortedKeys(model) {
			all = append(all, op{Key: k, Value: model[k]})
		}
		tr2 := open(t, nil, newMemDB(), height)
		if len(all) > 0 {
			keys, values := kv(all)
			if _, err := tr2.Update(ctx, keys, values); err != nil {
				t.Fatalf("single batch: %v", err)
			}
		}
		if !bytes.Equal(tr.Root, tr2.Root) {
			t.Fatalf("root %x after the history, %x for the same content in one batch", tr.Root, tr2.Root)
		}
		// different content, different root
		if len(all) > 0 {
			i := rapid.IntRange(0, len(all)-1).Draw(t, "changed")
			all[i].Value[rapid.IntRange(0, 31).Draw(t, "changedByte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "changedBit")
			keys, values := kv(all)
			tr3 := open(t, nil, newMemDB(), height)
			if _, err := tr3.Update(ctx, keys, values); err != nil {
				t.Fatal(err)
			}
			if bytes.Equal(tr3.Root, tr.Root) {
				t.Fatalf("changing the value of %x does not change the root", all[i].Key)
			}
		}
		sh := maxShared(sortedKeysOf(pool))
		nt := hs.updates >= 2 && sh >= 5 && hs.dels+hs.rewrites > 0
		cls := []string{fmt.Sprintf("sharedBits>=%d", sh/64*64)}
		if atomic {
			cls = append(cls, "atomic")
		}
		if hs.dels > 0 {
			cls = append(cls, "delete")
		}
		if hs.reinserts > 0 {
			cls = append(cls, "reinsert")
		}
		if len(model) == 0 {
			cls = append(cls, "endsEmpty")
		}
		rec.Case(hs.sb.String(), nt, func() any { return hs.sb.String() }, cls...)
	})
}

func sortedKeysOf(ks []K) []K {
	m := map[K]V{}
	for _, k := range ks {
		m[k] = V{}
	}
	return sortedKeys(m)
}

// Large batches: more keys than the threshold for parallel processing of subtrees.
func TestT01Large(t *testing.T) {
	rec := vlib.New(t, "T01", "two batches of 8k-20k keys (parallel subtree updates), with deletes in the second; all non-trivial")
	vlib.Check(t, rec, func(t *rapid.T) {
		n := rapid.IntRange(8200, 20000).Draw(t, "n")
		seed := rapid.Uint64().Draw(t, "seed")
		skew := rapid.IntRange(0, 2).Draw(t, "skew")
		model := map[K]V{}
		var ops []op
		for i := 0; i < n; i++ {
			k := K(h([]byte(fmt.Sprintf("%d/%d", seed, i))))
			switch skew {
			case 1:
				k[0] &= 0x0f
			case 2:
				k[0], k[1] = 0xff, k[1]|0xf0
			}
			ops = append(ops, op{Key: k, Value: V(h(k[:], []byte("v")))})
		}
		ops = dedupOps(ops)
		store := newMemDB()
		tr := open(t, nil, store, 32)
		keys, values := kv(ops)
		if _, err := tr.Update(ctx, keys, values); err != nil {
			t.Fatal(err)
		}
		apply(model, ops)
		if !bytes.Equal(tr.Root, refRoot(model)) {
			t.Fatalf("root of %d keys differs from the definition", len(model))
		}
		mod := rapid.IntRange(2, 9).Draw(t, "mod")
		if rapid.Bool().Draw(t, "commitBetween") {
			if err := tr.Commit(ctx); err != nil {
				t.Fatal(err)
			}
			if rapid.Bool().Draw(t, "reopen") {
				tr = open(t, tr.Root, store, 32)
			}
		}
		for i := range ops {
			if i%mod == 0 {
				ops[i].Del = true
			} else {
				ops[i].Value = V(h(ops[i].Key[:], []byte("w")))
			}
		}
		keys, values = kv(ops)
		if _, err := tr.Update(ctx, keys, values); err != nil {
			t.Fatal(err)
		}
		apply(model, ops)
		if !bytes.Equal(tr.Root, refRoot(model)) {
			t.Fatalf("root of %d keys differs from the definition after the second batch", len(model))
		}
		if err := tr.Commit(ctx); err != nil {
			t.Fatal(err)
		}
		tr = open(t, tr.Root, store, 32)
		for i := 0; i < len(ops); i += 37 {
			got, err := tr.Get(ctx, ops[i].Key[:])
			if err != nil {
				t.Fatal(err)
			}
			if ops[i].Del && got != nil || !ops[i].Del && !bytes.Equal(got, ops[i].Value[:]) {
				t.Fatalf("key %x: got %x", ops[i].Key, got)
			}
		}
		rec.Case(fmt.Sprint(n, seed, skew, mod), true, func() any { return fmt.Sprintf("n=%d skew=%d mod=%d", n, skew, mod) })
	})
}

func dedupOps(ops []op) []op {
	m := map[K]V{}
	for _, o := range ops {
		m[o.Key] = o.Value
	}
	out := make([]op, 0, len(m))
	for _, k := range sortedKeys(m) {
		out = append(out, op{Key: k, Value: m[k]})
	}
	return out
}

func TestT02Proofs(t *testing.T) {
	rec := vlib.New(t, "T02", "tree built by 1-4 batches over up to 20 prefix-sharing keys, all pool keys and bit-neighbours proven before and after "+
		"commit and reload; non-trivial: present and absent keys among those proven and a prefix of >= 5 bits shared")
	vlib.Check(t, rec, func(t *rapid.T) {
		pool := genPool(t, 20)
		height := rapid.SampledFrom(heights).Draw(t, "cacheHeight")
		del := rapid.IntRange(0, 5).Draw(t, "delWeight")
		store := newMemDB()
		tr := open(t, nil, store, height)
		model := map[K]V{}
		var hs hist
		defer func() { t.Log(hs.sb.String()) }()
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "steps"); i < n; i++ {
			ops := genBatch(t, pool, model, del)
			hs.note(ops, model)
			keys, values := kv(ops)
			if _, err := tr.Update(ctx, keys, values); err != nil {
				t.Fatalf("update: %v", err)
			}
			apply(model, ops)
		}
		extra := probes(t, pool, 6)
		root := refRoot(model)
		if !bytes.Equal(root, tr.Root) {
			t.Fatalf("root differs from the definition")
		}
		checkProofs(t, tr, root, model, pool, extra, "before commit", false)
		if len(model) > 0 {
			if err := tr.Commit(ctx); err != nil {
				t.Fatalf("commit: %v", err)
			}
			checkProofs(t, tr, root, model, pool, extra, "after commit", false)
			tr2 := open(t, root, store, rapid.SampledFrom(heights).Draw(t, "cacheHeight2"))
			if rapid.Bool().Draw(t, "loadCache") {
				if err := tr2.LoadCache(ctx, root); err != nil {
					t.Fatalf("loading the cache: %v", err)
				}
			}
			checkProofs(t, tr2, root, model, pool, extra, "after reload", false)
		}
		abs := 0
		for _, k := range append(append([]K{}, pool...), extra...) {
			if _, ok := model[k]; !ok {
				abs++
			}
		}
		sh := maxShared(sortedKeys(model))
		rec.Case(hs.sb.String(), abs > 0 && len(model) > 0 && sh >= 5, func() any { return map[string]any{"history": hs.sb.String(), "absentProven": abs} },
			fmt.Sprintf("present=%d", min(len(model), 3)))
	})
}
