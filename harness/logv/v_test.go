// Package logv checks the verifier of policy log proofs (V01).
package logv

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"testing"

	"github.com/google/trillian"
	"github.com/google/trillian/types"
	"github.com/transparency-dev/merkle/rfc6962"
	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/logverifier"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// ---- the reference: the definitions of RFC 6962, section 2.1.

func leafHash(d []byte) []byte { h := sha256.Sum256(append([]byte{0}, d...)); return h[:] }
func nodeHash(l, r []byte) []byte {
	h := sha256.Sum256(append(append([]byte{1}, l...), r...))
	return h[:]
}
func split(n int) int {
	k := 1
	for k*2 < n {
		k *= 2
	}
	return k
}
func mth(l [][]byte) []byte { // of leaf hashes
	switch len(l) {
	case 0:
		h := sha256.Sum256(nil)
		return h[:]
	case 1:
		return l[0]
	}
	k := split(len(l))
	return nodeHash(mth(l[:k]), mth(l[k:]))
}
func path(m int, l [][]byte) [][]byte {
	if len(l) == 1 {
		return nil
	}
	k := split(len(l))
	if m < k {
		return append(path(m, l[:k]), mth(l[k:]))
	}
	return append(path(m-k, l[k:]), mth(l[:k]))
}
func consist(m int, l [][]byte, whole bool) [][]byte {
	if m == len(l) {
		if whole {
			return nil
		}
		return [][]byte{mth(l)}
	}
	k := split(len(l))
	if m <= k {
		return append(consist(m, l[:k], whole), mth(l[k:]))
	}
	return append(consist(m-k, l[k:], false), mth(l[:k]))
}
func consistency(m int, l [][]byte) [][]byte {
	if m == 0 || m == len(l) {
		return nil
	}
	return consist(m, l, true)
}

func eq(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func clone(p [][]byte) [][]byte {
	out := make([][]byte, len(p))
	for i := range p {
		out[i] = append([]byte{}, p[i]...)
	}
	return out
}

// mutate alters a list of hashes.
func mutate(rt *rapid.T, p [][]byte, other []byte) ([][]byte, string) {
	p = clone(p)
	op := rapid.IntRange(0, 6).Draw(rt, "mut")
	i := 0
	if len(p) > 0 {
		i = rapid.IntRange(0, len(p)-1).Draw(rt, "at")
	} else if op > 1 {
		op = 1
	}
	switch op {
	case 0:
		return append([][]byte{other}, p...), "hash added in front"
	case 1:
		return append(p, other), "hash added at the end"
	case 2:
		p[i][rapid.IntRange(0, len(p[i])-1).Draw(rt, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
		return p, "bit flipped"
	case 3:
		return append(p[:i], p[i+1:]...), "hash removed"
	case 4:
		j := rapid.IntRange(0, len(p)-1).Draw(rt, "swap")
		p[i], p[j] = p[j], p[i]
		return p, "hashes swapped"
	case 5:
		p[i] = other
		return p, "hash replaced"
	default:
		p[i] = p[i][:rapid.IntRange(0, 31).Draw(rt, "len")]
		return p, "hash cut"
	}
}

func genLeaves(rt *rapid.T) ([][]byte, [][]byte) {
	n := rapid.OneOf(rapid.IntRange(1, 9), rapid.IntRange(1, 70)).Draw(rt, "leaves")
	data, hashes := make([][]byte, n), make([][]byte, n)
	for i := range data {
		data[i] = []byte(fmt.Sprintf("leaf %d", i))
		hashes[i] = leafHash(data[i])
	}
	return data, hashes
}

func newVerifier(rt *rapid.T) *logverifier.LogVerifier {
	if rapid.Bool().Draw(rt, "defaultHasher") {
		return logverifier.NewLogVerifier(nil)
	}
	return logverifier.NewLogVerifier(rfc6962.DefaultHasher)
}

func TestV01Inclusion(t *testing.T) {
	rec := vlib.New(t, "V01", "the tree has at least two leaves")
	vlib.Check(t, rec, func(rt *rapid.T) {
		v := newVerifier(rt)
		data, hs := genLeaves(rt)
		n := len(hs)
		size := rapid.IntRange(1, n).Draw(rt, "size")
		root := &types.LogRootV1{TreeSize: uint64(size), RootHash: mth(hs[:size])}
		idx := rapid.IntRange(0, size-1).Draw(rt, "index")
		if d := v.HashLeaf(data[idx]); !bytes.Equal(d, hs[idx]) {
			rt.Fatalf("leaf hash of %q is %x", data[idx], d)
		}
		// A list of proofs, good and bad, for the claim that leaf idx is in the tree.
		claim := hs[idx]
		falseClaim := ""
		switch rapid.IntRange(0, 5).Draw(rt, "claim") {
		case 0:
			claim, falseClaim = leafHash([]byte("another")), "another leaf"
		case 1:
			claim, falseClaim = data[idx], "the data instead of its hash"
		case 2:
			root.RootHash = mth(append(clone(hs[:size-1]), leafHash([]byte("x"))))
			falseClaim = "another root"
		}
		var proofs []*trillian.Proof
		want := false
		desc := ""
		for k := rapid.IntRange(0, 4).Draw(rt, "proofs"); k > 0; k-- {
			p := &trillian.Proof{LeafIndex: int64(idx), Hashes: clone(path(idx, hs[:size]))}
			what := "good"
			switch rapid.IntRange(0, 5).Draw(rt, "kind") {
			case 0:
				i2 := rapid.IntRange(-2, size+2).Draw(rt, "otherIndex")
				p.LeafIndex, what = int64(i2), "other index"
			case 1:
				p.Hashes, what = mutate(rt, p.Hashes, hs[rapid.IntRange(0, n-1).Draw(rt, "other")])
			case 2:
				i2 := rapid.IntRange(0, size-1).Draw(rt, "otherLeaf")
				p = &trillian.Proof{LeafIndex: int64(i2), Hashes: path(i2, hs[:size])}
				what = "proof of another leaf"
			case 3:
				s2 := rapid.IntRange(idx+1, n).Draw(rt, "otherSize")
				p.Hashes, what = path(idx, hs[:s2]), "proof for another size"
			case 4:
				if size > 1 && rapid.IntRange(0, 3).Draw(rt, "nil") == 0 {
					p, what = nil, "nil"
				}
			}
			if p != nil && p.LeafIndex == int64(idx) && eq(p.Hashes, path(idx, hs[:size])) && falseClaim == "" {
				want = true
			}
			desc += what + ";"
			proofs = append(proofs, p)
		}
		var err error
		if msg := vlib.NoPanic(func() { err = v.VerifyInclusionByHash(root, claim, proofs) }); msg != "" {
			rt.Fatalf("leaf %d of %d, proofs %s: %s", idx, size, desc, msg)
		}
		if (err == nil) != want {
			rt.Fatalf("leaf %d of %d, %s, proofs: %s: accepted %v (%v), want %v", idx, size, falseClaim, desc, err == nil, err, want)
		}
		rec.Case(fmt.Sprint(size, idx, falseClaim, desc), size > 1, func() any {
			return fmt.Sprintf("leaf %d of %d, %s, %s accepted %v", idx, size, falseClaim, desc, want)
		}, fmt.Sprintf("accepted-%v", want))
	})
}

func TestV01Consistency(t *testing.T) {
	rec := vlib.New(t, "V01", "the sizes differ and the old one is not 0")
	vlib.Check(t, rec, func(rt *rapid.T) {
		v := newVerifier(rt)
		_, hs := genLeaves(rt)
		n := len(hs)
		b := rapid.IntRange(0, n).Draw(rt, "newSize")
		a := rapid.IntRange(0, b).Draw(rt, "oldSize")
		proof := clone(consistency(a, hs[:b]))
		old := &types.LogRootV1{TreeSize: uint64(a), RootHash: mth(hs[:a])}
		cur := &types.LogRootV1{TreeSize: uint64(b), RootHash: mth(hs[:b])}
		want, what := true, "good"
		switch rapid.IntRange(0, 9).Draw(rt, "kind") {
		case 0:
			if a > 0 {
				fork := clone(hs[:b])
				fork[rapid.IntRange(0, a-1).Draw(rt, "forkAt")] = leafHash([]byte("forked"))
				cur.RootHash, what, want = mth(fork), "new tree forked", false
				if rapid.Bool().Draw(rt, "forkProof") {
					proof = consistency(a, fork)
				}
			}
		case 1:
			var p [][]byte
			p, what = mutate(rt, proof, leafHash([]byte("other")))
			want, proof = a == 0 || eq(p, proof), p
		case 2:
			a2 := rapid.IntRange(1, max(1, b)).Draw(rt, "otherOld")
			if b > 0 {
				p := consistency(a2, hs[:b])
				want, proof, what = a == 0 || eq(p, proof), p, "proof for another old size"
			}
		case 3:
			b2 := rapid.IntRange(max(a, 1), n).Draw(rt, "otherNew")
			p := consistency(a, hs[:b2])
			want, proof, what = a == 0 || eq(p, proof), p, "proof for another new size"
		case 4:
			if a != b && a > 0 {
				old, cur, what, want = cur, old, "roots swapped", false
			}
		case 5:
			if a > 0 {
				old.RootHash, what, want = mth(append(clone(hs[:a-1]), leafHash([]byte("y")))), "other old root", false
			}
		case 6:
			if a > 0 {
				cur.RootHash, what, want = leafHash([]byte("z")), "other new root", false
			}
		case 7:
			if rapid.Bool().Draw(rt, "which") {
				old, what, want = nil, "no old root", false
			} else {
				cur, what, want = nil, "no new root", false
			}
		}
		var err error
		var got *types.LogRootV1
		if msg := vlib.NoPanic(func() { got, err = v.VerifyRoot(old, cur, proof) }); msg != "" {
			rt.Fatalf("from %d to %d, %s: %s", a, b, what, msg)
		}
		if (err == nil) != want || err == nil && got != cur || err != nil && got != nil {
			rt.Fatalf("from %d to %d, %s: accepted %v (%v), want %v", a, b, what, err == nil, err, want)
		}
		// Inclusion in the old tree together with consistency.
		if a > 0 {
			idx := rapid.IntRange(0, a-1).Draw(rt, "index")
			p := clone(path(idx, hs[:a]))
			incl, w2 := true, "good"
			claim := hs[idx]
			switch rapid.IntRange(0, 3).Draw(rt, "incl") {
			case 0:
				p2, w := mutate(rt, p, leafHash([]byte("o")))
				incl, p, w2 = eq(p, p2), p2, w
			case 1:
				claim, incl, w2 = leafHash([]byte("another")), false, "other leaf"
			}
			// The good old root, in case the altered one is old.
			okOld := old != nil && old.TreeSize == uint64(a) && bytes.Equal(old.RootHash, mth(hs[:a]))
			if okOld || what == "no old root" || what == "other old root" {
				w := want && incl && okOld
				if msg := vlib.NoPanic(func() {
					err = v.VerifyInclusionWithPrevLogRoot(old, cur, proof, claim, []*trillian.Proof{{LeafIndex: int64(idx), Hashes: p}})
				}); msg != "" {
					rt.Fatalf("leaf %d, from %d to %d, %s, %s: %s", idx, a, b, what, w2, msg)
				}
				if (err == nil) != w {
					rt.Fatalf("leaf %d in %d, consistency to %d: %s, inclusion: %s: accepted %v (%v), want %v", idx, a, b, what, w2, err == nil, err, w)
				}
			}
		}
		rec.Case(fmt.Sprint(a, b, what, proof), a > 0 && a < b, func() any { return fmt.Sprintf("from %d to %d: %s, accepted %v", a, b, what, want) },
			fmt.Sprintf("accepted-%v", want), what)
	})
}
