package smt

import (
	"bytes"
	"errors"
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/common"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/prover"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// ---------------------------------------------------------------- T03

// claim is a statement with its evidence, as a client receives it.
type claim struct {
	absent           bool
	key, value       []byte
	ap               [][]byte
	proofKey, proofV []byte
}

func (c claim) String() string {
	s := fmt.Sprintf("present key=%x value=%x", c.key, c.value)
	if c.absent {
		s = fmt.Sprintf("absent key=%x proofKey=%x proofValue=%x", c.key, c.proofKey, c.proofV)
	}
	s += fmt.Sprintf(" path(%d)=", len(c.ap))
	for i, e := range c.ap {
		if i > 12 {
			s += "..."
			break
		}
		s += fmt.Sprintf("%x,", e)
	}
	return s
}

// accepted asks the tree-level verifier and, for claims that fit in a response, the domain-level one.
func accepted(t *rapid.T, root []byte, c claim) bool {
	var tree, dom bool
	if msg := vlib.NoPanic(func() {
		if c.absent {
			tree = trie.VerifyNonInclusion(root, c.ap, c.key, c.proofV, c.proofKey)
		} else {
			tree = trie.VerifyInclusion(root, c.ap, c.key, c.value)
		}
		if len(c.key) == 32 && (c.absent || len(c.value) == 32) {
			r := &mapCommon.MapServerResponse{DomainEntry: &mapCommon.DomainEntry{DomainID: K(c.key)}, PoI: mapCommon.PoI{
				Proof: c.ap, Root: root, ProofKey: c.proofKey, ProofValue: c.proofV, ProofType: mapCommon.PoA}}
			if !c.absent {
				r.DomainEntry.DomainValue = V(c.value)
				r.PoI.ProofType, r.PoI.ProofKey, r.PoI.ProofValue = mapCommon.PoP, nil, c.value
			}
			_, ok, err := prover.VerifyProofByDomain(r)
			dom = ok && err == nil
		}
	}); msg != "" {
		t.Fatalf("verifier crashed on %s: %s", c, msg)
	}
	return tree || dom
}

func truth(model map[K]V, c claim) bool {
	if len(c.key) != 32 {
		return false
	}
	v, ok := model[K(c.key)]
	if c.absent {
		return !ok
	}
	return ok && bytes.Equal(v[:], c.value)
}

// ambiguous tells whether an accepted false absence claim is the known finding: the claim declares empty
// the only child of a node with one child, whose encoding H(0|x) or H(x|0) can also be read the other way
// round because x ends or begins with a zero byte.
func ambiguous(model map[K]V, c claim) bool {
	if !c.absent || len(c.proofKey) != 0 || len(c.ap) == 0 || len(c.key) != 32 {
		return false
	}
	d := len(c.ap)
	if d > 256 {
		return false
	}
	// every path up to the declared empty position: a false claim needs at least one node re-read
	ks := sortedKeys(model)
	for at := 0; at < d; at++ {
		var under []K
		for _, k := range ks {
			same := true
			for i := 0; i < at; i++ {
				if bit(k[:], i) != bit(c.key, i) {
					same = false
					break
				}
			}
			if same {
				under = append(under, k)
			}
		}
		if len(under) < 2 {
			return false // an empty subtree or a leaf: nothing below can be re-read
		}
		l, r := []K{}, []K{}
		for _, k := range under {
			if bit(k[:], at) {
				r = append(r, k)
			} else {
				l = append(l, k)
			}
		}
		if at == d-1 {
			if len(r) == 0 && !bit(c.key, at) {
				x := refSub(l, model, at+1)
				return x[0] == 0 && bytes.Equal(c.ap[0], append(append([]byte{}, x[1:]...), 0))
			}
			if len(l) == 0 && bit(c.key, at) {
				x := refSub(r, model, at+1)
				return x[31] == 0 && bytes.Equal(c.ap[0], append([]byte{0}, x[:31]...))
			}
		}
	}
	return false
}

func copyAP(ap [][]byte) [][]byte {
	out := make([][]byte, len(ap))
	for i := range ap {
		out[i] = append([]byte(nil), ap[i]...)
	}
	return out
}

func proveClaim(t *rapid.T, tr *trie.Trie, k K) claim {
	ap, incl, pk, pv, err := tr.MerkleProof(ctx, k[:])
	if err != nil {
		t.Fatalf("proof: %v", err)
	}
	c := claim{absent: !incl, key: append([]byte(nil), k[:]...), ap: copyAP(ap)}
	if incl {
		c.value = append([]byte(nil), pv...)
	} else {
		c.proofKey, c.proofV = append([]byte(nil), pk...), append([]byte(nil), pv...)
	}
	return c
}

var mutations = []string{"flipPath", "dropFirst", "dropLast", "dropAny", "dupAny", "swap", "appendLeafSide", "appendRootSide", "replaceDefault",
	"replaceEmpty", "truncElem", "extendElem", "otherPath", "otherValue", "otherProofLeaf", "selfProofLeaf", "flipValue", "flipKey", "toAbsent",
	"toAbsentLeaf", "toPresentOfLeaf", "split33", "split31", "leafAsNode", "leafAsNodeRight", "nodeAsNode63", "reread", "long", "empty", "nilProofKey", "nodeAsLeaf", "prefixOfPath"}

func mutate(t *rapid.T, m string, c, other claim, model map[K]V) claim {
	n := len(c.ap)
	pick := func(label string) int {
		if n == 0 {
			return -1
		}
		return rapid.IntRange(0, n-1).Draw(t, label)
	}
	rnd := func(l int) []byte { return rapid.SliceOfN(rapid.Byte(), l, l).Draw(t, "bytes") }
	flip := func(b []byte) {
		if len(b) > 0 {
			i := rapid.IntRange(0, 8*len(b)-1).Draw(t, "flip")
			b[i/8] ^= 1 << uint(i%8)
		}
	}
	switch m {
	case "flipPath":
		if i := pick("i"); i >= 0 {
			flip(c.ap[i])
		}
	case "dropFirst":
		if n > 0 {
			c.ap = c.ap[1:]
		}
	case "dropLast":
		if n > 0 {
			c.ap = c.ap[:n-1]
		}
	case "dropAny":
		if i := pick("i"); i >= 0 {
			c.ap = append(c.ap[:i:i], c.ap[i+1:]...)
		}
	case "dupAny":
		if i := pick("i"); i >= 0 {
			c.ap = append(c.ap[:i+1:i+1], c.ap[i:]...)
		}
	case "swap":
		if i := pick("i"); i >= 0 {
			j := pick("j")
			c.ap[i], c.ap[j] = c.ap[j], c.ap[i]
		}
	case "appendLeafSide":
		c.ap = append([][]byte{rapid.SampledFrom([][]byte{{0}, nil, rnd(32)}).Draw(t, "e")}, c.ap...)
	case "appendRootSide":
		c.ap = append(c.ap, rapid.SampledFrom([][]byte{{0}, nil, rnd(32)}).Draw(t, "e"))
	case "replaceDefault":
		if i := pick("i"); i >= 0 {
			c.ap[i] = []byte{0}
		}
	case "replaceEmpty":
		if i := pick("i"); i >= 0 {
			c.ap[i] = nil
		}
	case "truncElem":
		if i := pick("i"); i >= 0 && len(c.ap[i]) > 1 {
			c.ap[i] = c.ap[i][:len(c.ap[i])-1]
		}
	case "extendElem":
		if i := pick("i"); i >= 0 {
			c.ap[i] = append(c.ap[i], rapid.Byte().Draw(t, "e"))
		}
	case "otherPath":
		c.ap = other.ap
	case "otherValue":
		c.value, c.proofV = other.value, other.proofV
	case "otherProofLeaf":
		c.absent = true
		c.ap, c.proofKey, c.proofV = other.ap, other.key, other.value
		if other.absent {
			c.proofKey, c.proofV = other.proofKey, other.proofV
		}
	case "selfProofLeaf": // own presence proof offered as absence proof
		if !c.absent {
			c.absent, c.proofKey, c.proofV = true, c.key, c.value
		}
	case "flipValue":
		flip(c.value)
		flip(c.proofV)
	case "flipKey":
		flip(c.key)
	case "toAbsent":
		c.absent, c.proofKey, c.proofV = true, nil, nil
	case "toAbsentLeaf":
		if other.absent && len(other.proofKey) > 0 {
			c = claim{absent: true, key: c.key, ap: other.ap, proofKey: other.proofKey, proofV: other.proofV}
		}
	case "toPresentOfLeaf":
		if c.absent && len(c.proofKey) > 0 {
			c = claim{key: c.key, value: c.proofV, ap: c.ap}
		} else if c.absent {
			c = claim{key: c.key, value: []byte{0}, ap: c.ap}
		}
	case "split33":
		if !c.absent {
			c = claim{absent: true, key: c.key, ap: c.ap, proofKey: append(append([]byte{}, c.key...), c.value[0]), proofV: c.value[1:]}
		}
	case "split31":
		if !c.absent {
			c = claim{absent: true, key: c.key, ap: c.ap, proofKey: c.key[:31], proofV: append([]byte{c.key[31]}, c.value...)}
		}
	case "leafAsNode": // H(key|value|height) read as H(0|right)
		if !c.absent {
			blob := append(append(append([]byte{}, c.key[1:]...), c.value...), byte(256-n))
			c = claim{absent: true, key: c.key, ap: append([][]byte{blob}, c.ap...)}
		}
	case "leafAsNodeRight": // H(key|value|height) read as H(left|0)
		if !c.absent {
			blob := append(append([]byte{}, c.key...), c.value...)
			c = claim{absent: true, key: c.key, ap: append([][]byte{blob}, c.ap...)}
		}
	case "nodeAsNode63": // H(left|right) read as H(0|rest) or H(rest|0), at any level of the path
		if i := pick("i"); i >= 0 && !c.absent {
			c = reinterpret(c, model, i, false)
		}
	case "reread": // H(0|x) read as H(x'|0), which has elements of honest sizes
		if i := pick("i"); i >= 0 && !c.absent {
			c = reinterpret(c, model, i, true)
		}
	case "long":
		for len(c.ap) <= rapid.SampledFrom([]int{255, 256, 257, 300, 600}).Draw(t, "len") {
			c.ap = append(c.ap, []byte{0})
		}
	case "empty":
		c.ap = nil
	case "nilProofKey":
		c.proofKey, c.absent = nil, true
	case "nodeAsLeaf": // an inner node offered as leaf: key=left hash, value=right hash (shortened)
		if i := pick("i"); i >= 0 && !c.absent {
			d := n - 1 - i
			l, r := children(model, c.key, d)
			if len(l) == 32 && len(r) == 32 {
				c = claim{key: l, value: r[:31], ap: c.ap[i+1:]}
			}
		}
	case "prefixOfPath": // stop at an inner node and declare it empty / a leaf
		if i := pick("i"); i >= 0 {
			c.absent, c.proofKey, c.proofV = true, nil, nil
			c.ap = c.ap[i:]
		}
	}
	return c
}

// children returns the hashes (or {0}) of the children of the node at depth d on the path of key.
func children(model map[K]V, key []byte, d int) (l, r []byte) {
	if d < 0 || d > 255 || len(key) != 32 {
		return []byte{0}, []byte{0}
	}
	var lk, rk []K
	for _, k := range sortedKeys(model) {
		same := true
		for i := 0; i < d; i++ {
			if bit(k[:], i) != bit(key, i) {
				same = false
				break
			}
		}
		if same {
			if bit(k[:], d) {
				rk = append(rk, k)
			} else {
				lk = append(lk, k)
			}
		}
	}
	l, r = refSub(lk, model, d+1), refSub(rk, model, d+1)
	if l == nil {
		l = []byte{0}
	}
	if r == nil {
		r = []byte{0}
	}
	return
}

func reinterpret(c claim, model map[K]V, i int, honestSizes bool) claim {
	d := len(c.ap) - 1 - i // depth of the node re-read
	if d > 255 {
		return c
	}
	l, r := children(model, c.key, d)
	pre := append(append([]byte{}, l...), r...)
	if honestSizes && len(pre) != 33 {
		return c
	}
	var sib []byte
	if bit(c.key, d) { // declare the right child empty
		sib = pre[:len(pre)-1]
	} else {
		sib = pre[1:]
	}
	return claim{absent: true, key: c.key, ap: append([][]byte{sib}, c.ap[i+1:]...)}
}

func TestT03Soundness(t *testing.T) {
	rec := vlib.New(t, "T03", "a tree of up to 16 prefix-sharing keys (some beginning with zero bytes), a genuine proof, and 1-3 of 32 kinds of mutation, replay and "+
		"re-interpretation; non-trivial: the resulting claim is false")
	vlib.Check(t, rec, func(t *rapid.T) {
		pool := genPool(t, 16)
		if rapid.Bool().Draw(t, "zeroHead") {
			// keys that begin with a zero byte: needed by re-interpretation of leaves
			for i := range pool {
				pool[i][0] = 0
				pool[i] = noSibling(pool[i])
			}
			pool = uniq(pool)
		}
		model := map[K]V{}
		ops := genBatch(t, pool, model, 2)
		apply(model, ops)
		tr := open(t, nil, newMemDB(), -1)
		keys, values := kv(ops)
		if _, err := tr.Update(ctx, keys, values); err != nil {
			t.Fatal(err)
		}
		root := tr.Root
		if len(model) == 0 {
			return
		}
		all := append(append([]K{}, pool...), probes(t, pool, 3)...)
		claims := make([]claim, len(all))
		for i, k := range all {
			claims[i] = proveClaim(t, tr, k)
		}
		for n := rapid.IntRange(1, 12).Draw(t, "attempts"); n > 0; n-- {
			c := claims[rapid.IntRange(0, len(claims)-1).Draw(t, "claim")]
			c.ap = copyAP(c.ap)
			c.key, c.value = append([]byte(nil), c.key...), append([]byte(nil), c.value...)
			o := claims[rapid.IntRange(0, len(claims)-1).Draw(t, "other")]
			o.ap = copyAP(o.ap)
			var ms []string
			for j := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "mutations"); j > 0; j-- {
				m := rapid.SampledFrom(mutations).Draw(t, "mutation")
				ms = append(ms, m)
				if len(c.key) == 32 && (c.absent || len(c.value) == 32) {
					c = mutate(t, m, c, o, model)
				}
			}
			ok, true_ := accepted(t, root, c), truth(model, c)
			if ok && !true_ {
				if ambiguous(model, c) && rec.Known("ambiguous-empty-sibling", c.String()) {
					continue
				}
				t.Fatalf("false claim accepted after %v: %s\nroot %x, tree %s", ms, c, root, opsString(ops))
			}
			rec.Case(fmt.Sprint(c.String(), root), !true_, func() any { return map[string]any{"mutations": ms, "claim": c.String()} }, "mutation:"+ms[0], fmt.Sprintf("claimTrue=%v", true_))
		}
		// the compressed form: replays of honest compressed proofs
		for _, k := range pool {
			bm, mp, length, incl, pk, pv, err := tr.MerkleProofCompressed(ctx, k[:])
			if err != nil {
				t.Fatal(err)
			}
			o := all[rapid.IntRange(0, len(all)-1).Draw(t, "target")]
			v, there := model[o]
			if incl && there && tr.VerifyNonInclusionC(mp, length, bm, o[:], pv, k[:]) {
				t.Fatalf("compressed presence proof of %x accepted as absence proof of the present key %x", k, o)
			}
			if !incl && there && tr.VerifyNonInclusionC(mp, length, bm, o[:], pv, pk) {
				t.Fatalf("compressed absence proof of %x accepted for the present key %x", k, o)
			}
			if incl && (!there || !bytes.Equal(v[:], pv)) && tr.VerifyInclusionC(bm, o[:], pv, mp, length) {
				t.Fatalf("compressed presence proof of %x accepted for %x", k, o)
			}
		}
	})
}

func uniq(ks []K) []K {
	seen := map[K]bool{}
	out := ks[:0:0]
	for _, k := range ks {
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

// TestT03Ambiguity searches for the shape behind the known finding and for its closest relatives.
func TestT03Ambiguity(t *testing.T) {
	rec := vlib.New(t, "T03", "two keys sharing a long prefix and values chosen so that the hash of an only child begins or ends with a zero byte; every node "+
		"of the path re-read as an empty child; non-trivial: such a node exists")
	vlib.Check(t, rec, func(t *rapid.T) {
		base := K(h(rapid.SliceOfN(rapid.Byte(), 8, 8).Draw(t, "base")))
		p := rapid.IntRange(20, 200).Draw(t, "shared")
		k2 := base
		k2[p/8] ^= 1 << uint(7-p%8)
		x := rapid.Uint64().Draw(t, "values")
		found := false
		for n := 0; n < 40 && !found; n++ {
			model := map[K]V{base: V(h([]byte(fmt.Sprint(x, n)))), k2: V(h([]byte("second")))}
			root := refRoot(model)
			tr := open(t, nil, newMemDB(), -1)
			var ops []op
			for _, k := range sortedKeys(model) {
				ops = append(ops, op{Key: k, Value: model[k]})
			}
			keys, values := kv(ops)
			if _, err := tr.Update(ctx, keys, values); err != nil || !bytes.Equal(tr.Root, root) {
				t.Fatalf("update: %v", err)
			}
			honest := proveClaim(t, tr, base)
			for i := range honest.ap {
				for _, sizes := range []bool{true, false} {
					c := reinterpret(honest, model, i, sizes)
					if !c.absent {
						continue
					}
					l, r := children(model, base[:], len(honest.ap)-1-i)
					pre := append(append([]byte{}, l...), r...)
					if pre[0] == 0 && pre[len(pre)-1] == 0 {
						found = true
					}
					if accepted(t, root, c) {
						if ambiguous(model, c) && rec.Known("ambiguous-empty-sibling", c.String()) {
							continue
						}
						t.Fatalf("false claim accepted: %s", c)
					}
				}
			}
		}
		rec.Case(fmt.Sprint(base, p, x), found, func() any { return fmt.Sprintf("base %x shared %d", base[:6], p) })
	})
}

// ---------------------------------------------------------------- T04

func TestT04Reload(t *testing.T) {
	rec := vlib.New(t, "T04", "history of updates, commits and reopenings (cache depth redrawn at each opening) over up to 16 prefix-sharing keys, few distinct values; "+
		"non-trivial: at least two commits, a reopening followed by an update, and a delete or rewrite of the same value")
	vlib.Check(t, rec, func(t *rapid.T) {
		pool := genPool(t, 16)
		del := rapid.IntRange(0, 5).Draw(t, "delWeight")
		atomic := rapid.IntRange(0, 3).Draw(t, "atomic") == 0
		store := newMemDB()
		height := rapid.SampledFrom(heights).Draw(t, "cacheHeight")
		tr := open(t, nil, store, height)
		model := map[K]V{}
		var hs hist
		defer func() { t.Log(hs.sb.String()) }()
		same, updAfterReopen := 0, 0
		committed := true
		var committedModel map[K]V = map[K]V{}
		for i, n := 0, rapid.IntRange(3, 14).Draw(t, "steps"); i < n; i++ {
			switch a := rapid.IntRange(0, 9).Draw(t, "action"); {
			case a < 5:
				ops := genBatch(t, pool, model, del)
				switch rapid.IntRange(0, 4).Draw(t, "batchKind") {
				case 0: // rewrite some keys with the values they have
					for j := range ops {
						if v, ok := model[ops[j].Key]; ok {
							ops[j] = op{Key: ops[j].Key, Value: v}
						}
					}
				case 1: // go back to what is committed
					for j := range ops {
						v, ok := committedModel[ops[j].Key]
						ops[j] = op{Key: ops[j].Key, Value: v, Del: !ok}
					}
				}
				for _, o := range ops {
					if v, ok := model[o.Key]; ok && !o.Del && v == o.Value {
						same++
					}
				}
				hs.note(ops, model)
				keys, values := kv(ops)
				var err error
				if atomic {
					_, err = tr.AtomicUpdate(ctx, keys, values)
				} else {
					_, err = tr.Update(ctx, keys, values)
				}
				if err != nil {
					t.Fatalf("update: %v", err)
				}
				apply(model, ops)
				committed = false
				if hs.reopens > 0 {
					updAfterReopen++
				}
			case a < 8 && !committed:
				if err := tr.Commit(ctx); err != nil {
					t.Fatalf("commit: %v", err)
				}
				hs.commits++
				hs.sb.WriteString("commit; ")
				committed, committedModel = true, clone(model)
				// a second reader opens the committed root while this one goes on
				rd := open(t, tr.Root, store, rapid.SampledFrom(heights).Draw(t, "readerHeight"))
				if rapid.Bool().Draw(t, "loadCache") {
					if err := rd.LoadCache(ctx, tr.Root); err != nil {
						t.Fatalf("loading the cache: %v", err)
					}
				}
				checkContent(t, rd, model, pool, nil, "reopened")
				checkProofs(t, rd, tr.Root, model, pool, nil, "reopened", false)
			case committed && hs.commits > 0:
				height = rapid.SampledFrom(heights).Draw(t, "cacheHeight")
				tr = open(t, append([]byte(nil), tr.Root...), store, height)
				if len(tr.Root) == 0 {
					tr.Root = nil
				}
				if rapid.Bool().Draw(t, "loadCache") {
					if err := tr.LoadCache(ctx, tr.Root); err != nil {
						t.Fatalf("loading the cache: %v", err)
					}
				}
				hs.reopens++
				hs.sb.WriteString("reopen; ")
			}
			checkContent(t, tr, model, pool, nil, fmt.Sprintf("step %d", i))
		}
		cls := []string{fmt.Sprintf("commits=%d", min(hs.commits, 4)), fmt.Sprintf("reopens=%d", min(hs.reopens, 3))}
		if same > 0 {
			cls = append(cls, "sameValueRewritten")
		}
		if hs.reinserts > 0 {
			cls = append(cls, "reinsert")
		}
		rec.Case(hs.sb.String(), hs.commits >= 2 && updAfterReopen > 0 && (hs.dels > 0 || same > 0), func() any { return hs.sb.String() }, cls...)
	})
}

// TestT01LastBit keeps the known finding about keys that differ in the last bit alone under observation.
func TestT01LastBit(t *testing.T) {
	rec := vlib.New(t, "T01", "a single key, then a second one differing in the last bit only, in two batches; all non-trivial")
	vlib.Check(t, rec, func(t *rapid.T) {
		k := K(h(rapid.SliceOfN(rapid.Byte(), 8, 8).Draw(t, "k")))
		k2 := k
		k2[31] ^= 1
		v, v2 := genValue(t), genValue(t)
		tr := open(t, nil, newMemDB(), -1)
		model := map[K]V{k: v}
		for _, o := range []op{{Key: k, Value: v}, {Key: k2, Value: v2}} {
			keys, values := kv([]op{o})
			if _, err := tr.Update(ctx, keys, values); err != nil {
				t.Fatal(err)
			}
		}
		model[k2] = v2
		got, err := tr.Get(ctx, k[:])
		if !bytes.Equal(tr.Root, refRoot(model)) {
			t.Fatalf("wrong root")
		}
		if err != nil {
			if !rec.Known("last-bit", fmt.Sprintf("set %x, then set %x: get of the first: %v", k, k2, err)) {
				t.Fatalf("set %x, then set %x: get of the first: %v", k, k2, err)
			}
		} else if !bytes.Equal(got, v[:]) {
			t.Fatalf("get %x = %x want %x", k, got, v)
		}
		if got, err := tr.Get(ctx, k2[:]); err == nil && !bytes.Equal(got, v2[:]) {
			t.Fatalf("get %x = %x want %x", k2, got, v2)
		}
		rec.Case(fmt.Sprint(k, v, v2), true, func() any { return fmt.Sprintf("%x", k) })
	})
}

// ---------------------------------------------------------------- T05

func TestT05Faults(t *testing.T) {
	rec := vlib.New(t, "T05", "history of updates, commits, lookups and proofs on a reopened tree where the n-th storage call of one operation fails (1-3 times in a row) or a node "+
		"is missing; non-trivial: a fault was actually hit")
	vlib.Check(t, rec, func(t *rapid.T) {
		pool := genPool(t, 14)
		table := newMemDB()
		store := table.view() // of the current tree
		height := func() int { return rapid.SampledFrom(heights).Draw(t, "cacheHeight") }
		tr := open(t, nil, store, height())
		model := map[K]V{}
		committed := map[K]V{}
		var committedRoot []byte
		var hs hist
		defer func() { t.Log(hs.sb.String()) }()
		hit := map[string]int{}
		reopen := func() {
			store = table.view()
			tr = open(t, committedRoot, store, height())
			model = clone(committed)
			checkContent(t, tr, model, pool, nil, "reopened at the committed root")
			hs.sb.WriteString("reopen; ")
		}
		update := func(fault bool) {
			ops := genBatch(t, pool, model, 3)
			hs.note(ops, model)
			keys, values := kv(ops)
			if fault {
				store.arm(rapid.IntRange(1, 8).Draw(t, "at"), rapid.IntRange(1, 3).Draw(t, "for"), "")
			}
			_, err := tr.Update(ctx, keys, values)
			failed := store.failures()
			store.arm(0, 0, "")
			if (err != nil) != (fault && failed > 0) {
				t.Fatalf("update: %d storage failures, error %v", failed, err)
			}
			if err != nil {
				if !errors.Is(err, errInjected) {
					t.Fatalf("update: the error %q does not include the storage error", err)
				}
				hit["update"]++
				hs.sb.WriteString("failed; ")
				reopen()
				return
			}
			apply(model, ops)
		}
		for i, n := 0, rapid.IntRange(2, 12).Draw(t, "steps"); i < n; i++ {
			switch rapid.IntRange(0, 7).Draw(t, "action") {
			case 0, 1:
				update(false)
			case 2:
				update(true)
			case 3: // lookups and proofs under faults
				tr2 := tr
				if rapid.Bool().Draw(t, "fresh") && len(committed) > 0 {
					reopen()
					tr2 = tr
				}
				store.arm(rapid.IntRange(1, 10).Draw(t, "at"), rapid.IntRange(1, 3).Draw(t, "for"), "read")
				before := 0
				for _, k := range pool {
					got, err := tr2.Get(ctx, k[:])
					if (err != nil) != (store.failures() > before) {
						t.Fatalf("get: failures %d, error %v", store.failures()-before, err)
					}
					before = store.failures()
					v, ok := model[k]
					if err == nil && (ok && !bytes.Equal(got, v[:]) || !ok && got != nil) {
						t.Fatalf("get %x = %x, want %x (%v)", k, got, v, ok)
					}
					ap, incl, _, pv, err := tr2.MerkleProof(ctx, k[:])
					if (err != nil) != (store.failures() > before) {
						t.Fatalf("proof: failures %d, error %v", store.failures()-before, err)
					}
					before = store.failures()
					if err == nil && (incl != ok || ok && !bytes.Equal(pv, v[:])) {
						t.Fatalf("proof of %x: included %v value %x path %d, want %v %x", k, incl, pv, len(ap), ok, v)
					}
				}
				if before > 0 {
					hit["read"]++
				}
				store.arm(0, 0, "")
				checkContent(t, tr2, model, pool, nil, "after failed reads")
			case 4, 5: // commit, possibly failing
				fault := rapid.SampledFrom([]string{"", "update", "delete", "update"}).Draw(t, "failing")
				if fault != "" {
					store.arm(1, rapid.IntRange(1, 2).Draw(t, "for"), fault)
				}
				before := table.snapshot()
				err := tr.Commit(ctx)
				failed := store.failures()
				if (err != nil) != (failed > 0) {
					t.Fatalf("commit: %d storage failures, error %v", failed, err)
				}
				if err != nil {
					hit["commit-"+fault]++
					hs.sb.WriteString("commit failed (" + fault + "); ")
					if rapid.Bool().Draw(t, "giveUp") {
						store.arm(0, 0, "")
						if fault == "update" && len(before) != len(table.snapshot()) {
							t.Fatalf("a commit that could not store its nodes changed the storage")
						}
						reopen()
						continue
					}
					checkContent(t, tr, model, pool, nil, "after a failed commit")
					for tries := 0; err != nil; tries++ {
						if tries > 3 {
							t.Fatalf("commit still fails: %v", err)
						}
						err = tr.Commit(ctx)
					}
				}
				store.arm(0, 0, "")
				hs.sb.WriteString("commit; ")
				hs.commits++
				committed, committedRoot = clone(model), append([]byte(nil), tr.Root...)
				if len(committedRoot) == 0 {
					committedRoot = nil
				}
				reopen()
			case 6: // a node is missing in the storage
				if len(committed) == 0 || len(table.snapshot()) == 0 {
					continue
				}
				ks := make([]K, 0)
				for k := range table.snapshot() {
					ks = append(ks, k)
				}
				ks = uniqSorted(ks)
				gone := ks[rapid.IntRange(0, len(ks)-1).Draw(t, "gone")]
				full := table.snapshot()
				damaged := table.snapshot()
				delete(damaged, gone)
				table.replace(damaged)
				tr2 := open(t, committedRoot, table.view(), height())
				for _, k := range pool {
					got, err := tr2.Get(ctx, k[:])
					v, ok := committed[k]
					if err == nil && (ok && !bytes.Equal(got, v[:]) || !ok && got != nil) {
						t.Fatalf("a node is missing and get %x = %x, want %x (%v)", k, got, v, ok)
					}
					if err != nil {
						hit["missing"]++
					}
				}
				if msg := vlib.NoPanic(func() { _ = tr2.LoadCache(ctx, committedRoot) }); msg != "" {
					t.Fatalf("loading the cache with a missing node: %s", msg)
				}
				table.replace(full)
			case 7: // loading the cache fails
				if len(committed) == 0 {
					continue
				}
				own := table.view()
				tr2 := open(t, committedRoot, own, height())
				own.arm(rapid.IntRange(1, 6).Draw(t, "at"), 1, "read")
				err := tr2.LoadCache(ctx, committedRoot)
				if (err != nil) != (own.failures() > 0) {
					t.Fatalf("loading the cache: %d failures, error %v", own.failures(), err)
				}
				if err != nil {
					hit["loadCache"]++
				}
			}
		}
		cls := []string{}
		for k := range hit {
			cls = append(cls, "hit:"+k)
		}
		rec.Case(hs.sb.String(), len(hit) > 0, func() any { return map[string]any{"history": hs.sb.String(), "faultsHit": hit} }, cls...)
	})
}

func uniqSorted(ks []K) []K { return sortedKeysOf(ks) }

var _ = common.SHA256Hash
