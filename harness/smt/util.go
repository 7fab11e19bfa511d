// Package smt checks the sparse Merkle tree (T01..T05) against an independent definition of the tree.
package smt

import (
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
)

type K = [32]byte
type V = [32]byte

// ---------------------------------------------------------------- reference

func h(parts ...[]byte) []byte {
	s := sha256.New()
	for _, p := range parts {
		s.Write(p)
	}
	return s.Sum(nil)
}

func bit(k []byte, i int) bool { return k[i/8]&(1<<uint(7-i%8)) != 0 }

// refRoot computes the root of the tree with the given content, from the definition: an empty tree has
// no root; a subtree with a single key is its leaf H(key|value|height); otherwise H(left|right), where an
// empty child is the single byte 0.
func refRoot(m map[K]V) []byte { return refSub(sortedKeys(m), m, 0) }

func refSub(keys []K, m map[K]V, depth int) []byte {
	switch len(keys) {
	case 0:
		return nil
	case 1:
		v := m[keys[0]]
		return h(keys[0][:], v[:], []byte{byte(256 - depth)})
	}
	i := sort.Search(len(keys), func(i int) bool { return bit(keys[i][:], depth) })
	l, r := refSub(keys[:i], m, depth+1), refSub(keys[i:], m, depth+1)
	if l == nil {
		l = []byte{0}
	}
	if r == nil {
		r = []byte{0}
	}
	return h(l, r)
}

// refVerify is an independent verifier: does the path ap (leaf side first) lead from leaf to root for key?
func refVerify(root []byte, ap [][]byte, key, leaf []byte) bool {
	n := len(ap)
	cur := leaf
	for i := 0; i < n; i++ {
		d := n - 1 - i // depth of the parent
		if bit(key, d) {
			cur = h(ap[i], cur)
		} else {
			cur = h(cur, ap[i])
		}
	}
	return bytes.Equal(root, cur)
}

func sortedKeys(m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return bytes.Compare(ks[i][:], ks[j][:]) < 0 })
	return ks
}

func clone(m map[K]V) map[K]V {
	c := make(map[K]V, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

// ---------------------------------------------------------------- storage

var errInjected = errors.New("injected storage failure")

// memDB is a tree node table. failAt > 0 makes the failAt-th call from now fail (before having any effect),
// failFor further calls included.
type memDB struct {
	base    *memDB // set in views
	mu      sync.Mutex
	nodes   map[common.SHA256Output][]byte
	calls   int
	failAt  int
	failFor int
	failed  int
	onlyOp  string
	reads   int
	chunk   int // when > 0, a failing write stores this many records first
}

// view returns the same table with its own fault plan: calls that a previous tree still makes in the background
// neither use up nor trigger the faults armed for another one.
func (m *memDB) view() *memDB { return &memDB{base: m} }

func (m *memDB) table() *memDB {
	if m.base != nil {
		return m.base
	}
	return m
}

func newMemDB() *memDB { return &memDB{nodes: map[common.SHA256Output][]byte{}} }

func (m *memDB) Close() error { return nil }

func (m *memDB) fail(op string) bool {
	if m.failAt == 0 || (m.onlyOp != "" && m.onlyOp != op) {
		return false
	}
	m.calls++
	if m.calls >= m.failAt && m.calls < m.failAt+m.failFor {
		m.failed++
		return true
	}
	return false
}

func (m *memDB) arm(at, n int, op string) {
	m.mu.Lock()
	m.calls, m.failAt, m.failFor, m.failed, m.onlyOp = 0, at, n, 0, op
	m.mu.Unlock()
}

func (m *memDB) failures() int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.failed
}

func (m *memDB) RetrieveTreeNode(ctx context.Context, key common.SHA256Output) ([]byte, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	tab := m.table()
	if tab != m {
		tab.mu.Lock()
		defer tab.mu.Unlock()
	}
	m.reads++
	if m.fail("read") {
		return nil, errInjected
	}
	v, ok := tab.nodes[key]
	if !ok {
		return nil, nil // as the SQL implementation does
	}
	return append([]byte(nil), v...), nil
}

func (m *memDB) UpdateTreeNodes(ctx context.Context, recs []*db.TreeNodeRecord) (int, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	tab := m.table()
	if tab != m {
		tab.mu.Lock()
		defer tab.mu.Unlock()
	}
	if m.fail("update") {
		return 0, errInjected
	}
	for _, r := range recs {
		tab.nodes[r.Key] = append([]byte(nil), r.Value...)
	}
	return len(recs), nil
}

func (m *memDB) DeleteTreeNodes(ctx context.Context, keys []common.SHA256Output) (int, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	tab := m.table()
	if tab != m {
		tab.mu.Lock()
		defer tab.mu.Unlock()
	}
	if m.fail("delete") {
		return 0, errInjected
	}
	n := 0
	for _, k := range keys {
		if _, ok := tab.nodes[k]; ok {
			n++
			delete(tab.nodes, k)
		}
	}
	return n, nil
}

func (m *memDB) snapshot() map[common.SHA256Output][]byte {
	m.mu.Lock()
	defer m.mu.Unlock()
	c := make(map[common.SHA256Output][]byte, len(m.nodes))
	for k, v := range m.nodes {
		c[k] = v
	}
	return c
}

func (m *memDB) replace(nodes map[common.SHA256Output][]byte) {
	m.mu.Lock()
	m.nodes = nodes
	m.mu.Unlock()
}

// ---------------------------------------------------------------- generators

// genPool generates a pool of distinct keys, most of which share long prefixes with one another.
func genPool(t *rapid.T, maxN int) []K {
	n := rapid.IntRange(1, maxN).Draw(t, "poolSize")
	seen := map[K]bool{}
	pool := make([]K, 0, n)
	for len(pool) < n {
		var k K
		how := rapid.IntRange(0, 9).Draw(t, "keyKind")
		if len(pool) == 0 || how == 0 {
			b := rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "key")
			copy(k[:], b)
		} else {
			// a neighbour: equal up to bit p, differing there, the rest equal, zero, ones or random
			k = pool[rapid.IntRange(0, len(pool)-1).Draw(t, "from")]
			var p int
			switch rapid.IntRange(0, 3).Draw(t, "depthKind") {
			case 0:
				p = rapid.IntRange(0, 7).Draw(t, "bit")
			case 1:
				p = rapid.IntRange(0, 255).Draw(t, "bit")
			case 2:
				p = 4*rapid.IntRange(0, 63).Draw(t, "nibble") + rapid.IntRange(0, 1).Draw(t, "off")*3
			default:
				p = rapid.IntRange(248, 255).Draw(t, "bit")
			}
			k[p/8] ^= 1 << uint(7-p%8)
			if tail := rapid.IntRange(0, 3).Draw(t, "tail"); tail > 0 {
				for i := p + 1; i < 256; i++ {
					var on bool
					switch tail {
					case 1:
						on = false
					case 2:
						on = true
					default:
						on = (i*7+p*3)%5 < 2
					}
					if on {
						k[i/8] |= 1 << uint(7-i%8)
					} else {
						k[i/8] &^= 1 << uint(7-i%8)
					}
				}
			}
		}
		k = noSibling(k)
		if seen[k] {
			// make progress by construction: count upwards
			for seen[k] {
				for i := 30; i >= 0; i-- {
					k[i]++
					if k[i] != 0 {
						break
					}
				}
				k = noSibling(k)
			}
		}
		seen[k] = true
		pool = append(pool, k)
	}
	return pool
}

// noSibling makes the last bit a function of the others: the tree is only claimed to work for keys that do
// not differ in the last bit alone (see the known finding T01/last-bit; keys are SHA-256 values).
func noSibling(k K) K {
	k[31] = k[31]&^1 | k[0]>>7
	return k
}

func genValue(t *rapid.T) V {
	// few distinct values, so that a key often returns to an earlier value or shares one with others
	x := rapid.IntRange(0, 5).Draw(t, "value")
	if x == 5 {
		var v V
		b := rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "valueBytes")
		copy(v[:], b)
		return v
	}
	return V(sha256.Sum256([]byte{byte(x)}))
}

type op struct {
	Key   K
	Value V
	Del   bool
}

// genBatch generates a sorted batch of updates over distinct keys of the pool.
func genBatch(t *rapid.T, pool []K, model map[K]V, delWeight int) []op {
	idx := rapid.SliceOfNDistinct(rapid.IntRange(0, len(pool)-1), 1, len(pool), rapid.ID[int]).Draw(t, "keys")
	ops := make([]op, 0, len(idx))
	for _, i := range idx {
		o := op{Key: pool[i]}
		cur, present := model[pool[i]]
		switch x := rapid.IntRange(0, 9).Draw(t, "what"); {
		case x < delWeight:
			o.Del = true
		case x == 9 && present:
			o.Value = cur // write the same value again
		default:
			o.Value = genValue(t)
		}
		ops = append(ops, o)
	}
	sort.Slice(ops, func(i, j int) bool { return bytes.Compare(ops[i].Key[:], ops[j].Key[:]) < 0 })
	return ops
}

func kv(ops []op) (keys, values [][]byte) {
	for _, o := range ops {
		keys = append(keys, append(make([]byte, 0, 32), o.Key[:]...))
		if o.Del {
			values = append(values, []byte{0})
		} else {
			values = append(values, append(make([]byte, 0, 32), o.Value[:]...))
		}
	}
	return
}

func apply(model map[K]V, ops []op) {
	for _, o := range ops {
		if o.Del {
			delete(model, o.Key)
		} else {
			model[o.Key] = o.Value
		}
	}
}

func opsString(ops []op) string {
	var sb strings.Builder
	for _, o := range ops {
		if o.Del {
			fmt.Fprintf(&sb, "-%x ", o.Key[:])
		} else {
			fmt.Fprintf(&sb, "%x=%x ", o.Key[:], o.Value[:4])
		}
	}
	return sb.String()
}

// probes returns keys to ask for besides those of the pool: bit neighbours of pool keys.
func probes(t *rapid.T, pool []K, n int) []K {
	out := make([]K, 0, n)
	for i := 0; i < n; i++ {
		k := pool[rapid.IntRange(0, len(pool)-1).Draw(t, "probeFrom")]
		p := rapid.IntRange(0, 255).Draw(t, "probeBit")
		k[p/8] ^= 1 << uint(7-p%8)
		out = append(out, k)
	}
	return out
}

func maxShared(ks []K) int {
	best := 0
	for i := 1; i < len(ks); i++ {
		d := 0
		for d < 256 && bit(ks[i-1][:], d) == bit(ks[i][:], d) {
			d++
		}
		if d > best {
			best = d
		}
	}
	return best
}

// RefRoot is the root of the tree with the given content, by its definition (nil for the empty tree).
func RefRoot(m map[K]V) []byte { return refRoot(m) }

// RefVerify tells whether the path ap (leaf side first) leads from leaf to root for key.
func RefVerify(root []byte, ap [][]byte, key, leaf []byte) bool {
	return refVerify(root, ap, key, leaf)
}
