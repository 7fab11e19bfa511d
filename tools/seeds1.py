import sys; sys.path.insert(0, '/verif/tools')
from seed import mk
only = set(sys.argv[1:])
def bug(id, *a, **k):
    if not only or id in only: mk(id, *a, **k)

TRIE_HEAD = '''
package trie

import (
	"bytes"
	"context"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
)

type memStore map[common.SHA256Output][]byte

func (m memStore) Close() error { return nil }
func (m memStore) RetrieveTreeNode(_ context.Context, k common.SHA256Output) ([]byte, error) {
	return m[k], nil
}
func (m memStore) UpdateTreeNodes(_ context.Context, l []*db.TreeNodeRecord) (int, error) {
	for _, r := range l {
		m[r.Key] = r.Value
	}
	return len(l), nil
}
func (m memStore) DeleteTreeNodes(_ context.Context, l []common.SHA256Output) (int, error) {
	for _, k := range l {
		delete(m, k)
	}
	return len(l), nil
}

func key(first byte, rest byte) []byte {
	k := bytes.Repeat([]byte{rest}, 32)
	k[0] = first
	return k
}

func must(t *testing.T, err error) {
	if err != nil {
		t.Helper()
		t.Fatal(err)
	}
}
'''
bug('t01-sibling-shortcut', 'T01',
    [('pkg/mapserver/trie/trie.go', 'if lResult.deleted || rResult.deleted {', 'if lResult.deleted && rResult.deleted {')],
    'pkg/mapserver/trie', TRIE_HEAD + '''
func TestZZDemo(t *testing.T) {
	ctx := context.Background()
	tr, err := NewTrie(nil, common.SHA256Hash, memStore{})
	must(t, err)
	a, b := key(0x10, 1), key(0xf0, 2)
	_, err = tr.Update(ctx, [][]byte{a, b}, [][]byte{key(1, 1), key(2, 2)})
	must(t, err)
	_, err = tr.Update(ctx, [][]byte{a, b}, [][]byte{DefaultLeaf, key(3, 3)})
	must(t, err)
	ref, err := NewTrie(nil, common.SHA256Hash, memStore{})
	must(t, err)
	_, err = ref.Update(ctx, [][]byte{b}, [][]byte{key(3, 3)})
	must(t, err)
	if !bytes.Equal(tr.Root, ref.Root) {
		t.Fatalf("same content, different roots %x %x", tr.Root, ref.Root)
	}
}
''', 'one batch that deletes the last key on one side of a subtree and writes the single key of the other side',
    'the remaining key is not moved up, so that the root depends on the history')

bug('c05-record-before-log', 'C05',
    [('pkg/pca/pca.go', '''	if err := pca.sendFinalPolCertToAllLogServers(pc); err != nil {
		return nil, err
	}

	if err := pca.storeInDb(pc); err != nil {
		return nil, err
	}
''', '''	if err := pca.storeInDb(pc); err != nil {
		return nil, err
	}

	if err := pca.sendFinalPolCertToAllLogServers(pc); err != nil {
		return nil, err
	}
''')],
    'pkg/pca', '''
package pca

import (
	"crypto/rand"
	"crypto/rsa"
	"errors"
	"testing"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/util"
)

type failingLog struct{}

func (failingLog) ObtainSptFromLogServer(string, *common.PolicyCertificate) (*common.SignedPolicyCertificateTimestamp, error) {
	return common.NewSignedPolicyCertificateTimestamp(0, []byte{1}, time.Unix(1, 0), []byte{2}), nil
}
func (failingLog) SendPolicyCertificateToLogServer(string, *common.PolicyCertificate) error {
	return errors.New("log server is down")
}

func TestZZDemo(t *testing.T) {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	der, err := util.RSAPublicToDERBytes(&k.PublicKey)
	if err != nil {
		t.Fatal(err)
	}
	t0, t1 := time.Unix(0, 0), time.Now().Add(time.Hour)
	root := common.NewPolicyCertificate(0, 1, "", t0, t1, true, true, der, common.RSA, common.SHA256,
		t0, common.PolicyAttributes{}, nil, nil, nil, nil, nil)
	p := &PCA{
		CAName: "pca", RsaKeyPair: k, RootPolicyCert: root, LogServerRequester: failingLog{},
		CtLogServers: map[[32]byte]*CTLogServerEntryConfig{{1}: {Name: "log"}},
		DB:           map[[32]byte]*common.PolicyCertificate{},
	}
	req, err := p.NewPolicyCertificateSigningRequest(0, "a.com", t0.Add(time.Hour), t1, true, true, der, common.RSA,
		common.SHA256, common.PolicyAttributes{}, func([]byte) []byte { return nil }, nil)
	if err != nil {
		t.Fatal(err)
	}
	if _, err = p.SignAndLogRequest(req); err == nil {
		t.Fatal("no error although the log server failed")
	}
	if len(p.DB) != 0 {
		t.Fatal("the certificate was recorded although it was not logged")
	}
}
''', 'a log server that gives a timestamp but fails to register the final certificate',
    'the certificate is recorded as issued although it was never registered')

bug('d01-label-length', 'D01',
    [('pkg/domain/domain.go', '[[:alnum:]-]{0,61}[[:alnum:]])$', '[[:alnum:]-]{0,62}[[:alnum:]])$')],
    'pkg/domain', '''
package domain

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	if !IsValidDomain(strings.Repeat("a", 63) + ".com") {
		t.Fatal("label with 63 characters refused")
	}
	if IsValidDomain(strings.Repeat("a", 64) + ".com") {
		t.Fatal("label with 64 characters accepted")
	}
}
''', 'a label with exactly 64 characters', 'a name that is no domain name is accepted')

bug('i04-merge-one', 'I04',
    [('cmd/ingest/journal/journal.go', 'for idx < len(intervals) && canMerge(interval, intervals[idx]) {',
      'if idx < len(intervals) && canMerge(interval, intervals[idx]) {')],
    'cmd/ingest/journal', '''
package journal

import (
	"os"
	"path/filepath"
	"testing"
)

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	b := filepath.Join(dir, "in", "bundled")
	if err := os.MkdirAll(b, 0o755); err != nil {
		t.Fatal(err)
	}
	f := func(n string) string { return filepath.Join(b, n+".gz") }
	for _, n := range []string{"0-59", "10-19", "30-39", "45-49"} {
		if err := os.WriteFile(f(n), nil, 0o644); err != nil {
			t.Fatal(err)
		}
	}
	cfg, _ := NewJobConfiguration("", 1, false)
	j, err := NewJournal(filepath.Join(dir, "journal.json"), cfg, filepath.Join(dir, "in"))
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"10-19", "30-39", "0-59"} {
		if err := j.CommitProgress([]string{f(n)}, false, false); err != nil {
			t.Fatal(err)
		}
	}
	p, err := j.PendingFiles()
	if err != nil {
		t.Fatal(err)
	}
	if len(p) != 0 {
		t.Fatalf("pending although covered: %v", p)
	}
}
''', 'a completed file whose range covers several separate ranges completed before',
    'the intervals are not merged, and files that are covered are ingested again')

bug('v01-same-size', 'V01',
    [('pkg/logverifier/verifier.go', 'case trusted.TreeSize != 0:', 'case trusted.TreeSize != 0 && trusted.TreeSize != newRoot.TreeSize:')],
    'pkg/logverifier', '''
package logverifier

import (
	"testing"

	"github.com/google/trillian/types"
)

func TestZZDemo(t *testing.T) {
	v := NewLogVerifier(nil)
	a := &types.LogRootV1{TreeSize: 3, RootHash: make([]byte, 32)}
	b := &types.LogRootV1{TreeSize: 3, RootHash: append(make([]byte, 31), 1)}
	if _, err := v.VerifyRoot(a, a, nil); err != nil {
		t.Fatal(err)
	}
	if _, err := v.VerifyRoot(a, b, nil); err == nil {
		t.Fatal("another root for the same tree size was accepted")
	}
}
''', 'a log that shows two different tree heads of the same size', 'a split view is accepted')

CRY = '''
package crypto

import (
	"crypto/rand"
	"crypto/rsa"
	"testing"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/util"
)

func pol(t *testing.T, k *rsa.PrivateKey, dom string) *common.PolicyCertificate {
	der, err := util.RSAPublicToDERBytes(&k.PublicKey)
	if err != nil {
		t.Fatal(err)
	}
	return common.NewPolicyCertificate(0, 1, dom, time.Unix(10, 0), time.Unix(20, 0), true, true, der, common.RSA,
		common.SHA256, time.Unix(15, 0), common.PolicyAttributes{}, nil, nil, nil, nil, nil)
}

func newKey(t *testing.T) *rsa.PrivateKey {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	return k
}
'''
bug('c02-unsigned-spcts', 'C02',
    [('pkg/common/crypto/crypto.go', '''	signature, err := signStructRSASHA256(childPolCert, privKey)
''', '''	SPCTs := childPolCert.SPCTs
	childPolCert.SPCTs = nil
	signature, err := signStructRSASHA256(childPolCert, privKey)
	childPolCert.SPCTs = SPCTs
'''), ('pkg/common/crypto/crypto.go', '''	sig := childPolCert.IssuerSignature
	childPolCert.IssuerSignature = nil
	serializedStruct, err := common.ToJSON(childPolCert)
	childPolCert.IssuerSignature = sig // restore previous signature
''', '''	sig, SPCTs := childPolCert.IssuerSignature, childPolCert.SPCTs
	childPolCert.IssuerSignature, childPolCert.SPCTs = nil, nil
	serializedStruct, err := common.ToJSON(childPolCert)
	childPolCert.IssuerSignature, childPolCert.SPCTs = sig, SPCTs // restore previous values
''')],
    'pkg/common/crypto', CRY + '''
func TestZZDemo(t *testing.T) {
	k := newKey(t)
	iss, c := pol(t, k, ""), pol(t, k, "a.com")
	c.SPCTs = []common.SignedPolicyCertificateTimestamp{
		*common.NewSignedPolicyCertificateTimestamp(0, []byte{1}, time.Unix(16, 0), []byte{2})}
	if err := SignPolicyCertificateAsIssuer(iss, k, c); err != nil {
		t.Fatal(err)
	}
	if err := VerifyIssuerSignature(iss, c); err != nil {
		t.Fatal(err)
	}
	c.SPCTs[0].LogID = []byte{7}
	if err := VerifyIssuerSignature(iss, c); err == nil {
		t.Fatal("the timestamps can be changed without the issuer's signature noticing")
	}
}
''', 'a policy certificate with log timestamps, changed after it was signed',
    'the issuer signature does not cover the timestamps (signing and verifying agree)')

bug('t05-right-error', 'T05',
    [('pkg/mapserver/trie/trie.go', '	if rResult.err != nil {\n', '	if rResult.err != nil && len(rResult.update) != 0 {\n')],
    'pkg/mapserver/trie', TRIE_HEAD.replace('import (', 'import (\n\t"errors"') + '''
type failStore struct {
	memStore
	fail common.SHA256Output
}

func (f failStore) RetrieveTreeNode(ctx context.Context, k common.SHA256Output) ([]byte, error) {
	if k == f.fail {
		return nil, errors.New("storage failure")
	}
	return f.memStore.RetrieveTreeNode(ctx, k)
}

func TestZZDemo(t *testing.T) {
	ctx := context.Background()
	st := memStore{}
	tr, err := NewTrie(nil, common.SHA256Hash, st)
	must(t, err)
	var keys, vals, vals2 [][]byte
	for i := 0; i < 64; i++ {
		keys = append(keys, key(byte(i*4), 1))
		vals = append(vals, key(1, byte(i)))
		vals2 = append(vals2, key(2, byte(i)))
	}
	_, err = tr.Update(ctx, keys, vals)
	must(t, err)
	must(t, tr.Commit(ctx))
	n := 0
	for k := range st {
		re, err := NewTrie(tr.Root, common.SHA256Hash, failStore{st, k})
		must(t, err)
		if _, err = re.Update(ctx, keys, vals2); err == nil {
			n++
		}
	}
	if n > 0 {
		t.Fatalf("%d of %d failing nodes were not reported", n, len(st))
	}
}
''', 'a storage failure while the right one of two subtrees updated together is read',
    'the update reports success and yields a wrong root')

bug('p03-early-release', 'P03',
    [('pkg/pipeline/stall_resume.go', '''						workingStagesWgMu.Lock()
						defer workingStagesWgMu.Unlock()
						DebugPrintf("[%s] [stall-releaser] waiting for stages to stall\\n", s.Base().Name)
						workingStagesWg.Wait()
''', '''						workingStagesWgMu.Lock()
						DebugPrintf("[%s] [stall-releaser] waiting for stages to stall\\n", s.Base().Name)
						workingStagesWg.Wait()
						workingStagesWgMu.Unlock()
''')],
    'pkg/pipeline', '''
package pipeline

import (
	"context"
	"sync/atomic"
	"testing"
	"time"
)

// The stages work on an item, and get another, while the pause begins.
func TestZZDemo(t *testing.T) {
	var inside, bad, calls atomic.Int32
	n := 0
	src := NewSource[int]("src", WithSourceFunction(func() ([]int, []int, error) {
		n++
		time.Sleep(200 * time.Microsecond)
		if n > 400 {
			return nil, nil, NoMoreData
		}
		return []int{n}, []int{n % 2}, nil
	}), WithMultiOutputChannels[None, int](2))
	work := func(in int) error {
		inside.Add(1)
		time.Sleep(100 * time.Microsecond)
		inside.Add(-1)
		return nil
	}
	a := NewSink[int]("a", WithSinkFunction(func(int) error { return nil }))
	b := NewSink[int]("b", WithSinkFunction(work))
	p, err := NewPipeline(
		func(p *Pipeline) {
			LinkStagesFanOut(SourceStage[int](p), SinkAsStage(a), SinkAsStage(b))
		},
		WithStages(src, a, b),
		WithStallStages([]StageLike{b}, func() {
			for i := 0; i < 50; i++ {
				if inside.Load() != 0 {
					bad.Add(1)
				}
				time.Sleep(20 * time.Microsecond)
			}
		}, func(StageLike) bool {
			return calls.Add(1)%7 == 0
		}, []StageLike{a}),
	)
	if err != nil {
		t.Fatal(err)
	}
	p.Resume(context.Background())
	if err := p.Wait(context.Background()); err != nil {
		t.Fatal(err)
	}
	if bad.Load() != 0 {
		t.Fatalf("a paused stage was working %d times", bad.Load())
	}
}
''', 'a paused stage that has its item already when the pause begins', 'paused stages work during the pause')

bug('u05-recency', 'U05',
    [('pkg/cache/lru_cache.go', '	return c.Cache.Contains(*id)', '	_, ok := c.Cache.Get(*id)\n	return ok')],
    'pkg/cache', '''
package cache

import (
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
)

func TestZZDemo(t *testing.T) {
	c := NewLruCache(2)
	a, b, d := &common.SHA256Output{1}, &common.SHA256Output{2}, &common.SHA256Output{3}
	c.AddIDs(a)
	c.AddIDs(b)
	c.Contains(a)
	c.AddIDs(d)
	if !c.Contains(b) || !c.Contains(d) {
		t.Fatal("the two most recently added elements are not both present")
	}
}
''', 'a lookup of an old element between two additions to a full cache',
    'lookups change which elements are kept, and a recently added one is forgotten')

bug('u02-shared-issuer', 'U02',
    [('pkg/util/certificate.go', '''		var pendingChains [][]*ctx509.Certificate
		for i, c := range leafCerts {
''', '''		var pendingChains [][]*ctx509.Certificate
		pendingIDs := make(map[common.SHA256Output]struct{})
		for i, c := range leafCerts {
'''), ('pkg/util/certificate.go', '''				pendingCerts = append(pendingCerts, *parent)
				pendingChains = append(pendingChains, chains[i][1:])
''', '''				// One occurrence of an issuer is enough.
				if _, ok := pendingIDs[ID]; !ok {
					pendingIDs[ID] = struct{}{}
					pendingCerts = append(pendingCerts, *parent)
					pendingChains = append(pendingChains, chains[i][1:])
				}
''')],
    'pkg/util', '''
package util

import (
	"testing"

	ctx509 "github.com/google/certificate-transparency-go/x509"
)

func TestZZDemo(t *testing.T) {
	cert := func(b byte) *ctx509.Certificate { return &ctx509.Certificate{Raw: []byte{b}} }
	issuer := cert(10)
	certs, _, _, _ := UnfoldCerts([]ctx509.Certificate{*cert(1), *cert(2)},
		[][]*ctx509.Certificate{{issuer, cert(20)}, {issuer, cert(30)}})
	have := map[byte]bool{}
	for _, c := range certs {
		have[c.Raw[0]] = true
	}
	for _, b := range []byte{1, 2, 10, 20, 30} {
		if !have[b] {
			t.Fatalf("certificate %d was lost", b)
		}
	}
}
''', 'an issuer that occurs in two chains with different (cross-signed) continuations',
    'the certificates above the second occurrence are lost')

bug('u03-swapped-duplicate', 'U03',
    [('pkg/util/deduplicateSlice.go', '''		for _, s := range slices[1:] {
			s.CopyElem(i, lastElemIndex) // len(master) was already decreased
		}
''', '''		if i < lastElemIndex-1 {
			for _, s := range slices[1:] {
				s.CopyElem(i, lastElemIndex) // len(master) was already decreased
			}
		}
''')],
    'pkg/util', '''
package util

import "testing"

func TestZZDemo(t *testing.T) {
	m := []int{1, 1, 2}
	s := []string{"a", "a", "b"}
	DeduplicateSlice(WithSlice(m), Wrap(&m), Wrap(&s))
	if len(m) != 2 || len(s) != 2 || m[1] != 2 || s[1] != "b" {
		t.Fatal(m, s)
	}
}
''', 'a duplicate right before the last element', 'the values are not aligned with the keys any more')

bug('c04-issuer-hash', 'C04',
    [('pkg/common/crypto/crypto.go', '''	SPCTs, issuerSignature := p.SPCTs, p.IssuerSignature
	p.SPCTs, p.IssuerSignature = nil, nil
''', '''	SPCTs, issuerSignature, issuerHash := p.SPCTs, p.IssuerSignature, p.IssuerHash
	p.SPCTs, p.IssuerSignature, p.IssuerHash = nil, nil, nil
'''), ('pkg/common/crypto/crypto.go', '''	p.SPCTs, p.IssuerSignature = SPCTs, issuerSignature

	return common.SHA256Hash''', '''	p.SPCTs, p.IssuerSignature, p.IssuerHash = SPCTs, issuerSignature, issuerHash

	return common.SHA256Hash''')],
    'pkg/common/crypto', CRY + '''
func TestZZDemo(t *testing.T) {
	c := pol(t, newKey(t), "a.com")
	a, err := ComputeHashAsSigner(c)
	if err != nil {
		t.Fatal(err)
	}
	c.IssuerHash = []byte{1, 2, 3}
	b, err := ComputeHashAsSigner(c)
	if err != nil {
		t.Fatal(err)
	}
	if string(a) == string(b) {
		t.Fatal("the same policy certificate under another issuer has the same identity")
	}
}
''', 'two policy certificates that differ only in their issuer', 'they share one signer identity')
