#!/usr/bin/env python3
"""Bugs in the libraries, the log readers, the tree, the pipelines and the bulk ingestion (see plant.py)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import bug, main

CR = 'pkg/common/crypto/crypto.go'
CRY = '''
package crypto_test

import (
	"testing"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/pkg/tests/random"
	"github.com/netsec-ethz/fpki/pkg/util"
)

var _ = time.Now
var _ common.PolicyAttributes
var _ = util.TimeFromSecs
var _ = crypto.SignBytes
'''
bug('c02-owner-exclusions', 'C02', [
    (CR, '''	ownerSignature, err := signStructRSASHA256(common.NewPolicyCertificateFromRequest(req), ownerKey)
''', '''	ownerSignature, err := signStructRSASHA256(ownedPart(common.NewPolicyCertificateFromRequest(req)), ownerKey)
'''),
    (CR, '''	serializedStruct, err := common.ToJSON(c)
	c.SPCTs,''', '''	serializedStruct, err := common.ToJSON(ownedPart(c))
	c.SPCTs,'''),
    (CR, '''// VerifyOwnerSignature verifies the owner's''', '''// ownedPart returns what the owner signs. Exclusions are the issuer's: the owner does not sign them.
func ownedPart(c *common.PolicyCertificate) *common.PolicyCertificate {
	o := *c
	o.PolicyAttributes.ExcludedSubdomains = nil
	return &o
}

// VerifyOwnerSignature verifies the owner's'''),
], 'pkg/common/crypto', CRY + '''
func TestZZDemo(t *testing.T) {
	key := random.RandomRSAPrivateKey(t)
	der, err := util.RSAPublicToDERBytes(&key.PublicKey)
	if err != nil {
		t.Fatal(err)
	}
	owner := random.RandomPolicyCertificate(t)
	owner.PublicKey, owner.CanOwn = der, true
	req := random.RandomPolCertSignRequest(t)
	req.OwnerSignature, req.OwnerHash = nil, nil
	req.PolicyAttributes.ExcludedSubdomains = []string{"a"}
	if err := crypto.SignAsOwner(owner, key, req); err != nil {
		t.Fatal(err)
	}
	if err := crypto.VerifyOwnerSignature(owner, req); err != nil {
		t.Fatal(err)
	}
	req.PolicyAttributes.ExcludedSubdomains = []string{"a", "b"}
	if err := crypto.VerifyOwnerSignature(owner, req); err == nil {
		t.Fatal("accepted with other attributes than signed")
	}
}
''', 'the excluded subdomains of a request changed after the owner signed it; signing and verification both leave them out',
 'The owner signature does not cover the excluded subdomains: changing them keeps the signature valid.')

bug('c03-whole-seconds', 'C03', [(CR, 'if issuerPolCert.NotAfter.Before(childPolCert.NotAfter) {',
    'if issuerPolCert.NotAfter.Truncate(time.Second).Before(childPolCert.NotAfter.Truncate(time.Second)) {')],
    'pkg/common/crypto', CRY + '''
func TestZZDemo(t *testing.T) {
	a, b := random.RandomPolicyCertificate(t), random.RandomPolicyCertificate(t)
	a.DomainField, b.DomainField = "a.com", "b.a.com"
	a.NotBefore, b.NotBefore = util.TimeFromSecs(10), util.TimeFromSecs(10)
	a.NotAfter, b.NotAfter = util.TimeFromSecs(100), util.TimeFromSecs(100)
	if err := crypto.VerifyIssuerConstraints(a, b); err != nil {
		t.Fatal(err)
	}
	b.NotAfter = b.NotAfter.Add(400 * time.Millisecond)
	if err := crypto.VerifyIssuerConstraints(a, b); err == nil {
		t.Fatal("outlives its issuer")
	}
}
''', 'a policy certificate that ends less than a second after its issuer', 'A certificate whose validity ends after that of its issuer is accepted.')

bug('c04-any-log', 'C04', [('pkg/common/embedded_policies.go', '''		SignedEntryTimestamp: *NewSignedEntryTimestamp(
			spct.Version,
			spct.LogID,''', '''		SignedEntryTimestamp: *NewSignedEntryTimestamp(
			spct.Version,
			nil,''')], 'pkg/common/crypto', CRY + '''
func TestZZDemo(t *testing.T) {
	key := random.RandomRSAPrivateKey(t)
	pc := random.RandomPolicyCertificate(t)
	pc.SPCTs = nil
	spt, err := crypto.SignPolicyCertificateTimestamp(pc, 1, []byte("log"), key)
	if err != nil {
		t.Fatal(err)
	}
	for _, log := range []string{"log", "other"} {
		data, err := common.ToJSON(pc)
		if err != nil {
			t.Fatal(err)
		}
		s := common.NewSignedPolicyCertificateTimestamp(spt.Version, []byte(log), spt.AddedTS, nil)
		input, err := common.ToJSON(common.NewSignedEntryTimestampSignatureInput(data, s))
		if err != nil {
			t.Fatal(err)
		}
		if ok := crypto.VerifySignedBytes(input, spt.Signature, &key.PublicKey) == nil; ok != (log == "log") {
			t.Fatal(log, ok)
		}
	}
}
''', 'a timestamp presented as one of another log', 'A timestamp signature verifies for any log identity.')

bug('c06-deep-names', 'C06', [('pkg/common/policies.go', 'strings.Split(targetSubdomain, ".")', 'strings.SplitN(targetSubdomain, ".", 3)')],
    'pkg/common', '''
package common_test

import (
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
)

func TestZZDemo(t *testing.T) {
	a := common.PolicyAttributes{DisallowedSubdomains: []string{"bad"}}
	for _, d := range []string{"bad.a.com", "x.bad.a.com", "y.x.bad.a.com", "z.y.x.bad.a.com", "w.z.y.x.bad.a.com"} {
		if r := a.CheckDomainValidity("a.com", d); r != common.PolicyAttributeDomainDisallowed {
			t.Fatal(d, r)
		}
	}
}
''', 'a name four or more labels below the policy domain', 'Deep names are classified by the wrong label: names below a disallowed one are allowed.')

bug('c01-revocation-timestamps', 'C01', [('pkg/common/policies.go', '''		bytes.Equal(r.IssuerHash, x.IssuerHash) &&
		equalSlices(r.SPCRTs, x.SPCRTs)''', '''		bytes.Equal(r.IssuerHash, x.IssuerHash) &&
		len(r.SPCRTs) == len(x.SPCRTs)''')], 'pkg/common', '''
package common_test

import (
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/util"
)

func TestZZDemo(t *testing.T) {
	rev := func(sig byte) common.PolicyCertificateRevocation {
		s := common.NewSignedPolicyCertificateRevocationTimestamp(1, []byte{1}, util.TimeFromSecs(1), []byte{sig})
		return *common.NewPolicyCertificateRevocation(1, 2, util.TimeFromSecs(3), nil, nil,
			[]common.SignedPolicyCertificateRevocationTimestamp{*s}, nil, nil)
	}
	if !rev(1).Equal(rev(1)) || rev(1).Equal(rev(2)) {
		t.Fatal("wrong comparison")
	}
}
''', 'two revocations that differ only in the content of their timestamps', 'Different revocations are equal.')

bug('u01-split-marker', 'U01', [('pkg/util/certReader.go', '''				// No PEM block found, try to read more data and try again.
				break''', '''				// No PEM block found, try to read more data and try again. Text outside is not kept.
				if !bytes.Contains(r.buff, []byte("-----BEGIN")) {
					r.buff = r.buff[len(r.buff):]
				}
				break'''), ('pkg/util/certReader.go', '''import (
	"encoding/pem"''', '''import (
	"bytes"
	"encoding/pem"''')], 'pkg/util', '''
package util_test

import (
	"bytes"
	"encoding/pem"
	"io"
	"testing"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/netsec-ethz/fpki/pkg/tests/random"
	"github.com/netsec-ethz/fpki/pkg/util"
)

// parts returns its elements one per call.
type parts [][]byte

func (p *parts) Read(b []byte) (int, error) {
	if len(*p) == 0 {
		return 0, io.EOF
	}
	n := copy(b, (*p)[0])
	*p = (*p)[1:]
	return n, nil
}

func TestZZDemo(t *testing.T) {
	var all []byte
	for i := 0; i < 3; i++ {
		c := random.RandomX509Cert(t, "a.com")
		all = append(all, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.Raw})...)
	}
	i := bytes.LastIndex(all, []byte("-----BEGIN"))
	for d := -2; d < 14; d++ {
		n, err := util.NewCertReader(&parts{all[:i+d], all[i+d:]}).Read(make([]ctx509.Certificate, 4))
		if err != nil || n != 3 {
			t.Fatal(d, n, err)
		}
	}
}
''', 'a read of the underlying reader that ends inside the marker of a certificate', 'Certificates whose begin marker is split between two reads are silently dropped.')

bug('u03-storage-kept', 'U03', [('pkg/util/deduplicateSlice.go', '''	clear(storage)

''', '''	if len(storage) > master.Len() {
		clear(storage)
	}

''')], 'pkg/util', '''
package util_test

import (
	"testing"

	"github.com/netsec-ethz/fpki/pkg/util"
)

func TestZZDemo(t *testing.T) {
	storage := make(map[int]struct{})
	for _, n := range []int{3, 5, 2, 2, 7} {
		s := []int{}
		for i := 0; i < n; i++ {
			s = append(s, i)
		}
		util.DeduplicateSliceWithStorage(storage, util.WithSlice(s), util.Wrap(&s))
		if len(s) != n {
			t.Fatal("lost elements", n, len(s))
		}
	}
}
''', 'storage reused for a list at least as long as the number of elements left in it', 'Elements of a list that were in the list of an earlier call are lost.')

bug('u04-float-duration', 'U04', [('pkg/util/duration.go', 'fmt.Sprintf("%d%s", ns/factors[unit], unit)', 'fmt.Sprintf("%.0f%s", float64(ns)/float64(factors[unit]), unit)')], 'pkg/util', '''
package util_test

import (
	"testing"
	"time"

	"github.com/netsec-ethz/fpki/pkg/util"
)

func TestZZDemo(t *testing.T) {
	for _, d := range []time.Duration{1, -1, time.Hour, 400*24*time.Hour + 1, 1<<53 + 1, 1<<62 + 1} {
		x, err := util.ParseDuration(util.FmtDuration(d))
		if err != nil || x != d {
			t.Fatal(d, x, err)
		}
	}
}
''', 'a duration of more than 104 days with a fraction of nanoseconds', 'A long duration is written inexactly and read back as another one.')

LF = '''
package logfetcher

import (
	"context"
	"compress/gzip"
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"time"

	ct "github.com/google/certificate-transparency-go"
	"github.com/netsec-ethz/fpki/pkg/tests/random"
)

var _ ct.LeafEntry
var _ = gzip.NewWriter
var _ = base64.StdEncoding
var _ = fmt.Sprint
var _ = os.Remove
var _ = filepath.Join
var _ = context.Background
var _ = time.Now
var _ = random.RandomX509Cert
'''
bug('l02-exact-limit', 'L02', [('pkg/mapserver/logfetcher/locallogfetcher.go', 'entry.end-int64(lastState.Size)+1 > int64(f.maxIngestionSize)', 'entry.end-int64(lastState.Size)+1 >= int64(f.maxIngestionSize)')],
    'pkg/mapserver/logfetcher', LF + '''
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	os.MkdirAll(filepath.Join(dir, "bundled"), 0755)
	cert := base64.StdEncoding.EncodeToString(random.RandomX509Cert(t, "a.com").Raw)
	for i := 0; i < 6; i += 2 {
		f, err := os.Create(filepath.Join(dir, "bundled", fmt.Sprintf("%d-%d.gz", i, i+1)))
		if err != nil {
			t.Fatal(err)
		}
		w := gzip.NewWriter(f)
		for j := 0; j < 2; j++ {
			fmt.Fprintf(w, "a,b,c,%s,,x,y,%d.0\\n", cert, time.Now().Add(time.Hour).Unix())
		}
		w.Close()
		f.Close()
	}
	for limit, want := range map[uint64]uint64{1: 2, 2: 2, 3: 2, 4: 4, 5: 4, 6: 6, 9: 6} {
		f, err := NewLocalLogFetcher("log", dir, limit)
		if err != nil {
			t.Fatal(err)
		}
		if err := f.Initialize(time.Now()); err != nil {
			t.Fatal(err)
		}
		s, err := f.GetCurrentState(context.Background(), State{})
		if err != nil || s.Size != want {
			t.Fatal(limit, s.Size, want, err)
		}
		f.StopFetching()
	}
}
''', 'a row limit that the consecutive files reach exactly', 'The announced range stops one file before the row limit.')

PIPE = '''
package pipeline

import (
	"context"
	"errors"
	"strings"
	"sync"
	"testing"
	"time"
)

var _ = errors.New
var _ = strings.Repeat
var _ sync.Mutex
var _ = time.Now
var _ = context.Background
'''
bug('p01-last-of-stream', 'P01', [('pkg/pipeline/stage.go', '''				err = s.streamFunc(&outs, &outChIndxs)
''', '''				if err = s.streamFunc(&outs, &outChIndxs); err == nil {
					break
				}
''')], 'pkg/pipeline', PIPE + '''
func TestZZDemo(t *testing.T) {
	n, part := 0, 0
	src := NewSource[int]("src", WithSourceFunction(func() ([]int, []int, error) {
		if n++; n > 3 {
			return nil, nil, NoMoreData
		}
		return []int{10 * n}, []int{0}, nil
	}))
	cur := 0
	mid := NewStage[int, int]("mid",
		WithProcessFunction(func(in int) ([]int, []int, error) {
			cur, part = in, 0
			return []int{in}, []int{0}, StreamOutput
		}),
		WithOutputStreamingFunction[int](func(outs *[]int, chs *[]int) error {
			part++
			*outs, *chs = []int{cur + part}, []int{0}
			if part == 2 {
				return nil // This is the last one of this item.
			}
			return StreamOutput
		}))
	got := []int{}
	sink := NewSink[int]("sink", WithSinkFunction(func(i int) error {
		got = append(got, i)
		return nil
	}))
	p, err := NewPipeline(func(p *Pipeline) {
		LinkStagesFanOut(SourceStage[int](p), mid)
		LinkStagesFanOut(mid, SinkAsStage(sink))
	}, WithStages(src, mid, sink))
	if err != nil {
		t.Fatal(err)
	}
	p.Resume(context.Background())
	if err := p.Wait(context.Background()); err != nil {
		t.Fatal(err)
	}
	if len(got) != 9 {
		t.Fatal("lost outputs", got)
	}
}
''', 'a stage that streams outputs and gives the last ones of an item together with the end of the stream', 'The outputs that come with the end of a stream are lost.')

bug('p02-only-one', 'P02', [('pkg/pipeline/stage.go', '''				nextStagesAggregatedErrCh <- err
			}''', '''				if err != nil && reported.CompareAndSwap(false, true) {
					nextStagesAggregatedErrCh <- err
				}
			}'''), ('pkg/pipeline/stage.go', '''	wg.Add(len(s.NextErrChs))
''', '''	wg.Add(len(s.NextErrChs))
	reported := atomic.Bool{} // The first error stops the pipeline.
''')], 'pkg/pipeline', PIPE + '''
func TestZZDemo(t *testing.T) {
	ea, eb := errors.New("error of a"), errors.New("error of b")
	both := sync.WaitGroup{}
	both.Add(2)
	n := 0
	src := NewSource[int]("src", WithSourceFunction(func() ([]int, []int, error) {
		if n++; n > 1 {
			return nil, nil, NoMoreData
		}
		return []int{1, 2}, []int{0, 1}, nil
	}), WithMultiOutputChannels[None, int](2))
	fail := func(err error) func(int) error {
		return func(int) error {
			both.Done()
			both.Wait()
			return err
		}
	}
	a := NewSink[int]("a", WithSinkFunction(fail(ea)))
	b := NewSink[int]("b", WithSinkFunction(fail(eb)))
	p, err := NewPipeline(func(p *Pipeline) {
		LinkStagesFanOut(SourceStage[int](p), SinkAsStage(a), SinkAsStage(b))
	}, WithStages(src, a, b))
	if err != nil {
		t.Fatal(err)
	}
	p.Resume(context.Background())
	err = p.Wait(context.Background())
	if err == nil || !strings.Contains(err.Error(), "error of a") || !strings.Contains(err.Error(), "error of b") {
		t.Fatal("errors not reported", err)
	}
}
''', 'two stages after the same stage that fail independently of each other', 'Only one of the errors is reported.')

TR = '''
package trie

import (
	"bytes"
	"context"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
)

type memStore map[common.SHA256Output][]byte

func (m memStore) Close() error { return nil }
func (m memStore) RetrieveTreeNode(_ context.Context, k common.SHA256Output) ([]byte, error) {
	return m[k], nil
}
func (m memStore) UpdateTreeNodes(_ context.Context, l []*db.TreeNodeRecord) (int, error) {
	for _, r := range l {
		m[r.Key] = r.Value
	}
	return len(l), nil
}
func (m memStore) DeleteTreeNodes(_ context.Context, l []common.SHA256Output) (int, error) {
	for _, k := range l {
		delete(m, k)
	}
	return len(l), nil
}

var ctx = context.Background()

func must(t *testing.T, err error) {
	if err != nil {
		t.Helper()
		t.Fatal(err)
	}
}

func tree(t *testing.T) *Trie {
	tr, err := NewTrie(nil, common.SHA256Hash, memStore{})
	must(t, err)
	return tr
}

var _ = bytes.Equal
'''
bug('t01-one-side', 'T01', [('pkg/mapserver/trie/trie.go', '	if lResult.deleted || rResult.deleted {\n		if s.maybeMoveUpShortcut(ctx, lResult.update, rResult.update, root, batch, iBatch, height, ch) {\n			return\n		}\n	}\n	node := s.interiorHash(lResult.update, rResult.update, root',
'	if lResult.deleted && rResult.deleted {\n		if s.maybeMoveUpShortcut(ctx, lResult.update, rResult.update, root, batch, iBatch, height, ch) {\n			return\n		}\n	}\n	node := s.interiorHash(lResult.update, rResult.update, root')],
'pkg/mapserver/trie', TR + '''
func TestZZDemo(t *testing.T) {
	keys, values := [][]byte{}, [][]byte{}
	for i := 0; i < 256; i++ {
		k := bytes.Repeat([]byte{7}, 32)
		k[0] = byte(i)
		keys, values = append(keys, k), append(values, k)
	}
	tr := tree(t)
	_, err := tr.Update(ctx, keys, values)
	must(t, err)
	changed := append([][]byte{}, values...)
	for i := 1; i < 128; i++ { // Of the left half only the first key is left; it gets a new value.
		changed[i] = DefaultLeaf
	}
	_, err = tr.Update(ctx, keys, changed)
	must(t, err)
	ref := tree(t)
	_, err = ref.Update(ctx, append(keys[:1:1], keys[128:]...), append(changed[:1:1], changed[128:]...))
	must(t, err)
	if !bytes.Equal(tr.Root, ref.Root) {
		t.Fatal("same content, different roots")
	}
}
''', 'a batch that updates both sides of a node and deletes all but one key below it, all from one side', 'The tree is not reduced after deletions: its root differs from that of a tree that never had the keys.')

bug('t02-emptied', 'T02', [('pkg/mapserver/trie/trie.go', '''	if len(result.update) != 0 {
		s.Root = result.update[:HashLength]
	} else {
		s.Root = nil
	}
	return s.Root, nil
}

// AtomicUpdate can''', '''	if len(result.update) != 0 {
		s.Root = result.update[:HashLength]
	}
	return s.Root, nil
}

// AtomicUpdate can''')], 'pkg/mapserver/trie', TR + '''
func TestZZDemo(t *testing.T) {
	tr := tree(t)
	a, b := bytes.Repeat([]byte{1}, 32), bytes.Repeat([]byte{2}, 32)
	_, err := tr.Update(ctx, [][]byte{a, b}, [][]byte{a, b})
	must(t, err)
	_, err = tr.Update(ctx, [][]byte{a, b}, [][]byte{DefaultLeaf, DefaultLeaf})
	must(t, err)
	for _, k := range [][]byte{a, b} {
		ap, included, pk, pv, err := tr.MerkleProof(ctx, k)
		must(t, err)
		if included || !VerifyNonInclusion(tr.Root, ap, k, pv, pk) {
			t.Fatal("no proof of absence")
		}
	}
}
''', 'a tree whose last keys are deleted by an update that is not atomic', 'An emptied tree keeps its former root: no proof of absence verifies.')

bug('t03-last-bit-of-path', 'T03', [('pkg/mapserver/trie/trie_merkle_proof.go', 'for b = 0; b < len(ap); b++ {', 'for b = 0; b < len(ap)-1; b++ {')], 'pkg/mapserver/trie', TR + '''
func TestZZDemo(t *testing.T) {
	tr := tree(t)
	key := func(b byte) []byte {
		k := bytes.Repeat([]byte{9}, 32)
		k[0] = b
		return k
	}
	keys := [][]byte{key(0x00), key(0x40), key(0x80), key(0xc0)}
	root, err := tr.Update(ctx, keys, keys)
	must(t, err)
	for _, k := range keys {
		ap, included, _, value, err := tr.MerkleProof(ctx, k)
		must(t, err)
		if !included || !VerifyInclusion(root, ap, k, value) {
			t.Fatal("no proof")
		}
		for _, other := range keys {
			if VerifyNonInclusion(root, ap, other, value, k) {
				t.Fatal("a present key is accepted as absent")
			}
		}
	}
}
''', 'the presence proof of the sibling of a present key, presented as proof of absence of that key', 'A proof that a present key is absent is accepted.')

bug('i01-first-quote', 'I01', [('cmd/ingest/fastcsv/fastcsv.go', "if bytes.IndexByte(rawLine, '\"') >= 0 {", '''if bytes.Contains(rawLine, []byte(`,"`)) || bytes.Contains(rawLine, []byte(`",`)) {''')], 'cmd/ingest/fastcsv', '''
package fastcsv

import (
	"encoding/csv"
	"io"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	defer SetStderr(io.Discard)()
	for _, l := range []string{`a,b,c,d,e,1.0`, `"a",b,c,d,e,1.0`, `a,b,c,d"e,f,1.0`, `a,b,"c,d",e,f,1.0`, `"a,b" ,c,d,e,f,1.0`, `x"y,b,c,d,e,1.0`} {
		r := csv.NewReader(strings.NewReader(l))
		want, wantErr := r.Read()
		p, err := ParseLine([]byte(l), "f", 1)
		if (err != nil) != (wantErr != nil) {
			t.Fatal(l, err, wantErr)
		}
		if err == nil && (string(p.CertField) != want[3] || string(p.ChainField) != want[4]) {
			t.Fatal(l, "wrong fields")
		}
	}
}
''', 'a row with a quote in the middle of an unquoted field', 'Rows that are not CSV are accepted with wrong fields.')

bug('l01-last-remaining', 'L01', [('pkg/mapserver/logfetcher/httplogfetcher.go', 'if remEnd >= remStart {', 'if remEnd > remStart {')],
    'pkg/mapserver/logfetcher', LF.replace('"time"\n', '"net/http"\n\t"net/http/httptest"\n\t"time"\n', 1) + '''
func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var a, b int
		fmt.Sscan(r.URL.Query().Get("start"), &a)
		fmt.Sscan(r.URL.Query().Get("end"), &b)
		fmt.Fprint(w, "{\\"entries\\":[")
		for i := a; i <= b; i++ {
			if i > a {
				fmt.Fprint(w, ",")
			}
			fmt.Fprintf(w, "{\\"leaf_input\\":%q,\\"extra_data\\":\\"\\"}", base64.StdEncoding.EncodeToString([]byte{byte(i)}))
		}
		fmt.Fprint(w, "]}")
	}))
	defer srv.Close()
	for size := int64(1); size < 8; size++ {
		for n := int64(1); n < 12; n++ {
			f, err := NewHttpLogFetcher(srv.URL)
			if err != nil {
				t.Fatal(err)
			}
			f.serverBatchSize = size
			leaves := make([]ct.LeafEntry, n)
			got, err := f.getRawEntriesInBatches(leaves, 3, 3+n-1)
			if err != nil || got != n {
				t.Fatal(size, n, got, err)
			}
			for i, l := range leaves {
				if len(l.LeafInput) != 1 || int(l.LeafInput[0]) != i+3 {
					t.Fatal("wrong entry", size, n, i, l)
				}
			}
		}
	}
}
''', 'a range of one entry more than a multiple of the batch size of the server', 'The last entry of the range is not fetched.')

ING = '''
package updater_test

import (
	"context"
	"errors"
	"fmt"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/netsec-ethz/fpki/pkg/statistics"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/pkg/tests/noopdb"
)

type store struct {
	noopdb.Conn
	mu   sync.Mutex
	rows map[string]bool
	fail error
}

func (s *store) InsertCsvIntoDomains(_ context.Context, file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\\n") {
		f := strings.Split(l, ",")
		s.rows[strings.Trim(f[len(f)-1], "\\"")] = true
	}
	return s.fail
}

func run(t *testing.T, s *store, n, size int) error {
	os.MkdirAll("/mnt/data/tmp", 0777)
	m, err := updater.NewManager(1, s, size, statistics.NewStatistics(time.Hour, nil))
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	m.Resume(ctx)
	end := make(chan struct{})
	go func() {
		defer close(end)
		defer func() { recover() }()
		for i := 0; i < n; i++ {
			select {
			case m.IncomingCertChan <- updater.Certificate{
				CertID: common.SHA256Hash32Bytes([]byte(fmt.Sprint(i))), Names: []string{fmt.Sprintf("n%d.com", i)}, Raw: []byte("raw"),
			}:
			case <-ctx.Done():
				return
			}
			if s.fail != nil {
				time.Sleep(10 * time.Millisecond)
			}
		}
		m.Stop()
	}()
	err = m.Wait(ctx)
	cancel()
	<-end
	return err
}

var _ = errors.New
'''
bug('i02-self-expired', 'I02', [('cmd/ingest/toChainWorker.go', '''	// Although we checked right at the beginning with getExpiration, now use the payload.
	if w.now.After(cert.NotAfter) {
		// Don't ingest already expired certificates.
		return nil, nil
	}

''', '')], 'cmd/ingest', '''
package main

import (
	"encoding/base64"
	"fmt"
	"testing"
	"time"

	"github.com/netsec-ethz/fpki/pkg/cache"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/pkg/statistics"
	"github.com/netsec-ethz/fpki/pkg/tests/random"
)

func TestZZDemo(t *testing.T) {
	c := random.RandomX509Cert(t, "a.com")
	p := &Processor{Manager: &updater.Manager{Stats: statistics.NewStatistics(time.Hour, nil)}}
	for d, want := range map[time.Duration]bool{-time.Hour: true, time.Hour: false} {
		w := &lineToChainWorker{now: c.NotAfter.Add(d), cache: cache.NewNoCache()}
		chain, err := w.parseLine(p, &line{
			certField:       []byte(base64.StdEncoding.EncodeToString(c.Raw)),
			expirationField: []byte(fmt.Sprintf("%d.0", c.NotAfter.Add(2*time.Hour).Unix())),
			number:          1,
		})
		if err != nil || (chain != nil) != want {
			t.Fatal(d, chain, err)
		}
	}
}
''', 'a row that states a later expiration than its certificate', 'Expired certificates are stored.')
bug('i03-domains-error', 'I03', [('pkg/mapserver/updater/domainWorker.go', '''			err = m.Conn.InsertCsvIntoDomains(ctx, in.domainsFile)
			if err != nil {
				return nil, nil, err
			}
			err = m.Conn.InsertCsvIntoDomainCerts''', '''			err = m.Conn.InsertCsvIntoDomains(ctx, in.domainsFile)
			err = m.Conn.InsertCsvIntoDomainCerts''')], 'pkg/mapserver/updater', ING + '''
func TestZZDemo(t *testing.T) {
	s := &store{rows: map[string]bool{}, fail: errors.New("planned failure")}
	if err := run(t, s, 5, 2); err == nil {
		t.Fatal("failure not reported")
	}
}
''', 'a database failure exactly while the names of domains are inserted', 'The failure is not reported, the names of the domains are lost.')
main()
