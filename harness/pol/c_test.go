package pol

import (
	"bytes"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/rsa"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/google/trillian"
	trilliantypes "github.com/google/trillian/types"
	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// ---------------------------------------------------------------- C01

func ptrTo(o any) any {
	p := reflect.New(reflect.TypeOf(o))
	p.Elem().Set(reflect.ValueOf(o))
	return p.Interface()
}

// genDoc draws anything that can be serialised, with a description of its shape.
func genDoc(t *rapid.T, depth int) (any, string) {
	kind := rapid.SampledFrom(kinds).Draw(t, "kind")
	shape := rapid.IntRange(0, 5).Draw(t, "shape")
	if depth <= 0 && shape > 1 {
		shape %= 2
	}
	switch shape {
	case 0:
		return genObj(t, kind), kind
	case 1:
		return ptrTo(genObj(t, kind)), "*" + kind
	case 2, 3: // typed list
		n := rapid.IntRange(0, 4).Draw(t, "n")
		first := genObj(t, kind)
		ptrs := shape == 3
		et := reflect.TypeOf(first)
		if ptrs {
			et = reflect.PointerTo(et)
		}
		s := reflect.MakeSlice(reflect.SliceOf(et), 0, n)
		for i := 0; i < n; i++ {
			o := genObj(t, kind)
			if ptrs {
				o = ptrTo(o)
			}
			s = reflect.Append(s, reflect.ValueOf(o))
		}
		return s.Interface(), fmt.Sprintf("[%d]%v", n, et)
	default: // mixed list, possibly nested
		n := rapid.IntRange(0, 4).Draw(t, "n")
		l := make([]any, n)
		d := "["
		for i := range l {
			o, s := genDoc(t, depth-1)
			l[i] = o
			d += s + " "
		}
		if rapid.IntRange(0, 3).Draw(t, "listPtr") == 0 {
			return &l, "*" + d + "]"
		}
		return l, d + "]"
	}
}

// raws returns the raw forms of all documents in o.
type raw interface{ Raw() ([]byte, error) }

func docs(o any) []raw {
	var out []raw
	switch v := o.(type) {
	case []any:
		for _, e := range v {
			out = append(out, docs(e)...)
		}
	case *[]any:
		return docs(*v)
	case common.PolicyCertificate, common.PolicyCertificateSigningRequest, common.PolicyCertificateRevocation,
		common.SignedPolicyCertificateTimestamp, common.SignedPolicyCertificateRevocationTimestamp:
		out = append(out, v.(raw))
	case *common.PolicyCertificate, *common.PolicyCertificateSigningRequest, *common.PolicyCertificateRevocation,
		*common.SignedPolicyCertificateTimestamp, *common.SignedPolicyCertificateRevocationTimestamp:
		out = append(out, v.(raw))
	}
	return out
}

// elements returns the JSON text of every non-list object in the serialised text, in order.
func elements(t *rapid.T, text []byte) [][]byte {
	var e struct {
		T string
		O json.RawMessage
	}
	if err := json.Unmarshal(text, &e); err != nil {
		t.Fatalf("serialised text is no object: %v: %.200s", err, text)
	}
	if strings.TrimPrefix(e.T, "*") != "[]" {
		return [][]byte{text}
	}
	var l []json.RawMessage
	if err := json.Unmarshal(e.O, &l); err != nil {
		t.Fatalf("list text: %v", err)
	}
	var out [][]byte
	for _, x := range l {
		out = append(out, elements(t, x)...)
	}
	return out
}

func TestC01RoundTrip(t *testing.T) {
	rec := vlib.New(t, "C01", "a policy object or a (nested, mixed) list of them with generated field values, serialised, read back (from memory or a file) and serialised again; "+
		"non-trivial: at least one object with several non-zero fields")
	dir := vlib.TempDir()
	vlib.Check(t, rec, func(t *rapid.T) {
		o, shape := genDoc(t, 2)
		text, err := common.ToJSON(o)
		if err != nil {
			t.Fatalf("serialising %s: %v", shape, err)
		}
		input := append([]byte(nil), text...)
		var back any
		how := rapid.SampledFrom([]string{"memory", "memory", "file", "noraw"}).Draw(t, "how")
		switch how {
		case "file":
			path := filepath.Join(dir, "o.json")
			if err := common.ToJSONFile(o, path); err != nil {
				t.Fatalf("writing: %v", err)
			}
			if b, err := os.ReadFile(path); err != nil || !bytes.Equal(b, text) {
				t.Fatalf("file differs from the serialised form: %v", err)
			}
			back, err = common.FromJSONFile(path)
			byType(t, path, back)
		case "noraw":
			back, err = common.FromJSON(input, common.WithSkipCopyJSONIntoPolicyObjects)
		default:
			back, err = common.FromJSON(input)
		}
		if err != nil {
			t.Fatalf("reading back %s: %v", shape, err)
		}
		// the caller may reuse its buffer
		for i := range input {
			input[i] = 'x'
		}
		if d := diffAny(o, back); d != "" {
			t.Fatalf("%s changed: %s", shape, d)
		}
		if (reflect.ValueOf(o).Kind() == reflect.Pointer) != (reflect.ValueOf(back).Kind() == reflect.Pointer) {
			t.Fatalf("%T came back as %T", o, back)
		}
		if msg := equal(o, back); msg != "" {
			t.Fatalf("%s: %s", shape, msg)
		}
		again, err := common.ToJSON(back)
		if err != nil || !bytes.Equal(again, text) {
			t.Fatalf("%s serialises to different bytes the second time: %v\n%.300s\n%.300s", shape, err, text, again)
		}
		// raw forms
		els := elements(t, text)
		i := 0
		var walk func(o any)
		walk = func(o any) {
			switch v := o.(type) {
			case []any:
				for _, e := range v {
					walk(e)
				}
				return
			case *[]any:
				walk(*v)
				return
			}
			el := els[i]
			i++
			for _, r := range docs(o) {
				raw, err := r.Raw()
				if err != nil {
					t.Fatalf("raw form: %v", err)
				}
				if how != "noraw" && !bytes.Equal(raw, el) {
					t.Fatalf("raw form of a %T is not what it was read from:\n%.300s\n%.300s", o, raw, el)
				}
				if how == "noraw" {
					x, err := common.FromJSON(raw)
					if err != nil || diffAny(reflect.Indirect(reflect.ValueOf(x)).Interface(), reflect.Indirect(reflect.ValueOf(o)).Interface()) != "" {
						t.Fatalf("raw form of a %T without raw JSON reads back differently (%v)", o, err)
					}
				}
			}
		}
		walk(back)
		if i != len(els) {
			t.Fatalf("%d objects, %d came back", len(els), i)
		}
		rec.Case(string(text), len(text) > 150, func() any { return shape + ": " + trim(string(text)) }, "how:"+how, fmt.Sprintf("objects:%d", min(len(els), 9)))
	})
}

func trim(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// byType reads the file with the typed readers: the right one gives the object, the others fail.
func byType(t *rapid.T, path string, o any) {
	one := func(what string, got any, err error, is bool) {
		if is != (err == nil) {
			t.Fatalf("reading a file with %T as %s: error %v", o, what, err)
		}
		if is && diffAny(o, got) != "" {
			t.Fatalf("reading a file as %s: %s", what, diffAny(o, got))
		}
	}
	pc, err := common.JsonFileToPolicyCert(path)
	_, is := o.(*common.PolicyCertificate)
	one("policy certificate", pc, err, is)
	spt, err := common.JsonFileToSPT(path)
	_, is = o.(*common.SignedPolicyCertificateTimestamp)
	one("timestamp", spt, err, is)
	pr, err := common.JsonFileToProof(path)
	_, is = o.(*trillian.Proof)
	one("proof", pr, err, is)
	sth, err := common.JsonFileToSTH(path)
	_, is = o.(*trilliantypes.LogRootV1)
	one("tree head", sth, err, is)
}

// equal applies the type's own Equal method in both directions.
func equal(a, b any) string {
	switch x := a.(type) {
	case common.PolicyCertificate:
		y := b.(common.PolicyCertificate)
		if !x.Equal(y) || !y.Equal(x) {
			return "not Equal to the original"
		}
	case common.PolicyCertificateSigningRequest:
		y := b.(common.PolicyCertificateSigningRequest)
		if !x.Equal(&y) || !y.Equal(&x) {
			return "not Equal to the original"
		}
	case common.PolicyCertificateRevocation:
		y := b.(common.PolicyCertificateRevocation)
		if !x.Equal(y) || !y.Equal(x) {
			return "not Equal to the original"
		}
	case common.PolicyCertificateRevocationSigningRequest:
		y := b.(common.PolicyCertificateRevocationSigningRequest)
		if !x.Equal(&y) || !y.Equal(&x) {
			return "not Equal to the original"
		}
	case common.SignedPolicyCertificateTimestamp:
		y := b.(common.SignedPolicyCertificateTimestamp)
		if !x.Equal(y) || !y.Equal(x) {
			return "not Equal to the original"
		}
	case common.SignedPolicyCertificateRevocationTimestamp:
		y := b.(common.SignedPolicyCertificateRevocationTimestamp)
		if !x.Equal(y) || !y.Equal(x) {
			return "not Equal to the original"
		}
	case common.SignedEntryTimestampSignatureInput:
		y := b.(common.SignedEntryTimestampSignatureInput)
		if !x.Equal(y) || !y.Equal(x) {
			return "not Equal to the original"
		}
	default:
		if v := reflect.ValueOf(a); v.Kind() == reflect.Pointer && v.Elem().Kind() == reflect.Struct {
			if w := reflect.ValueOf(b); w.Kind() == reflect.Pointer {
				return equal(v.Elem().Interface(), w.Elem().Interface())
			}
		} else if v.Kind() == reflect.Slice {
			if w := reflect.ValueOf(b); w.Kind() == reflect.Slice && w.Len() == v.Len() {
				for i := 0; i < v.Len(); i++ {
					if m := equal(v.Index(i).Interface(), w.Index(i).Interface()); m != "" {
						return m
					}
				}
			}
		}
	}
	return ""
}

// TestC01Distinct: objects that differ in one field are not Equal and serialise differently.
func TestC01Distinct(t *testing.T) {
	rec := vlib.New(t, "C01", "a policy object and a copy altered in one field (or list element): not Equal, different text; non-trivial: the alteration took effect")
	eqKinds := []string{"pcsr", "pc", "spct", "pcrevsr", "pcrev", "spcrevt", "siginput"}
	vlib.Check(t, rec, func(t *rapid.T) {
		kind := rapid.SampledFrom(eqKinds).Draw(t, "kind")
		o := genObj(t, kind)
		p := ptrTo(o)
		q := cloneV(reflect.ValueOf(p))
		ls := leaves(q.Elem(), "")
		l := ls[rapid.IntRange(0, len(ls)-1).Draw(t, "field")]
		alter(t, l)
		p2 := q.Interface()
		if diffAny(p, p2) == "" {
			return
		}
		if equal(reflect.ValueOf(p).Elem().Interface(), q.Elem().Interface()) == "" {
			t.Fatalf("%s objects that differ in %s are Equal", kind, l.path)
		}
		a, err1 := common.ToJSON(p)
		b, err2 := common.ToJSON(p2)
		if err1 != nil || err2 != nil || bytes.Equal(a, b) {
			t.Fatalf("%s objects that differ in %s have the same text (%v %v)", kind, l.path, err1, err2)
		}
		rec.Case(string(a)+string(b), true, func() any { return kind + l.path }, kind+l.path)
	})
}

// TestC01Malformed: altered texts are refused or mean something that survives.
func TestC01Malformed(t *testing.T) {
	rec := vlib.New(t, "C01", "serialised objects with bytes, types or structure altered, and arbitrary texts; non-trivial: the text is still valid JSON or was accepted")
	types := append([]string{"", "*", "**pc", "[", "[]", "*[]", "[]pc", "*[]*", "PC", "unknown", "null"}, kindsT...)
	vlib.Check(t, rec, func(t *rapid.T) {
		var text []byte
		how := rapid.SampledFrom([]string{"bytes", "type", "value", "splice", "free", "truncate", "nest"}).Draw(t, "how")
		o, _ := genDoc(t, 1)
		text, _ = common.ToJSON(o)
		switch how {
		case "bytes":
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "n"); i < n; i++ {
				at := rapid.IntRange(0, len(text)-1).Draw(t, "at")
				text[at] = rapid.SampledFrom([]byte("{}[]\",:0n9-e.\\ \x00\xff*")).Draw(t, "b")
			}
		case "type":
			T := rapid.SampledFrom(types).Draw(t, "T")
			i, j := bytes.Index(text, []byte(`"T":"`))+5, 0
			j = i + bytes.IndexByte(text[i:], '"')
			text = append(append(append([]byte{}, text[:i]...), T...), text[j:]...)
		case "value":
			v := rapid.SampledFrom([]string{"null", "0", "[]", "{}", `""`, `"a"`, "true", "[null]", "[{}]", "[[]]", `[{"T":"pc"}]`, `{"Version":"x"}`, `{"NotBefore":"yesterday"}`,
				`{"PublicKey":"%"}`, `{"SPCTs":{}}`, `{"SPCTs":[null]}`, `{"PolicyAttributes":[]}`, `{"Version":1.5}`, `{"Version":99999999999999999999}`, `{"Hashes":[null]}`}).Draw(t, "v")
			text = []byte(fmt.Sprintf(`{"T":"%s","O":%s}`, rapid.SampledFrom(types).Draw(t, "T"), v))
		case "splice":
			o2, _ := genDoc(t, 1)
			text2, _ := common.ToJSON(o2)
			a, b := rapid.IntRange(0, len(text)).Draw(t, "a"), rapid.IntRange(0, len(text2)).Draw(t, "b")
			text = append(append([]byte{}, text[:a]...), text2[b:]...)
		case "truncate":
			text = text[:rapid.IntRange(0, len(text)-1).Draw(t, "to")]
		case "free":
			text = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "text")
		case "nest":
			n := rapid.IntRange(1, 60).Draw(t, "depth")
			text = []byte(strings.Repeat(`{"T":"[]","O":[`, n) + string(text) + strings.Repeat(`]}`, n))
		}
		var got any
		var err error
		if m := vlib.NoPanic(func() { got, err = common.FromJSON(text) }); m != "" {
			t.Fatalf("reading %.300q: %s", text, m)
		}
		valid := json.Valid(text)
		if err == nil {
			if !valid {
				t.Fatalf("invalid JSON accepted: %.300q", text)
			}
			var env struct {
				T string
			}
			if e := json.Unmarshal(text, &env); e != nil || env.T == "" {
				t.Fatalf("text without a type accepted: %.300q", text)
			}
			if got == nil {
				t.Fatalf("no object and no error for %.300q", text)
			}
			again, err := common.ToJSON(got)
			if err != nil {
				t.Fatalf("an object read from %.300q cannot be serialised: %v", text, err)
			}
			got2, err := common.FromJSON(again)
			if err != nil || diffAny(got, got2) != "" {
				t.Fatalf("an object read from %.300q changes when serialised: %v %s", text, err, diffAny(got, got2))
			}
			again2, err := common.ToJSON(got2)
			if err != nil || !bytes.Equal(again, again2) {
				t.Fatalf("an object read from %.300q serialises to two texts", text)
			}
		} else if how == "nest" {
			t.Fatalf("nested list refused: %v", err)
		}
		rec.Case(string(text), valid || err == nil, func() any { return trim(string(text)) }, how, fmt.Sprintf("%s accepted:%v", how, err == nil))
	})
}

var kindsT = []string{"pcsr", "pc", "spct", "pcrevsr", "pcrev", "spcrevt", "trillian.Proof", "logrootv1", "spctsiginput", "*pc", "*pcsr", "*trillian.Proof"}

// TestC01Unknown: values of other types are refused.
func TestC01Unknown(t *testing.T) {
	rec := vlib.New(t, "C01", "values that are no policy objects, alone and inside lists; non-trivial: always")
	vlib.Check(t, rec, func(t *rapid.T) {
		vals := []any{nil, 1, "x", 1.5, true, struct{ A int }{1}, map[string]int{"a": 1}, []int{1}, []string{"a"}, [][]byte{{1}}, &[]int{2}, func() {}, make(chan int),
			common.PolicyAttributes{}, common.PolicyCertificateFields{}, (*common.PolicyCertificate)(nil), (*common.PolicyCertificateSigningRequest)(nil), (*[]any)(nil), []any{nil}, []*common.PolicyCertificate{nil}}
		i := rapid.IntRange(0, len(vals)-1).Draw(t, "value")
		v := vals[i]
		if rapid.Bool().Draw(t, "listed") {
			o, _ := genDoc(t, 0)
			v = []any{o, v}
		}
		var err error
		if m := vlib.NoPanic(func() { _, err = common.ToJSON(v) }); m != "" {
			t.Fatalf("serialising %#v: %s", v, m)
		}
		if err == nil {
			t.Fatalf("%#v was serialised", v)
		}
		rec.Case(fmt.Sprintf("%d%T", i, v), true, func() any { return fmt.Sprintf("%T %.100v", v, v) })
	})
}

// ---------------------------------------------------------------- C02, C04

func genSigner(t *rapid.T, k keyPair, canOwn bool) *common.PolicyCertificate {
	c := genPC(t)
	c.PublicKey = k.der
	c.CanOwn = canOwn
	return &c
}

func mustHash(t *rapid.T, c *common.PolicyCertificate) []byte {
	before := clone(*c)
	h, err := crypto.ComputeHashAsSigner(c)
	if err != nil || len(h) != 32 {
		t.Fatalf("hash as signer: %x %v", h, err)
	}
	if d := diffAny(before, *c); d != "" {
		t.Fatalf("computing the hash as signer changed %s", d)
	}
	return h
}

func TestC02Owner(t *testing.T) {
	rec := vlib.New(t, "C02", "a generated request signed by a generated owner, verified as request and inside a certificate, then altered in one field, verified under other owners and keys; "+
		"non-trivial: the alteration took effect")
	vlib.Check(t, rec, func(t *rapid.T) {
		ks := keys()
		ko := ks[rapid.IntRange(0, 1).Draw(t, "ownerKey")]
		owner := genSigner(t, ko, rapid.IntRange(0, 5).Draw(t, "canOwn") > 0)
		req := &common.PolicyCertificateSigningRequest{PolicyCertificateFields: genFields(t)}
		if rapid.IntRange(0, 5).Draw(t, "unsigned") > 0 {
			req.OwnerSignature, req.OwnerHash = nil, nil
		}
		wrongKey := rapid.IntRange(0, 5).Draw(t, "wrongKey") == 0
		key := ko.priv
		if wrongKey {
			key = ks[2].priv
		}
		before, ownerBefore := clone(*req), clone(*owner)
		err := crypto.SignAsOwner(owner, key, req)
		if d := diffAny(ownerBefore, *owner); d != "" {
			t.Fatalf("signing changed the owner's certificate: %s", d)
		}
		should := owner.CanOwn && before.OwnerSignature == nil && before.OwnerHash == nil
		if (err == nil) != should {
			t.Fatalf("signing as owner (can own: %v, signature %x, hash %x): %v", owner.CanOwn, before.OwnerSignature, before.OwnerHash, err)
		}
		if err != nil {
			if d := diffAny(before, *req); d != "" {
				t.Fatalf("refused signing changed the request: %s", d)
			}
			rec.Case(fmt.Sprint(before), false, nil, "refused")
			return
		}
		want := clone(before)
		want.OwnerSignature, want.OwnerHash = req.OwnerSignature, req.OwnerHash
		if d := diffAny(want, *req); d != "" {
			t.Fatalf("signing changed %s", d)
		}
		if !bytes.Equal(req.OwnerHash, mustHash(t, owner)) {
			t.Fatalf("the owner hash is not the owner's identity")
		}
		// the certificate that carries the request, with an issuer and timestamps
		cert := common.NewPolicyCertificateFromRequest(req)
		full := genPC(t)
		cert.IssuerHash, cert.IssuerSignature, cert.SPCTs = full.IssuerHash, full.IssuerSignature, full.SPCTs
		verify := func(o *common.PolicyCertificate, r *common.PolicyCertificateSigningRequest, c *common.PolicyCertificate) (bool, bool) {
			o0, r0, c0 := clone(*o), clone(*r), clone(*c)
			var e1, e2 error
			if m := vlib.NoPanic(func() {
				e1, e2 = crypto.VerifyOwnerSignature(o, r), crypto.VerifyOwnerSignatureInPolicyCertificate(o, c)
			}); m != "" {
				t.Fatalf("verifying: %s", m)
			}
			if d := diffAny(o0, *o) + diffAny(r0, *r) + diffAny(c0, *c); d != "" {
				t.Fatalf("verifying changed %s", d)
			}
			return e1 == nil, e2 == nil
		}
		for i := 0; i < 2; i++ {
			if a, b := verify(owner, req, cert); a != !wrongKey || b != !wrongKey {
				t.Fatalf("genuine signature (by the owner's key: %v) verifies: %v, in the certificate %v", !wrongKey, a, b)
			}
		}
		if wrongKey {
			rec.Case(fmt.Sprint(before), true, func() any { return "signed with another key" }, "wrongKey")
			return
		}
		// the owner's certificate may be re-signed and gather timestamps
		evolved := clone(*owner)
		evolved.SPCTs, evolved.IssuerSignature = full.SPCTs, genBytes(t, "evolvedSig")
		if a, b := verify(&evolved, req, cert); !a || !b {
			t.Fatalf("signature no longer verifies after the owner's certificate got timestamps")
		}
		// what the owner did not sign may change, what was signed may not
		req2, cert2 := clone(*req), clone(*cert)
		q := reflect.ValueOf(&req2)
		ls := leaves(q.Elem(), "")
		i := rapid.IntRange(0, len(ls)-1).Draw(t, "field")
		alter(t, ls[i])
		cert2.PolicyCertificateFields = req2.PolicyCertificateFields
		if diffAny(*req, req2) == "" {
			return
		}
		if a, b := verify(owner, &req2, &cert2); a || b {
			t.Fatalf("verifies (%v, in a certificate %v) with %s altered", a, b, ls[i].path)
		}
		cls := []string{"altered" + ls[i].path}
		// other owners
		other := clone(*owner)
		lo := leaves(reflect.ValueOf(&other).Elem(), "")
		j := rapid.IntRange(0, len(lo)-1).Draw(t, "ownerField")
		alter(t, lo[j])
		if diffAny(*owner, other) != "" {
			same := lo[j].path == ".SPCTs" || lo[j].path == ".IssuerSignature"
			if a, b := verify(&other, req, cert); a != same || b != same {
				t.Fatalf("owner altered in %s: verifies %v %v", lo[j].path, a, b)
			}
			cls = append(cls, "owner"+lo[j].path)
		}
		// another key behind the same certificate otherwise, with the hash replaced accordingly
		forged := clone(*owner)
		forged.PublicKey = ks[3].der
		req3 := clone(*req)
		req3.OwnerHash = mustHash(t, &forged)
		cert3 := clone(*cert)
		cert3.PolicyCertificateFields = req3.PolicyCertificateFields
		if a, b := verify(&forged, &req3, &cert3); a || b {
			t.Fatalf("verifies under another key")
		}
		rec.Case(fmt.Sprint(before)+ls[i].path, true, func() any { return map[string]any{"altered": ls[i].path, "owner altered": lo[j].path} }, cls...)
	})
}

func TestC02Issuer(t *testing.T) {
	rec := vlib.New(t, "C02", "a generated certificate (new or carrying a request) signed by a generated issuer, verified, then altered in one field and verified under other issuers; "+
		"non-trivial: the alteration took effect")
	vlib.Check(t, rec, func(t *rapid.T) {
		ks := keys()
		ki := ks[rapid.IntRange(0, 1).Draw(t, "issuerKey")]
		issuer := genSigner(t, ki, true)
		issuerBefore := clone(*issuer)
		wrongKey := rapid.IntRange(0, 5).Draw(t, "wrongKey") == 0
		key := ki.priv
		if wrongKey {
			key = ks[2].priv
		}
		var cert *common.PolicyCertificate
		if rapid.Bool().Draw(t, "fromRequest") {
			req := &common.PolicyCertificateSigningRequest{PolicyCertificateFields: genFields(t)}
			before := clone(*req)
			c, err := crypto.SignRequestAsIssuer(issuer, key, req)
			if err != nil {
				t.Fatalf("signing a request: %v", err)
			}
			if d := diffAny(before, *req); d != "" {
				t.Fatalf("signing changed the request: %s", d)
			}
			if d := diffAny(before.PolicyCertificateFields, c.PolicyCertificateFields); d != "" {
				t.Fatalf("the certificate differs from the request: %s", d)
			}
			if len(c.SPCTs) != 0 {
				t.Fatalf("timestamps in a new certificate")
			}
			cert = c
		} else {
			c := genPC(t)
			if rapid.IntRange(0, 5).Draw(t, "clean") > 0 {
				c.IssuerHash, c.IssuerSignature = nil, nil
			}
			before := clone(c)
			err := crypto.SignPolicyCertificateAsIssuer(issuer, key, &c)
			if should := before.IssuerHash == nil && before.IssuerSignature == nil; should != (err == nil) {
				t.Fatalf("signing a certificate with issuer hash %x signature %x: %v", before.IssuerHash, before.IssuerSignature, err)
			}
			if err != nil {
				if d := diffAny(before, c); d != "" {
					t.Fatalf("refused signing changed %s", d)
				}
				rec.Case(fmt.Sprint(before), false, nil, "refused")
				return
			}
			want := clone(before)
			want.IssuerHash, want.IssuerSignature = c.IssuerHash, c.IssuerSignature
			if d := diffAny(want, c); d != "" {
				t.Fatalf("signing changed %s", d)
			}
			cert = &c
		}
		if d := diffAny(issuerBefore, *issuer); d != "" {
			t.Fatalf("signing changed the issuer: %s", d)
		}
		if !bytes.Equal(cert.IssuerHash, mustHash(t, issuer)) {
			t.Fatalf("the issuer hash is not the issuer's identity")
		}
		verify := func(i, c *common.PolicyCertificate) bool {
			i0, c0 := clone(*i), clone(*c)
			var err error
			if m := vlib.NoPanic(func() { err = crypto.VerifyIssuerSignature(i, c) }); m != "" {
				t.Fatalf("verifying: %s", m)
			}
			if d := diffAny(i0, *i) + diffAny(c0, *c); d != "" {
				t.Fatalf("verifying changed %s", d)
			}
			return err == nil
		}
		for i := 0; i < 2; i++ {
			if verify(issuer, cert) == wrongKey {
				t.Fatalf("genuine signature (by the issuer's key: %v) verifies: %v", !wrongKey, wrongKey)
			}
		}
		if wrongKey {
			rec.Case(fmt.Sprint(*cert), true, func() any { return "signed with another key" }, "wrongKey")
			return
		}
		evolved := clone(*issuer)
		evolved.SPCTs, evolved.IssuerSignature = genPC(t).SPCTs, genBytes(t, "evolvedSig")
		if !verify(&evolved, cert) {
			t.Fatalf("signature no longer verifies after the issuer's certificate got timestamps")
		}
		cert2 := clone(*cert)
		ls := leaves(reflect.ValueOf(&cert2).Elem(), "")
		i := rapid.IntRange(0, len(ls)-1).Draw(t, "field")
		alter(t, ls[i])
		if diffAny(*cert, cert2) == "" {
			return
		}
		if verify(issuer, &cert2) {
			t.Fatalf("verifies with %s altered", ls[i].path)
		}
		other := clone(*issuer)
		lo := leaves(reflect.ValueOf(&other).Elem(), "")
		j := rapid.IntRange(0, len(lo)-1).Draw(t, "issuerField")
		alter(t, lo[j])
		if diffAny(*issuer, other) != "" {
			if same := lo[j].path == ".SPCTs" || lo[j].path == ".IssuerSignature"; verify(&other, cert) != same {
				t.Fatalf("issuer altered in %s: verifies %v", lo[j].path, !same)
			}
		}
		forged := clone(*issuer)
		forged.PublicKey = ks[3].der
		cert3 := clone(*cert)
		cert3.IssuerHash = mustHash(t, &forged)
		if verify(&forged, &cert3) {
			t.Fatalf("verifies under another key")
		}
		rec.Case(fmt.Sprint(*cert)+ls[i].path, true, func() any { return map[string]any{"altered": ls[i].path, "issuer altered": lo[j].path} }, "altered"+ls[i].path)
	})
}

// otherKeys are well-formed keys that are not RSA public keys.
var otherKeys = sync.OnceValue(func() (out [][]byte) {
	seed := bytes.Repeat([]byte{9}, 32)
	ed := ed25519.NewKeyFromSeed(seed)
	ec, err := ecdh.P256().NewPrivateKey(seed)
	if err != nil {
		vlib.Infra("%v", err)
	}
	for _, k := range []any{ed.Public(), ec.PublicKey()} {
		b, err := x509.MarshalPKIXPublicKey(k)
		if err != nil {
			vlib.Infra("%v", err)
		}
		out = append(out, b)
	}
	return append(out, x509.MarshalPKCS1PrivateKey(keys()[0].priv), x509.MarshalPKCS1PublicKey(&keys()[0].priv.PublicKey))
})

// TestC02Unserialisable: objects that cannot be serialised, or keys that cannot be read, lead to errors and stay as they were.
func TestC02Unserialisable(t *testing.T) {
	rec := vlib.New(t, "C02", "objects with a time that cannot be serialised or a malformed key in every role; non-trivial: always")
	vlib.Check(t, rec, func(t *rapid.T) {
		ks := keys()
		signer := genSigner(t, ks[0], true)
		req := &common.PolicyCertificateSigningRequest{PolicyCertificateFields: genFields(t)}
		req.OwnerHash, req.OwnerSignature = nil, nil
		if err := crypto.SignAsOwner(signer, ks[0].priv, req); err != nil {
			t.Fatalf("%v", err)
		}
		cert, err := crypto.SignRequestAsIssuer(signer, ks[0].priv, req)
		if err != nil {
			t.Fatalf("%v", err)
		}
		cert.SPCTs = genPC(t).SPCTs
		where := rapid.SampledFrom([]string{"object", "object", "key", "hash"}).Draw(t, "where")
		bad := time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC)
		switch where {
		case "object":
			req.NotAfter, cert.NotAfter = bad, bad
		case "key":
			if signer.PublicKey = genBytes(t, "der"); rapid.Bool().Draw(t, "other kind of key") {
				signer.PublicKey = rapid.SampledFrom(otherKeys()).Draw(t, "key")
			}
			req.OwnerHash = mustHash(t, signer)
			cert.OwnerHash, cert.IssuerHash = req.OwnerHash, req.OwnerHash
		case "hash":
			signer.NotAfter = bad
		}
		s0, r0, c0 := clone(*signer), clone(*req), clone(*cert)
		if m := vlib.NoPanic(func() {
			if crypto.VerifyOwnerSignature(signer, req) == nil || crypto.VerifyOwnerSignatureInPolicyCertificate(signer, cert) == nil || crypto.VerifyIssuerSignature(signer, cert) == nil {
				t.Fatalf("verifies (%s)", where)
			}
		}); m != "" {
			t.Fatalf("%s", m)
		}
		if d := diffAny(s0, *signer) + diffAny(r0, *req) + diffAny(c0, *cert); d != "" {
			t.Fatalf("a failed verification changed %s (%s)", d, where)
		}
		if where == "hash" {
			if _, err := crypto.ComputeHashAsSigner(signer); err == nil {
				t.Fatalf("identity of an object that cannot be serialised")
			}
		}
		if where != "key" {
			req.OwnerHash, req.OwnerSignature = nil, nil
			cert.IssuerHash, cert.IssuerSignature = nil, nil
			r0, c0 = clone(*req), clone(*cert)
			e1, e2 := crypto.SignAsOwner(signer, ks[0].priv, req), crypto.SignPolicyCertificateAsIssuer(signer, ks[0].priv, cert)
			if e1 == nil || e2 == nil {
				t.Fatalf("signed: %v %v", e1, e2)
			}
			if d := diffAny(r0, *req) + diffAny(c0, *cert) + diffAny(s0, *signer); d != "" {
				t.Fatalf("a failed signing changed %s", d)
			}
		}
		rec.Case(fmt.Sprint(c0), true, func() any { return where }, where)
	})
}

func TestC04Identity(t *testing.T) {
	rec := vlib.New(t, "C04", "a generated certificate and a copy altered in one field or list element, before and after timestamps and re-signing; non-trivial: the alteration took effect")
	vlib.Check(t, rec, func(t *rapid.T) {
		c := genPC(t)
		id := mustHash(t, &c)
		if again := mustHash(t, &c); !bytes.Equal(id, again) {
			t.Fatalf("identity not repeatable")
		}
		e := clone(c)
		e.SPCTs, e.IssuerSignature = genPC(t).SPCTs, genBytes(t, "sig")
		if !bytes.Equal(id, mustHash(t, &e)) {
			t.Fatalf("identity depends on timestamps or issuer signature")
		}
		// through serialisation
		txt, err := common.ToJSON(&c)
		if err != nil {
			t.Fatalf("%v", err)
		}
		b, err := common.FromJSON(txt)
		if err != nil {
			t.Fatalf("%v", err)
		}
		if !bytes.Equal(id, mustHash(t, b.(*common.PolicyCertificate))) {
			t.Fatalf("identity changes through serialisation")
		}
		d := clone(c)
		ls := leaves(reflect.ValueOf(&d).Elem(), "")
		i := rapid.IntRange(0, len(ls)-1).Draw(t, "field")
		alter(t, ls[i])
		if diffAny(c, d) == "" {
			return
		}
		same := ls[i].path == ".SPCTs" || ls[i].path == ".IssuerSignature"
		if bytes.Equal(id, mustHash(t, &d)) != same {
			t.Fatalf("identity with %s altered: same %v", ls[i].path, !same)
		}
		rec.Case(string(txt)+ls[i].path, true, func() any { return ls[i].path }, ls[i].path)
	})
}

func TestC04Timestamp(t *testing.T) {
	rec := vlib.New(t, "C04", "a timestamp made by a log for a generated certificate, verified as made and after altering the certificate, timestamp or key; non-trivial: always")
	vlib.Check(t, rec, func(t *rapid.T) {
		ks := keys()
		k := ks[rapid.IntRange(0, 1).Draw(t, "logKey")]
		c := genPC(t)
		version, logID := genInt(t, "version"), genBytes(t, "logID")
		c0 := clone(c)
		from := time.Now()
		spct, err := crypto.SignPolicyCertificateTimestamp(&c, version, logID, k.priv)
		if err != nil {
			t.Fatalf("%v", err)
		}
		to := time.Now()
		if d := diffAny(c0, c); d != "" {
			t.Fatalf("timestamping changed %s", d)
		}
		if spct.Version != version || !bytes.Equal(spct.LogID, logID) || spct.AddedTS.Before(from) || spct.AddedTS.After(to) {
			t.Fatalf("timestamp %+v for version %d log %x", spct, version, logID)
		}
		verify := func(c *common.PolicyCertificate, s *common.SignedPolicyCertificateTimestamp, k *rsa.PublicKey) bool {
			txt, err := common.ToJSON(c)
			if err != nil {
				t.Fatalf("%v", err)
			}
			bare := clone(*s)
			bare.Signature = nil
			in, err := common.ToJSON(common.NewSignedEntryTimestampSignatureInput(txt, &bare))
			if err != nil {
				t.Fatalf("%v", err)
			}
			return crypto.VerifySignedBytes(in, s.Signature, k) == nil
		}
		if !verify(&c, spct, &k.priv.PublicKey) {
			t.Fatalf("timestamp does not verify")
		}
		txt, err := common.ToJSON(spct)
		if err != nil {
			t.Fatalf("%v", err)
		}
		b, err := common.FromJSON(txt)
		if err != nil || !verify(&c, b.(*common.SignedPolicyCertificateTimestamp), &k.priv.PublicKey) {
			t.Fatalf("timestamp does not verify after serialisation (%v)", err)
		}
		if verify(&c, spct, &ks[2].priv.PublicKey) {
			t.Fatalf("verifies under another key")
		}
		d := clone(c)
		ls := leaves(reflect.ValueOf(&d).Elem(), "")
		i := rapid.IntRange(0, len(ls)-1).Draw(t, "field")
		alter(t, ls[i])
		if diffAny(c, d) != "" && verify(&d, spct, &k.priv.PublicKey) {
			t.Fatalf("verifies for a certificate with %s altered", ls[i].path)
		}
		s2 := clone(*spct)
		lt := leaves(reflect.ValueOf(&s2).Elem(), "")
		j := rapid.IntRange(0, len(lt)-1).Draw(t, "tsField")
		alter(t, lt[j])
		if diffAny(*spct, s2) != "" && verify(&c, &s2, &k.priv.PublicKey) {
			t.Fatalf("verifies with the timestamp's %s altered", lt[j].path)
		}
		rec.Case(fmt.Sprint(c0, ls[i].path, lt[j].path), true, func() any { return ls[i].path + " / timestamp " + lt[j].path }, "cert"+ls[i].path, "ts"+lt[j].path)
	})
}

// ---------------------------------------------------------------- C03

func labels(t *rapid.T, n int) string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, rapid.SampledFrom([]string{"a", "b", "example", "com", "*", "x-y", "ü", "a b"}).Draw(t, "label"))
	}
	return strings.Join(l, ".")
}

func genName(t *rapid.T, label string) string {
	s := labels(t, rapid.IntRange(0, 4).Draw(t, label+"Labels"))
	switch rapid.IntRange(0, 9).Draw(t, label+"Odd") {
	case 0:
		s = "." + s
	case 1:
		s += "."
	case 2:
		s += ".."
	case 3:
		s = strings.Replace(s, ".", "..", 1)
	}
	return s
}

func wellFormed(s string) bool {
	if s == "" {
		return true
	}
	for _, l := range strings.Split(strings.TrimSuffix(s, "."), ".") {
		if l == "" {
			return false
		}
	}
	return true
}

func TestC03Constraints(t *testing.T) {
	rec := vlib.New(t, "C03", "pairs of issuer and subject: domains equal, related by label suffix, string suffix or not at all, well-formed or not, and periods inside, touching or outside; "+
		"non-trivial: both domains non-empty and the periods overlap")
	base := time.Date(2024, 3, 1, 12, 0, 0, 0, time.UTC)
	vlib.Check(t, rec, func(t *rapid.T) {
		issuer, child := genPC(t), genPC(t)
		issuer.DomainField = genName(t, "issuer")
		rel := rapid.SampledFrom([]string{"same", "below", "below", "below", "suffix", "above", "none", "empty", "prefix", "case"}).Draw(t, "relation")
		switch rel {
		case "same":
			child.DomainField = issuer.DomainField
		case "below":
			child.DomainField = labels(t, rapid.IntRange(1, 3).Draw(t, "more")) + "." + issuer.DomainField
		case "suffix":
			child.DomainField = "x" + issuer.DomainField
		case "above":
			_, child.DomainField, _ = strings.Cut(issuer.DomainField, ".")
		case "none":
			child.DomainField = genName(t, "child")
		case "empty":
			child.DomainField = ""
		case "prefix":
			child.DomainField = issuer.DomainField + ".a"
		case "case":
			child.DomainField = "a." + strings.ToUpper(issuer.DomainField)
		}
		if rapid.IntRange(0, 9).Draw(t, "mangle") == 0 {
			child.DomainField = rapid.SampledFrom([]string{".", "..", "." + child.DomainField, child.DomainField + ".", "a.." + child.DomainField, child.DomainField + "\n"}).Draw(t, "mangled")
		}
		steps := []time.Duration{0, 0, 1, -1, time.Second, -time.Second, time.Hour, -time.Hour}
		in := func(x time.Time, l string) time.Time { return x.In(rapid.SampledFrom(zones).Draw(t, l)) }
		issuer.NotBefore, issuer.NotAfter = in(base, "z1"), in(base.Add(24*time.Hour), "z2")
		inside := rapid.Bool().Draw(t, "inside")
		dNB, dNA := time.Duration(0), time.Duration(0)
		if inside {
			dNB, dNA = rapid.SampledFrom([]time.Duration{0, 1, time.Hour}).Draw(t, "dNB"), -rapid.SampledFrom([]time.Duration{0, 1, time.Hour}).Draw(t, "dNA")
		} else {
			dNB, dNA = rapid.SampledFrom(steps).Draw(t, "dNB"), rapid.SampledFrom(steps).Draw(t, "dNA")
		}
		child.NotBefore, child.NotAfter = in(base.Add(dNB), "z3"), in(base.Add(24*time.Hour+dNA), "z4")

		okTime := dNB >= 0 && dNA <= 0
		okForm := wellFormed(issuer.DomainField) && wellFormed(child.DomainField)
		okDomain := issuer.DomainField == "" || child.DomainField == issuer.DomainField || strings.HasSuffix(child.DomainField, "."+issuer.DomainField)
		i0, c0 := clone(issuer), clone(child)
		var err error
		if m := vlib.NoPanic(func() { err = crypto.VerifyIssuerConstraints(&issuer, &child) }); m != "" {
			t.Fatalf("%s", m)
		}
		if d := diffAny(i0, issuer) + diffAny(c0, child); d != "" {
			t.Fatalf("checking changed %s", d)
		}
		if want := okTime && okForm && okDomain; want != (err == nil) {
			t.Fatalf("issuer %q, subject %q, period inside %v (%v, %v), well-formed %v, within domain %v: error %v", issuer.DomainField, child.DomainField, okTime, dNB, dNA, okForm, okDomain, err)
		}
		rec.Case(fmt.Sprint(issuer.DomainField, "|", child.DomainField, dNB, dNA), issuer.DomainField != "" && child.DomainField != "",
			func() any {
				return fmt.Sprintf("%q under %q, period %v %v: %v", child.DomainField, issuer.DomainField, dNB, dNA, err == nil)
			},
			"relation:"+rel, fmt.Sprintf("time:%v form:%v domain:%v", okTime, okForm, okDomain))
	})
}

// ---------------------------------------------------------------- C06

func TestC06Attributes(t *testing.T) {
	rec := vlib.New(t, "C06", "attribute sets over a small label alphabet with wildcards and duplicates, and pairs of names related by label suffix, string suffix or not at all; "+
		"non-trivial: the attributes apply and mention something")
	lab := []string{"a", "b", "www", "mail", "A", "ab", "xn--a"}
	vlib.Check(t, rec, func(t *rapid.T) {
		withStar := append([]string{"*"}, lab...)
		perm := rapid.Permutation(withStar).Draw(t, "labels")
		n := rapid.IntRange(0, len(perm)).Draw(t, "mentioned")
		var lists [3][]string
		for _, l := range perm[:n] {
			i := rapid.IntRange(0, 2).Draw(t, "list")
			lists[i] = append(lists[i], l)
		}
		a := common.PolicyAttributes{AllowedSubdomains: lists[0], DisallowedSubdomains: lists[1], ExcludedSubdomains: lists[2]}
		a.AllowedCAs = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"CA", "ca", "", "CN=x", "CN=y"}), 0, 4, rapid.ID[string]).Draw(t, "CAs")
		if err := a.ValidateAttributes(); err != nil {
			t.Fatalf("valid attributes %+v refused: %v", a, err)
		}
		// duplicates
		dup := common.PolicyAttributes{AllowedCAs: slices.Clone(a.AllowedCAs), AllowedSubdomains: slices.Clone(a.AllowedSubdomains),
			DisallowedSubdomains: slices.Clone(a.DisallowedSubdomains), ExcludedSubdomains: slices.Clone(a.ExcludedSubdomains)}
		what := "none"
		if n > 0 && rapid.Bool().Draw(t, "dupLabel") {
			l := perm[rapid.IntRange(0, n-1).Draw(t, "dup")]
			p := []*[]string{&dup.AllowedSubdomains, &dup.DisallowedSubdomains, &dup.ExcludedSubdomains}[rapid.IntRange(0, 2).Draw(t, "dupList")]
			*p = slices.Insert(*p, rapid.IntRange(0, len(*p)).Draw(t, "dupAt"), l)
			what = "label"
		} else if len(a.AllowedCAs) > 0 {
			dup.AllowedCAs = slices.Insert(dup.AllowedCAs, rapid.IntRange(0, len(dup.AllowedCAs)).Draw(t, "dupAt"), a.AllowedCAs[rapid.IntRange(0, len(a.AllowedCAs)-1).Draw(t, "dup")])
			what = "CA"
		}
		if what != "none" && dup.ValidateAttributes() == nil {
			t.Fatalf("attributes with a repeated %s accepted: %+v", what, dup)
		}
		// classification
		join := func(l []string) string { return strings.Join(l, ".") }
		names := rapid.SliceOfN(rapid.SampledFrom(lab), 1, 3)
		policy := names.Draw(t, "policy")
		rel := rapid.SampledFrom([]string{"below", "below", "below", "same", "suffix", "none", "above"}).Draw(t, "relation")
		var q []string
		switch rel {
		case "below":
			q = append(rapid.SliceOfN(rapid.SampledFrom(lab), 1, rapid.SampledFrom([]int{3, 3, 8, 60}).Draw(t, "most")).Draw(t, "below"), policy...)
		case "same":
			q = policy
		case "suffix":
			q = slices.Clone(policy)
			q[0] = "x" + q[0]
		case "none":
			q = names.Draw(t, "query")
		case "above":
			q = policy[1:]
		}
		pd, qd := join(policy), join(q)
		if rapid.Bool().Draw(t, "dotP") {
			pd += "."
		}
		if rapid.Bool().Draw(t, "dotQ") && qd != "" {
			qd += "."
		}
		want := common.PolicyAttributeDomainValidityResult(common.PolicyAttributeDomainNotApplicable)
		mentioned := false
		if len(q) > len(policy) && slices.Equal(q[len(q)-len(policy):], policy) {
			l := q[len(q)-len(policy)-1]
			want = common.PolicyAttributeDomainAllowed
			for _, m := range []string{"*", l} { // the exact mention decides last
				for i, list := range lists {
					if slices.Contains(list, m) {
						want, mentioned = common.PolicyAttributeDomainValidityResult(i), true
					}
				}
			}
		}
		b := common.PolicyAttributes{AllowedCAs: a.AllowedCAs, AllowedSubdomains: slices.Clone(a.AllowedSubdomains),
			DisallowedSubdomains: slices.Clone(a.DisallowedSubdomains), ExcludedSubdomains: slices.Clone(a.ExcludedSubdomains)}
		sort.Strings(b.AllowedSubdomains)
		slices.Reverse(b.DisallowedSubdomains)
		sort.Strings(b.ExcludedSubdomains)
		for i, x := range []common.PolicyAttributes{a, b} {
			if got := x.CheckDomainValidity(pd, qd); got != want {
				t.Fatalf("(%d) %q under policy of %q with %+v: %v, want %v", i, qd, pd, a, got, want)
			}
		}
		rec.Case(fmt.Sprint(pd, "|", qd, lists), mentioned, func() any { return fmt.Sprintf("%q under %q with %v: %v", qd, pd, lists, want) },
			"relation:"+rel, fmt.Sprintf("result:%d mentioned:%v", want, mentioned), "duplicate:"+what)
	})
}
