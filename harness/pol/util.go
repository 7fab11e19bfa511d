// Package pol checks policy objects, their signatures and their issuance (properties C01 to C06).
package pol

import (
	"crypto/rand"
	"crypto/rsa"
	"fmt"
	"math"
	"reflect"
	"sync"
	"time"

	"github.com/google/trillian"
	trilliantypes "github.com/google/trillian/types"
	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/util"
)

// ---------------------------------------------------------------- keys

type keyPair struct {
	priv *rsa.PrivateKey
	der  []byte
}

var keys = sync.OnceValue(func() []keyPair {
	ks := make([]keyPair, 4)
	var wg sync.WaitGroup
	for i := range ks {
		wg.Add(1)
		go func() {
			defer wg.Done()
			k, err := rsa.GenerateKey(rand.Reader, 1024)
			if err != nil {
				panic(err)
			}
			der, err := util.RSAPublicToDERBytes(&k.PublicKey)
			if err != nil {
				panic(err)
			}
			ks[i] = keyPair{k, der}
		}()
	}
	wg.Wait()
	return ks
})

// ---------------------------------------------------------------- generators

func genBytes(t *rapid.T, label string) []byte {
	switch rapid.IntRange(0, 4).Draw(t, label+"Kind") {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, label)
	default:
		return rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, label)
	}
}

var odd = []string{"", "*", "a", "A", "example.com", "a\"b", "<&>", "\u2028", "é", "日本", "\x00", "\x7f", "\\u0041", "\n", " ", "null", "{}", "𝔘", "\ufffd"}

func genString(t *rapid.T, label string) string {
	if rapid.Bool().Draw(t, label+"Odd") {
		return rapid.SampledFrom(odd).Draw(t, label)
	}
	return rapid.StringN(0, 8, 24).Draw(t, label)
}

func genStrings(t *rapid.T, label string) []string {
	n := rapid.IntRange(-1, 3).Draw(t, label+"N")
	if n < 0 {
		return nil
	}
	s := make([]string, n)
	for i := range s {
		s[i] = genString(t, label)
	}
	return s
}

var zones = []*time.Location{time.UTC, time.Local, time.FixedZone("A", 3600), time.FixedZone("B", -9*3600-1800), time.FixedZone("", 0), time.FixedZone("C", 14*3600)}

func genTime(t *rapid.T, label string) time.Time {
	switch rapid.IntRange(0, 5).Draw(t, label+"Kind") {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(rapid.Int64Range(0, 4e9).Draw(t, label), 0).UTC()
	default:
		// years 1 to 9998: what RFC 3339 can express in every zone
		s := rapid.Int64Range(-62135596800+86400, 253370764800-86400).Draw(t, label)
		ns := rapid.SampledFrom([]int64{0, 1, 999999999, 500000000, 1000, 123456789}).Draw(t, label+"NS")
		return time.Unix(s, ns).In(rapid.SampledFrom(zones).Draw(t, label+"Zone"))
	}
}

func genInt(t *rapid.T, label string) int {
	return rapid.OneOf(rapid.IntRange(-2, 3), rapid.SampledFrom([]int{math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1}), rapid.Int()).Draw(t, label)
}

func genBase(t *rapid.T) common.PolicyCertificateBase {
	return common.PolicyCertificateBase{PolicyPartBase: common.PolicyPartBase{Version: genInt(t, "version")},
		SerialNumberField: genInt(t, "serial"), DomainField: genString(t, "domain")}
}

func genAttrs(t *rapid.T) common.PolicyAttributes {
	if rapid.Bool().Draw(t, "noAttrs") {
		return common.PolicyAttributes{}
	}
	return common.PolicyAttributes{AllowedCAs: genStrings(t, "CAs"), AllowedSubdomains: genStrings(t, "allowed"),
		DisallowedSubdomains: genStrings(t, "disallowed"), ExcludedSubdomains: genStrings(t, "excluded")}
}

func genFields(t *rapid.T) common.PolicyCertificateFields {
	return common.PolicyCertificateFields{PolicyCertificateBase: genBase(t), NotBefore: genTime(t, "nb"), NotAfter: genTime(t, "na"),
		CanIssue: rapid.Bool().Draw(t, "canIssue"), CanOwn: rapid.Bool().Draw(t, "canOwn"), PublicKey: genBytes(t, "pk"),
		PublicKeyAlgorithm: common.PublicKeyAlgorithm(rapid.IntRange(0, 2).Draw(t, "pka")), SignatureAlgorithm: common.SignatureAlgorithm(rapid.IntRange(0, 2).Draw(t, "sa")),
		TimeStamp: genTime(t, "ts"), PolicyAttributes: genAttrs(t), OwnerSignature: genBytes(t, "osig"), OwnerHash: genBytes(t, "ohash")}
}

func genSET(t *rapid.T) common.SignedEntryTimestamp {
	return *common.NewSignedEntryTimestamp(genInt(t, "tsVersion"), genBytes(t, "logID"), genTime(t, "added"), genBytes(t, "tsSig"))
}

func genPC(t *rapid.T) common.PolicyCertificate {
	c := common.PolicyCertificate{PolicyCertificateFields: genFields(t), IssuerSignature: genBytes(t, "isig"), IssuerHash: genBytes(t, "ihash")}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "spcts"); i < n; i++ {
		c.SPCTs = append(c.SPCTs, common.SignedPolicyCertificateTimestamp{SignedEntryTimestamp: genSET(t)})
	}
	return c
}

func genRev(t *rapid.T) common.PolicyCertificateRevocation {
	r := common.PolicyCertificateRevocation{PolicyCertificateRevocationFields: common.PolicyCertificateRevocationFields{PolicyCertificateBase: genBase(t),
		TimeStamp: genTime(t, "ts"), OwnerSignature: genBytes(t, "osig"), OwnerHash: genBytes(t, "ohash")},
		IssuerSignature: genBytes(t, "isig"), IssuerHash: genBytes(t, "ihash")}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "spcrts"); i < n; i++ {
		r.SPCRTs = append(r.SPCRTs, common.SignedPolicyCertificateRevocationTimestamp{SignedEntryTimestamp: genSET(t)})
	}
	return r
}

var kinds = []string{"pcsr", "pc", "spct", "pcrevsr", "pcrev", "spcrevt", "proof", "logroot", "siginput"}

func genObj(t *rapid.T, kind string) any {
	switch kind {
	case "pcsr":
		return common.PolicyCertificateSigningRequest{PolicyCertificateFields: genFields(t)}
	case "pc":
		return genPC(t)
	case "spct":
		return common.SignedPolicyCertificateTimestamp{SignedEntryTimestamp: genSET(t)}
	case "pcrevsr":
		return *common.NewPolicyCertificateRevocationSigningRequest(genBytes(t, "hash"))
	case "pcrev":
		return genRev(t)
	case "spcrevt":
		return common.SignedPolicyCertificateRevocationTimestamp{SignedEntryTimestamp: genSET(t)}
	case "proof":
		p := trillian.Proof{LeafIndex: rapid.Int64().Draw(t, "leaf")}
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "hashes"); i < n; i++ {
			p.Hashes = append(p.Hashes, rapid.SliceOfN(rapid.Byte(), 0, 32).Draw(t, "h"))
		}
		return p
	case "logroot":
		return trilliantypes.LogRootV1{TreeSize: rapid.Uint64().Draw(t, "size"), RootHash: genBytes(t, "root"), TimestampNanos: rapid.Uint64().Draw(t, "nanos"),
			Metadata: genBytes(t, "meta")}
	case "siginput":
		return common.SignedEntryTimestampSignatureInput{SignedEntryTimestamp: genSET(t), Entry: genBytes(t, "entry")}
	}
	panic(kind)
}

// ---------------------------------------------------------------- comparison

var timeType = reflect.TypeOf(time.Time{})

// diff compares two values field by field: nil and empty slices are the same, times are instants, raw JSON
// and unexported fields do not count. It returns the path of the first difference.
func diff(a, b reflect.Value, path string) string {
	for a.Kind() == reflect.Interface {
		a = a.Elem()
	}
	for b.Kind() == reflect.Interface {
		b = b.Elem()
	}
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() != b.IsValid() {
			return path + ": missing"
		}
		return ""
	}
	// a typed slice comes back as a list of any
	if a.Kind() == reflect.Slice && b.Kind() == reflect.Slice {
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d/%d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	}
	if a.Type() != b.Type() && a.Kind() != reflect.Pointer {
		return fmt.Sprintf("%s: type %v/%v", path, a.Type(), b.Type())
	}
	switch {
	case a.Type() == timeType:
		if !a.Interface().(time.Time).Equal(b.Interface().(time.Time)) {
			return fmt.Sprintf("%s: %v/%v", path, a.Interface(), b.Interface())
		}
	case a.Kind() == reflect.Pointer:
		if b.Kind() != reflect.Pointer || a.IsNil() != b.IsNil() {
			return path + ": pointer"
		}
		if !a.IsNil() {
			return diff(a.Elem(), b.Elem(), path)
		}
	case a.Kind() == reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if !f.IsExported() || f.Name == "JSONField" {
				continue
			}
			if d := diff(a.Field(i), b.Field(i), path+"."+f.Name); d != "" {
				return d
			}
		}
	default:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return fmt.Sprintf("%s: %v/%v", path, a.Interface(), b.Interface())
		}
	}
	return ""
}

func diffAny(a, b any) string { return diff(reflect.ValueOf(a), reflect.ValueOf(b), "") }

// clonePC copies a value deeply (what generated objects consist of).
func clone[T any](v T) T {
	return cloneV(reflect.ValueOf(&v)).Elem().Interface().(T)
}

func cloneV(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(cloneV(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(cloneV(v.Index(i)))
		}
		return n
	case reflect.Struct:
		if v.Type() == timeType {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				n.Field(i).Set(cloneV(v.Field(i)))
			}
		}
		return n
	}
	return v
}

// leaf is one mutable field of an object.
type leaf struct {
	path string
	v    reflect.Value
}

// leaves lists the fields of the struct behind ptr that hold a value (embedded structs are descended into).
func leaves(v reflect.Value, path string) []leaf {
	var out []leaf
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.IsExported() || f.Name == "JSONField" {
			continue
		}
		p := path + "." + f.Name
		if f.Type.Kind() == reflect.Struct && f.Type != timeType {
			out = append(out, leaves(v.Field(i), p)...)
			continue
		}
		out = append(out, leaf{p, v.Field(i)})
	}
	return out
}

// alter changes the value of a field to a different one.
func alter(t *rapid.T, l leaf) {
	v := l.v
	switch {
	case v.Type() == timeType:
		d := rapid.SampledFrom([]time.Duration{1, -1, time.Second, -time.Hour, 24 * time.Hour}).Draw(t, "shift")
		v.Set(reflect.ValueOf(v.Interface().(time.Time).Add(d)))
		if y := v.Interface().(time.Time).UTC().Year(); y < 1 {
			v.Set(reflect.ValueOf(time.Unix(1, 0).UTC()))
		}
	case v.Kind() == reflect.Bool:
		v.SetBool(!v.Bool())
	case v.Kind() == reflect.Int:
		d := rapid.SampledFrom([]int64{1, -1, 256, 1 << 32}).Draw(t, "delta")
		v.SetInt(v.Int() ^ d)
	case v.Kind() == reflect.String:
		switch s := v.String(); rapid.IntRange(0, 2).Draw(t, "how") {
		case 0:
			v.SetString(s + "x")
		case 1:
			v.SetString("." + s)
		default:
			v.SetString(s + " ")
		}
	case v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8:
		b := append([]byte(nil), v.Bytes()...)
		switch k := rapid.IntRange(0, 2).Draw(t, "how"); {
		case k == 0 || len(b) == 0:
			b = append(b, 0)
		case k == 1:
			i := rapid.IntRange(0, 8*len(b)-1).Draw(t, "bit")
			b[i/8] ^= 1 << uint(i%8)
		default:
			b = b[:len(b)-1]
		}
		v.SetBytes(b)
	case v.Kind() == reflect.Slice:
		n := v.Len()
		switch k := rapid.IntRange(0, 3).Draw(t, "how"); {
		case n > 1 && k == 0 && diff(v.Index(0), v.Index(n-1), "") != "": // swap
			w := cloneV(v)
			a, b := cloneV(w.Index(0)), cloneV(w.Index(n-1))
			w.Index(0).Set(b)
			w.Index(n - 1).Set(a)
			v.Set(w)
		case n > 0 && k == 1:
			v.Set(cloneV(v).Slice(0, n-1))
		case n > 0 && k == 2: // change an element
			w := cloneV(v)
			e := w.Index(rapid.IntRange(0, n-1).Draw(t, "elem"))
			if e.Kind() == reflect.Struct {
				ls := leaves(e, "")
				alter(t, ls[rapid.IntRange(0, len(ls)-1).Draw(t, "field")])
			} else {
				alter(t, leaf{"", e})
			}
			v.Set(w)
		default:
			v.Set(reflect.Append(cloneV(v), reflect.Zero(v.Type().Elem())))
		}
	default:
		panic("alter " + l.path + " " + v.Type().String())
	}
}
