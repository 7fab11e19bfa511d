package utl

import (
	"bytes"
	"compress/gzip"
	"crypto"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/zzverif/certs"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

func genCert(t *rapid.T) *certs.Cert { return genCertPad(t, false) }

// genCertPad may return certificates larger than the buffers of the readers.
func genCertPad(t *rapid.T, pad bool) *certs.Cert {
	s := certs.Spec{
		Serial: int64(rapid.IntRange(0, 9).Draw(t, "serial")),
		CN:     rapid.SampledFrom([]string{"", "a.com", "b.org", "x"}).Draw(t, "cn"),
		SANs:   rapid.SliceOfN(rapid.SampledFrom([]string{"a.com", "*.b.org", "c.net"}), 0, 3).Draw(t, "sans"),
		Issuer: rapid.SampledFrom([]string{"", "i1", "i2"}).Draw(t, "issuer"),
	}
	if pad {
		switch rapid.IntRange(0, 199).Draw(t, "pad") {
		case 0:
			s.Pad = rapid.SampledFrom([]int{700_000, 800_000, 1 << 20, 3 << 20}).Draw(t, "big")
		case 1, 2, 3, 4, 5, 6, 7, 8, 9, 10:
			s.Pad = 20000
		}
	}
	return certs.Make(s)
}

// chunkReader hands out the data in generated portions, with reads of nothing in between.
type chunkReader struct {
	data   []byte
	sizes  []int
	i      int
	zeros  int
	err    error // at the end, instead of EOF
	atData bool  // the final error comes with the last data
}

func (r *chunkReader) Read(p []byte) (int, error) {
	end := r.err
	if end == nil {
		end = io.EOF
	}
	if len(r.data) == 0 {
		return 0, end
	}
	n := r.sizes[r.i%len(r.sizes)]
	r.i++
	if n == 0 {
		// Only a few, as a reader that takes them for a sign that it lacks space needs ever more memory.
		if r.zeros++; r.zeros > 8 {
			n = 1
		}
	}
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.data)
	r.data = r.data[n:]
	if len(r.data) == 0 && r.atData {
		return n, end
	}
	return n, nil
}

func TestU01Streams(t *testing.T) {
	rec := vlib.New(t, "U01", "at least two certificates, with text or other blocks in between, or split over several reads, or a malformed certificate")
	vlib.Check(t, rec, func(rt *rapid.T) {
		n := rapid.IntRange(0, 6).Draw(rt, "certs")
		var buf bytes.Buffer
		classes := []string{}
		for i := 0; i <= n; i++ {
			switch rapid.IntRange(0, 11).Draw(rt, "between") {
			case 0:
				buf.WriteString("some text\nand more\n")
				classes = append(classes, "text")
			case 1:
				buf.WriteString("\n\n")
			case 2:
				_ = pem.Encode(&buf, &pem.Block{Type: "RSA PRIVATE KEY", Bytes: []byte{1, 2, 3}})
				classes = append(classes, "other-block")
			case 3:
				buf.WriteString("-----BEGIN CERTIFICATE-----\n???\n-----END CERTIFICATE-----\n")
				classes = append(classes, "broken-block")
			case 4:
				if rapid.IntRange(0, 3).Draw(rt, "malformed") == 0 {
					_ = pem.Encode(&buf, &pem.Block{Type: "CERTIFICATE", Bytes: []byte("not a certificate")})
					classes = append(classes, "malformed")
				}
			}
			if i == n {
				break
			}
			c := genCertPad(rt, true)
			b := c.DER
			switch rapid.IntRange(0, 9).Draw(rt, "form") {
			case 0: // only the part to be signed
				b = c.Parsed.RawTBSCertificate
				classes = append(classes, "tbs")
			case 1: // altered
				b = append([]byte{}, b...)
				b[rapid.IntRange(0, min(len(b), 300)-1).Draw(rt, "at")] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bit"))
				classes = append(classes, "altered")
			case 2:
				b = b[:rapid.IntRange(0, len(b)-1).Draw(rt, "cut")]
				classes = append(classes, "cut")
			}
			hdr := map[string]string(nil)
			if rapid.IntRange(0, 9).Draw(rt, "hdr") == 0 {
				hdr = map[string]string{"X": "y"}
			}
			if err := pem.Encode(&buf, &pem.Block{Type: "CERTIFICATE", Bytes: b, Headers: hdr}); err != nil {
				rt.Fatalf("harness: %v", err)
			}
		}
		text := buf.Bytes()
		// The reference: the standard decoder over the whole text.
		var want [][]byte
		bad := false
		for rest := text; ; {
			var b *pem.Block
			if b, rest = pem.Decode(rest); b == nil {
				break
			}
			if b.Type != "CERTIFICATE" {
				continue
			}
			c, err := ctx509.ParseTBSCertificate(b.Bytes)
			if err != nil {
				c, err = ctx509.ParseCertificate(b.Bytes)
			}
			if err != nil {
				bad = true
				break
			}
			want = append(want, c.Raw)
		}
		sizes := rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 7, 64, 100, 1000, 4096, 1 << 20, 1 << 22}), 1, 5).Draw(rt, "sizes")
		if len(text) > 1<<19 {
			sizes = append(sizes, 1<<16)
		}
		sizes = append(sizes, 50)
		r := &chunkReader{data: text, sizes: sizes, atData: rapid.Bool().Draw(rt, "eofWithData")}
		ioErr := rapid.IntRange(0, 7).Draw(rt, "ioerr") == 0
		if ioErr {
			r.err = errors.New("read error")
		}
		var got []ctx509.Certificate
		var err error
		how := rapid.IntRange(0, 2).Draw(rt, "how")
		msg := vlib.NoPanic(func() {
			vlib.Within("U01", "reading certificates from a stream", 2*time.Minute, func() {
				cr := util.NewCertReader(r)
				switch how {
				case 0:
					got, err = cr.ReadAll()
				case 1, 2:
					size := rapid.IntRange(1, 4).Draw(rt, "slice")
					for {
						part := make([]ctx509.Certificate, size)
						var k int
						k, err = cr.Read(part)
						if err != nil {
							break
						}
						got = append(got, part[:k]...)
						if k < size {
							break
						}
					}
				}
			})
		})
		if msg != "" {
			rt.Fatalf("reading %q: %s", trunc(text), msg)
		}
		if bad || ioErr {
			if err == nil {
				rt.Fatalf("reading %q (malformed certificate: %v, read error: %v) reports no error", trunc(text), bad, ioErr)
			}
		} else {
			if err != nil {
				rt.Fatalf("reading %q: %v", trunc(text), err)
			}
			if len(got) != len(want) {
				rt.Fatalf("read %d certificates of %d from %q", len(got), len(want), trunc(text))
			}
		}
		for i := range got {
			if i >= len(want) || !bytes.Equal(got[i].Raw, want[i]) {
				rt.Fatalf("certificate %d read from %q is another one", i, trunc(text))
			}
		}
		if !bad && !ioErr && len(got) > 0 {
			b, err := util.SerializeCertificates(got)
			if err != nil {
				rt.Fatalf("serializing: %v", err)
			}
			again, err := util.DeserializeCertificates(b)
			if err != nil || len(again) != len(got) {
				rt.Fatalf("%d certificates, serialized and read back, are %d: %v", len(got), len(again), err)
			}
			ps := util.ExtractPayloads(again)
			es := util.ExtractExpirations(again)
			ns := util.ExtractNames(again)
			for i := range again {
				if !bytes.Equal(again[i].Raw, got[i].Raw) || !bytes.Equal(ps[i], got[i].Raw) || !es[i].Equal(got[i].NotAfter) ||
					!sameSet(ns[i], util.ExtractCertDomains(&got[i])) {
					rt.Fatalf("certificate %d changed when serialized and read back", i)
				}
			}
			one, err := util.CertificateFromPEMBytes(text)
			if err != nil || one == nil || !bytes.Equal(one.Raw, want[0]) {
				rt.Fatalf("first certificate of %q: %v", trunc(text), err)
			}
		}
		if len(want) == 0 && !bad {
			if one, err := util.CertificateFromPEMBytes(text); err != nil || one != nil {
				rt.Fatalf("the first certificate of a text without certificates is %v, %v", one, err)
			}
		}
		if bad {
			classes = append(classes, "rejected")
		}
		rec.Case(fmt.Sprintf("%x %v %d", common.SHA256Hash(text), sizes, how), len(want) > 1 || bad, func() any {
			return fmt.Sprintf("%d certificates, %d bytes, chunks %v, malformed %v, read error %v", len(want), len(text), sizes, bad, ioErr)
		}, classes...)
	})
}

func trunc(b []byte) string {
	if len(b) > 600 {
		return string(b[:300]) + fmt.Sprintf(" ..%d.. ", len(b)-600) + string(b[len(b)-300:])
	}
	return string(b)
}

func sameSet(a, b []string) bool {
	a, b = append([]string{}, a...), append([]string{}, b...)
	sort.Strings(a)
	sort.Strings(b)
	return fmt.Sprint(a) == fmt.Sprint(b) && len(a) == len(b)
}

type failWriter struct {
	left int
	buf  bytes.Buffer
}

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		k := w.left
		w.buf.Write(p[:k])
		w.left = 0
		return k, errors.New("disk full")
	}
	w.left -= len(p)
	return w.buf.Write(p)
}

func TestU01Writer(t *testing.T) {
	rec := vlib.New(t, "U01", "the writer fails after at least one byte and before the end")
	vlib.Check(t, rec, func(rt *rapid.T) {
		n := rapid.IntRange(1, 4).Draw(rt, "certs")
		cs := make([]ctx509.Certificate, n)
		total := 0
		ends := []int{}
		for i := range cs {
			cs[i] = *genCert(rt).Parsed
			total += len(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: cs[i].Raw}))
			ends = append(ends, total)
		}
		limit := rapid.IntRange(0, total+10).Draw(rt, "limit")
		w := &failWriter{left: limit}
		k, err := util.NewCertWriter(w).Write(cs)
		want := 0
		for want < n && ends[want] <= limit {
			want++
		}
		if k != want || (err == nil) != (want == n) {
			rt.Fatalf("writing %d certificates of %v bytes to a device with %d bytes: %d written, error %v", n, ends, limit, k, err)
		}
		rec.Case(fmt.Sprintf("%v %d", ends, limit), limit > 0 && limit < total, func() any { return fmt.Sprintf("ends %v limit %d", ends, limit) })
	})
}

func TestU01Files(t *testing.T) {
	rec := vlib.New(t, "U01", "the file has content and is compressed, cut or altered")
	dir := vlib.TempDir()
	defer os.RemoveAll(dir)
	vlib.Check(t, rec, func(rt *rapid.T) {
		content := rapid.SliceOfN(rapid.Byte(), 0, 400).Draw(rt, "content")
		content = bytes.Repeat(content, rapid.SampledFrom([]int{1, 1, 3, 500}).Draw(rt, "times"))
		gz := rapid.Bool().Draw(rt, "gz")
		name := filepath.Join(dir, "f"+rapid.SampledFrom([]string{".csv", ".CSV"}).Draw(rt, "ext"))
		data := content
		if gz {
			name = filepath.Join(dir, "f"+rapid.SampledFrom([]string{".gz", ".GZ"}).Draw(rt, "ext"))
			var b bytes.Buffer
			w := gzip.NewWriter(&b)
			w.Write(content)
			w.Close()
			data = b.Bytes()
		}
		fault := rapid.IntRange(0, 3).Draw(rt, "fault")
		data = append([]byte{}, data...)
		switch {
		case fault == 1 && gz:
			data = data[:rapid.IntRange(0, len(data)-1).Draw(rt, "cut")]
		case fault == 2 && gz: // the checksum or the length
			data[len(data)-1-rapid.IntRange(0, 7).Draw(rt, "at")] ^= 0x10
		default:
			fault = 0
		}
		if err := os.WriteFile(name, data, 0o600); err != nil {
			vlib.Infra("%v", err)
		}
		defer os.Remove(name)
		read := func() ([]byte, error) {
			f, err := util.LoadCsvFile(name)
			if err != nil {
				return nil, err
			}
			r, err := f.Open()
			if err != nil {
				return nil, err
			}
			b, err := io.ReadAll(r)
			if err != nil {
				f.Close()
				return nil, err
			}
			return b, f.Close()
		}
		var b []byte
		var err error
		if msg := vlib.NoPanic(func() { b, err = read() }); msg != "" {
			rt.Fatalf("reading a file (fault %d): %s", fault, msg)
		}
		if fault == 0 && (err != nil || !bytes.Equal(b, content)) {
			rt.Fatalf("a file of %d bytes (gzip %v) reads as %d bytes, %v", len(content), gz, len(b), err)
		}
		if fault != 0 && err == nil {
			rt.Fatalf("a damaged gzip file (fault %d) reads without error as %d bytes of %d", fault, len(b), len(content))
		}
		if gz {
			if msg := vlib.NoPanic(func() { b, err = util.ReadAllGzippedFile(name) }); msg != "" {
				rt.Fatalf("reading a gzip file (fault %d): %s", fault, msg)
			}
			if (err == nil) != (fault == 0) || err == nil && !bytes.Equal(b, content) {
				rt.Fatalf("gzip file (fault %d) of %d bytes reads as %d bytes, %v", fault, len(content), len(b), err)
			}
		}
		rec.Case(fmt.Sprintf("%x %d %v", common.SHA256Hash(data), fault, gz), len(content) > 0 && (gz || fault != 0), func() any {
			return fmt.Sprintf("%d bytes, gzip %v, fault %d", len(content), gz, fault)
		}, fmt.Sprintf("fault-%d", fault))
		if _, err := util.LoadCsvFile(filepath.Join(dir, "x.txt")); err == nil {
			rt.Fatalf("a file of an unknown kind is accepted")
		}
	})
}

var rsaKey = sync.OnceValue(func() *rsa.PrivateKey {
	k, err := rsa.GenerateKey(rand.Reader, 1024)
	if err != nil {
		vlib.Infra("%v", err)
	}
	return k
})

func TestU01Keys(t *testing.T) {
	rec := vlib.New(t, "U01", "the text is altered")
	k := rsaKey()
	good := util.RSAKeyToPEM(k)
	der, err := util.RSAPublicToDERBytes(&k.PublicKey)
	if err != nil {
		t.Fatal(err)
	}
	b64, err := util.RSAPublicToDERBase64(&k.PublicKey)
	if err != nil {
		t.Fatal(err)
	}
	if back, err := util.RSAKeyFromPEM(good); err != nil || !back.Equal(k) {
		t.Fatalf("a private key does not survive encoding: %v", err)
	}
	if back, err := util.DERBytesToRSAPublic(der); err != nil || !back.Equal(&k.PublicKey) {
		t.Fatalf("a public key does not survive encoding: %v", err)
	}
	if back, err := util.DERBase64ToRSAPublic(b64); err != nil || !back.Equal(&k.PublicKey) {
		t.Fatalf("a public key does not survive encoding: %v", err)
	}
	ed := ed25519.NewKeyFromSeed(bytes.Repeat([]byte{9}, 32))
	ec, err := ecdh.P256().NewPrivateKey(bytes.Repeat([]byte{9}, 32))
	if err != nil {
		vlib.Infra("%v", err)
	}
	for _, other := range []any{ed, ec} {
		b, err := x509.MarshalPKCS8PrivateKey(other)
		if err != nil {
			vlib.Infra("%v", err)
		}
		if back, err := util.RSAKeyFromPEM(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: b})); err == nil || back != nil {
			t.Fatalf("a %T is read as a private RSA key: %v, %v", other, back, err)
		}
		if b, err = x509.MarshalPKIXPublicKey(other.(interface{ Public() crypto.PublicKey }).Public()); err != nil {
			vlib.Infra("%v", err)
		}
		if back, err := util.DERBytesToRSAPublic(b); err == nil || back != nil {
			t.Fatalf("the public key of a %T is read as an RSA key: %v, %v", other, back, err)
		}
	}
	mutate := func(rt *rapid.T, b []byte) []byte {
		b = append([]byte{}, b...)
		switch rapid.IntRange(0, 3).Draw(rt, "mut") {
		case 0:
			return b[:rapid.IntRange(0, len(b)-1).Draw(rt, "cut")]
		case 1:
			b[rapid.IntRange(0, len(b)-1).Draw(rt, "at")] = rapid.Byte().Draw(rt, "byte")
			return b
		case 2:
			i := rapid.IntRange(0, len(b)-1).Draw(rt, "from")
			return append(b[:i], b[rapid.IntRange(i, len(b)).Draw(rt, "to"):]...)
		default:
			return rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "random")
		}
	}
	vlib.Check(t, rec, func(rt *rapid.T) {
		m := mutate(rt, good)
		var back *rsa.PrivateKey
		var err error
		if msg := vlib.NoPanic(func() { back, err = util.RSAKeyFromPEM(m) }); msg != "" {
			rt.Fatalf("RSAKeyFromPEM(%q): %s", m, msg)
		}
		if (back == nil) == (err == nil) {
			rt.Fatalf("RSAKeyFromPEM(%q): %v, %v", m, back, err)
		}
		if err == nil && !back.Equal(k) {
			if back.Validate() != nil {
				rt.Fatalf("RSAKeyFromPEM(%q) returns an invalid key", m)
			}
		}
		d := mutate(rt, der)
		var pub *rsa.PublicKey
		if msg := vlib.NoPanic(func() { pub, err = util.DERBytesToRSAPublic(d) }); msg != "" {
			rt.Fatalf("DERBytesToRSAPublic(%x): %s", d, msg)
		}
		if (pub == nil) == (err == nil) {
			rt.Fatalf("DERBytesToRSAPublic(%x): %v, %v", d, pub, err)
		}
		e := mutate(rt, []byte(b64))
		if msg := vlib.NoPanic(func() { pub, err = util.DERBase64ToRSAPublic(string(e)) }); msg != "" {
			rt.Fatalf("DERBase64ToRSAPublic(%q): %s", e, msg)
		}
		if (pub == nil) == (err == nil) {
			rt.Fatalf("DERBase64ToRSAPublic(%q): %v, %v", e, pub, err)
		}
		rec.Case(string(m)+string(d)+string(e), true, func() any { return fmt.Sprintf("%.80q", m) })
	})
}

func TestU01Rows(t *testing.T) {
	rec := vlib.New(t, "U01", "a row is malformed, or there are two rows with a chain")
	b64 := base64.StdEncoding.EncodeToString
	vlib.Check(t, rec, func(rt *rapid.T) {
		n := rapid.IntRange(0, 4).Draw(rt, "rows")
		var text strings.Builder
		var leaves []ctx509.Certificate
		var chains [][]*ctx509.Certificate
		bad := ""
		for i := 0; i < n; i++ {
			leaf := genCert(rt)
			chain := make([]*ctx509.Certificate, rapid.IntRange(0, 3).Draw(rt, "chain"))
			strs := make([]string, len(chain))
			for j := range chain {
				c := genCert(rt)
				chain[j], strs[j] = c.Parsed, b64(c.DER)
			}
			fields := []string{"ts", "idx", "x", b64(leaf.DER), strings.Join(strs, ";"), "y"}
			switch rapid.IntRange(0, 19).Draw(rt, "fault") {
			case 0:
				fields, bad = fields[:rapid.IntRange(1, 4).Draw(rt, "fields")], "short row"
			case 1:
				fields[3], bad = "?"+fields[3], "leaf not base64"
			case 2:
				fields[3], bad = b64([]byte("no certificate")), "leaf not a certificate"
			case 3:
				fields[4], bad = fields[4]+";AAAA", "chain member not a certificate"
			case 4:
				fields[3], bad = "", "no leaf"
			case 5:
				fields[4] += ";;"
				bad = "empty chain members"
			}
			text.WriteString(strings.Join(fields, ",") + "\n")
			leaves = append(leaves, *leaf.Parsed)
			chains = append(chains, chain)
		}
		var got []ctx509.Certificate
		var ids []common.SHA256Output
		var parents []*common.SHA256Output
		var names [][]string
		var err error
		if msg := vlib.NoPanic(func() { got, ids, parents, names, err = util.LoadCertsAndChainsFromCSV([]byte(text.String())) }); msg != "" {
			rt.Fatalf("loading rows (%s): %s", bad, msg)
		}
		if bad != "" {
			if err == nil {
				rt.Fatalf("loading rows (%s) gives no error", bad)
			}
		} else {
			if err != nil {
				rt.Fatalf("loading %d good rows: %v", n, err)
			}
			if e := checkUnfolded(leaves, chains, got, ids, parents, names); e != "" {
				rt.Fatalf("loading %d rows: %s", n, e)
			}
		}
		rec.Case(text.String(), bad != "" || n > 1, func() any { return fmt.Sprintf("%d rows, fault %q", n, bad) }, "fault:"+bad)
	})
}

func TestU01Filenames(t *testing.T) {
	rec := vlib.New(t, "U01", "at least two names or a malformed one")
	vlib.Check(t, rec, func(rt *rapid.T) {
		n := rapid.IntRange(1, 8).Draw(rt, "n")
		names := make([]string, n)
		firsts := make([]int, n)
		bad := false
		for i := range names {
			a := rapid.IntRange(0, 2000).Draw(rt, "a") * rapid.SampledFrom([]int{1, 1000003}).Draw(rt, "f")
			b := a + rapid.IntRange(0, 200000).Draw(rt, "b")
			firsts[i] = a
			pre := rapid.SampledFrom([]string{"", "", "dir/", "/x/1-2/", "0-5.gz/"}).Draw(rt, "dir")
			ext := rapid.SampledFrom([]string{".gz", ".csv"}).Draw(rt, "ext")
			names[i] = fmt.Sprintf("%s%d-%d%s", pre, a, b, ext)
			isBad := false
			switch rapid.IntRange(0, 29).Draw(rt, "bad") {
			case 0:
				if a < b {
					names[i], isBad = fmt.Sprintf("%d-%d%s", b, a, ext), true
				}
			case 1:
				names[i], isBad = fmt.Sprintf("%d-%d%s", a, b, rapid.SampledFrom([]string{"", "xgz", ".gzz", ".txt", ".gz.csv.x", ".", "gz", " .gz", "/"}).Draw(rt, "badext")), true
			case 2:
				names[i], isBad = rapid.SampledFrom([]string{"", "-", "a-b.gz", "1.gz", "-1-5.gz", "1-5-7.gz", "1-99999999999999999999999.gz", "0x1-0x2.gz", "1-.csv", "-2.csv"}).Draw(rt, "badname"), true
			}
			bad = bad || isBad
			var cnt, first uint
			var err, err2 error
			if msg := vlib.NoPanic(func() {
				cnt, err = util.EstimateCertCount(names[i])
				first, err2 = util.CsvFilenameToFirstIndex(names[i])
			}); msg != "" {
				rt.Fatalf("name %q: %s", names[i], msg)
			}
			if isBad != (err != nil) || isBad != (err2 != nil) {
				rt.Fatalf("name %q: count %d, %v; first %d, %v", names[i], cnt, err, first, err2)
			}
			if !isBad && (cnt != uint(b-a+1) || first != uint(a)) {
				rt.Fatalf("name %q: count %d, first %d", names[i], cnt, first)
			}
		}
		sorted := append([]string{}, names...)
		err := util.SortByBundleName(sorted)
		if bad != (err != nil) {
			rt.Fatalf("sorting %q: %v", names, err)
		}
		if !sameSet(names, sorted) {
			rt.Fatalf("sorting %q loses names: %q", names, sorted)
		}
		if !bad {
			sort.Ints(firsts)
			for i := range sorted {
				if f, _ := util.CsvFilenameToFirstIndex(sorted[i]); f != uint(firsts[i]) {
					rt.Fatalf("sorting %q: %q", names, sorted)
				}
			}
		}
		rec.Case(strings.Join(names, "|"), bad || n > 1, func() any { return fmt.Sprintf("%q", names) })
	})
}
