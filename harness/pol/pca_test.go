package pol

import (
	"bytes"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"errors"
	"fmt"
	"path/filepath"
	"reflect"
	"sort"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/pkg/domainowner"
	"github.com/netsec-ethz/fpki/pkg/pca"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

var errRemote = errors.New("log server failure (injected)")

// logs are the log servers of one authority: they record what they see and may fail at a call.
type logs struct {
	t        *rapid.T
	root     *common.PolicyCertificate
	key      *rsa.PrivateKey
	ids      map[string][]byte
	calls    int
	failAt   int
	obtained []string
	sent     map[string][]common.PolicyCertificate
}

func (l *logs) fail() bool {
	l.calls++
	return l.calls == l.failAt
}

func (l *logs) reset(failAt int) {
	l.calls, l.failAt, l.obtained, l.sent = 0, failAt, nil, map[string][]common.PolicyCertificate{}
}

func (l *logs) ObtainSptFromLogServer(url string, pc *common.PolicyCertificate) (*common.SignedPolicyCertificateTimestamp, error) {
	if _, ok := l.ids[url]; !ok {
		l.t.Fatalf("a log server that is not configured was asked: %q", url)
	}
	l.obtained = append(l.obtained, url)
	if err := crypto.VerifyIssuerSignature(l.root, pc); err != nil {
		l.t.Fatalf("a log server was sent a certificate that the authority did not sign: %v", err)
	}
	if l.fail() {
		return nil, errRemote
	}
	return crypto.SignPolicyCertificateTimestamp(pc, 7, l.ids[url], l.key)
}

func (l *logs) SendPolicyCertificateToLogServer(url string, pc *common.PolicyCertificate) error {
	l.sent[url] = append(l.sent[url], clone(*pc))
	if l.fail() {
		return errRemote
	}
	return nil
}

type issued struct {
	cert *common.PolicyCertificate
	key  keyPair
}

func TestC05Authority(t *testing.T) {
	rec := vlib.New(t, "C05", "history of requests (prepared by the authority, signed by known, unknown or wrong owners, tampered, unsigned) with log servers failing at a generated call; "+
		"non-trivial: a request signed by an owner issued earlier in the history")
	dir := vlib.TempDir()
	vlib.Check(t, rec, func(t *rapid.T) {
		ks := keys()
		root := genPC(t)
		root.PublicKey = ks[3].der
		root.NotBefore, root.NotAfter = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC)
		nLogs := rapid.IntRange(0, 3).Draw(t, "logServers")
		cfg := &pca.PCAConfig{CAName: "ca"}
		l := &logs{t: t, root: &root, key: ks[2].priv, ids: map[string][]byte{}}
		for i := 0; i < nLogs; i++ {
			e := pca.CTLogServerEntryConfig{Name: fmt.Sprint("log", i), URL: fmt.Sprint("url", i), PublicKeyDER: []byte(fmt.Sprint("der", i))}
			cfg.CTLogServers = append(cfg.CTLogServers, e)
			l.ids[e.URL] = common.SHA256Hash(e.PublicKeyDER)
		}
		var err error
		if cfg.CertJSON, err = common.ToJSON(&root); err != nil {
			t.Fatalf("%v", err)
		}
		cfg.KeyPEM = pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(ks[3].priv)})
		path := filepath.Join(dir, "pca.json")
		if rapid.IntRange(0, 19).Draw(t, "mismatch") == 0 { // a key that does not belong to the certificate
			bad := *cfg
			bad.KeyPEM = pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(ks[0].priv)})
			if err := pca.SaveConfigToFile(&bad, path); err != nil {
				t.Fatalf("%v", err)
			}
			if _, err := pca.NewPCA(path); err == nil {
				t.Fatalf("an authority with a key that is not its certificate's was created")
			}
		}
		if err := pca.SaveConfigToFile(cfg, path); err != nil {
			t.Fatalf("%v", err)
		}
		ca, err := pca.NewPCA(path)
		if err != nil {
			t.Fatalf("creating the authority: %v", err)
		}
		if d := diffAny(root, *ca.RootPolicyCert); d != "" {
			t.Fatalf("the authority's certificate changed: %s", d)
		}
		if len(ca.CtLogServers) != nLogs {
			t.Fatalf("%d log servers configured, the authority has %d", nLogs, len(ca.CtLogServers))
		}
		ca.LogServerRequester = l
		var known []issued
		serials := map[int]bool{}
		trace := ""
		signedByKnown, refusedKnown := 0, 0

		for step, n := 0, rapid.IntRange(2, 7).Draw(t, "steps"); step < n; step++ {
			// who owns, and with what is it signed
			owner := rapid.SampledFrom([]string{"none", "known", "known", "known", "unknown", "badLength"}).Draw(t, "owner")
			if owner == "known" && len(known) == 0 {
				owner = "none"
			}
			var o issued
			var ownerHash []byte
			switch owner {
			case "known":
				o = known[rapid.IntRange(0, len(known)-1).Draw(t, "which")]
				ownerHash = mustHash(t, o.cert)
			case "unknown":
				c := genSigner(t, ks[0], true)
				o = issued{c, ks[0]}
				ownerHash = mustHash(t, c)
			case "badLength":
				o = issued{nil, ks[0]}
				ownerHash = rapid.SampledFrom([][]byte{{1}, make([]byte, 31), make([]byte, 33), nil}).Draw(t, "badHash")
			}
			subject := ks[rapid.IntRange(0, 1).Draw(t, "subjectKey")]
			var req *common.PolicyCertificateSigningRequest
			good := true // the signature is the owner's over this very request
			sign := func(b []byte) []byte {
				if owner == "none" {
					return nil
				}
				k := o.key.priv
				if rapid.IntRange(0, 5).Draw(t, "wrongKey") == 0 {
					good = false
					k = ks[2].priv
				}
				s, err := crypto.SignBytes(b, k)
				if err != nil {
					t.Fatalf("%v", err)
				}
				return s
			}
			canOwn := rapid.IntRange(0, 3).Draw(t, "canOwn") > 0
			if rapid.Bool().Draw(t, "prepared") {
				nb, na := root.NotBefore, root.NotAfter
				d1, d2 := rapid.SampledFrom([]time.Duration{0, 1, time.Hour, -1, 0, 0}).Draw(t, "nb"), rapid.SampledFrom([]time.Duration{0, -1, -time.Hour, 1, 0, 0}).Draw(t, "na")
				attrs := genAttrs(t)
				version, domain, canIssue := genInt(t, "version"), genString(t, "domain"), rapid.Bool().Draw(t, "canIssue")
				from := time.Now()
				r, err := ca.NewPolicyCertificateSigningRequest(version, domain, nb.Add(d1), na.Add(d2), canIssue, canOwn, subject.der, common.RSA, common.SHA256, attrs, sign, ownerHash)
				if (err == nil) != (d1 >= 0 && d2 <= 0) {
					t.Fatalf("preparing a request valid from start%+d to end%+d of the authority: %v", d1, d2, err)
				}
				if err != nil {
					trace += "outside; "
					continue
				}
				if serials[r.SerialNumber()] {
					t.Fatalf("serial number %d given twice", r.SerialNumber())
				}
				serials[r.SerialNumber()] = true
				want := common.PolicyCertificateFields{PolicyCertificateBase: common.PolicyCertificateBase{PolicyPartBase: common.PolicyPartBase{Version: version},
					SerialNumberField: r.SerialNumber(), DomainField: domain}, NotBefore: nb.Add(d1), NotAfter: na.Add(d2), CanIssue: canIssue, CanOwn: canOwn, PublicKey: subject.der,
					TimeStamp: r.TimeStamp, PolicyAttributes: attrs, OwnerSignature: r.OwnerSignature, OwnerHash: ownerHash}
				if d := diffAny(want, r.PolicyCertificateFields); d != "" {
					t.Fatalf("prepared request: %s", d)
				}
				if r.TimeStamp.Before(from) || r.TimeStamp.After(time.Now()) {
					t.Fatalf("prepared request has time stamp %v", r.TimeStamp)
				}
				req = r
			} else {
				req = &common.PolicyCertificateSigningRequest{PolicyCertificateFields: genFields(t)}
				req.PublicKey, req.CanOwn, req.OwnerHash, req.OwnerSignature = subject.der, canOwn, ownerHash, nil
				b, err := common.ToJSON(common.NewPolicyCertificateFromRequest(req))
				if err != nil {
					t.Fatalf("%v", err)
				}
				req.OwnerSignature = sign(b)
			}
			if rapid.IntRange(0, 5).Draw(t, "tamper") == 0 {
				r2 := clone(*req)
				ls := leaves(reflect.ValueOf(&r2).Elem(), "")
				x := ls[rapid.IntRange(0, len(ls)-1).Draw(t, "field")]
				if x.path != ".PolicyCertificateFields.PublicKey" {
					alter(t, x)
					if diffAny(*req, r2) != "" {
						good = false
						req = &r2
					}
				}
			}
			// what must happen
			wantErr := false
			var ownerCert *common.PolicyCertificate
			if len(req.OwnerSignature) > 0 {
				if len(req.OwnerHash) != 32 {
					wantErr = true
				} else {
					for _, k := range known {
						if bytes.Equal(mustHash(t, k.cert), req.OwnerHash) {
							ownerCert = k.cert
							wantErr = !good
						}
					}
				}
			}
			failAt := 0
			if rapid.IntRange(0, 3).Draw(t, "logFails") == 0 {
				failAt = rapid.IntRange(1, 2*nLogs+1).Draw(t, "failAt")
			}
			logFails := failAt > 0 && failAt <= 2*nLogs
			l.reset(failAt)
			db := map[[32]byte]*common.PolicyCertificate{}
			for k, v := range ca.DB {
				db[k] = v
			}
			before := clone(*req)
			pc, err := ca.SignAndLogRequest(req)
			if d := diffAny(before, *req); d != "" {
				t.Fatalf("issuing changed the request: %s", d)
			}
			trace += fmt.Sprintf("%s good=%v fail=%d err=%v; ", owner, good, failAt, err != nil)
			if (err != nil) != (wantErr || logFails) {
				t.Fatalf("request by %s owner (hash %x, signature %x, genuine %v), log call %d of %d fails: error %v", owner, req.OwnerHash, req.OwnerSignature, good, failAt, 2*nLogs, err)
			}
			if err != nil {
				if logFails && !wantErr && !errors.Is(err, errRemote) {
					t.Fatalf("the error %q does not include the log server's", err)
				}
				if wantErr && (len(l.obtained) > 0 || len(l.sent) > 0) {
					t.Fatalf("an unacceptable request was sent to log servers")
				}
				if ownerCert != nil && wantErr {
					refusedKnown++
				}
				if len(db) != len(ca.DB) {
					t.Fatalf("a failed request was recorded")
				}
				for k, v := range db {
					if ca.DB[k] != v {
						t.Fatalf("a failed request changed a record")
					}
				}
				continue
			}
			if d := diffAny(before.PolicyCertificateFields, pc.PolicyCertificateFields); d != "" {
				t.Fatalf("issued certificate differs from the request in %s", d)
			}
			if err := crypto.VerifyIssuerSignature(&root, pc); err != nil {
				t.Fatalf("issued certificate: %v", err)
			}
			if ownerCert != nil {
				signedByKnown++
				if err := crypto.VerifyOwnerSignatureInPolicyCertificate(ownerCert, pc); err != nil {
					t.Fatalf("owner signature in the issued certificate: %v", err)
				}
			}
			var got, want []string
			for _, s := range pc.SPCTs {
				got = append(got, fmt.Sprintf("%x", s.LogID))
			}
			for u, id := range l.ids {
				want = append(want, fmt.Sprintf("%x", id))
				if len(l.sent[u]) != 1 {
					t.Fatalf("log server %s was sent the final certificate %d times", u, len(l.sent[u]))
				}
				if d := diffAny(l.sent[u][0], *pc); d != "" {
					t.Fatalf("log server %s was sent another certificate: %s", u, d)
				}
			}
			sort.Strings(got)
			sort.Strings(want)
			if fmt.Sprint(got) != fmt.Sprint(want) || len(l.obtained) != nLogs || len(l.sent) != nLogs {
				t.Fatalf("timestamps of logs %v, want %v; asked %v", got, want, l.obtained)
			}
			found := 0
			for k, v := range ca.DB {
				if v == pc || v.Equal(*pc) {
					found++
				} else if db[k] != v {
					t.Fatalf("another record changed")
				}
			}
			if found == 0 {
				t.Fatalf("issued certificate not recorded")
			}
			known = append(known, issued{pc, subject})
		}
		rec.Case(trace+fmt.Sprint(serials), signedByKnown+refusedKnown > 0, func() any { return trace }, fmt.Sprintf("signedByKnown:%v refusedKnown:%v", signedByKnown > 0, refusedKnown > 0), fmt.Sprintf("logs:%d", nLogs))
	})
}

// TestC05Owner: the domain owner's requests are acceptable, and signed when it has a root for the domain.
func TestC05Owner(t *testing.T) {
	rec := vlib.New(t, "C05", "requests generated by a domain owner with and without a previous root for the domain; non-trivial: signed")
	vlib.Check(t, rec, func(t *rapid.T) {
		ks := keys()
		do := domainowner.NewDomainOwner()
		signer := genSigner(t, ks[0], rapid.IntRange(0, 3).Draw(t, "canOwn") > 0)
		domain, asked := genString(t, "domain"), ""
		do.DomainRoots[domain] = domainowner.CertKey{Cert: signer, Key: ks[0].priv}
		if asked = domain; rapid.IntRange(0, 3).Draw(t, "other") == 0 {
			asked = "other." + domain
		}
		version := genInt(t, "version")
		req, err := do.GeneratePolCertSignRequest(asked, version)
		if asked == domain && !signer.CanOwn {
			if err == nil {
				t.Fatalf("request signed by a certificate that cannot own")
			}
			return
		}
		if err != nil {
			t.Fatalf("%v", err)
		}
		if req.DomainField != asked || req.Version != version || len(req.PublicKey) == 0 {
			t.Fatalf("request %+v for %q version %d", req, asked, version)
		}
		if signed := len(req.OwnerSignature) > 0; signed != (asked == domain) {
			t.Fatalf("request for %q by the owner of %q signed: %v", asked, domain, signed)
		}
		if asked == domain {
			if err := crypto.VerifyOwnerSignature(signer, req); err != nil {
				t.Fatalf("%v", err)
			}
		}
		rec.Case(fmt.Sprintf("%q%q%x", domain, asked, req.PublicKey), asked == domain, func() any { return asked })
	})
}
