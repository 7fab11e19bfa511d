// Package certs makes X.509 certificates for the generated-input checks. Everything is deterministic:
// the same arguments give the same bytes.
package certs

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"math/big"
	"sync"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
)

var key = ed25519.NewKeyFromSeed(bytes.Repeat([]byte{7}, 32))

// Spec tells what goes in a certificate.
type Spec struct {
	Serial   int64
	CN       string
	SANs     []string
	Issuer   string // common name of the issuer; empty means self-signed
	NotAfter time.Time
	CA       bool
	Pad      int  // size of an extension to add
	Weird    bool // with an extension that CT logs accept although it is not well formed
}

func (s Spec) String() string {
	return fmt.Sprintf("#%d %q %q by %q until %s", s.Serial, s.CN, s.SANs, s.Issuer, s.NotAfter.UTC().Format(time.RFC3339))
}

type Cert struct {
	Spec
	DER    []byte
	ID     [32]byte
	Parsed *ctx509.Certificate
}

var (
	mu   sync.Mutex
	memo = map[string]*Cert{}
)

// Make returns the certificate of this specification. Results are shared: treat them as read-only.
func Make(s Spec) *Cert {
	if s.NotAfter.IsZero() {
		s.NotAfter = time.Date(2040, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	k := fmt.Sprintf("%v %v %d %v", s, s.CA, s.Pad, s.Weird)
	mu.Lock()
	defer mu.Unlock()
	if c, ok := memo[k]; ok {
		return c
	}
	tmpl := &x509.Certificate{
		SerialNumber: big.NewInt(s.Serial + 1),
		Subject:      pkix.Name{CommonName: s.CN},
		DNSNames:     s.SANs,
		NotBefore:    time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC),
		NotAfter:     s.NotAfter,
		IsCA:         s.CA, BasicConstraintsValid: true,
	}
	if s.Pad > 0 {
		tmpl.ExtraExtensions = []pkix.Extension{{Id: []int{1, 3, 6, 1, 4, 1, 99999, 1}, Value: bytes.Repeat([]byte{byte(s.Serial), 5}, s.Pad/2)}}
	}
	if s.Weird { // an empty AuthorityInfoAccess
		tmpl.ExtraExtensions = append(tmpl.ExtraExtensions, pkix.Extension{Id: []int{1, 3, 6, 1, 5, 5, 7, 1, 1}, Value: []byte{0x30, 0}})
	}
	parent := tmpl
	if s.Issuer != "" {
		parent = &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: s.Issuer}, IsCA: true, PublicKey: key.Public()}
	}
	der, err := x509.CreateCertificate(nil, tmpl, parent, key.Public(), key)
	if err != nil {
		panic(fmt.Sprintf("harness: creating %v: %v", s, err))
	}
	p, err := ctx509.ParseCertificate(der)
	if ctx509.IsFatal(err) || (err != nil) != s.Weird {
		panic(fmt.Sprintf("harness: parsing %v: %v", s, err))
	}
	c := &Cert{Spec: s, DER: der, ID: sha256.Sum256(der), Parsed: p}
	if len(memo) > 20000 {
		clear(memo)
	}
	memo[k] = c
	return c
}

// Names are the names of a certificate: its common name and alternative names, without repetition.
func (c *Cert) Names() []string {
	var out []string
	seen := map[string]bool{}
	for _, n := range append([]string{c.CN}, c.SANs...) {
		if n != "" || (n == "" && n != c.CN) {
			if !seen[n] {
				out = append(out, n)
			}
			seen[n] = true
		}
	}
	return out
}
