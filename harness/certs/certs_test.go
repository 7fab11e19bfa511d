package certs

import "testing"

func TestMake(t *testing.T) {
	a := Make(Spec{Serial: 1, CN: "a.com", SANs: []string{"b.com"}, Issuer: "x", Pad: 100})
	t.Log(len(a.DER), a.Parsed.DNSNames)
}
