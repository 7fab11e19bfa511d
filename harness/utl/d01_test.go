// Package utl checks domain names and the helpers of pkg/util and pkg/cache (D01, U01 to U05).
package utl

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/google/certificate-transparency-go/x509/pkix"
	"golang.org/x/net/publicsuffix"
	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/domain"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// ---- the reference: a restatement of what a valid name is and how it is split.

func refLabel(l string) bool {
	if len(l) < 1 || len(l) > 63 || l[0] == '-' || l[len(l)-1] == '-' {
		return false
	}
	for _, c := range []byte(l) {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-') {
			return false
		}
	}
	return true
}

func refValid(name string) bool {
	if len(name) > 255 {
		return false
	}
	if s, icann := publicsuffix.PublicSuffix(name); icann && s == name {
		return false
	}
	ls := strings.Split(name, ".")
	if ls[0] == "*" && len(ls) > 1 {
		ls = ls[1:]
	}
	for _, l := range ls {
		if !refLabel(l) {
			return false
		}
	}
	return true
}

// refNormal returns the name without "*." and "www."; ok is false when nothing valid remains.
func refNormal(name string) (string, bool) {
	if !refValid(name) {
		return "", false
	}
	n := strings.TrimPrefix(name, "*.")
	if r := strings.TrimPrefix(n, "www."); r != n && refValid(r) {
		n = r
	}
	return n, refValid(n)
}

// refRegistered returns the registered domain of a valid, normal name.
func refRegistered(n string) string {
	s, icann := publicsuffix.PublicSuffix(n)
	if !icann {
		return n
	}
	rest := strings.TrimSuffix(n, "."+s)
	ls := strings.Split(rest, ".")
	return ls[len(ls)-1] + "." + s
}

func refChain(n string) []string {
	reg := refRegistered(n)
	chain := []string{}
	for m := n; ; {
		chain = append([]string{m}, chain...)
		if m == reg {
			return chain
		}
		_, m, _ = strings.Cut(m, ".")
	}
}

var suffixes = []string{"com", "co.uk", "uk", "net", "ck", "kawasaki.jp", "github.io", "internal", "ch", "COM", "xn--p1ai", "s3.amazonaws.com", "gov.uk", "localhost"}

func genName(t *rapid.T, label string) string {
	if rapid.IntRange(0, 19).Draw(t, label+"raw") == 0 {
		return rapid.StringOf(rapid.SampledFrom([]rune("a.*-wW\n\x00é_ 0"))).Draw(t, label+"str")
	}
	n := rapid.IntRange(0, 4).Draw(t, label+"n")
	ls := make([]string, 0, n+1)
	for i := 0; i < n; i++ {
		var l string
		switch rapid.IntRange(0, 39).Draw(t, label+"kind") {
		case 0:
			l = rapid.SampledFrom([]string{"", "-a", "a-", "a_b", "*", "a*", "*a", " ", "-", "é", "a\n", "\n", "**"}).Draw(t, label+"bad")
		case 1:
			l = strings.Repeat("x", rapid.SampledFrom([]int{2, 61, 62, 63, 64, 100}).Draw(t, label+"len"))
		case 2, 3, 4, 5, 6:
			l = "www"
		case 7, 8, 9:
			if i == 0 {
				l = "*"
			} else {
				l = "a-b"
			}
		case 10:
			l = rapid.SampledFrom([]string{"0", "-", "A", "9-9", "Z9"}).Draw(t, label+"odd")
		default:
			l = rapid.SampledFrom([]string{"a", "b", "mail", "x1"}).Draw(t, label+"lab")
		}
		ls = append(ls, l)
	}
	ls = append(ls, rapid.SampledFrom(suffixes).Draw(t, label+"suf"))
	s := strings.Join(ls, ".")
	if rapid.IntRange(0, 29).Draw(t, label+"dot") == 0 {
		s += "."
	}
	if rapid.IntRange(0, 59).Draw(t, label+"long") == 0 {
		want := rapid.IntRange(250, 260).Draw(t, label+"total")
		for len(s)+3 <= want {
			s = "a." + s
		}
		for len(s) < want {
			s = "a" + s
		}
	}
	return s
}

func TestD01Parse(t *testing.T) {
	rec := vlib.New(t, "D01", "the name is valid and has a wildcard, www or more than one parent, or differs from a valid name in one label")
	vlib.Check(t, rec, func(rt *rapid.T) {
		name := genName(rt, "name")
		want, wantOK := refNormal(name)
		var got []string
		var err error
		if msg := vlib.NoPanic(func() { got, err = domain.ParseDomainName(name) }); msg != "" {
			rt.Fatalf("ParseDomainName(%q): %s", name, msg)
		}
		if v := domain.IsValidDomain(name); v != refValid(name) {
			rt.Fatalf("IsValidDomain(%q) = %v", name, v)
		}
		cls := "invalid"
		if wantOK {
			cls = "valid"
			if err != nil {
				rt.Fatalf("ParseDomainName(%q) fails: %v, although the name is valid", name, err)
			}
			if w := refChain(want); fmt.Sprint(got) != fmt.Sprint(w) {
				rt.Fatalf("ParseDomainName(%q) = %q, want %q", name, got, w)
			}
		} else if err == nil {
			rt.Fatalf("ParseDomainName(%q) = %q, but the name is not valid", name, got)
		}
		rec.Case(name, !wantOK && len(name) > 2 || len(got) > 1 || want != name, func() any { return fmt.Sprintf("%q -> %q", name, got) }, cls)
	})
}

func TestD01Affected(t *testing.T) {
	rec := vlib.New(t, "D01", "at least two names of which one is valid")
	vlib.Check(t, rec, func(rt *rapid.T) {
		n := rapid.IntRange(0, 10).Draw(rt, "names")
		names := make([]string, n)
		for i := range names {
			if i > 0 && rapid.IntRange(0, 5).Draw(rt, "again") == 0 {
				names[i] = "www." + names[rapid.IntRange(0, i-1).Draw(rt, "which")]
			} else {
				names[i] = genName(rt, "name")
			}
		}
		valid := map[string]bool{}
		for _, n := range names {
			if m, ok := refNormal(n); ok {
				valid[m] = true
			}
		}
		want := map[string]bool{}
		if len(valid) <= domain.MaxSANLength {
			want = valid
		} else {
			// Per registered domain, the longest name at or below which all of them are.
			groups := map[string][]string{}
			for v := range valid {
				groups[refRegistered(v)] = append(groups[refRegistered(v)], v)
			}
			for reg, vs := range groups {
				anc := vs[0]
				for {
					all := true
					for _, v := range vs {
						all = all && (v == anc || strings.HasSuffix(v, "."+anc))
					}
					if all || anc == reg {
						break
					}
					_, anc, _ = strings.Cut(anc, ".")
				}
				want[anc] = true
			}
		}
		var got []string
		if msg := vlib.NoPanic(func() { got = domain.ExtractAffectedDomains(append([]string{}, names...)) }); msg != "" {
			rt.Fatalf("ExtractAffectedDomains(%q): %s", names, msg)
		}
		w := make([]string, 0, len(want))
		for k := range want {
			w = append(w, k)
		}
		sort.Strings(w)
		g := append([]string{}, got...)
		sort.Strings(g)
		if fmt.Sprint(g) != fmt.Sprint(w) {
			rt.Fatalf("ExtractAffectedDomains(%q) = %q, want %q", names, g, w)
		}
		rec.Case(strings.Join(names, "|"), n > 1 && len(valid) > 0, func() any { return fmt.Sprintf("%q -> %q", names, g) },
			fmt.Sprintf("valid-names-over-limit-%v", len(valid) > domain.MaxSANLength))
	})
}

func TestD01Cert(t *testing.T) {
	rec := vlib.New(t, "D01", "the certificate has a common name or at least one alternative name")
	vlib.Check(t, rec, func(rt *rapid.T) {
		c := &ctx509.Certificate{}
		pool := []string{"", "a.com", "b.com", "*.a.com", "A.com"}
		c.Subject = pkix.Name{CommonName: rapid.SampledFrom(pool).Draw(rt, "cn")}
		c.DNSNames = rapid.SliceOfN(rapid.SampledFrom(pool), 0, 5).Draw(rt, "sans")
		want := map[string]bool{}
		if c.Subject.CommonName != "" {
			want[c.Subject.CommonName] = true
		}
		first := c.Subject.CommonName
		for _, n := range c.DNSNames {
			want[n] = true
			if first == "" {
				first = n
			}
		}
		got := util.ExtractCertDomains(c)
		set := map[string]bool{}
		for _, n := range got {
			if set[n] || !want[n] {
				rt.Fatalf("names of a certificate for %q, %q: %q", c.Subject.CommonName, c.DNSNames, got)
			}
			set[n] = true
		}
		if len(set) != len(want) {
			rt.Fatalf("names of a certificate for %q, %q: only %q", c.Subject.CommonName, c.DNSNames, got)
		}
		if s := domain.CertSubjectName(c); s != first {
			rt.Fatalf("subject name of a certificate for %q, %q is %q", c.Subject.CommonName, c.DNSNames, s)
		}
		rec.Case(fmt.Sprint(c.Subject.CommonName, c.DNSNames), len(want) > 0, func() any { return fmt.Sprintf("%q %q", c.Subject.CommonName, c.DNSNames) })
	})
}
