package utl

import (
	"bytes"
	"fmt"
	"testing"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/zzverif/certs"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

func parentStr(p *common.SHA256Output) string {
	if p == nil {
		return "-"
	}
	return fmt.Sprintf("%x", p[:6])
}

// checkUnfolded compares the result of an unfolding with the leaves and chains it is made from.
func checkUnfolded(leaves []ctx509.Certificate, chains [][]*ctx509.Certificate,
	got []ctx509.Certificate, ids []common.SHA256Output, parents []*common.SHA256Output, names [][]string) string {
	if len(ids) != len(got) || len(parents) != len(got) || len(names) != len(got) {
		return fmt.Sprintf("%d certificates with %d identifiers, %d issuers, %d lists of names", len(got), len(ids), len(parents), len(names))
	}
	id := func(c *ctx509.Certificate) common.SHA256Output { return common.SHA256Hash32Bytes(c.Raw) }
	type entry struct{ id, parent string }
	wantLeaf, wantCA := map[entry][]string{}, map[entry]bool{}
	for i := range leaves {
		all := append([]*ctx509.Certificate{&leaves[i]}, chains[i]...)
		for j, c := range all {
			cid := id(c)
			e := entry{fmt.Sprintf("%x", cid[:6]), "-"}
			if j+1 < len(all) {
				pid := id(all[j+1])
				e.parent = parentStr(&pid)
			}
			if j == 0 {
				wantLeaf[e] = util.ExtractCertDomains(c)
			} else {
				wantCA[e] = true
			}
		}
	}
	seenLeaf, seenCA := map[entry]bool{}, map[entry]bool{}
	for i := range got {
		if ids[i] != id(&got[i]) {
			return fmt.Sprintf("the identifier at position %d is not that of the certificate there", i)
		}
		e := entry{fmt.Sprintf("%x", ids[i][:6]), parentStr(parents[i])}
		if names[i] != nil {
			if len(seenCA) > 0 {
				return "an issuer comes before a leaf"
			}
			w, ok := wantLeaf[e]
			if !ok {
				return fmt.Sprintf("position %d: %v with names %q is no leaf with this issuer", i, e, names[i])
			}
			if !sameSet(w, names[i]) {
				return fmt.Sprintf("position %d: names %q instead of %q", i, names[i], w)
			}
			seenLeaf[e] = true
		} else {
			if !wantCA[e] {
				return fmt.Sprintf("position %d: %v is in no chain with this issuer", i, e)
			}
			seenCA[e] = true
		}
	}
	if len(seenLeaf) != len(wantLeaf) || len(seenCA) != len(wantCA) {
		return fmt.Sprintf("%d of %d leaves and %d of %d issuers (with their issuers) are there", len(seenLeaf), len(wantLeaf), len(seenCA), len(wantCA))
	}
	return ""
}

func genChains(rt *rapid.T) (leaves []ctx509.Certificate, chains [][]*ctx509.Certificate, desc string) {
	n := rapid.IntRange(0, 6).Draw(rt, "leaves")
	pool := make([]*ctx509.Certificate, 5)
	for i := range pool {
		pool[i] = certs.Make(certs.Spec{Serial: int64(i), CN: fmt.Sprintf("ca%d.com", i), SANs: []string{"x.com"}, CA: true}).Parsed
	}
	for i := 0; i < n; i++ {
		var leaf *ctx509.Certificate
		if rapid.IntRange(0, 5).Draw(rt, "leafIsCA") == 0 {
			leaf = rapid.SampledFrom(pool).Draw(rt, "ca")
		} else {
			leaf = genCert(rt).Parsed
		}
		chain := rapid.SliceOfN(rapid.SampledFrom(pool), 0, 4).Draw(rt, "chain")
		leaves = append(leaves, *leaf)
		chains = append(chains, chain)
		desc += fmt.Sprintf("%.6x:", common.SHA256Hash(leaf.Raw))
		for _, c := range chain {
			desc += c.Subject.CommonName + ","
		}
		desc += " "
	}
	return
}

func TestU02Unfold(t *testing.T) {
	rec := vlib.New(t, "U02", "at least two leaves with chains of which one has two or more members")
	vlib.Check(t, rec, func(rt *rapid.T) {
		leaves, chains, desc := genChains(rt)
		var got []ctx509.Certificate
		var ids []common.SHA256Output
		var parents []*common.SHA256Output
		var names [][]string
		in := append([]ctx509.Certificate{}, leaves...)
		inChains := make([][]*ctx509.Certificate, len(chains))
		nt := false
		for i, c := range chains {
			inChains[i] = append([]*ctx509.Certificate{}, c...)
			nt = nt || len(c) > 1
		}
		if msg := vlib.NoPanic(func() { got, ids, parents, names = util.UnfoldCerts(in, inChains) }); msg != "" {
			rt.Fatalf("unfolding %s: %s", desc, msg)
		}
		if e := checkUnfolded(leaves, chains, got, ids, parents, names); e != "" {
			rt.Fatalf("unfolding %s: %s", desc, e)
		}
		rec.Case(desc, nt && len(leaves) > 1, func() any { return desc })
	})
}

func TestU02One(t *testing.T) {
	rec := vlib.New(t, "U02", "a chain of at least two, or one whose members are partly known already, or no chain")
	vlib.Check(t, rec, func(rt *rapid.T) {
		leaf := genCert(rt).Parsed
		n := rapid.IntRange(0, 5).Draw(rt, "chain")
		known := rapid.IntRange(0, n).Draw(rt, "new") // the members from here on are known, and nil
		chain := make([]*ctx509.Certificate, n)
		ids := make([]*common.SHA256Output, n)
		for i := range chain {
			c := certs.Make(certs.Spec{Serial: int64(rapid.IntRange(0, 5).Draw(rt, "ca")), CN: "ca.com", SANs: []string{"y.com"}, CA: true})
			id := common.SHA256Output(c.ID)
			ids[i] = &id
			if i < known {
				chain[i] = c.Parsed
			}
		}
		desc := fmt.Sprintf("a leaf with %d issuers of which the last %d are known", n, n-known)
		leafID := common.SHA256Hash32Bytes(leaf.Raw)
		var gc []ctx509.Certificate
		var gi []common.SHA256Output
		var gp []*common.SHA256Output
		var gn [][]string
		if msg := vlib.NoPanic(func() { gc, gi, gp, gn = util.UnfoldCert(leaf, leafID, chain, ids) }); msg != "" {
			rt.Fatalf("unfolding %s: %s", desc, msg)
		}
		if len(gc) != known+1 || len(gi) != known+1 || len(gp) != known+1 || len(gn) != known+1 {
			rt.Fatalf("unfolding %s gives %d certificates, %d ids, %d issuers, %d names", desc, len(gc), len(gi), len(gp), len(gn))
		}
		for i := range gc {
			wc, wi := leaf, leafID
			if i > 0 {
				wc, wi = chain[i-1], *ids[i-1]
			}
			wp := "-"
			if i < n {
				wp = parentStr(ids[i])
			}
			if !bytes.Equal(gc[i].Raw, wc.Raw) || gi[i] != wi || parentStr(gp[i]) != wp {
				rt.Fatalf("unfolding %s: position %d is wrong (issuer %s, want %s)", desc, i, parentStr(gp[i]), wp)
			}
			if i == 0 && !sameSet(gn[0], util.ExtractCertDomains(leaf)) || i > 0 && len(gn[i]) > 0 {
				rt.Fatalf("unfolding %s: names at position %d are %q", desc, i, gn[i])
			}
		}
		rec.Case(fmt.Sprintf("%s %x %v", desc, leafID, ids), n != 1 || known < n, func() any { return desc }, fmt.Sprintf("chain-%d", n))
	})
}
