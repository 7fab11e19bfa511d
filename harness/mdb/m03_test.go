package mdb

import (
	"bytes"
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/domain"
	mapcommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/prover"
	"github.com/netsec-ethz/fpki/pkg/mapserver/responder"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/zzverif/smt"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

var theKey = sync.OnceValue(func() *rsa.PrivateKey {
	k, err := rsa.GenerateKey(rand.Reader, 1024)
	if err != nil {
		vlib.Infra("%v", err)
	}
	return k
})

func signed(root, sig []byte) error {
	h := sha256.Sum256(root)
	return rsa.VerifyPKCS1v15(&theKey().PublicKey, crypto.SHA256, h[:], sig)
}

func cat(b ...[]byte) []byte {
	h := sha256.Sum256(bytes.Join(b, nil))
	return h[:]
}

// checkProof verifies the proof of a response with an independent verifier, and tells whether it proves
// presence.
func checkProof(r *mapcommon.MapServerResponse) (present bool, e string) {
	if err := signed(r.PoI.Root, r.TreeHeadSig); err != nil {
		return false, fmt.Sprintf("the signature does not verify for the root %x: %v", r.PoI.Root, err)
	}
	id := r.DomainEntry.DomainID
	if id != hash([]byte(r.DomainEntry.DomainName)) {
		return false, "the identifier is not the one of the name"
	}
	h := []byte{byte(256 - len(r.PoI.Proof))}
	if r.PoI.ProofType == mapcommon.PoP {
		if !smt.RefVerify(r.PoI.Root, r.PoI.Proof, id[:], cat(id[:], r.PoI.ProofValue, h)) {
			return false, "the proof of presence does not verify"
		}
		return true, ""
	}
	if r.PoI.ProofType != mapcommon.PoA {
		return false, fmt.Sprintf("the type of the proof is %d", r.PoI.ProofType)
	}
	if len(r.PoI.Root) == 0 { // empty tree
		if len(r.PoI.Proof)+len(r.PoI.ProofKey)+len(r.PoI.ProofValue) > 0 {
			return false, "there is a path in the empty tree"
		}
		return false, ""
	}
	leaf := []byte{0}
	if len(r.PoI.ProofKey) > 0 {
		if bytes.Equal(r.PoI.ProofKey, id[:]) {
			return false, "the proof of absence has the leaf of the domain itself"
		}
		leaf = cat(r.PoI.ProofKey, r.PoI.ProofValue, h)
		if !smt.RefVerify(r.PoI.Root, r.PoI.Proof, r.PoI.ProofKey, leaf) {
			return false, "the proof of absence does not verify for the other leaf"
		}
	}
	if !smt.RefVerify(r.PoI.Root, r.PoI.Proof, id[:], leaf) {
		return false, "the proof of absence does not verify"
	}
	return false, ""
}

// checkResponse tells what is wrong with the responses for a name, given the tables.
func checkResponse(s *snap, conn db.Conn, name string, got []*mapcommon.MapServerResponse) (e string, pops, poas int) {
	parts, err := domain.ParseDomainName(name)
	if err != nil {
		return "there is an answer for an invalid name", 0, 0
	}
	if len(got) != len(parts) {
		return fmt.Sprintf("there are %d answers for %d names", len(got), len(parts)), 0, 0
	}
	for i, r := range got {
		where := fmt.Sprintf("answer %d (of %d, for %q): ", i, len(parts), parts[i])
		de := r.DomainEntry
		if de.DomainName != parts[i] {
			return where + fmt.Sprintf("the name is %q", de.DomainName), 0, 0
		}
		present, e := checkProof(r)
		if e != "" {
			return where + e, 0, 0
		}
		if !bytes.Equal(r.PoI.Root, s.root) {
			return where + fmt.Sprintf("the root is %x instead of %x", r.PoI.Root, s.root), 0, 0
		}
		cs, ps := s.entry(de.DomainID)
		if has := len(cs)+len(ps) > 0; has != present {
			return where + fmt.Sprintf("the domain is present: %v, but there is material for it: %v", present, has), 0, 0
		}
		typ, ok, err := prover.VerifyProofByDomain(r)
		if err != nil || !ok || typ != r.PoI.ProofType {
			return where + fmt.Sprintf("the client's verification gives %d, %v, %v", typ, ok, err), 0, 0
		}
		if !present {
			if len(de.CertIDs)+len(de.PolicyIDs) > 0 {
				return where + "there are identifiers with a proof of absence", 0, 0
			}
			poas++
			continue
		}
		pops++
		if !bytes.Equal(de.CertIDs, cs) || !bytes.Equal(de.PolicyIDs, ps) {
			return where + fmt.Sprintf("the identifiers are %s, %s instead of %s, %s", idList(de.CertIDs), idList(de.PolicyIDs), idList(cs), idList(ps)), 0, 0
		}
		if v := leafValue(de.CertIDs, de.PolicyIDs); !bytes.Equal(v, r.PoI.ProofValue) || !bytes.Equal(v, de.DomainValue[:]) {
			return where + fmt.Sprintf("the identifiers have the hash %x, but the entry says %x and the proof %x", v, de.DomainValue, r.PoI.ProofValue), 0, 0
		}
		for _, x := range []struct {
			list []byte
			id   ID
			get  func(ctxT, []ID) ([][]byte, error)
		}{{de.CertIDs, de.CertIDsID, conn.RetrieveCertificatePayloads}, {de.PolicyIDs, de.PolicyIDsID, conn.RetrievePolicyPayloads}} {
			var ids []ID
			for b := x.list; len(b) >= 32; b = b[32:] {
				ids = append(ids, toID(b[:32]))
			}
			if len(ids) == 0 {
				continue
			}
			if x.id != hash(x.list) {
				return where + "the identifier of the list is not its hash", 0, 0
			}
			for _, get := range []func(ctxT, []ID) ([][]byte, error){x.get, conn.RetrieveCertificateOrPolicyPayloads} {
				p, err := get(ctx, ids)
				if err != nil {
					return where + fmt.Sprintf("asking for the payloads: %v", err), 0, 0
				}
				for k := range ids {
					if p[k] == nil || hash(p[k]) != ids[k] {
						return where + fmt.Sprintf("the payload number %d (%d bytes) does not have the hash of the list", k, len(p[k])), 0, 0
					}
				}
			}
		}
	}
	return "", pops, poas
}

// queries are names to ask for.
func queries(t *rapid.T, w *world) (out []string) {
	for _, n := range w.names {
		out = append(out, n)
	}
	for i, n := 0, rapid.IntRange(1, 6).Draw(t, "other queries"); i < n; i++ {
		b := rapid.SampledFrom(append(append([]string{}, w.names...), plainNames...)).Draw(t, "name")
		out = append(out, rapid.SampledFrom([]string{"www.", "x.", "b.", "*.", "sub.sub.", "www.www.", ""}).Draw(t, "before")+b+rapid.SampledFrom([]string{"", "", "", ".", "x", ".uk"}).Draw(t, "after"))
	}
	return append(out, "", "absent.example.net")
}

// TestM03Responses: after any history of cycles, every answer verifies and binds what is stored.
func TestM03Responses(t *testing.T) {
	rec := vlib.New(t, "M03", "some answer has both a presence proof and an absence proof, and the tree had several roots")
	d := Open("m03")
	defer d.Drop()
	soon := time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC)
	vlib.Check(t, rec, func(rt *rapid.T) {
		d.Reset()
		names := []string{"a.com", "b.a.com", "c.b.a.com", "b.com", "x.org", "deep.er.x.org", "sub.a.com", "example.co.uk", "b.example.co.uk", "*.a.com", "www.b.com", "com", "co.uk", "UP.com"}
		w := genWorld(rt, worldOpts{policies: true, names: names, maxItems: 10, expiries: []time.Time{farFuture, farFuture, soon}})
		steps := []string{fmt.Sprintf("names %q", w.names)}
		bad := func(f string, a ...any) { rt.Fatalf("%s\n%s", fmt.Sprintf(f, a...), strings.Join(steps, "\n")) }
		var resp *responder.MapResponder
		roots := map[string]bool{}
		mixed, pop, poa := false, 0, 0
		for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "rounds"); i < n; i++ {
			if rapid.IntRange(0, 4).Draw(rt, "insert") > 0 {
				way := rapid.SampledFrom(ways).Draw(rt, "way")
				items := rapid.Permutation(w.items).Draw(rt, "which")[:rapid.IntRange(1, len(w.items)).Draw(rt, "items")]
				var pols []*polDoc
				if way == "keep" || way == "overwrite" {
					pols = w.pols
				}
				s := way + ":"
				for _, it := range items {
					s += " " + it.String()
				}
				for _, p := range pols {
					s += " " + string(p.raw)
				}
				steps = append(steps, s)
				if err := insert(rt, way, d, items, pols); err != nil {
					bad("inserting failed: %v", err)
				}
			}
			if rapid.IntRange(0, 3).Draw(rt, "prune") == 0 {
				steps = append(steps, "prune")
				if err := d.PruneCerts(ctx, soon.Add(time.Hour)); err != nil {
					bad("pruning: %v", err)
				}
			}
			steps = append(steps, "cycle")
			if err := cycle(d, true); err != nil {
				bad("%v", err)
			}
			s := d.snap()
			roots[string(s.root)] = true
			var err error
			if resp == nil || rapid.Bool().Draw(rt, "new responder") {
				steps = append(steps, "new responder")
				resp, err = responder.NewMapResponder(ctx, d, theKey())
			} else {
				steps = append(steps, "reload")
				err = resp.ReloadRootAndSignTreeHead(ctx, theKey())
			}
			if err != nil {
				bad("%v", err)
			}
			if err := signed(s.root, resp.SignedTreeHead()); err != nil {
				bad("the signed tree head is not the one of the stored root %x: %v", s.root, err)
			}
			for _, q := range queries(rt, w) {
				got, err := resp.GetProof(ctx, q)
				if _, e := domain.ParseDomainName(q); (e == nil) != (err == nil) {
					bad("asking for %q gives the error %v, but parsing the name gives %v", q, err, e)
				}
				if err != nil {
					continue
				}
				e, a, b := checkResponse(s, d, q, got)
				if e != "" {
					bad("asking for %q: %s", q, e)
				}
				// As the client gets it.
				raw, err := json.Marshal(got)
				var over []*mapcommon.MapServerResponse
				if err == nil {
					err = json.Unmarshal(raw, &over)
				}
				if err != nil {
					bad("asking for %q: encoding: %v", q, err)
				}
				if e, _, _ := checkResponse(s, d, q, over); e != "" {
					bad("asking for %q, after encoding and decoding: %s", q, e)
				}
				pop, poa = pop+a, poa+b
				mixed = mixed || a > 0 && b > 0
				// What a client must refuse.
				if len(got) > 0 && rapid.IntRange(0, 3).Draw(rt, "tamper") == 0 {
					if e := tampered(rt, over[rapid.IntRange(0, len(over)-1).Draw(rt, "which answer")]); e != "" {
						bad("asking for %q: %s", q, e)
					}
				}
			}
		}
		rec.Case(strings.Join(steps, "\n"), mixed && len(roots) > 1, func() any { return steps }, fmt.Sprintf("%d roots", len(roots)))
	})
}

// tampered changes a response such that a client must not accept it, and tells if the client does.
func tampered(t *rapid.T, r *mapcommon.MapServerResponse) string {
	flip := func(b []byte) bool {
		if len(b) == 0 {
			return false
		}
		b[rapid.IntRange(0, len(b)-1).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		return true
	}
	var what string
	switch what = rapid.SampledFrom([]string{"root", "value", "identifier", "path", "entry value", "type"}).Draw(t, "what"); what {
	case "root":
		if !flip(r.PoI.Root) {
			return ""
		}
	case "value":
		if !flip(r.PoI.ProofValue) {
			return ""
		}
	case "identifier": // another domain
		if r.PoI.ProofType == mapcommon.PoA {
			return "" // that one may be absent as well
		}
		flip(r.DomainEntry.DomainID[:])
	case "path":
		if len(r.PoI.Proof) == 0 || !flip(r.PoI.Proof[rapid.IntRange(0, len(r.PoI.Proof)-1).Draw(t, "node")]) {
			return ""
		}
	case "entry value":
		if r.PoI.ProofType == mapcommon.PoA {
			return ""
		}
		flip(r.DomainEntry.DomainValue[:])
	case "type":
		if len(r.PoI.Root) == 0 {
			return ""
		}
		r.PoI.ProofType = mapcommon.PoA + mapcommon.PoP - r.PoI.ProofType
	}
	typ, ok, err := prover.VerifyProofByDomain(r)
	if ok && err == nil {
		return fmt.Sprintf("the client accepts a response of type %d with another %s", typ, what)
	}
	return ""
}

// TestM03Reload: answers during reloads are consistent in themselves.
func TestM03Reload(t *testing.T) {
	rec := vlib.New(t, "M03", "answers of at least two different roots came while the responder was reloading")
	d := Open("m03r")
	defer d.Drop()
	vlib.Check(t, rec, func(rt *rapid.T) {
		d.Reset()
		w := genWorld(rt, worldOpts{names: []string{"a.com", "b.a.com", "c.b.a.com", "b.com"}, maxItems: 10})
		if err := insert(rt, "keep", d, w.items[:1], nil); err != nil {
			rt.Fatalf("inserting failed: %v", err)
		}
		if err := cycle(d, true); err != nil {
			rt.Fatalf("%v", err)
		}
		resp, err := responder.NewMapResponder(ctx, d, theKey())
		if err != nil {
			rt.Fatalf("%v", err)
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		var mu sync.Mutex
		roots, errs, n := map[string]bool{}, "", 0
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					got, err := resp.GetProof(ctx, "c.b.a.com")
					resp.SignedTreeHead()
					mu.Lock()
					n++
					if err == nil {
						for _, r := range got {
							roots[string(r.PoI.Root)] = true
							if _, e := checkProof(r); e != "" && errs == "" {
								errs = fmt.Sprintf("the answer for %q: %s", r.DomainEntry.DomainName, e)
							}
							if !bytes.Equal(r.PoI.Root, got[0].PoI.Root) && errs == "" {
								errs = "one response has proofs for different roots"
							}
							if r.PoI.ProofType == mapcommon.PoP && !trie.VerifyInclusion(r.PoI.Root, r.PoI.Proof, r.DomainEntry.DomainID[:], r.PoI.ProofValue) && errs == "" {
								errs = "the proof of presence is not accepted"
							}
						}
					}
					mu.Unlock()
				}
			}()
		}
		var steps []string
		for i, k := 0, rapid.IntRange(1, 3).Draw(rt, "rounds"); i < k && err == nil; i++ {
			c := rapid.IntRange(1, len(w.items)).Draw(rt, "items")
			items := rapid.Permutation(w.items).Draw(rt, "which")[:c]
			steps = append(steps, fmt.Sprintf("insert %d", c))
			if err = insert(rt, "keep", d, items, nil); err == nil {
				if err = cycle(d, true); err == nil {
					for j := 0; j < 3 && err == nil; j++ {
						err = resp.ReloadRootAndSignTreeHead(ctx, theKey())
					}
				}
			}
		}
		time.Sleep(2 * time.Millisecond)
		close(stop)
		wg.Wait()
		if err != nil {
			rt.Fatalf("%v: %v", steps, err)
		}
		if errs != "" {
			rt.Fatalf("%v: while the responder was reloading, %s", steps, errs)
		}
		rec.Case(fmt.Sprint(steps, len(w.items)), len(roots) > 1, func() any { return map[string]any{"steps": steps, "answers": n, "roots": len(roots)} })
	})
}
