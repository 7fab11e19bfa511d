package mdb

import (
	"bytes"
	"context"
	"database/sql"
	"fmt"
	"sort"
	"strings"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/zzverif/certs"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// item is a leaf certificate with its chain (the issuer first).
type item struct {
	leaf  *certs.Cert
	chain []*certs.Cert
}

func (i *item) all() []*certs.Cert { return append([]*certs.Cert{i.leaf}, i.chain...) }

func (i *item) String() string {
	var s []string
	for _, c := range i.all() {
		s = append(s, label(c))
	}
	return strings.Join(s, "<")
}

// label is a short name of a certificate.
func label(c *certs.Cert) string {
	return fmt.Sprintf("%s#%d%q~%s", c.CN, c.Serial, c.SANs, c.NotAfter.UTC().Format("06-01-02T15:04:05"))
}

// polDoc is a policy document with its bytes.
type polDoc struct {
	doc    common.PolicyDocument
	raw    []byte
	domain string
}

func (p *polDoc) id() ID { return hash(p.raw) }

type worldOpts struct {
	varied   bool // the same certificate may come with several issuers, or without
	loops    bool // an issuer may be repeated in its chain
	policies bool
	zones    bool // expirations in other time zones
	expiries []time.Time
	names    []string
	maxItems int
}

type world struct {
	names    []string
	items    []*item
	pols     []*polDoc
	issuers  []*certs.Cert
	parent   map[ID]*certs.Cert // the usual issuer of an issuer
	varied   bool
	expiries []time.Time
}

var plainNames = []string{"a.com", "b.a.com", "c.b.a.com", "b.com", "com", "*.a.com", "x.org", "deep.er.x.org"}

// weirdNames need care on their way into the database.
var weirdNames = []string{`back\slash.com`, `\N`, `q"uote.com`, `"q.com"`, `comma,com`, "line\nfeed.com", "tab\t.com", `trailing\`, " space .com", "'", "`", "%s.com",
	"A.com", strings.Repeat("long.", 50) + "example.com", "a.com ", "-- ;", "\r.com", `\n`, `x\"`}

var farFuture = time.Date(2040, 1, 1, 0, 0, 0, 0, time.UTC)

func genWorld(t *rapid.T, o worldOpts) *world {
	w := &world{parent: map[ID]*certs.Cert{}, varied: o.varied}
	if o.names == nil {
		o.names = plainNames
		if rapid.IntRange(0, 2).Draw(t, "weird") == 0 {
			o.names = append(append([]string{}, plainNames[:3]...), weirdNames...)
		}
	}
	n := rapid.IntRange(1, min(6, len(o.names))).Draw(t, "names")
	w.names = rapid.Permutation(o.names).Draw(t, "order of names")[:n]
	if o.expiries == nil {
		o.expiries = []time.Time{farFuture}
	}
	w.expiries = o.expiries
	exp := func() time.Time {
		e := rapid.SampledFrom(o.expiries).Draw(t, "expiry")
		if o.zones && rapid.IntRange(0, 3).Draw(t, "zone") == 0 {
			e = e.In(time.FixedZone("z", rapid.SampledFrom([]int{-12 * 3600, -3600, 1800, 5400, 14 * 3600}).Draw(t, "offset")))
		}
		return e
	}
	for i, n := 0, rapid.IntRange(1, 6).Draw(t, "issuers"); i < n; i++ {
		s := certs.Spec{Serial: int64(100 + i), CN: fmt.Sprintf("I%d", i), CA: true, NotAfter: exp()}
		if rapid.IntRange(0, 2).Draw(t, "same name") == 0 {
			s.CN = "I" // several issuers with the same subject
		}
		if rapid.IntRange(0, 3).Draw(t, "issuer with name") == 0 {
			s.SANs = []string{rapid.SampledFrom(w.names).Draw(t, "name")}
		}
		var p *certs.Cert
		if i > 0 && rapid.IntRange(0, 3).Draw(t, "root") != 0 {
			p = rapid.SampledFrom(w.issuers).Draw(t, "parent")
			s.Issuer = p.CN
		}
		c := certs.Make(s)
		w.issuers = append(w.issuers, c)
		if p != nil && p.ID != c.ID {
			w.parent[c.ID] = p
		}
	}
	for i, n := 0, rapid.IntRange(1, max(1, o.maxItems)).Draw(t, "items"); i < n; i++ {
		w.items = append(w.items, w.genItem(t, i, o, exp))
	}
	if o.policies {
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "policies"); i < n; i++ {
			w.pols = append(w.pols, w.genPol(t))
		}
	}
	return w
}

func (w *world) genItem(t *rapid.T, i int, o worldOpts, exp func() time.Time) *item {
	it := &item{}
	var p *certs.Cert
	switch k := rapid.IntRange(0, 9).Draw(t, "kind"); {
	case k == 0: // an issuer given as a leaf
		it.leaf = rapid.SampledFrom(w.issuers).Draw(t, "leaf")
		p = w.parent[it.leaf.ID]
	case k == 1 && len(w.items) > 0: // a leaf seen before
		old := rapid.SampledFrom(w.items).Draw(t, "old")
		it.leaf = old.leaf
		if len(old.chain) > 0 {
			p = old.chain[0]
		}
	case k == 2 && len(w.items) > 0: // a leaf seen before is the issuer of this one
		old := rapid.SampledFrom(w.items).Draw(t, "old")
		if old.leaf.CA {
			p = old.leaf
			if _, ok := w.parent[p.ID]; !ok && len(old.chain) > 0 {
				w.parent[p.ID] = old.chain[0]
			}
		}
		fallthrough
	default:
		s := certs.Spec{Serial: int64(i), CN: rapid.SampledFrom([]string{"", w.names[0], "leaf"}).Draw(t, "CN"), NotAfter: exp(), CA: rapid.IntRange(0, 2).Draw(t, "CA") == 0}
		k := rapid.IntRange(0, len(w.names)).Draw(t, "names of leaf")
		s.SANs = append([]string{}, rapid.Permutation(w.names).Draw(t, "SANs")[:min(k, 4)]...)
		if p == nil && rapid.IntRange(0, 7).Draw(t, "alone") != 0 {
			p = rapid.SampledFrom(w.issuers).Draw(t, "issuer")
		}
		if p != nil {
			s.Issuer = p.CN
			if s.Issuer == "" {
				s.Issuer = "unnamed"
			}
		}
		it.leaf = certs.Make(s)
	}
	if o.varied && rapid.IntRange(0, 3).Draw(t, "other issuer") == 0 {
		p = rapid.SampledFrom(w.issuers).Draw(t, "which")
		if p.ID == it.leaf.ID {
			p = nil
		}
	}
	seen := map[ID]bool{it.leaf.ID: true}
	for p != nil && !seen[p.ID] {
		seen[p.ID] = true
		it.chain = append(it.chain, p)
		p = w.parent[p.ID]
	}
	if o.varied && len(it.chain) > 0 && rapid.IntRange(0, 5).Draw(t, "cut") == 0 {
		it.chain = it.chain[:rapid.IntRange(0, len(it.chain)-1).Draw(t, "length")]
	}
	if o.loops && rapid.IntRange(0, 5).Draw(t, "repeat") == 0 { // the root (or the leaf itself) is there twice
		it.chain = append(it.chain, it.all()[len(it.chain)])
	}
	return it
}

func (w *world) genPol(t *rapid.T) *polDoc {
	name := rapid.SampledFrom(w.names).Draw(t, "policy domain")
	var obj common.PolicyDocument
	base := common.PolicyCertificateBase{SerialNumberField: rapid.IntRange(0, 9).Draw(t, "serial"), DomainField: name}
	obj = common.PolicyCertificate{PolicyCertificateFields: common.PolicyCertificateFields{PolicyCertificateBase: base, PublicKey: []byte{1, 2}}}
	raw, err := obj.Raw()
	if err != nil {
		vlib.Infra("%v", err)
	}
	switch rapid.IntRange(0, 2).Draw(t, "bytes") {
	case 0: // as built in memory
	case 1: // as read from the same bytes
		obj = read(raw)
	case 2: // as read from other bytes
		raw = []byte(strings.Replace(string(raw), ":", ":"+strings.Repeat(" ", rapid.IntRange(1, 3).Draw(t, "spaces")), 1))
		obj = read(raw)
	}
	return &polDoc{doc: obj, raw: raw, domain: name}
}

func read(raw []byte) common.PolicyDocument {
	o, err := common.FromJSON(raw)
	if err != nil {
		vlib.Infra("reading %s: %v", raw, err)
	}
	if d, ok := o.(common.PolicyDocument); ok {
		return d
	}
	vlib.Infra("%T is no policy document", o)
	return nil
}

// ------------------------------------------------------------------------------------------- the model

// model tells what must be in the database.
type model struct {
	certs   map[ID]*certs.Cert
	parents map[ID]map[ID]bool // the issuers of a certificate in the chains; the zero ID for none
	first   map[ID]ID          // the issuer in the first chain
	links   map[string]map[ID]bool
	pols    map[ID]*polDoc
	plinks  map[string]map[ID]bool
	touched map[string]bool // domains with a new link since the last cycle
	named   map[string]bool // all names of the material since the last cycle
}

func newModel() *model {
	return &model{certs: map[ID]*certs.Cert{}, parents: map[ID]map[ID]bool{}, first: map[ID]ID{}, links: map[string]map[ID]bool{},
		pols: map[ID]*polDoc{}, plinks: map[string]map[ID]bool{}, touched: map[string]bool{}, named: map[string]bool{}}
}

func (m *model) add(items []*item, pols []*polDoc) {
	for _, it := range items {
		all := it.all()
		for i, c := range all {
			var p ID
			if i+1 < len(all) {
				p = all[i+1].ID
			}
			if m.certs[c.ID] == nil {
				m.certs[c.ID] = c
				m.first[c.ID] = p
				m.parents[c.ID] = map[ID]bool{}
			}
			m.parents[c.ID][p] = true
		}
		for _, n := range it.leaf.Names() {
			m.named[n] = true
			if m.links[n] == nil {
				m.links[n] = map[ID]bool{}
			}
			if !m.links[n][it.leaf.ID] {
				m.links[n][it.leaf.ID] = true
				m.touched[n] = true
			}
		}
	}
	for _, p := range pols {
		id := p.id()
		m.pols[id] = p
		m.named[p.domain] = true
		if m.plinks[p.domain] == nil {
			m.plinks[p.domain] = map[ID]bool{}
		}
		if !m.plinks[p.domain][id] {
			m.plinks[p.domain][id] = true
			m.touched[p.domain] = true
		}
	}
}

func (m *model) cleaned() { m.touched = map[string]bool{}; m.named = map[string]bool{} }

// ------------------------------------------------------------------------------ content of the database

type certRow struct {
	parent  *ID
	exp     string
	payload []byte
}

type payloadRow struct {
	certs, pols     []byte
	certsID, polsID []byte
}

type snap struct {
	certs    map[ID]certRow
	domains  map[ID]string
	links    map[ID]map[ID]bool
	pols     map[ID]certRow
	plinks   map[ID]map[ID]bool
	payloads map[ID]payloadRow
	dirty    map[ID]bool // whether it is coalesced
	root     []byte
	tree     map[ID][]byte
}

func toID(b []byte) (id ID) {
	if len(b) != 32 {
		b = []byte(fmt.Sprintf("bad ID of length %d: %x", len(b), b))
	}
	copy(id[:], b)
	return
}

func (d *DB) snap() *snap {
	s := &snap{certs: map[ID]certRow{}, domains: map[ID]string{}, links: map[ID]map[ID]bool{}, pols: map[ID]certRow{}, plinks: map[ID]map[ID]bool{},
		payloads: map[ID]payloadRow{}, dirty: map[ID]bool{}, tree: map[ID][]byte{}}
	for tbl, m := range map[string]map[ID]certRow{"certs": s.certs, "policies": s.pols} {
		idCol := map[string]string{"certs": "cert_id", "policies": "policy_id"}[tbl]
		d.rows("SELECT "+idCol+",parent_id,CAST(expiration AS CHAR),payload FROM "+tbl, func(r *sql.Rows) error {
			var id, parent, payload []byte
			var exp string
			if err := r.Scan(&id, &parent, &exp, &payload); err != nil {
				return err
			}
			c := certRow{exp: exp, payload: payload}
			if len(parent) > 0 { // roots have NULL or an empty parent
				p := toID(parent)
				c.parent = &p
			}
			m[toID(id)] = c
			return nil
		})
	}
	d.rows("SELECT domain_id,domain_name FROM domains", func(r *sql.Rows) error {
		var id []byte
		var name sql.NullString
		err := r.Scan(&id, &name)
		s.domains[toID(id)] = name.String
		if !name.Valid {
			s.domains[toID(id)] = "(NULL)"
		}
		return err
	})
	for tbl, m := range map[string]map[ID]map[ID]bool{"domain_certs": s.links, "domain_policies": s.plinks} {
		idCol := map[string]string{"domain_certs": "cert_id", "domain_policies": "policy_id"}[tbl]
		d.rows("SELECT domain_id,"+idCol+" FROM "+tbl, func(r *sql.Rows) error {
			var dom, id []byte
			if err := r.Scan(&dom, &id); err != nil {
				return err
			}
			if m[toID(dom)] == nil {
				m[toID(dom)] = map[ID]bool{}
			}
			m[toID(dom)][toID(id)] = true
			return nil
		})
	}
	d.rows("SELECT domain_id,cert_ids,cert_ids_id,policy_ids,policy_ids_id FROM domain_payloads", func(r *sql.Rows) error {
		var id []byte
		var p payloadRow
		err := r.Scan(&id, &p.certs, &p.certsID, &p.pols, &p.polsID)
		s.payloads[toID(id)] = p
		return err
	})
	d.rows("SELECT domain_id,coalesced FROM dirty", func(r *sql.Rows) error {
		var id []byte
		var c bool
		err := r.Scan(&id, &c)
		s.dirty[toID(id)] = c
		return err
	})
	d.rows("SELECT key32 FROM root", func(r *sql.Rows) error { return r.Scan(&s.root) })
	d.rows("SELECT key32,value FROM tree", func(r *sql.Rows) error {
		var id, v []byte
		err := r.Scan(&id, &v)
		s.tree[toID(id)] = v
		return err
	})
	return s
}

const dateTime = "2006-01-02 15:04:05"

// compareMaterial tells how the certificates, policies, domains and links differ from the model.
// many says whether a link may be missing of a name that has another (known finding), given what is missing.
func (m *model) compareMaterial(s *snap, many func(what string) bool) string {
	name := func(id *ID) string {
		if id == nil {
			return "none"
		}
		if c := m.certs[*id]; c != nil {
			return label(c)
		}
		return fmt.Sprintf("unknown %x", id[:])
	}
	for id, c := range m.certs {
		row, ok := s.certs[id]
		if !ok {
			return fmt.Sprintf("certificate %s is not stored", label(c))
		}
		if !bytes.Equal(row.payload, c.DER) {
			return fmt.Sprintf("certificate %s is stored with other bytes", label(c))
		}
		if e := c.NotAfter.UTC().Format(dateTime); row.exp != e {
			return fmt.Sprintf("certificate %s is stored with expiration %q instead of %q", label(c), row.exp, e)
		}
		var p ID
		if row.parent != nil {
			p = *row.parent
		}
		if !m.parents[id][p] {
			return fmt.Sprintf("certificate %s is stored with issuer %s, which follows it in no chain", label(c), name(row.parent))
		}
	}
	for id := range s.certs {
		if m.certs[id] == nil {
			return fmt.Sprintf("certificate %x is stored but was not given", id[:])
		}
	}
	doms := map[ID]string{}
	for n := range m.links {
		doms[hash([]byte(n))] = n
	}
	for n := range m.plinks {
		doms[hash([]byte(n))] = n
	}
	for id, n := range doms {
		got, ok := s.domains[id]
		if !ok {
			return fmt.Sprintf("domain %q is not stored", n)
		}
		if got != n {
			return fmt.Sprintf("domain %q is stored as %q", n, got)
		}
	}
	for id, n := range s.domains {
		if _, ok := doms[id]; !ok {
			return fmt.Sprintf("domain %q (%x) is stored but was not given", n, id[:])
		}
	}
	for n, ids := range m.links {
		got := s.links[hash([]byte(n))]
		for id := range ids {
			if !got[id] {
				e := fmt.Sprintf("domain %q is not linked to certificate %s", n, label(m.certs[id]))
				if len(got) == 0 || many == nil || !many(e) {
					return e
				}
			}
		}
	}
	for d, ids := range s.links {
		for id := range ids {
			if !m.links[doms[d]][id] {
				return fmt.Sprintf("domain %q (%x) is linked to certificate %s, which does not name it", doms[d], d[:], name(&id))
			}
		}
	}
	for id, p := range m.pols {
		row, ok := s.pols[id]
		if !ok {
			return fmt.Sprintf("policy %s is not stored under the hash of its bytes", p.raw)
		}
		if !bytes.Equal(row.payload, p.raw) {
			return fmt.Sprintf("policy %s is stored as %s", p.raw, row.payload)
		}
		if row.parent != nil {
			return fmt.Sprintf("policy %s has a parent %x", p.raw, row.parent[:])
		}
	}
	for id, r := range s.pols {
		if m.pols[id] == nil {
			return fmt.Sprintf("policy %x (%s) is stored but was not given", id[:], r.payload)
		}
	}
	for n, ids := range m.plinks {
		for id := range ids {
			if !s.plinks[hash([]byte(n))][id] {
				return fmt.Sprintf("domain %q is not linked to its policy %s", n, m.pols[id].raw)
			}
		}
	}
	for d, ids := range s.plinks {
		for id := range ids {
			if !m.plinks[doms[d]][id] {
				return fmt.Sprintf("domain %q (%x) is linked to policy %x, which is not for it", doms[d], d[:], id[:])
			}
		}
	}
	for n := range m.touched {
		if _, ok := s.dirty[hash([]byte(n))]; !ok {
			return fmt.Sprintf("domain %q is affected, but not recorded as needing an update", n)
		}
	}
	for d := range s.dirty {
		if !m.named[doms[d]] {
			return fmt.Sprintf("domain %q (%x) is recorded as needing an update, but nothing was given for it", doms[d], d[:])
		}
	}
	return ""
}

// closure is the set of certificates in the rows that name a domain, with their issuers in the rows.
func closure(links map[ID]bool, rows map[ID]certRow) map[ID]bool {
	out := map[ID]bool{}
	for id := range links {
		p := &id
		for p != nil && !out[*p] {
			r, ok := rows[*p]
			if !ok {
				break
			}
			out[*p] = true
			p = r.parent
		}
	}
	return out
}

func glued(set map[ID]bool) []byte {
	ids := make([]ID, 0, len(set))
	for id := range set {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
	var out []byte
	for _, id := range ids {
		out = append(out, id[:]...)
	}
	return out
}

// entry is what the entry of a domain must be, from the certificates, policies and links in the database:
// the glued identifiers of each kind.
func (s *snap) entry(d ID) (cs, ps []byte) {
	return glued(closure(s.links[d], s.certs)), glued(closure(s.plinks[d], s.pols))
}

// leafValue is the value of a domain in the tree (nil: none).
func leafValue(cs, ps []byte) []byte {
	all := map[ID]bool{}
	for _, l := range [][]byte{cs, ps} {
		for i := 0; i+32 <= len(l); i += 32 {
			all[toID(l[i:i+32])] = true
		}
	}
	if len(all) == 0 {
		return nil
	}
	h := hash(glued(all))
	return h[:]
}

// values are the values of all domains with an entry in the table of entries.
func (s *snap) values() map[ID]ID {
	out := map[ID]ID{}
	for d, p := range s.payloads {
		if v := leafValue(p.certs, p.pols); v != nil {
			out[d] = toID(v)
		}
	}
	return out
}

// compareEntries tells whether the entries of all domains that are in no need of coalescing agree with the
// links in the database. want may be nil, to use these links, or says whether to look at a domain.
func (s *snap) compareEntries(only func(ID) bool, known map[ID]string) string {
	all := map[ID]bool{}
	for d := range s.links {
		all[d] = true
	}
	for d := range s.plinks {
		all[d] = true
	}
	for d := range s.payloads {
		all[d] = true
	}
	for d := range all {
		if only != nil && !only(d) {
			continue
		}
		cs, ps := s.entry(d)
		p := s.payloads[d]
		n := s.domains[d]
		if n == "" {
			n = known[d]
		}
		if !bytes.Equal(p.certs, cs) {
			return fmt.Sprintf("the entry of domain %q lists certificates %s instead of %s", n, idList(p.certs), idList(cs))
		}
		if !bytes.Equal(p.pols, ps) {
			return fmt.Sprintf("the entry of domain %q lists policies %s instead of %s", n, idList(p.pols), idList(ps))
		}
		for what, x := range map[string][2][]byte{"certificates": {cs, p.certsID}, "policies": {ps, p.polsID}} {
			if len(x[0]) == 0 && x[1] == nil {
				continue
			}
			if h := hash(x[0]); !bytes.Equal(x[1], h[:]) {
				return fmt.Sprintf("the identifier of the %s of domain %q is %x, which is not the hash of the list", what, n, x[1])
			}
		}
	}
	return ""
}

func idList(b []byte) string {
	var out []string
	for ; len(b) >= 32; b = b[32:] {
		out = append(out, fmt.Sprintf("%x", b[:3]))
	}
	if len(b) > 0 {
		out = append(out, fmt.Sprintf("(%x)", b))
	}
	return "[" + strings.Join(out, " ") + "]"
}

// ------------------------------------------------------------------------------------------- adapters

func split(items []*item) (leaves []ctx509.Certificate, chains [][]*ctx509.Certificate) {
	for _, it := range items {
		leaves = append(leaves, *it.leaf.Parsed)
		var ch []*ctx509.Certificate
		for _, c := range it.chain {
			ch = append(ch, c.Parsed)
		}
		chains = append(chains, ch)
	}
	return
}

func docs(pols []*polDoc) (out []common.PolicyDocument) {
	for _, p := range pols {
		out = append(out, p.doc)
	}
	return
}

var _ = context.Background
