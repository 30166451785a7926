package zzverif

// C11, C12, C13: trust marks.

import (
	"encoding/json"
	"fmt"
	"slices"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/jwks"
	"github.com/go-oidfed/lib/unixtime"
)

const (
	markTyp  = "trust-mark+jwt"
	delegTyp = "trust-mark-delegation+jwt"
)

// Deleg is a delegation as served.
type Deleg struct {
	Iss    string `json:"iss"`
	Sub    string `json:"sub"`
	Type   string `json:"type"`
	Typ    string `json:"typ"`
	Sign   int    `json:"sign"`
	Iat    int64  `json:"iat"`
	Exp    int64  `json:"exp,omitempty"` // 0: none
	Mangle string `json:"mangle,omitempty"`
	// claims that decide nothing
	Extra map[string]json.RawMessage `json:"extra,omitempty"`
}

// Mark is a trust mark as served, in its info object.
type Mark struct {
	Announced string `json:"announced"`
	Type      string `json:"type"`
	Iss       string `json:"iss"`
	Sub       string `json:"sub"`
	Typ       string `json:"typ"`
	Sign      int    `json:"sign"`
	KidOf     int    `json:"kid_of,omitempty"`
	Iat       int64  `json:"iat"`
	Exp       int64  `json:"exp,omitempty"` // 0: none
	Mangle    string `json:"mangle,omitempty"`
	Deleg     *Deleg `json:"deleg,omitempty"`
	// claims that decide nothing
	Extra map[string]json.RawMessage `json:"extra,omitempty"`
}

// OwnerSpec is an entry of the owner table of the anchor.
type OwnerSpec struct {
	ID   string `json:"id"`
	Keys []int  `json:"keys"`
}

func (d *Deleg) token(t0 time.Time) string {
	m := map[string]any{"iss": d.Iss, "sub": d.Sub, "trust_mark_type": d.Type, "iat": t0.Unix() + d.Iat}
	if d.Exp != 0 {
		m["exp"] = t0.Unix() + d.Exp
	}
	for k, v := range d.Extra {
		m[k] = v
	}
	return mangleToken(signJWT(key(d.Sign), d.Typ, []byte(js(m))), d.Mangle, key(d.Sign))
}

func (m *Mark) token(t0 time.Time) string {
	c := map[string]any{"iss": m.Iss, "sub": m.Sub, "trust_mark_type": m.Type, "iat": t0.Unix() + m.Iat}
	if m.Exp != 0 {
		c["exp"] = t0.Unix() + m.Exp
	}
	if m.Deleg != nil {
		c["delegation"] = m.Deleg.token(t0)
	}
	for k, v := range m.Extra {
		c[k] = v
	}
	k := key(m.Sign)
	h := map[string]any{"alg": k.Alg, "kid": k.Kid}
	if m.KidOf > 0 {
		h["kid"] = key(m.KidOf).Kid
	}
	if m.Typ != "" {
		h["typ"] = m.Typ
	}
	return mangleToken(signWithHeader(k, h, []byte(js(c))), m.Mangle, k)
}

func (m *Mark) info(t0 time.Time) map[string]any {
	return map[string]any{"trust_mark_type": m.Announced, "trust_mark": m.token(t0)}
}

func jwtParses(typ, want, mangle string) bool {
	return typ == want && mangle != "trunc" && mangle != "none"
}

func timeOK(iat, exp, at int64) bool { return iat <= at && (exp == 0 || at < exp) }

// refDelegation lists what is wrong with the delegation of a mark.
func (m *Mark) refDelegation(o OwnerSpec, at int64) (bad []string) {
	d := m.Deleg
	if d == nil {
		return []string{"no delegation"}
	}
	if !jwtParses(d.Typ, delegTyp, d.Mangle) {
		bad = append(bad, "delegation malformed")
	}
	if d.Type != m.Type {
		bad = append(bad, "delegation for another type")
	}
	if d.Sub != m.Iss {
		bad = append(bad, "delegation for another issuer")
	}
	if d.Iss != o.ID {
		bad = append(bad, "delegation by somebody else")
	}
	if d.Mangle != "" || !slices.Contains(o.Keys, d.Sign) {
		bad = append(bad, "delegation signature")
	}
	if !timeOK(d.Iat, d.Exp, at) {
		bad = append(bad, "delegation time")
	}
	return
}

// refExternal lists what is wrong with a mark itself, given the issuer's keys.
func (m *Mark) refExternal(keys []int, at int64) (bad []string) {
	if !jwtParses(m.Typ, markTyp, m.Mangle) {
		bad = append(bad, "mark malformed")
	}
	if m.Mangle != "" || !slices.Contains(keys, m.Sign) || (m.KidOf > 0 && m.KidOf != m.Sign) {
		bad = append(bad, "mark signature")
	}
	if !timeOK(m.Iat, m.Exp, at) {
		bad = append(bad, "mark time")
	}
	return
}

// MarkFed is a federation with trust marks.
type MarkFed struct {
	Fed     Fed                  `json:"fed"`
	TA      string               `json:"ta"`
	Issuers map[string][]string  `json:"issuers,omitempty"`
	Owners  map[string]OwnerSpec `json:"owners,omitempty"`
}

// install serves the federation with the anchor's tables.
func (f *MarkFed) install(w *World, t0 time.Time) *served {
	e := &f.Fed.Ents[f.Fed.byID(f.TA)]
	if e.EC.Extra == nil {
		e.EC.Extra = map[string]json.RawMessage{}
	}
	if f.Issuers != nil {
		e.EC.Extra["trust_mark_issuers"] = raw(f.Issuers)
	}
	if f.Owners != nil {
		o := map[string]any{}
		for k, v := range f.Owners {
			o[k] = map[string]any{"sub": v.ID, "jwks": jwkSet(v.Keys...)}
		}
		e.EC.Extra["trust_mark_owners"] = raw(o)
	}
	return f.Fed.install(w, t0)
}

// refMark lists what is wrong with a mark in the federation. unsure tells that
// the property does not say.
func (f *MarkFed) refMark(sv *served, m *Mark, at int64) (bad []string, unsure bool) {
	if is, ok := f.Issuers[m.Type]; ok && !slices.Contains(is, m.Iss) {
		bad = append(bad, "issuer not allowed")
	}
	keys, why, u := f.issuerKeys(sv, m.Iss, at)
	if why != "" {
		bad = append(bad, why)
	}
	bad = append(bad, m.refExternal(keys, at)...)
	if o, ok := f.Owners[m.Type]; ok {
		bad = append(bad, m.refDelegation(o, at)...)
	}
	return bad, u
}

func (f *MarkFed) issuerKeys(sv *served, iss string, at int64) (keys []int, why string, unsure bool) {
	i := f.Fed.byID(iss)
	if iss == f.TA {
		return f.Fed.Ents[i].EC.JWKS, "", false
	}
	if i < 0 {
		return nil, "issuer unknown", false
	}
	keys = f.Fed.Ents[i].EC.JWKS
	why = "issuer without valid chain"
	for _, pa := range f.Fed.refResolve(sv, iss, []TA{{ID: f.TA}}, at) {
		if len(pa.Reasons) == 0 {
			why = ""
			// keys nobody attested to
			if sup := f.Fed.byID(pa.IDs[1]); sup >= 0 {
				if fi := f.Fed.byFetch(fetchEndpointOf(f.Fed.Ents[sup].EC.Meta)); fi >= 0 {
					for _, k := range keys {
						unsure = unsure || !slices.Contains(f.Fed.Ents[fi].sub(iss).JWKS, k)
					}
				}
			}
		}
	}
	return
}

// MarkPlan is one verification of trust marks.
type MarkPlan struct {
	MarkFed
	Marks  []Mark   `json:"marks"`
	At     int64    `json:"at"`
	Warm   bool     `json:"warm,omitempty"` // verified before as well
	Faults []string `json:"faults,omitempty"`
}

const noOwner = "https://owner.example"

// genMarkFed draws a federation with trust mark tables.
func genMarkFed(t *rapid.T, faults int) (f MarkFed, types []string, injected []string) {
	var tas []TA
	f.Fed, _, tas = genFed(t, fedOpts{maxEnts: 6, extraTypes: true})
	f.TA = tas[0].ID
	for k := faults; k > 0; k-- {
		injected = append(injected, f.Fed.injectFault(t, []TA{{ID: f.TA}}))
	}
	fp := FedPlan{Fed: f.Fed}
	fp.dedupHints()
	// the anchor's own statement is handed to the verification
	ta := &f.Fed.Ents[f.Fed.byID(f.TA)].EC
	ta.Iss, ta.Sub = f.TA, f.TA
	if faults > 0 && chance(t, "issuer without keys", 8) {
		f.Fed.Ents[intn(t, "keyless", 0, len(f.Fed.Ents)-1)].EC.JWKS = nil
	}
	types = []string{"https://tm.example/a", "https://tm.example/b", "https://tm.example/a/b", "x"}
	for _, ty := range types {
		if chance(t, "issuers of "+ty, 40) {
			if f.Issuers == nil {
				f.Issuers = map[string][]string{}
			}
			for k := intn(t, "nissuers", 1, 3); k > 0; k-- {
				f.Issuers[ty] = append(f.Issuers[ty], pick(t, "issuer", append(f.ids(), "https://other.example")...))
			}
		}
		if chance(t, "owner of "+ty, 40) {
			if f.Owners == nil {
				f.Owners = map[string]OwnerSpec{}
			}
			o := OwnerSpec{ID: noOwner, Keys: []int{600}}
			if chance(t, "owner in federation", 40) {
				e := f.Fed.Ents[intn(t, "owner", 0, len(f.Fed.Ents)-1)]
				o = OwnerSpec{ID: e.ID, Keys: append([]int{}, e.EC.JWKS...)}
			}
			if chance(t, "owner keys", 20) || len(o.Keys) == 0 {
				o.Keys = append([]int{601}, o.Keys...)
			}
			f.Owners[ty] = o
		}
	}
	return
}

func (f *MarkFed) ids() (ids []string) {
	for _, e := range f.Fed.Ents {
		ids = append(ids, e.ID)
	}
	return
}

// genMark draws a mark that would be fine (if the issuer is), then breaks up to
// nf things.
func (f *MarkFed) genMark(t *rapid.T, types []string, sub string, nf int) (m Mark) {
	ty := pick(t, "mark type", types...)
	e := &f.Fed.Ents[intn(t, "mark issuer", 0, len(f.Fed.Ents)-1)]
	if is := f.Issuers[ty]; is != nil && chance(t, "allowed issuer", 85) {
		if i := f.Fed.byID(pick(t, "of the allowed", is...)); i >= 0 {
			e = &f.Fed.Ents[i]
		}
	}
	m = Mark{
		Announced: ty, Type: ty, Iss: e.ID, Sub: sub, Typ: markTyp, Sign: 950, Iat: -int64(intn(t, "mark iat", 2, 500)),
	}
	if len(e.EC.JWKS) > 0 {
		m.Sign = pick(t, "mark key", e.EC.JWKS...)
	}
	if chance(t, "mark expires", 70) {
		m.Exp = int64(intn(t, "mark exp", 100, 100000))
	}
	if o, ok := f.Owners[ty]; ok || chance(t, "delegation without owner", 10) {
		d := &Deleg{Iss: o.ID, Sub: e.ID, Type: ty, Typ: delegTyp, Sign: 600, Iat: -int64(intn(t, "deleg iat", 2, 500))}
		if len(o.Keys) > 0 {
			d.Sign = pick(t, "deleg key", o.Keys...)
		}
		if chance(t, "deleg expires", 60) {
			d.Exp = int64(intn(t, "deleg exp", 100, 100000))
		}
		if chance(t, "deleg bystander", 30) {
			d.Extra = bystanderClaims(t, pick(t, "names", o.ID, ty))
		}
		m.Deleg = d
	}
	if chance(t, "mark bystander", 30) {
		m.Extra = bystanderClaims(t, pick(t, "names", e.ID, ty))
	}
	for ; nf > 0; nf-- {
		m.fault(t, f, types)
	}
	return
}

func (m *Mark) fault(t *rapid.T, f *MarkFed, types []string) {
	kinds := []string{"announced", "type", "iss", "sign", "kid", "typ", "exp", "iat", "mangle"}
	if m.Deleg != nil {
		kinds = append(kinds, "nodeleg", "d.iss", "d.sub", "d.type", "d.typ", "d.sign", "d.iat", "d.exp", "d.mangle", "d.sign2")
	}
	rogue := pick(t, "rogue", 950, 1, 2, 600)
	typs := []string{"", "JWT", entityTyp, markTyp, delegTyp, "resolve-response+jwt", "trust-mark", "Trust-Mark+jwt"}
	mangles := []string{"sig", "payload", "trunc", "none", "header", "swap", "nosig"}
	ago := -int64(intn(t, "ago", 2, 90))
	in := int64(intn(t, "in", 2, 90))
	switch pick(t, "mark fault", kinds...) {
	case "announced":
		m.Announced = pick(t, "announced", append(types, "")...)
	case "type":
		m.Type = pick(t, "type", append(types, "")...)
		if chance(t, "announced too", 50) {
			m.Announced = m.Type
		}
	case "iss":
		m.Iss = pick(t, "iss", append(f.ids(), "https://nobody.example", "")...)
		if m.Deleg != nil && chance(t, "delegated to it", 50) {
			m.Deleg.Sub = m.Iss
		}
	case "sign":
		m.Sign = rogue
	case "kid":
		m.KidOf, m.Sign = m.Sign, rogue
	case "typ":
		m.Typ = pick(t, "typ", typs...)
	case "exp":
		m.Iat, m.Exp = -1000, ago
	case "iat":
		m.Iat = in
	case "mangle":
		m.Mangle = pick(t, "mangle", mangles...)
	case "nodeleg":
		m.Deleg = nil
	case "d.iss":
		m.Deleg.Iss = pick(t, "d.iss", append(f.ids(), m.Iss, "")...)
	case "d.sub":
		m.Deleg.Sub = pick(t, "d.sub", append(f.ids(), m.Sub, m.Deleg.Iss)...)
	case "d.type":
		m.Deleg.Type = pick(t, "d.type", append(types, "")...)
	case "d.typ":
		m.Deleg.Typ = pick(t, "d.typ", typs...)
	case "d.sign":
		m.Deleg.Sign = rogue
	case "d.sign2": // by the mark issuer itself
		m.Deleg.Sign = m.Sign
	case "d.iat":
		m.Deleg.Iat = in
	case "d.exp":
		m.Deleg.Iat, m.Deleg.Exp = -1000, ago
	case "d.mangle":
		m.Deleg.Mangle = pick(t, "d.mangle", mangles...)
	}
}

func genMarkPlan(t *rapid.T) MarkPlan {
	var p MarkPlan
	var types []string
	p.MarkFed, types, p.Faults = genMarkFed(t, pick(t, "nfaults", 0, 0, 1, 2))
	for k := intn(t, "nmarks", 1, 3); k > 0; k-- {
		p.Marks = append(p.Marks, p.genMark(t, types, pick(t, "mark subject", p.ids()...), pick(t, "mark faults", 0, 1, 1, 2)))
	}
	if chance(t, "later", 30) {
		p.At = int64(intn(t, "at", 1, 200))
		p.Warm = rapid.Bool().Draw(t, "warm")
	}
	return p
}

func (f *MarkFed) taPayload(t0 time.Time) *oidfed.EntityStatementPayload {
	var ta oidfed.EntityStatementPayload
	must(json.Unmarshal([]byte(js(f.Fed.Ents[f.Fed.byID(f.TA)].EC.claims(t0))), &ta))
	return &ta
}

func execMarks(c *Ctx, p MarkPlan) *Violation {
	w := newWorld()
	t0 := time.Now()
	sv := p.install(w, t0)
	ta := p.taPayload(t0)
	judge := func(at int64) *Violation {
		var infos oidfed.TrustMarkInfos
		var want []string
		var wantExt []string
		var extKeys []int
		var extOwner *OwnerSpec
		for i := range p.Marks {
			m := &p.Marks[i]
			tok := m.token(t0)
			bad, unsure := p.refMark(sv, m, at)
			if unsure {
				return nil
			}
			if i == 0 {
				extKeys, _, _ = p.issuerKeys(sv, m.Iss, at)
				if o, ok := p.Owners[m.Type]; ok {
					extOwner = &o
				}
			}
			info := oidfed.TrustMarkInfo{TrustMarkType: m.Announced, TrustMarkJWT: tok}
			infos = append(infos, info)
			annBad := bad
			if m.Announced != m.Type {
				annBad = append([]string{"announced type"}, bad...)
			}
			if len(annBad) == 0 {
				want = append(want, tok)
			}
			for _, b := range annBad {
				c.Label("bad: %s", b)
			}
			c.LabelIf(len(annBad) == 0, "authorised")
			c.LabelIf(len(annBad) == 0 && m.Deleg != nil && p.Owners[m.Type].ID != "", "authorised by delegation")
			c.LabelIf(len(annBad) == 1, "one thing wrong")
			c.NonTrivialIf(len(annBad) <= 1)
			if pm, err := oidfed.ParseTrustMark([]byte(tok)); err == nil {
				err = pm.VerifyFederation(ta)
				if v := markVerdict("trust mark", m, bad, err); v != nil {
					return v
				}
			} else if !slices.Contains(bad, "mark malformed") {
				return violf("mark-refused", "trust mark is not parsed: %v", err)
			}
			err := info.VerifyFederation(ta)
			if v := markVerdict("trust mark info", m, annBad, err); v != nil {
				return v
			}
			// the external verification has no federation to ask
			ext := m.refExternal(extKeys, at)
			if m.Announced != m.Type {
				ext = append(ext, "announced type")
			}
			var owners []oidfed.TrustMarkOwnerSpec
			if extOwner != nil {
				ext = append(ext, m.refDelegation(*extOwner, at)...)
				owners = []oidfed.TrustMarkOwnerSpec{{ID: extOwner.ID, JWKS: libJWKS(extOwner.Keys...)}}
			}
			if len(ext) == 0 {
				wantExt = append(wantExt, tok)
			}
			err = (&oidfed.TrustMarkInfo{TrustMarkType: m.Announced, TrustMarkJWT: tok}).VerifyExternal(libJWKS(extKeys...), owners...)
			if v := markVerdict("external trust mark", m, ext, err); v != nil {
				return v
			}
			// the delegation alone
			if m.Deleg != nil && jwtParses(m.Deleg.Typ, delegTyp, m.Deleg.Mangle) {
				d, err := (&oidfed.TrustMark{DelegationJWT: m.Deleg.token(t0)}).Delegation()
				if err != nil {
					return violf("delegation-refused", "delegation is not parsed: %v", err)
				}
				o, known := p.Owners[m.Deleg.Type]
				good := known && m.Deleg.Mangle == "" && slices.Contains(o.Keys, m.Deleg.Sign) && timeOK(m.Deleg.Iat, m.Deleg.Exp, at)
				err = d.VerifyFederation(ta)
				if (err == nil) != good && (!good || o.ID == m.Deleg.Iss) {
					return violf(fmt.Sprintf("delegation-%v", err == nil), "delegation %s: expected ok=%v, got %v", js(m.Deleg), good, err)
				}
			}
		}
		if got := infoTokens(infos.VerifiedFederation(ta)); !slices.Equal(got, want) {
			return violf("verified-list", "VerifiedFederation gives %d marks of %d, expected %d", len(got), len(infos), len(want))
		}
		var owners []oidfed.TrustMarkOwnerSpec
		if extOwner != nil {
			owners = []oidfed.TrustMarkOwnerSpec{{ID: extOwner.ID, JWKS: libJWKS(extOwner.Keys...)}}
		}
		if got := infoTokens(infos.VerifiedExternal(libJWKS(extKeys...), owners...)); !slices.Equal(got, wantExt) {
			return violf("verified-list", "VerifiedExternal gives %d marks of %d, expected %d", len(got), len(infos), len(wantExt))
		}
		return nil
	}
	if p.At == 0 || p.Warm {
		if v := judge(0); v != nil || p.At == 0 {
			return v
		}
	}
	// never exactly at an expiration
	time.Sleep(time.Duration(p.At)*time.Second + time.Second/2)
	return judge(p.At)
}

func infoTokens(is oidfed.TrustMarkInfos) (out []string) {
	for _, i := range is {
		out = append(out, i.TrustMarkJWT)
	}
	return
}

func markVerdict(what string, m *Mark, bad []string, err error) *Violation {
	if len(bad) == 0 && err != nil {
		return violf("mark-rejected", "%s %s is authorised but rejected: %v", what, js(m), err)
	}
	if len(bad) > 0 && err == nil {
		return violf("mark-accepted:"+strings.ReplaceAll(bad[0], " ", "-"), "%s %s is accepted although: %s", what, js(m), strings.Join(bad, "; "))
	}
	return nil
}

// IssueOp is a step of a history of issuing.
type IssueOp struct {
	Op       string         `json:"op"` // add, issue, own, delegate, sleep, types
	Type     string         `json:"type,omitempty"`
	Sub      string         `json:"sub,omitempty"`
	Life     int64          `json:"life"` // nanoseconds, of the specification
	Custom   *int64         `json:"custom,omitempty"`
	Ref      string         `json:"ref,omitempty"`
	Logo     string         `json:"logo,omitempty"`
	Extra    map[string]any `json:"extra,omitempty"`
	InInfo   bool           `json:"in_info,omitempty"`
	Delegate bool           `json:"delegate,omitempty"` // put the last delegation of the type into the specification
}

// IssuePlan is a history of a trust mark issuer and an owner.
type IssuePlan struct {
	Alg      string    `json:"alg"`
	OwnerAlg string    `json:"owner_alg"`
	Initial  int       `json:"initial"` // the first specs are given to the constructors
	Ops      []IssueOp `json:"ops"`
}

var markLifetimes = []int64{
	0, 0, int64(time.Hour), int64(time.Hour), int64(365 * 24 * time.Hour), 1500 * int64(time.Millisecond), int64(time.Second),
	int64(100 * 365 * 24 * time.Hour), int64(280 * 365 * 24 * time.Hour), int64(10*time.Minute) + 123456000,
}

func genIssuePlan(t *rapid.T) IssuePlan {
	p := IssuePlan{Alg: "ES256", OwnerAlg: "ES256"}
	if chance(t, "other alg", 20) {
		p.Alg = pick(t, "alg", allAlgs...)
	}
	if chance(t, "other owner alg", 20) {
		p.OwnerAlg = pick(t, "owner alg", allAlgs...)
	}
	types := []string{"https://tm.example/a", "https://tm.example/b", "x", ""}
	var added, own, done []string
	for k := intn(t, "nops", 1, 16); k > 0; k-- {
		ops := []string{"add", "own", "add", "own", "issue", "sleep"}
		if len(added)+len(own) > 1 {
			ops = []string{"issue", "issue", "issue", "delegate", "delegate", "add", "add", "own", "sleep", "types"}
		}
		o := IssueOp{Op: pick(t, "op", ops...)}
		o.Type = pick(t, "type", types...)
		from := added
		switch o.Op {
		case "add":
			if len(done) > 0 && chance(t, "delegated", 70) {
				o.Type = pick(t, "of the delegated", done...)
			} else if len(own) > 0 && chance(t, "owned", 60) {
				o.Type = pick(t, "of the owned", own...)
			}
			added = append(added, o.Type)
		case "own":
			own = append(own, o.Type)
		case "delegate":
			from = own
		}
		if (o.Op == "issue" || o.Op == "delegate") && len(from) > 0 && chance(t, "known", 90) {
			o.Type = pick(t, "of the known", from...)
			if o.Op == "delegate" {
				done = append(done, o.Type)
			}
		}
		o.Sub = pick(t, "sub", "https://sub.example", "https://sub.example/2", "https://tmi.example", "")
		o.Life = pick(t, "life", markLifetimes...)
		switch o.Op {
		case "add", "own":
			o.Ref = pick(t, "ref", "", "https://ref.example/r")
			o.Logo = pick(t, "logo", "", "https://logo.example/l.png?a=b&c=<d>")
			o.InInfo = rapid.Bool().Draw(t, "in info")
			o.Delegate = chance(t, "delegate", 80)
			for j := intn(t, "nextra", 0, 2); j > 0; j-- {
				if o.Extra == nil {
					o.Extra = map[string]any{}
				}
				o.Extra[pick(t, "extra", "x_a", "level", "ä", "aud")] = genAny(t, 2)
			}
		case "issue", "delegate":
			if chance(t, "custom", 40) {
				l := pick(t, "custom", append([]int64{-int64(time.Hour)}, markLifetimes...)...)
				o.Custom = &l
			}
		}
		p.Ops = append(p.Ops, o)
	}
	for p.Initial < len(p.Ops) && (p.Ops[p.Initial].Op == "add" || p.Ops[p.Initial].Op == "own") {
		p.Initial++
	}
	p.Initial = intn(t, "initial", 0, p.Initial)
	return p
}

func execIssue(c *Ctx, p IssuePlan) *Violation {
	newWorld()
	const issuerID, ownerID = "https://tmi.example", "https://owner.example"
	ik, ok := keyFor(p.Alg, 11), keyFor(p.OwnerAlg, 12)
	ts := oidfed.NewTrustMarkSigner(ik.Signer, libAlg(ik.Alg))
	ds := oidfed.NewTrustMarkDelegationSigner(ok.Signer, libAlg(ok.Alg))
	specs := map[string]IssueOp{}                    // what the issuer may issue
	delegs := map[string]string{}                    // delegation in the specification
	owned := map[string]IssueOp{}                    // what the owner owns
	last := map[string]string{}                      // last delegation issued
	clone := func(m map[string]any) map[string]any { // the library's own copy
		if m == nil {
			return nil
		}
		return jsonAny(m)
	}
	type given struct {
		m    map[string]any
		want string
	}
	var givens []given
	give := func(m map[string]any) map[string]any {
		cp := clone(m)
		givens = append(givens, given{cp, js(cp)})
		return cp
	}
	var initial []oidfed.TrustMarkSpec
	var initialOwned []oidfed.OwnedTrustMark
	var tmi *oidfed.TrustMarkIssuer
	var tmo *oidfed.TrustMarkOwner
	overridden, issued, delegated := false, false, false
	for n, o := range p.Ops {
		if n == p.Initial {
			tmi = oidfed.NewTrustMarkIssuer(issuerID, ts, initial)
			tmo = oidfed.NewTrustMarkOwner(ownerID, ds, initialOwned)
		}
		if o.Op != "add" && o.Op != "own" && tmi == nil {
			panic(harnessErr{"history without issuer"})
		}
		switch o.Op {
		case "sleep":
			time.Sleep(time.Duration(o.Life) % (48 * time.Hour))
		case "add":
			if _, had := specs[o.Type]; had {
				overridden = true
			}
			specs[o.Type] = o
			delete(delegs, o.Type)
			if o.Delegate && last[o.Type] != "" {
				delegs[o.Type] = last[o.Type]
			}
			s := oidfed.TrustMarkSpec{
				TrustMarkType: o.Type, Lifetime: unixtime.DurationInSeconds{Duration: time.Duration(o.Life)}, Ref: o.Ref,
				LogoURI: o.Logo, Extra: give(o.Extra), IncludeExtraClaimsInInfo: o.InInfo, DelegationJWT: delegs[o.Type],
			}
			if tmi == nil {
				initial = append(initial, s)
			} else {
				tmi.AddTrustMark(s)
			}
		case "own":
			if _, had := owned[o.Type]; had {
				overridden = true
			}
			owned[o.Type] = o
			s := oidfed.OwnedTrustMark{ID: o.Type, DelegationLifetime: time.Duration(o.Life), Ref: o.Ref, Extra: give(o.Extra)}
			if tmo == nil {
				initialOwned = append(initialOwned, s)
			} else {
				tmo.AddTrustMark(s)
			}
		case "types":
			got := tmi.TrustMarkTypes()
			slices.Sort(got)
			var want []string
			for k := range specs {
				want = append(want, k)
			}
			slices.Sort(want)
			if !slices.Equal(got, want) {
				return violf("types", "trust mark types are %v, specified were %v", got, want)
			}
		case "issue":
			var lf []time.Duration
			if o.Custom != nil {
				lf = append(lf, time.Duration(*o.Custom))
			}
			info, err := tmi.IssueTrustMark(o.Type, o.Sub, lf...)
			spec, known := specs[o.Type]
			if !known {
				if err == nil {
					return violf("unknown-issued", "a trust mark of the unspecified type %q was issued", o.Type)
				}
				continue
			}
			if err != nil {
				return violf("not-issued", "issuing %q: %v", o.Type, err)
			}
			issued = true
			want := map[string]any{"iss": issuerID, "sub": o.Sub, "trust_mark_type": o.Type}
			setIf(want, "ref", spec.Ref)
			setIf(want, "logo_uri", spec.Logo)
			setIf(want, "delegation", delegs[o.Type])
			v, exp := checkIssued(info.TrustMarkJWT, markTyp, ts.JWKS(), ik, want, spec, o.Custom)
			if v != nil {
				return v
			}
			if info.TrustMarkType != o.Type {
				return violf("info-type", "the info announces %q for a mark of type %q", info.TrustMarkType, o.Type)
			}
			wantExtra := map[string]any{}
			if spec.InInfo {
				wantExtra = spec.Extra
			}
			if len(info.Extra)+len(wantExtra) > 0 && !jsonEq(js(info.Extra), js(wantExtra)) {
				return violf("info-extra", "the info has extra members %s, expected %s", js(info.Extra), js(wantExtra))
			}
			var owners []oidfed.TrustMarkOwnerSpec
			dexp := true
			if d := delegs[o.Type]; d != "" {
				owners = append(owners, oidfed.TrustMarkOwnerSpec{ID: ownerID, JWKS: ds.JWKS()})
				cl, _ := decodeClaims(d)
				dexp = cl["exp"] == nil || cl["exp"].(float64) > float64(time.Now().UnixNano())/1e9
			}
			time.Sleep(time.Millisecond)
			good := dexp && (exp == nil || exp.After(time.Now()))
			err = info.VerifyExternal(ts.JWKS(), owners...)
			if (err == nil) != good {
				return violf(fmt.Sprintf("verify-%v", err == nil), "the issued mark should verify: %v, got %v (expires %v)", good, err, exp)
			}
			c.LabelIf(len(owners) > 0, "delegated mark")
			c.LabelIf(o.Custom != nil, "custom lifetime")
			if other := keyFor(p.Alg, 14); !rsaSame(other, ik) && info.VerifyExternal(libSet(setOf(other)), owners...) == nil {
				return violf("verify-other", "the issued mark verifies with another key")
			}
		case "delegate":
			var lf []time.Duration
			if o.Custom != nil {
				lf = append(lf, time.Duration(*o.Custom))
			}
			tok, err := tmo.DelegationJWT(o.Type, issuerID, lf...)
			spec, known := owned[o.Type]
			if !known {
				if err == nil {
					return violf("unknown-delegated", "a delegation of the unknown type %q was issued", o.Type)
				}
				continue
			}
			if err != nil {
				return violf("not-delegated", "delegating %q: %v", o.Type, err)
			}
			delegated = true
			want := map[string]any{"iss": ownerID, "sub": issuerID, "trust_mark_type": o.Type}
			setIf(want, "ref", spec.Ref)
			v, exp := checkIssued(string(tok), delegTyp, ds.JWKS(), ok, want, spec, o.Custom)
			if v != nil {
				v.Sig = "delegation-" + v.Sig
				return v
			}
			d, err := (&oidfed.TrustMark{DelegationJWT: string(tok)}).Delegation()
			if err != nil {
				return violf("delegation-parse", "issued delegation does not parse: %v", err)
			}
			time.Sleep(time.Millisecond)
			good := exp == nil || exp.After(time.Now())
			if err = d.VerifyExternal(ds.JWKS()); (err == nil) != good {
				return violf("delegation-verify", "the issued delegation should verify: %v, got %v", good, err)
			}
			last[o.Type] = string(tok)
			c.LabelIf(o.Custom != nil, "custom delegation lifetime")
		}
	}
	for _, g := range givens {
		if js(g.m) != g.want {
			return violf("spec-changed", "the extra claims of a specification changed: %s -> %s", g.want, js(g.m))
		}
	}
	c.NonTrivialIf(issued && (delegated || overridden))
	c.LabelIf(issued, "issued")
	c.LabelIf(overridden, "respecified")
	return nil
}

func setIf(m map[string]any, k, v string) {
	if v != "" {
		m[k] = v
	}
}

// checkIssued judges an issued token: want are its claims besides times and extra.
func checkIssued(tok, typ string, pub jwks.JWKS, k *testKey, want map[string]any, spec IssueOp, custom *int64) (*Violation, *time.Time) {
	now := time.Now()
	h, body, err := verifyCompact(tok, jsonAny(map[string]any{"v": json.RawMessage(js(pub))})["v"])
	if err == nil {
		h, body, err = verifyCompact(tok, setOf(k))
	}
	if err != nil {
		return violf("signature", "issued token does not verify with the issuer's key: %v", err), nil
	}
	if h["typ"] != typ {
		return violf("typ", "issued token has type %v", h["typ"]), nil
	}
	got := jsonAny(map[string]any{"v": json.RawMessage(body)})["v"].(map[string]any)
	life := spec.Life
	if custom != nil {
		life = *custom
	}
	near := func(v any, at time.Time) bool {
		f, ok := v.(float64)
		d := f - (float64(at.Unix()) + float64(at.Nanosecond())/1e9)
		return ok && d < 1e-5 && d > -1e-5
	}
	if !near(got["iat"], now) {
		return violf("iat", "issued at %v, it is %v", got["iat"], now.Unix()), nil
	}
	var exp *time.Time
	if life != 0 {
		e := now.Add(time.Duration(life))
		exp = &e
		if !near(got["exp"], e) {
			return violf("exp", "issued with lifetime %v (custom: %v) at %d but expires %v", time.Duration(life), custom != nil, now.Unix(), got["exp"]), nil
		}
	} else if got["exp"] != nil {
		return violf("exp", "issued without lifetime (custom: %v) at %d but expires %v", custom != nil, now.Unix(), got["exp"]), nil
	}
	delete(got, "iat")
	delete(got, "exp")
	for k, v := range spec.Extra {
		want[k] = v
	}
	if !jsonEq(js(got), js(want)) {
		return violf("claims", "issued claims are %s, specified %s", js(got), js(want)), nil
	}
	return nil, exp
}

// AttributePlan is a federation whose entities carry trust marks.
type AttributePlan struct {
	MarkFed
	Marks  map[string][]Mark `json:"marks"` // by entity
	Filter []string          `json:"filter,omitempty"`
	Claims []string          `json:"claims,omitempty"`
	Faults []string          `json:"faults,omitempty"`
	Alone  bool              `json:"alone,omitempty"` // trust_marks without a chain
}

func genAttributePlan(t *rapid.T) AttributePlan {
	var p AttributePlan
	var types []string
	p.MarkFed, types, p.Faults = genMarkFed(t, pick(t, "nfaults", 0, 0, 0, 1, 2))
	p.Marks = map[string][]Mark{}
	var all []Mark
	few := types[:1+intn(t, "few types", 0, len(types)-1)]
	for _, e := range p.Fed.Ents {
		for k := intn(t, "nmarks", 0, 3); k > 0; k-- {
			if len(all) > 0 && chance(t, "borrowed", 25) {
				p.Marks[e.ID] = append(p.Marks[e.ID], all[intn(t, "borrow", 0, len(all)-1)])
				continue
			}
			sub := e.ID
			if chance(t, "foreign", 25) {
				sub = pick(t, "foreign sub", append(p.ids(), "", e.ID+"/", strings.ToUpper(e.ID))...)
			}
			m := p.genMark(t, few, sub, pick(t, "mark faults", 0, 0, 0, 1))
			p.Marks[e.ID] = append(p.Marks[e.ID], m)
			all = append(all, m)
		}
	}
	if chance(t, "filter", 60) {
		for k := intn(t, "nfilter", 1, 2); k > 0; k-- {
			ty := pick(t, "filter type", few...)
			if !slices.Contains(p.Filter, ty) {
				p.Filter = append(p.Filter, ty)
			}
		}
	}
	p.Claims = []string{"trust_marks"}
	if chance(t, "with chain", 40) {
		p.Claims = append(p.Claims, "trust_chain")
	}
	if chance(t, "with metadata", 30) {
		p.Claims = append(p.Claims, "metadata")
	}
	if chance(t, "with types", 30) {
		p.Claims = append([]string{"entity_types"}, p.Claims...)
	}
	return p
}

func execAttribute(c *Ctx, p AttributePlan) *Violation {
	w := newWorld()
	t0 := time.Now()
	for i := range p.Fed.Ents {
		e := &p.Fed.Ents[i]
		if e.EC.Extra == nil {
			e.EC.Extra = map[string]json.RawMessage{}
		}
		var infos []any
		for _, m := range p.Marks[e.ID] {
			infos = append(infos, m.info(t0))
		}
		if infos != nil {
			e.EC.Extra["trust_marks"] = raw(infos)
		}
	}
	sv := p.install(w, t0)
	p.Fed.installLists(w)
	unsure := false
	want := map[string][]string{} // tokens
	wantTypes := map[string][]string{}
	counts, others := 0, 0
	for _, e := range p.Fed.Ents {
		for _, m := range p.Marks[e.ID] {
			bad, u := p.refMark(sv, &m, 0)
			unsure = unsure || u
			if m.Sub != e.ID {
				bad = append(bad, "of another subject")
				c.LabelIf(len(bad) == 1 && m.Announced == m.Type, "only the subject is wrong")
			}
			if m.Announced != m.Type {
				bad = append(bad, "announced type")
			}
			if len(bad) == 0 {
				counts++
				want[e.ID] = append(want[e.ID], m.token(t0))
				wantTypes[e.ID] = append(wantTypes[e.ID], m.Type)
			} else {
				others++
			}
		}
	}
	if unsure {
		return nil
	}
	c.NonTrivialIf(counts > 0 && others > 0)
	resolved := 0
	for _, e := range p.Fed.Ents {
		if i := p.Fed.byID(e.ID); p.Fed.Ents[i].EC.HTTP != "" {
			continue
		}
		res, err := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(
			apimodel.ResolveRequest{Subject: e.ID, TrustAnchor: []string{p.TA}},
		)
		if err != nil {
			continue
		}
		resolved++
		if got := infoTokens(res.TrustMarks); !slices.Equal(got, want[e.ID]) {
			return violf(attrSig("resolve", got, want[e.ID]), "the resolve response for %s has trust marks %s, expected %s", e.ID, describeToks(got), describeToks(want[e.ID]))
		}
	}
	c.LabelIf(resolved > 0, "resolved")
	// what is collected without a filter
	collect := func(filter []string) map[string]*oidfed.CollectedEntity {
		out := map[string]*oidfed.CollectedEntity{}
		for _, ce := range (&oidfed.SimpleEntityCollector{}).CollectEntities(
			apimodel.EntityCollectionRequest{TrustAnchor: p.TA, TrustMarkTypes: filter, Claims: p.Claims},
		) {
			out[ce.EntityID] = ce
		}
		return out
	}
	all := collect(nil)
	judge := func(found map[string]*oidfed.CollectedEntity) *Violation {
		for id, ce := range found {
			i := p.Fed.byID(id)
			if i < 0 || p.Fed.Ents[i].ID != id || p.Fed.Ents[i].EC.Sub != id {
				continue
			}
			if got := infoTokens(ce.TrustMarks); !slices.Equal(got, want[id]) {
				return violf(attrSig("collected", got, want[id]), "collected entity %s has trust marks %s, expected %s", id, describeToks(got), describeToks(want[id]))
			}
		}
		return nil
	}
	if v := judge(all); v != nil {
		return v
	}
	c.LabelIf(len(all) > 0, "collected")
	if len(p.Filter) == 0 {
		return nil
	}
	found := collect(p.Filter)
	if v := judge(found); v != nil {
		return v
	}
	for id := range all {
		i := p.Fed.byID(id)
		if i < 0 || p.Fed.Ents[i].ID != id || p.Fed.Ents[i].EC.Sub != id {
			continue
		}
		good := true
		for _, ty := range p.Filter {
			good = good && slices.Contains(wantTypes[id], ty)
		}
		c.LabelIf(good, "passes the filter")
		if _, in := found[id]; in != good {
			return violf(fmt.Sprintf("filter-%v", in), "filtering for trust marks %v finds %s: %v, but it has valid marks for %v", p.Filter, id, in, wantTypes[id])
		}
	}
	for id := range found {
		if all[id] == nil {
			return violf("filter-more", "filtering for trust marks finds %s, which is not found without a filter", id)
		}
	}
	return nil
}

// execMarked looks only at which entities are found when some trust marks are
// asked for: those found without the filter that have valid ones of every
// type, wherever they are and whatever is above them.
func execMarked(c *Ctx, p AttributePlan) *Violation {
	w := newWorld()
	t0 := time.Now()
	good := map[string]bool{}
	for i := range p.Fed.Ents {
		e := &p.Fed.Ents[i]
		var infos []any
		for _, m := range p.Marks[e.ID] {
			infos = append(infos, m.info(t0))
		}
		if infos != nil {
			if e.EC.Extra == nil {
				e.EC.Extra = map[string]json.RawMessage{}
			}
			e.EC.Extra["trust_marks"] = raw(infos)
		}
	}
	sv := p.install(w, t0)
	p.Fed.installLists(w)
	for _, e := range p.Fed.Ents {
		types := map[string]bool{}
		for _, m := range p.Marks[e.ID] {
			bad, unsure := p.refMark(sv, &m, 0)
			if unsure {
				return nil
			}
			if len(bad) == 0 && m.Sub == e.ID && m.Announced == m.Type {
				types[m.Type] = true
			}
		}
		good[e.ID] = true
		for _, ty := range p.Filter {
			good[e.ID] = good[e.ID] && types[ty]
		}
	}
	shared := &oidfed.SimpleEntityCollector{}
	collect := func(filter []string) map[string]bool {
		out := map[string]bool{}
		for _, ce := range shared.CollectEntities(
			apimodel.EntityCollectionRequest{TrustAnchor: p.TA, TrustMarkTypes: filter, Claims: p.Claims},
		) {
			out[ce.EntityID] = true
		}
		return out
	}
	all := collect(nil)
	found := make([]map[string]bool, 1+len(p.Claims)%2)
	var wg sync.WaitGroup
	for k := range found {
		wg.Add(1)
		go func() {
			defer wg.Done()
			found[k] = collect(p.Filter)
		}()
	}
	wg.Wait()
	nGood, nBad := 0, 0
	for id := range all {
		i := p.Fed.byID(id)
		if i < 0 || p.Fed.Ents[i].ID != id || p.Fed.Ents[i].EC.Sub != id {
			continue
		}
		if good[id] {
			nGood++
		} else {
			nBad++
		}
		for _, f := range found {
			if f[id] != good[id] {
				return violf(fmt.Sprintf("marked-%v", f[id]), "collecting entities with trust marks %v finds %s: %v, expected %v", p.Filter, id, f[id], good[id])
			}
		}
	}
	for _, f := range found {
		for id := range f {
			if !all[id] {
				return violf("marked-more", "collecting entities with trust marks %v finds %s, which is not found without a filter", p.Filter, id)
			}
		}
	}
	c.NonTrivialIf(nGood > 0 && nBad > 0)
	c.LabelIf(nGood > 0, "some have the marks")
	return nil
}

func attrSig(where string, got, want []string) string {
	for _, g := range got {
		if !slices.Contains(want, g) {
			return where + "-credited"
		}
	}
	return where + "-missing"
}

func init() {
	reg(
		"C11", "authorised", 8000, 150000,
		"1-3 trust marks by issuers of a generated federation (0-2 faults) with issuer and owner tables, each mark with 0-2 "+
			"faults. Non-trivial: at most one thing is wrong with some mark",
		genMarkPlan, execMarks,
	).bubble()
	reg(
		"C12", "issue", 16000, 200000,
		"a history of specifying, issuing and delegating trust marks, every issued token read by an independent verifier. "+
			"Non-trivial: a trust mark and a delegation were issued, or a specification was replaced, or a lifetime overridden",
		genIssuePlan, execIssue,
	).bubble()
	reg(
		"C13", "attributed", 3000, 80000,
		"a generated federation (0-2 faults) whose entities publish 0-3 trust marks each (foreign, copied, expired, forged ones "+
			"among them) is resolved and collected, with and without trust mark filters. Non-trivial: some published mark "+
			"counts and some does not",
		genAttributePlan, execAttribute,
	).bubble()
	reg(
		"C14", "marked", 1000, 30000,
		"a generated federation (0-2 faults) whose entities publish valid and invalid trust marks is collected with a filter for 1-2 trust "+
			"mark types. Non-trivial: some entities have the trust marks and some have not",
		func(t *rapid.T) AttributePlan {
			p := genAttributePlan(t)
			if len(p.Filter) == 0 {
				p.Filter = []string{"https://tm.example/a"}
			}
			if chance(t, "everyone else", 50) {
				// valid marks for most entities, so that those above them matter
				for _, e := range p.Fed.Ents {
					if len(p.Marks[e.ID]) == 0 && chance(t, "marked", 70) {
						for _, ty := range p.Filter {
							m := p.genMark(t, []string{ty}, e.ID, 0)
							p.Marks[e.ID] = append(p.Marks[e.ID], m)
						}
					}
				}
			}
			return p
		}, execMarked,
	).bubble()
}
