package zzverif

// C10: JWTs of the federation documents.

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"pgregory.net/rapid"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/jwks"
)

var allAlgs = append([]string{"ES256"}, otherAlgs...)

var docTyp = map[string]string{
	"statement": entityTyp, "mark": "trust-mark+jwt", "delegation": "trust-mark-delegation+jwt",
	"resolve": "resolve-response+jwt",
}
var docKinds = []string{"statement", "mark", "delegation", "resolve"}

// SignPlan: a document signed with the library.
type SignPlan struct {
	Doc   string         `json:"doc"`
	Alg   string         `json:"alg"`
	Key   int            `json:"key"`
	Other int            `json:"other"`
	Extra map[string]any `json:"extra,omitempty"`
}

func keyFor(alg string, n int) *testKey { return algKey(alg, n) }

func setOf(keys ...*testKey) map[string]any {
	ks := []any{}
	for _, k := range keys {
		ks = append(ks, k.JWK)
	}
	return map[string]any{"keys": ks}
}

func libSet(set any) jwks.JWKS {
	var j jwks.JWKS
	must(json.Unmarshal([]byte(js(set)), &j))
	return j
}

func signer(k *testKey) *oidfed.GeneralJWTSigner {
	return oidfed.NewGeneralJWTSigner(k.Signer, libAlg(k.Alg))
}

func docPayload(doc string, extra map[string]any) map[string]any {
	m := map[string]any{"iss": "https://iss.example", "sub": "https://sub.example", "iat": 1700000000, "exp": 4000000000}
	switch doc {
	case "mark", "delegation":
		m["trust_mark_type"] = "https://type.example/tm"
	case "statement":
		m["jwks"] = jwkSet(5)
	case "resolve":
		m["metadata"] = map[string]any{"federation_entity": map[string]any{"organization_name": "o"}}
		m["trust_chain"] = []any{}
	}
	for k, v := range extra {
		m["x_"+k] = v
	}
	return m
}

func execSign(c *Ctx, p SignPlan) *Violation {
	k := keyFor(p.Alg, p.Key)
	gs := signer(k)
	payload := docPayload(p.Doc, p.Extra)
	var tok []byte
	var err error
	var published jwks.JWKS
	switch p.Doc {
	case "statement":
		s := gs.EntityStatementSigner()
		if p.Other%2 == 0 {
			s = oidfed.NewEntityStatementSigner(k.Signer, libAlg(k.Alg))
		}
		tok, err = s.JWT(payload)
		published = s.JWKS()
	case "mark":
		s := gs.TrustMarkSigner()
		if p.Other%2 == 0 {
			s = oidfed.NewTrustMarkSigner(k.Signer, libAlg(k.Alg))
		}
		tok, err = s.JWT(payload)
		published = s.JWKS()
	case "delegation":
		s := gs.TrustMarkDelegationSigner()
		if p.Other%2 == 0 {
			s = oidfed.NewTrustMarkDelegationSigner(k.Signer, libAlg(k.Alg))
		}
		tok, err = s.JWT(payload)
		published = s.JWKS()
	case "resolve":
		s := gs.ResolveResponseSigner()
		if p.Other%2 == 0 {
			s = oidfed.NewResolveResponseSigner(k.Signer, libAlg(k.Alg))
		}
		tok, err = s.JWT(payload)
		published = s.JWKS()
	}
	if err != nil {
		return violf("sign-error", "signing a %s with %s: %v", p.Doc, p.Alg, err)
	}
	pub := jsonAny(map[string]any{"v": json.RawMessage(js(published))})["v"]
	for _, kk := range pub.(map[string]any)["keys"].([]any) {
		for _, m := range []string{"d", "p", "q", "dp", "dq", "qi", "k"} {
			if kk.(map[string]any)[m] != nil {
				return violf("private-key", "the published key set holds %q", m)
			}
		}
	}
	h, body, err := verifyCompact(string(tok), pub)
	if err != nil {
		return violf("sign-unverifiable", "a %s signed with %s does not verify with the published keys: %v", p.Doc, p.Alg, err)
	}
	if h["typ"] != docTyp[p.Doc] || h["alg"] != p.Alg {
		return violf("sign-header", "header of a %s is %s", p.Doc, js(h))
	}
	if !jsonEq(string(body), js(payload)) {
		return violf("sign-claims", "claims %s became %s", js(payload), body)
	}
	// and with our view of the same key
	if _, _, err = verifyCompact(string(tok), setOf(k)); err != nil {
		return violf("sign-unverifiable", "a %s signed with %s does not verify with its key: %v", p.Doc, p.Alg, err)
	}
	if v := readBack(p.Doc, string(tok), payload, published, true); v != nil {
		return v
	}
	other := keyFor(p.Alg, p.Other)
	if rsaSame(k, other) {
		other = key(77)
	}
	if v := readBack(p.Doc, string(tok), payload, libSet(setOf(other)), false); v != nil {
		return v
	}
	c.NonTrivialIf(true)
	c.Label("alg %s", p.Alg)
	c.Label("doc %s", p.Doc)
	return nil
}

func rsaSame(a, b *testKey) bool { return reflect.DeepEqual(a.Signer.Public(), b.Signer.Public()) }

// readDoc parses a token as the given document; ok tells whether it was
// accepted, claims is what the library understood, verify checks signatures.
func readDoc(doc, tok string) (ok bool, claims any, verify func(jwks.JWKS) bool) {
	switch doc {
	case "statement":
		e, err := oidfed.ParseEntityStatement([]byte(tok))
		if err != nil {
			return false, nil, nil
		}
		return true, e.EntityStatementPayload, func(k jwks.JWKS) bool { return e.Verify(k) }
	case "mark":
		m, err := oidfed.ParseTrustMark([]byte(tok))
		if err != nil {
			return false, nil, nil
		}
		return true, m, func(k jwks.JWKS) bool { return m.VerifyExternal(k) == nil }
	case "delegation":
		m := oidfed.TrustMark{DelegationJWT: tok}
		d, err := m.Delegation()
		if err != nil || d == nil {
			return false, nil, nil
		}
		return true, d, func(k jwks.JWKS) bool { return d.VerifyExternal(k) == nil }
	case "resolve":
		r, err := oidfed.ParseResolveResponse([]byte(tok))
		if err != nil {
			return false, nil, nil
		}
		return true, map[string]any{"iss": r.Issuer, "sub": r.Subject}, nil
	}
	panic(harnessErr{"doc " + doc})
}

func readBack(doc, tok string, payload map[string]any, keys jwks.JWKS, good bool) *Violation {
	ok, claims, verify := readDoc(doc, tok)
	if !ok {
		return violf("refused", "a correctly typed %s is not parsed: %s", doc, tok)
	}
	if doc != "resolve" && !jsonEq(js(claims), js(payload)) {
		return violf("claims", "the claims of a %s changed: %s -> %s", doc, js(payload), js(claims))
	}
	if verify == nil {
		return nil
	}
	if got := verify(keys); got != good {
		return violf(fmt.Sprintf("verify-%v", got), "%s verifies: %v, should be %v; keys %s token %s", doc, got, good, js(keys), tok)
	}
	return nil
}

func genSignPlan(t *rapid.T) SignPlan {
	p := SignPlan{
		Doc: pick(t, "doc", docKinds...), Alg: pick(t, "alg", allAlgs...), Key: intn(t, "key", 1, 9), Other: intn(t, "other", 0, 9),
	}
	for i := intn(t, "extras", 0, 3); i > 0; i-- {
		if p.Extra == nil {
			p.Extra = map[string]any{}
		}
		p.Extra[pick(t, "name", "a", "b", "ä", "c d")] = genAny(t, 2)
	}
	return p
}

// Mut is one change to a signed document.
type Mut struct {
	Kind string `json:"kind"`
	A    int    `json:"a,omitempty"`
	B    int    `json:"b,omitempty"`
	S    string `json:"s,omitempty"`
}

// ForgePlan is a document, changes to it, and the keys it is verified with.
type ForgePlan struct {
	Doc    string         `json:"doc"`
	Alg    string         `json:"alg"`
	Key    int            `json:"key"`
	Typ    string         `json:"typ"`    // header typ, "" for none
	NoTyp  bool           `json:"no_typ"` //
	Extra  map[string]any `json:"extra,omitempty"`
	Muts   []Mut          `json:"muts,omitempty"`
	Keys   []KeySpec      `json:"keys"`
	NilSet bool           `json:"nil_set,omitempty"`
}

// KeySpec is an entry of the key set used for verification.
type KeySpec struct {
	Alg   string `json:"alg"`
	Key   int    `json:"key"`
	NoAlg bool   `json:"no_alg,omitempty"`
	NoKid bool   `json:"no_kid,omitempty"`
	// KidOf pretends to be the signing key
	KidOf bool   `json:"kid_of,omitempty"`
	AsAlg string `json:"as_alg,omitempty"`
}

var typVariants = []string{
	"JWT", "entity-statement", "application/entity-statement+jwt", "Entity-Statement+jwt", "entity-statement+JWT",
	"entity-statement+jwt ", "trust-mark+jwt", "trust-mark-delegation+jwt", "resolve-response+jwt", "entity-statement+jwt",
	"trust-mark", "explicit-registration-response+jwt", "jose", "", "trust-mark+jwt\u0000",
}

func genForgePlan(t *rapid.T) ForgePlan {
	p := ForgePlan{Doc: pick(t, "doc", docKinds...), Key: intn(t, "key", 1, 5)}
	p.Alg = "ES256"
	if chance(t, "other alg", 30) {
		p.Alg = pick(t, "alg", allAlgs...)
	}
	p.Typ = docTyp[p.Doc]
	if chance(t, "typ variant", 20) {
		p.Typ = pick(t, "typ", typVariants...)
		p.NoTyp = chance(t, "no typ", 20)
	}
	p.Keys = []KeySpec{{Alg: p.Alg, Key: p.Key}}
	switch pick(t, "keys", 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8) {
	case 1:
		p.Keys[0].NoAlg = true
	case 2:
		p.Keys[0].NoKid = true
	case 3:
		p.Keys = []KeySpec{{Alg: p.Alg, Key: p.Key + 1, KidOf: true}}
	case 4:
		p.Keys = nil
		p.NilSet = chance(t, "nil set", 50)
	case 5:
		p.Keys = []KeySpec{{Alg: pick(t, "ka", allAlgs...), Key: p.Key}, {Alg: "ES256", Key: 9}}
	case 6:
		p.Keys = []KeySpec{{Alg: p.Alg, Key: p.Key + 1, KidOf: true}, {Alg: p.Alg, Key: p.Key}}
	case 7:
		p.Keys = append([]KeySpec{{Alg: "ES256", Key: 8}, {Alg: "EdDSA", Key: 8}}, p.Keys...)
	case 8:
		p.Keys[0].AsAlg = pick(t, "as alg", "RS256", "PS256", "PS512", "ES256", "ES384", "HS256", "EdDSA")
	}
	kinds := []string{
		"flip", "truncate", "none", "rehead", "payload", "swapsig", "swappay", "wrongkey", "hs256", "flatten", "general1",
		"general2", "unprotected", "space", "pad", "nokid", "otherkid", "othertyp", "dup", "append", "crlf", "alg", "jwkhdr",
		"b64false", "emptysig", "stdb64", "part", "unprotalg", "noprotected",
	}
	for n := pick(t, "nmuts", 0, 1, 1, 1, 1, 2, 2); n > 0; n-- {
		p.Muts = append(
			p.Muts, Mut{
				Kind: pick(t, "mut", kinds...), A: intn(t, "a", 0, 1<<14), B: intn(t, "b", 0, 7),
				S: pick(t, "s", append([]string{docTyp[p.Doc], docTyp[p.Doc]}, typVariants...)...),
			},
		)
	}
	return p
}

func isCompact(tok string) bool { return !strings.HasPrefix(strings.TrimSpace(tok), "{") }

func flattened(tok string) map[string]any {
	pt := strings.Split(tok, ".")
	return map[string]any{"protected": pt[0], "payload": pt[1], "signature": pt[2]}
}

// apply changes the token; tokens that are not compact any more stay as they are.
func (m Mut) apply(tok string, k *testKey, doc string) string {
	if !isCompact(tok) || strings.Count(tok, ".") != 2 {
		return tok
	}
	pt := strings.Split(tok, ".")
	hdr := func() map[string]any {
		b, _ := b64.DecodeString(pt[0])
		h := map[string]any{}
		_ = json.Unmarshal(b, &h)
		return h
	}
	rehead := func(h map[string]any) { pt[0] = b64.EncodeToString([]byte(js(h))) }
	other := keyFor(k.Alg, 7)
	if rsaSame(k, other) {
		other = key(77)
	}
	switch m.Kind {
	case "flip":
		i := m.A % len(tok)
		b := []byte(tok)
		b[i] ^= 1 << m.B
		return string(b)
	case "truncate":
		return tok[:m.A%(len(tok)+1)]
	case "append":
		return tok + m.S
	case "none":
		h := hdr()
		h["alg"] = pick2(m.B, "none", "None", "NONE", "")
		rehead(h)
		if m.A%2 == 0 {
			pt[2] = ""
		}
	case "emptysig":
		pt[2] = ""
	case "rehead":
		h := hdr()
		h["x"] = m.A
		rehead(h)
	case "othertyp":
		h := hdr()
		h["typ"] = m.S
		rehead(h)
	case "alg":
		h := hdr()
		h["alg"] = pick2(m.A, allAlgs...)
		rehead(h)
		if m.B%2 == 0 {
			pt[2] = b64.EncodeToString(rawSignAs(k, h["alg"].(string), []byte(pt[0]+"."+pt[1])))
		}
	case "payload":
		pt[1] = b64.EncodeToString([]byte(js(docPayload(doc, map[string]any{"forged": true}))))
	case "swapsig":
		pt[2] = strings.Split(signJWT(k, docTyp[doc], []byte(`{"iss":"https://iss.example"}`)), ".")[2]
	case "swappay":
		pt[1] = strings.Split(signJWT(k, docTyp[doc], []byte(`{"iss":"https://other.example","sub":"x"}`)), ".")[1]
	case "wrongkey":
		pt[2] = b64.EncodeToString(rawSign(other, []byte(pt[0]+"."+pt[1])))
	case "jwkhdr": // brings its own key
		h := hdr()
		h["jwk"] = other.JWK
		if m.A%2 == 0 {
			h["kid"] = other.Kid
		}
		h["alg"] = other.Alg
		return signWithHeader(other, h, mustB64(pt[1]))
	case "hs256":
		h := hdr()
		h["alg"] = "HS256"
		rehead(h)
		pt[2] = b64.EncodeToString(hmac256([]byte(js(k.JWK)), []byte(pt[0]+"."+pt[1])))
	case "nokid":
		h := hdr()
		delete(h, "kid")
		return signWithHeader(k, h, mustB64(pt[1]))
	case "otherkid":
		h := hdr()
		h["kid"] = key(99).Kid
		return signWithHeader(k, h, mustB64(pt[1]))
	case "b64false":
		h := hdr()
		h["b64"] = false
		if m.A%2 == 0 {
			h["crit"] = []string{"b64"}
		}
		hp := b64.EncodeToString([]byte(js(h)))
		pl := `{"iss":"https://iss"}`
		return hp + "." + pl + "." + b64.EncodeToString(rawSign(k, []byte(hp+"."+pl)))
	case "flatten":
		return js(flattened(tok))
	case "general1", "general2":
		sigs := []any{map[string]any{"protected": pt[0], "signature": pt[2]}}
		if m.Kind == "general2" {
			h := hdr()
			h["typ"] = m.S
			sk := k
			if m.B&1 == 1 {
				sk = other
				h["kid"], h["alg"] = sk.Kid, sk.Alg
			}
			hp := b64.EncodeToString([]byte(js(h)))
			s2 := map[string]any{"protected": hp, "signature": b64.EncodeToString(rawSign(sk, []byte(hp+"."+pt[1])))}
			if m.B&2 == 2 {
				sigs = append(sigs, s2)
			} else {
				sigs = append([]any{s2}, sigs...)
			}
		}
		return js(map[string]any{"payload": pt[1], "signatures": sigs})
	case "unprotected": // typ only in the unprotected header
		h := hdr()
		delete(h, "typ")
		if m.B&1 == 1 {
			h["typ"] = "JWT"
		}
		f := flattened(signWithHeader(k, h, mustB64(pt[1])))
		f["header"] = map[string]any{"typ": m.S}
		return js(f)
	case "unprotalg": // algorithm and key id only in the unprotected header
		h := hdr()
		up := map[string]any{"alg": h["alg"], "kid": h["kid"]}
		delete(h, "kid")
		if m.B&1 == 1 {
			delete(h, "alg")
		}
		f := flattened(signWithHeader(k, h, mustB64(pt[1])))
		f["header"] = up
		return js(f)
	case "noprotected":
		h := hdr()
		f := flattened(tok)
		f["header"] = h
		if m.B&1 == 1 {
			f["protected"] = ""
		} else {
			delete(f, "protected")
		}
		if m.B&2 == 2 {
			return js(map[string]any{"payload": pt[1], "signatures": []any{f}})
		}
		if m.B&4 == 4 {
			return js(map[string]any{"payload": pt[1], "signatures": []any{}})
		}
		return js(f)
	case "space":
		return pick2(m.A, " ", "\n", "\t", "\r\n") + tok + pick2(m.B, "", " ", "\n")
	case "pad":
		pt[m.B%3] += "="
	case "crlf":
		i := m.B % 3
		at := m.A % (len(pt[i]) + 1)
		pt[i] = pt[i][:at] + "\n" + pt[i][at:]
	case "stdb64":
		i := m.B % 3
		pt[i] = strings.NewReplacer("-", "+", "_", "/").Replace(pt[i])
	case "dup":
		return tok + "." + pt[2]
	case "part":
		pt[m.B%3] = ""
	}
	return strings.Join(pt, ".")
}

func pick2(n int, xs ...string) string { return xs[n%len(xs)] }
func mustB64(s string) []byte {
	b, _ := b64.DecodeString(s)
	return b
}

// rawSignAs signs with the key in another algorithm where that is possible.
func rawSignAs(k *testKey, alg string, data []byte) []byte {
	kk := *k
	kk.Alg = alg
	fam := func(a string) string {
		switch a[0] {
		case 'R', 'P':
			return "rsa"
		case 'E':
			if a == "EdDSA" {
				return "ed"
			}
			return "ec"
		}
		return ""
	}
	if fam(alg) != fam(k.Alg) {
		kk = *keyFor(alg, 7)
	}
	return rawSign(&kk, data)
}

// jwsView is an independent reading of a JWS in any serialisation.
type jwsView struct {
	nsig     int
	hdr      map[string]any // protected header of the only signature
	p0, p1   string
	sig      []byte
	payload  []byte
	b64false bool
}

func viewJWS(tok string) *jwsView {
	v := &jwsView{}
	t := strings.TrimSpace(tok)
	var s2 string
	if isCompact(t) {
		pt := strings.Split(t, ".")
		if len(pt) != 3 {
			// only an unencoded payload may hold dots
			if len(pt) < 3 {
				return nil
			}
			pt = []string{pt[0], strings.Join(pt[1:len(pt)-1], "."), pt[len(pt)-1]}
		}
		v.nsig, v.p0, v.p1, s2 = 1, pt[0], pt[1], pt[2]
	} else {
		var g struct {
			Payload    string                     `json:"payload"`
			Protected  string                     `json:"protected"`
			Signature  string                     `json:"signature"`
			Header     map[string]json.RawMessage `json:"header"`
			Signatures []struct {
				Protected string                     `json:"protected"`
				Signature string                     `json:"signature"`
				Header    map[string]json.RawMessage `json:"header"`
			} `json:"signatures"`
		}
		if json.Unmarshal([]byte(t), &g) != nil {
			return nil
		}
		v.nsig = len(g.Signatures)
		v.p0, v.p1, s2 = g.Protected, g.Payload, g.Signature
		if g.Signature != "" {
			v.nsig++
		} else if v.nsig == 1 {
			v.p0, s2 = g.Signatures[0].Protected, g.Signatures[0].Signature
		}
	}
	b, err := b64any(v.p0)
	if err != nil || json.Unmarshal(b, &v.hdr) != nil {
		return nil
	}
	if f, ok := v.hdr["b64"].(bool); ok && !f {
		v.b64false = true
		v.payload = []byte(v.p1)
	} else if v.payload, err = b64any(v.p1); err != nil {
		return nil
	}
	if v.sig, err = b64any(s2); err != nil {
		return nil
	}
	return v
}

// b64any decodes base64 in any of its alphabets and paddings.
func b64any(s string) ([]byte, error) {
	return b64.DecodeString(strings.NewReplacer("+", "-", "/", "_", "=", "").Replace(s))
}

func (v *jwsView) canonical() string {
	h, _ := b64any(v.p0)
	if v.b64false {
		return b64.EncodeToString(h) + "." + v.p1
	}
	return b64.EncodeToString(h) + "." + b64.EncodeToString(v.payload)
}

func (v *jwsView) verifies(set []map[string]any) bool {
	if v == nil || v.nsig != 1 {
		return false
	}
	for _, k := range set {
		// what the key is for counts, whatever its owner wrote in the header
		algs := allAlgs
		if a, ok := k["alg"].(string); ok {
			algs = []string{a}
		}
		for _, a := range algs {
			if (a[0] == 'E') == (k["kty"] == "RSA") || (a == "EdDSA") != (k["kty"] == "OKP") || len(a) < 5 {
				continue
			}
			// the text as it is, or the same header and payload encoded as they should be
			for _, in := range []string{v.p0 + "." + v.p1, v.canonical()} {
				if rawVerify(a, k, []byte(in), v.sig) {
					return true
				}
			}
		}
	}
	return false
}

func (p *ForgePlan) keySet(k *testKey) []map[string]any {
	var out []map[string]any
	for _, ks := range p.Keys {
		kk := keyFor(ks.Alg, ks.Key)
		m := map[string]any{}
		for n, v := range kk.JWK {
			m[n] = v
		}
		if ks.NoAlg {
			delete(m, "alg")
		}
		if ks.AsAlg != "" {
			m["alg"] = ks.AsAlg
		}
		if ks.KidOf {
			m["kid"] = k.Kid
		}
		if ks.NoKid {
			delete(m, "kid")
		}
		out = append(out, m)
	}
	return out
}

func execForge(c *Ctx, p ForgePlan) *Violation {
	k := keyFor(p.Alg, p.Key)
	h := map[string]any{"alg": k.Alg, "kid": k.Kid}
	if !p.NoTyp {
		h["typ"] = p.Typ
	}
	payload := docPayload(p.Doc, p.Extra)
	tok := signWithHeader(k, h, []byte(js(payload)))
	for _, m := range p.Muts {
		tok = m.apply(tok, k, p.Doc)
		c.Label("mut %s", m.Kind)
	}
	set := p.keySet(k)
	var keys jwks.JWKS
	if !p.NilSet {
		ks := []any{}
		for _, m := range set {
			ks = append(ks, m)
		}
		keys = libSet(map[string]any{"keys": ks})
	}
	view := viewJWS(tok)
	ok, claims, verify := readDoc(p.Doc, tok)
	if ok {
		if view == nil || view.nsig != 1 {
			return violf("parsed-multi", "%s parsed although it has no single protected header: %s", p.Doc, tok)
		}
		if view.hdr["typ"] != docTyp[p.Doc] {
			return violf("parsed-typ", "%s parsed although its type is %s: %s", p.Doc, js(view.hdr["typ"]), tok)
		}
	}
	verified := ok && verify != nil && verify(keys)
	if verified {
		if !view.verifies(set) {
			return violf("verified-forgery", "%s verified although no given key signed it: keys %s token %s", p.Doc, js(set), tok)
		}
		var pl map[string]any
		if json.Unmarshal(view.payload, &pl) != nil {
			return violf("verified-garbage", "%s verified without a JSON payload: %s", p.Doc, tok)
		}
		if cl := jsonAny(map[string]any{"v": json.RawMessage(js(claims))})["v"]; len(pl) > 2 && !jsonEq(js(cl), js(pl)) {
			return violf("verified-claims", "the claims of a verified %s are not those signed: %s -> %s", p.Doc, js(pl), js(cl))
		}
	}
	if len(p.Muts) == 0 && p.Typ == docTyp[p.Doc] && !p.NoTyp {
		if !ok {
			return violf("refused", "an unmodified %s is not parsed", p.Doc)
		}
		good := false
		for i, ks := range p.Keys {
			good = good || (ks.Alg == p.Alg && ks.Key == p.Key && !ks.NoKid && set[i]["alg"] != nil == !ks.NoAlg &&
				(ks.AsAlg == "" || ks.AsAlg == p.Alg))
		}
		for _, ks := range p.Keys {
			good = good && !ks.KidOf // key ids are not unique
		}
		if good && verify != nil && !verified {
			return violf("unverified", "an unmodified %s signed with %s does not verify with %s", p.Doc, p.Alg, js(set))
		}
		c.LabelIf(verified, "unmodified verified")
	}
	c.NonTrivialIf(len(p.Muts) > 0 || p.Typ != docTyp[p.Doc] || !view.verifies(set))
	c.LabelIf(ok, "parsed")
	c.LabelIf(ok && !verified && verify != nil, "parsed, not verified")
	c.LabelIf(verified && len(p.Muts) > 0, "modified verified")
	c.Label("doc %s", p.Doc)
	return nil
}

func init() {
	reg(
		"C10", "sign", 1600, 30000, "every case: a document signed by the library, read by an independent verifier and back",
		genSignPlan, execSign,
	)
	reg(
		"C10", "forge", 30000, 1000000, "the token was changed, has another type or the key set does not hold its key",
		genForgePlan, execForge,
	)
}
