package zzverif

// A served federation as pure data, its materialisation on the mock network,
// and an independent reference resolver over that data.

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	oidfed "github.com/go-oidfed/lib"
)

const entityTyp = "entity-statement+jwt"

// Stmt is an entity statement as somebody serves it.
type Stmt struct {
	Iss         string                     `json:"iss"`
	Sub         string                     `json:"sub"`
	Typ         string                     `json:"typ"`
	Sign        int                        `json:"sign"`               // key signing it
	KidOf       int                        `json:"kid_of,omitempty"`   // header kid taken from this key (if >0)
	JWKS        []int                      `json:"jwks,omitempty"`     // keys listed; none: no jwks member
	Iat         int64                      `json:"iat"`                // seconds relative to the start
	Exp         int64                      `json:"exp"`                //
	NoIat       bool                       `json:"no_iat,omitempty"`   // leave iat out
	Hints       []string                   `json:"hints,omitempty"`    // authority_hints
	Meta        json.RawMessage            `json:"meta,omitempty"`     // metadata
	Policy      json.RawMessage            `json:"policy,omitempty"`   // metadata_policy
	PolicyCrit  []string                   `json:"crit,omitempty"`     // metadata_policy_crit
	Constraints json.RawMessage            `json:"constr,omitempty"`   // constraints
	Extra       map[string]json.RawMessage `json:"extra,omitempty"`    // any other members
	Pad         int                        `json:"pad,omitempty"`      // size of a claim without meaning
	Mangle      string                     `json:"mangle,omitempty"`   // "", sig, payload, trunc, none, header, swap
	HTTP        string                     `json:"http,omitempty"`     // "", 404, 404json, 500json, 500html, 500jwt, garbage, neterr, empty, html
	DelayMs     int                        `json:"delay_ms,omitempty"` // before answering
}

// SubStmt is what an authority serves about one subject.
type SubStmt struct {
	About string `json:"about"`
	Stmt  Stmt   `json:"stmt"`
}

// Ent is an entity with its endpoints.
type Ent struct {
	ID    string    `json:"id"`
	EC    Stmt      `json:"ec"`
	Fetch string    `json:"fetch,omitempty"`
	Subs  []SubStmt `json:"subs,omitempty"`
}

// TA is a configured trust anchor; Pin are the configured keys.
type TA struct {
	ID  string `json:"id"`
	Pin []int  `json:"pin,omitempty"`
}

// Fed is a served federation.
type Fed struct {
	Ents []Ent `json:"ents"`
}

func wellKnown(id string) string {
	return strings.TrimSuffix(id, "/") + "/.well-known/openid-federation"
}

func (s *Stmt) claims(t0 time.Time) map[string]any {
	m := map[string]any{"iss": s.Iss, "sub": s.Sub, "exp": t0.Unix() + s.Exp}
	if !s.NoIat {
		m["iat"] = t0.Unix() + s.Iat
	}
	if len(s.JWKS) > 0 {
		m["jwks"] = jwkSet(s.JWKS...)
	}
	if len(s.Hints) > 0 {
		m["authority_hints"] = s.Hints
	}
	if len(s.Meta) > 0 {
		m["metadata"] = s.Meta
	}
	if len(s.Policy) > 0 {
		m["metadata_policy"] = s.Policy
	}
	if len(s.PolicyCrit) > 0 {
		m["metadata_policy_crit"] = s.PolicyCrit
	}
	if len(s.Constraints) > 0 {
		m["constraints"] = s.Constraints
	}
	if s.Pad > 0 {
		m["x_padding"] = strings.Repeat("p", s.Pad)
	}
	for k, v := range s.Extra {
		m[k] = v
	}
	return m
}

// token renders the JWT of the statement.
func (s *Stmt) token(t0 time.Time) string {
	k := key(s.Sign)
	h := map[string]any{"alg": k.Alg, "kid": k.Kid}
	if s.KidOf > 0 {
		h["kid"] = key(s.KidOf).Kid
	}
	if s.Typ != "" {
		h["typ"] = s.Typ
	}
	payload := []byte(js(s.claims(t0)))
	return mangleToken(signWithHeader(k, h, payload), s.Mangle, k)
}

func mangleToken(tok, how string, k *testKey) string {
	p := strings.Split(tok, ".")
	switch how {
	case "":
	case "sig": // one bit of the signature flipped
		b, _ := b64.DecodeString(p[2])
		b[len(b)/2] ^= 1
		p[2] = b64.EncodeToString(b)
	case "payload": // payload changed after signing
		var m map[string]any
		b, _ := b64.DecodeString(p[1])
		must(json.Unmarshal(b, &m))
		m["tampered"] = true
		p[1] = b64.EncodeToString([]byte(js(m)))
	case "trunc":
		return p[0] + "." + p[1]
	case "nosig":
		p[2] = ""
	case "none":
		var m map[string]any
		b, _ := b64.DecodeString(p[0])
		must(json.Unmarshal(b, &m))
		m["alg"] = "none"
		p[0] = b64.EncodeToString([]byte(js(m)))
		p[2] = ""
	case "header": // header changed after signing
		var m map[string]any
		b, _ := b64.DecodeString(p[0])
		must(json.Unmarshal(b, &m))
		m["x"] = 1
		p[0] = b64.EncodeToString([]byte(js(m)))
	case "swap": // signature of another document by the same key
		return p[0] + "." + p[1] + "." + strings.Split(signWithHeader(k, map[string]any{"alg": k.Alg}, []byte(`{}`)), ".")[2]
	default:
		panic(harnessErr{"mangle " + how})
	}
	return strings.Join(p, ".")
}

// served tells whether the statement arrives as a parseable entity statement.
func (s *Stmt) served() bool {
	return s.HTTP == "" && s.Typ == entityTyp && s.Mangle != "trunc" && s.Mangle != "none"
}

// sigOK tells whether the signature verifies under the given keys.
func (s *Stmt) sigOK(keys []int) bool {
	if s.Mangle != "" || (s.KidOf > 0 && s.KidOf != s.Sign) {
		return false
	}
	for _, k := range keys {
		if k == s.Sign {
			return true
		}
	}
	return false
}

// timeOK tells whether the statement is valid at t0+at seconds.
func (s *Stmt) timeOK(at int64) bool { return (s.NoIat || s.Iat <= at) && at < s.Exp }

func httpResp(kind string, body string, ct string) Resp {
	switch kind {
	case "":
		return Resp{CT: ct, Body: []byte(body)}
	case "404":
		return Resp{Status: 404, CT: "text/plain", Body: []byte("not found")}
	case "404json":
		return Resp{Status: 404, CT: "application/json", Body: []byte(`{"error":"not_found","error_description":"unknown"}`)}
	case "500json":
		return Resp{Status: 500, CT: "application/json", Body: []byte(`{"error":"server_error"}`)}
	case "500html":
		return Resp{Status: 500, CT: "text/html", Body: []byte("<html>oops</html>")}
	case "500jwt":
		return Resp{Status: 500, CT: ct, Body: []byte(body)}
	case "404jwt":
		return Resp{Status: 404, CT: ct, Body: []byte(body)}
	case "503obj":
		return Resp{Status: 503, CT: "application/json", Body: []byte(`{}`)}
	case "500badjson":
		return Resp{Status: 500, CT: "application/json", Body: []byte(`{"error":`)}
	case "garbage":
		return Resp{CT: ct, Body: []byte("\x00\x01garbage.not.jwt")}
	case "html":
		return Resp{CT: "text/html", Body: []byte("<html>login</html>")}
	case "empty":
		return Resp{CT: ct}
	case "neterr":
		return Resp{Err: true}
	}
	panic(harnessErr{"http kind " + kind})
}

// tokens of a materialised federation
type served struct {
	EC  map[int]string    // entity index -> token
	Sub map[string]string // "<entity index>|<about>" -> token
}

// install puts the federation on the network; all documents are issued at t0.
func (f *Fed) install(w *World, t0 time.Time) *served {
	sv := &served{EC: map[int]string{}, Sub: map[string]string{}}
	for i := range f.Ents {
		e := &f.Ents[i]
		tok := e.EC.token(t0)
		sv.EC[i] = tok
		w.handle(
			wellKnown(e.ID), func(*http.Request, url.Values) Resp {
				r := httpResp(e.EC.HTTP, tok, "application/entity-statement+jwt")
				r.Delay = time.Duration(e.EC.DelayMs) * time.Millisecond
				return r
			},
		)
		if e.Fetch == "" {
			continue
		}
		resp := map[string]Resp{}
		for j := range e.Subs {
			s := &e.Subs[j]
			st := s.Stmt.token(t0)
			sv.Sub[fmt.Sprintf("%d|%s", i, s.About)] = st
			r := httpResp(s.Stmt.HTTP, st, "application/entity-statement+jwt")
			r.Delay = time.Duration(s.Stmt.DelayMs) * time.Millisecond
			resp[s.About] = r
		}
		w.handle(
			e.Fetch, func(_ *http.Request, q url.Values) Resp {
				if r, ok := resp[q.Get("sub")]; ok {
					return r
				}
				return httpResp("404json", "", "")
			},
		)
	}
	return sv
}

func (f *Fed) byID(id string) int {
	for i := range f.Ents {
		if wellKnown(f.Ents[i].ID) == wellKnown(id) {
			return i
		}
	}
	return -1
}

func (f *Fed) byFetch(u string) int {
	for i := range f.Ents {
		if f.Ents[i].Fetch == u && u != "" {
			return i
		}
	}
	return -1
}

func (e *Ent) sub(about string) *Stmt {
	for i := range e.Subs {
		if e.Subs[i].About == about {
			return &e.Subs[i].Stmt
		}
	}
	return nil
}

// metaTypes are the entity types a metadata member declares, in JSON.
func metaTypes(meta json.RawMessage) []string {
	var m map[string]json.RawMessage
	if len(meta) == 0 || json.Unmarshal(meta, &m) != nil {
		return nil
	}
	var out []string
	for k, v := range m {
		if string(v) != "null" {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func fetchEndpointOf(meta json.RawMessage) string {
	var m struct {
		F struct {
			E string `json:"federation_fetch_endpoint"`
		} `json:"federation_entity"`
	}
	if len(meta) == 0 || json.Unmarshal(meta, &m) != nil {
		return ""
	}
	return m.F.E
}

// refConstraints is the independent reading of the constraints claim.
type refConstraints struct {
	Max    *int `json:"max_path_length"`
	Naming *struct {
		Permitted *[]string `json:"permitted"`
		Excluded  []string  `json:"excluded"`
	} `json:"naming_constraints"`
	Types *[]string `json:"allowed_entity_types"`
}

func refHost(id string) string {
	s := strings.TrimPrefix(id, "https://")
	if i := strings.IndexAny(s, "/?#"); i >= 0 {
		s = s[:i]
	}
	if i := strings.LastIndex(s, "@"); i >= 0 {
		s = s[i+1:]
	}
	if i := strings.LastIndex(s, ":"); i >= 0 {
		s = s[:i]
	}
	return s
}

func refNameMatch(constraint, id string) bool {
	h := refHost(id)
	if strings.HasPrefix(constraint, ".") {
		return len(h) >= len(constraint) && h[len(h)-len(constraint):] == constraint
	}
	return h == constraint
}

// refConstraintsOK judges a constraints claim for the entities below the
// issuer: below[0] is the leaf, the last one the immediate subordinate.
// It returns the name of the violated constraint or "".
func refConstraintsOK(raw json.RawMessage, below []string, types [][]string) string {
	if len(raw) == 0 {
		return ""
	}
	var c refConstraints
	must(json.Unmarshal(raw, &c))
	if c.Max != nil && len(below)-1 > *c.Max {
		return "max_path_length"
	}
	if c.Naming != nil {
		for _, id := range below {
			for _, e := range c.Naming.Excluded {
				if refNameMatch(e, id) {
					return "excluded"
				}
			}
			if c.Naming.Permitted != nil {
				ok := false
				for _, p := range *c.Naming.Permitted {
					ok = ok || refNameMatch(p, id)
				}
				if !ok {
					return "permitted"
				}
			}
		}
	}
	if c.Types != nil {
		for _, ts := range types {
			for _, t := range ts {
				if t == "federation_entity" {
					continue
				}
				ok := false
				for _, a := range *c.Types {
					ok = ok || a == t
				}
				if !ok {
					return "allowed_entity_types"
				}
			}
		}
	}
	return ""
}

// refPath is one path from the subject up to a trust anchor as found by the
// reference resolver, with every reason why it is not a valid trust chain.
type refPath struct {
	IDs     []string
	Tokens  []string
	Reasons []string
}

// refResolve enumerates all simple paths along authority hints from the
// subject to the first trust anchor on each and judges them at t0+at seconds.
func (f *Fed) refResolve(sv *served, subject string, tas []TA, at int64) []refPath {
	var out []refPath
	isTA := func(id string) *TA {
		for i := range tas {
			if tas[i].ID == id {
				return &tas[i]
			}
		}
		return nil
	}
	var walk func(ids []string)
	walk = func(ids []string) {
		last := ids[len(ids)-1]
		if isTA(last) != nil {
			out = append(out, f.judge(sv, ids, isTA(last), at))
			return
		}
		i := f.byID(last)
		if i < 0 {
			return
		}
	hints:
		for _, h := range f.Ents[i].EC.Hints {
			for _, seen := range ids {
				if seen == h {
					continue hints
				}
			}
			walk(append(append([]string{}, ids...), h))
		}
	}
	walk([]string{subject})
	return out
}

func (f *Fed) judge(sv *served, ids []string, ta *TA, at int64) (p refPath) {
	p.IDs = ids
	bad := func(format string, a ...any) { p.Reasons = append(p.Reasons, fmt.Sprintf(format, a...)) }
	n := len(ids)
	ecs := make([]*Stmt, n)
	idx := make([]int, n)
	for k, id := range ids {
		idx[k] = f.byID(id)
		if idx[k] < 0 {
			bad("ec of %s unknown", id)
			return
		}
		ecs[k] = &f.Ents[idx[k]].EC
		if !ecs[k].served() {
			bad("ec of %s not served", id)
		}
		if ecs[k].Iss != id || ecs[k].Sub != id {
			bad("ec of %s has other iss/sub", id)
		}
		if !ecs[k].timeOK(at) {
			bad("ec of %s not time valid", id)
		}
	}
	var types [][]string
	subs := make([]*Stmt, n) // subs[k] is issued by ids[k] about ids[k-1]
	subTok := make([]string, n)
	for k := 1; k < n; k++ {
		types = append(types, metaTypes(ecs[k-1].Meta))
		fe := fetchEndpointOf(ecs[k].Meta)
		if fe == "" {
			bad("%s has no fetch endpoint", ids[k])
			return
		}
		fi := f.byFetch(fe)
		if fi < 0 {
			bad("fetch endpoint of %s dead", ids[k])
			return
		}
		s := f.Ents[fi].sub(ids[k-1])
		if s == nil {
			bad("%s has no statement about %s", ids[k], ids[k-1])
			return
		}
		subs[k] = s
		subTok[k] = sv.Sub[fmt.Sprintf("%d|%s", fi, ids[k-1])]
		if !s.served() {
			bad("statement of %s about %s not served", ids[k], ids[k-1])
		}
		if s.Iss != ids[k] || s.Sub != ids[k-1] {
			bad("statement of %s about %s has other iss/sub", ids[k], ids[k-1])
		}
		if !s.timeOK(at) {
			bad("statement of %s about %s not time valid", ids[k], ids[k-1])
		}
		if r := refConstraintsOK(s.Constraints, ids[:k], types); r != "" {
			bad("constraint %s of %s", r, ids[k])
		}
	}
	// signatures, top down
	keys := ta.Pin
	if len(keys) == 0 {
		keys = ecs[n-1].JWKS
	}
	for k := n - 1; k >= 0; k-- {
		if !ecs[k].sigOK(keys) {
			bad("ec of %s not signed with vouched keys", ids[k])
		}
		if k > 0 {
			if !subs[k].sigOK(keys) {
				bad("statement of %s about %s not signed with vouched keys", ids[k], ids[k-1])
			}
			keys = subs[k].JWKS
		}
	}
	p.Tokens = append(p.Tokens, sv.EC[idx[0]])
	if n > 1 {
		p.Tokens = append(p.Tokens, subTok[1:]...)
		p.Tokens = append(p.Tokens, sv.EC[idx[n-1]])
	}
	return
}

// libTAs converts trust anchors to the library's type.
func libTAs(tas []TA) (out oidfed.TrustAnchors) {
	for _, t := range tas {
		a := oidfed.TrustAnchor{EntityID: t.ID}
		if len(t.Pin) > 0 {
			a.JWKS = libJWKS(t.Pin...)
		}
		out = append(out, a)
	}
	return
}

// chainTokens are the JWTs of a chain.
func chainTokens(c oidfed.TrustChain) []string {
	var out []string
	b, err := json.Marshal(c.Messages())
	if err != nil {
		panic(harnessErr{"chain messages: " + err.Error()})
	}
	must(json.Unmarshal(b, &out))
	return out
}

func chainsTokens(cs oidfed.TrustChains) [][]string {
	out := [][]string{}
	for _, c := range cs {
		out = append(out, chainTokens(c))
	}
	return out
}

// describeChain renders a chain as iss->sub pairs.
func describeToks(toks []string) string {
	var out []string
	for _, t := range toks {
		c, err := decodeClaims(t)
		if err != nil {
			out = append(out, "?")
			continue
		}
		out = append(out, fmt.Sprintf("%v>%v", c["iss"], c["sub"]))
	}
	return strings.Join(out, "  ")
}

// checkChainGenuine validates a returned chain from its raw JWTs only.
func checkChainGenuine(toks []string, c oidfed.TrustChain, subject string, tas []TA, allServed map[string]bool) string {
	n := len(toks)
	if n == 0 {
		return "empty chain"
	}
	if len(c) != n {
		return "number of statements and messages differ"
	}
	type parsed struct {
		iss, sub string
		claims   map[string]any
	}
	ps := make([]parsed, n)
	for i, t := range toks {
		if allServed != nil && !allServed[t] {
			return fmt.Sprintf("statement %d was never served", i)
		}
		cl, err := decodeClaims(t)
		if err != nil {
			return fmt.Sprintf("statement %d is no JWT", i)
		}
		iss, _ := cl["iss"].(string)
		sub, _ := cl["sub"].(string)
		ps[i] = parsed{iss, sub, cl}
		if c[i] == nil || c[i].Issuer != iss || c[i].Subject != sub {
			return fmt.Sprintf("parsed statement %d is not that of its JWT", i)
		}
		if got, want := js(c[i].JWKS), js(cl["jwks"]); cl["jwks"] != nil && !jsonEq(got, want) {
			return fmt.Sprintf("parsed keys of statement %d differ from its JWT", i)
		}
	}
	if ps[0].iss != subject || ps[0].sub != subject {
		return fmt.Sprintf("first statement is %s about %s, not the configuration of %s", ps[0].iss, ps[0].sub, subject)
	}
	last := ps[n-1]
	if last.iss != last.sub {
		return "last statement is not an entity configuration"
	}
	var ta *TA
	for i := range tas {
		if tas[i].ID == last.iss {
			ta = &tas[i]
		}
	}
	if ta == nil {
		return fmt.Sprintf("chain ends at %s which is no trust anchor", last.iss)
	}
	for i := 1; i < n-1; i++ {
		if ps[i].sub != ps[i-1].iss {
			return fmt.Sprintf("statement %d is about %s, not about %s", i, ps[i].sub, ps[i-1].iss)
		}
	}
	if n > 1 && ps[n-2].iss != last.iss {
		return "last but one statement is not issued by the trust anchor"
	}
	if n == 2 {
		return "chain without subordinate statement between two configurations"
	}
	var keys any
	if len(ta.Pin) > 0 {
		keys = jwkSet(ta.Pin...)
	} else {
		keys = last.claims["jwks"]
	}
	check := func(i int) string {
		h, _, err := verifyCompact(toks[i], keys)
		if err != nil {
			return fmt.Sprintf("statement %d (%s about %s) does not verify under the vouched keys: %v", i, ps[i].iss, ps[i].sub, err)
		}
		if h["typ"] != entityTyp {
			return fmt.Sprintf("statement %d has type %v", i, h["typ"])
		}
		return ""
	}
	if e := check(n - 1); e != "" {
		return e
	}
	for i := n - 2; i >= 0; i-- {
		if e := check(i); e != "" {
			return e
		}
		keys = ps[i].claims["jwks"]
	}
	return ""
}

func jsonEq(a, b string) bool {
	var x, y any
	if json.Unmarshal([]byte(a), &x) != nil || json.Unmarshal([]byte(b), &y) != nil {
		return false
	}
	return js(x) == js(y)
}

func (sv *served) all() map[string]bool {
	m := map[string]bool{}
	for _, t := range sv.EC {
		m[t] = true
	}
	for _, t := range sv.Sub {
		m[t] = true
	}
	return m
}

// subsetOf tells whether the list of token lists a is contained in b.
func missingFrom(want, got [][]string) []string {
	have := map[string]bool{}
	for _, g := range got {
		have[strings.Join(g, "|")] = true
	}
	for _, w := range want {
		if !have[strings.Join(w, "|")] {
			return w
		}
	}
	return nil
}

// installLists serves the subordinate listings of all authorities.
func (f *Fed) installLists(w *World) {
	for i := range f.Ents {
		var m struct {
			F struct {
				E string `json:"federation_list_endpoint"`
			} `json:"federation_entity"`
		}
		if len(f.Ents[i].EC.Meta) == 0 || json.Unmarshal(f.Ents[i].EC.Meta, &m) != nil || m.F.E == "" {
			continue
		}
		ids := []string{}
		for _, s := range f.Ents[i].Subs {
			ids = append(ids, s.About)
		}
		if j := f.byFetch(strings.Replace(m.F.E, "/list", "/fetch", 1)); j >= 0 && j != i {
			continue // belongs to another authority
		}
		w.handle(m.F.E, func(*http.Request, url.Values) Resp { return Resp{CT: "application/json", Body: []byte(js(ids))} })
	}
}
