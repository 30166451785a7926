package zzverif

// C19: requests to OPs.

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

// ---- request objects and assertions on their own

// ProducerPlan is a producer that makes several tokens.
type ProducerPlan struct {
	Alg      string         `json:"alg"`
	ID       string         `json:"id"`
	Lifetime int64          `json:"lifetime"`
	Calls    []ProducerCall `json:"calls"`
}

type ProducerCall struct {
	Assertion bool            `json:"assertion,omitempty"`
	Values    json.RawMessage `json:"values,omitempty"` // for request objects
	Again     bool            `json:"again,omitempty"`  // pass the values of the call before, the same map
	Aud       string          `json:"aud,omitempty"`
	Wait      int             `json:"wait,omitempty"` // seconds
}

var roNames = []string{
	"state", "nonce", "scope", "redirect_uri", "response_type", "sub", "client_secret", "iss", "client_id", "iat", "exp", "claims", "max_age", "prompt",
	"x", "", "ä", "SUB", "Aud", "login_hint", "Client_Secret", "nbf",
}

func genRequestValues(t *rapid.T, aud int) map[string]any {
	m := map[string]any{}
	for k := intn(t, "nvalues", 0, 7); k > 0; k-- {
		n := pick(t, "name", roNames...)
		if chance(t, "string", 50) {
			m[n] = pick(t, "value", awkward...)
		} else {
			m[n] = genAny(t, 2)
		}
	}
	if chance(t, "aud", aud) {
		m["aud"] = pick[any](t, "aud value", "https://op.example", "https://op.example/a?b=c&d", []string{"https://op.example", "x"}, "", nil)
	}
	if chance(t, "jti", 10) {
		m["jti"] = "given"
	}
	return m
}

func genProducerPlan(t *rapid.T) ProducerPlan {
	p := ProducerPlan{Alg: pick(t, "alg", allAlgs...), ID: pick(t, "id", awkward...), Lifetime: pick[int64](t, "lifetime", 1, 60, 60, 300, 86400)}
	for k := intn(t, "ncalls", 1, 5); k > 0; k-- {
		c := ProducerCall{Assertion: chance(t, "assertion", 30), Wait: pick(t, "wait", 0, 0, 1, 90)}
		switch {
		case c.Assertion:
			c.Aud = pick(t, "assertion aud", append([]string{"https://op.example/token?x=1"}, awkward...)...)
		case chance(t, "again", 25):
			c.Again = true
		case chance(t, "no values", 5):
			c.Values = raw(nil)
		default:
			c.Values = raw(genRequestValues(t, 90))
		}
		p.Calls = append(p.Calls, c)
	}
	return p
}

// checkToken verifies a token of the RP and returns its claims without iat,
// exp and a fresh jti, which are checked.
func checkToken(tok string, alg string, pub map[string]any, lifetime int64, jtis map[string]bool, given any) (map[string]any, string) {
	h, payload, err := verifyCompact(tok, map[string]any{"keys": []any{pub}})
	if err != nil {
		return nil, fmt.Sprintf("not signed with the key of the RP: %v", err)
	}
	if h["alg"] != alg {
		return nil, fmt.Sprintf("signed with %v instead of %s", h["alg"], alg)
	}
	claims := map[string]any{}
	if err = json.Unmarshal(payload, &claims); err != nil {
		return nil, "payload is no object"
	}
	now := time.Now().Unix()
	iat, ok1 := claims["iat"].(float64)
	exp, ok2 := claims["exp"].(float64)
	if !ok1 || !ok2 || int64(iat) != now || int64(exp) <= now || lifetime > 0 && int64(exp) != now+lifetime || int64(exp) > now+86400 {
		return nil, fmt.Sprintf("made at %d with lifetime %d: iat %v, exp %v", now, lifetime, claims["iat"], claims["exp"])
	}
	jti, ok := claims["jti"].(string)
	if !ok || jti == "" {
		return nil, fmt.Sprintf("jti is %v", claims["jti"])
	}
	if jti != given {
		if jtis[jti] {
			return nil, fmt.Sprintf("jti %s was used before", jti)
		}
		if len(jti) < 16 {
			return nil, fmt.Sprintf("jti %q can be guessed", jti)
		}
		jtis[jti] = true
	}
	delete(claims, "iat")
	delete(claims, "exp")
	delete(claims, "jti")
	return claims, ""
}

func execProducer(c *Ctx, p ProducerPlan) *Violation {
	newWorld()
	time.Sleep(700 * time.Millisecond)
	k := keyFor(p.Alg, 31)
	rop := oidfed.NewRequestObjectProducer(p.ID, k.Signer, libAlg(k.Alg), p.Lifetime)
	jtis := map[string]bool{}
	var values map[string]any
	for i, call := range p.Calls {
		time.Sleep(time.Duration(call.Wait) * time.Second)
		if call.Assertion {
			tok, err := rop.ClientAssertion(call.Aud)
			if err != nil {
				return violf("assertion:error", "call %d: no client assertion: %v", i, err)
			}
			claims, d := checkToken(string(tok), k.Alg, k.JWK, p.Lifetime, jtis, nil)
			if d != "" {
				return violf("assertion:token", "call %d: %s", i, d)
			}
			if d = docDiff("claims", map[string]any{"iss": p.ID, "sub": p.ID, "aud": call.Aud}, claims); d != "" {
				return violf("assertion:claims", "call %d: %s", i, d)
			}
			c.NonTrivial()
			c.Label("assertion %s", p.Alg)
			continue
		}
		if !call.Again {
			values = nil
			must(json.Unmarshal(call.Values, &values))
		}
		want := map[string]any{}
		for n, v := range values {
			want[n] = v
		}
		before := js(values)
		tok, err := rop.RequestObject(values)
		if values == nil || func() bool { _, ok := want["aud"]; return !ok }() {
			if err == nil {
				return violf("object:aud", "call %d: a request object without audience was made from %s", i, before)
			}
			c.Label("no audience")
			continue
		}
		if err != nil {
			return violf("object:error", "call %d: no request object for %s: %v", i, before, err)
		}
		claims, d := checkToken(string(tok), k.Alg, k.JWK, p.Lifetime, jtis, want["jti"])
		if d != "" {
			return violf("object:token", "call %d for %s: %s", i, before, d)
		}
		for _, n := range []string{"sub", "client_secret", "iat", "exp", "jti"} {
			delete(want, n)
		}
		want["iss"], want["client_id"] = p.ID, p.ID
		if d = docDiff("claims", generic(want), claims); d != "" {
			return violf("object:claims", "call %d for %s: %s", i, before, d)
		}
		if after := js(values); after != before {
			return violf("object:changed", "call %d changed the passed values %s to %s", i, before, after)
		}
		c.NonTrivialIf(len(want) > 3)
		c.LabelIf(call.Again, "same values again")
		c.Label("object %s", p.Alg)
	}
	return nil
}

// ---- flows

// FlowPlan is an RP talking to an OP.
type FlowPlan struct {
	Alg      string            `json:"alg"`
	RP       string            `json:"rp"`
	OP       string            `json:"op"`
	Meta     json.RawMessage   `json:"meta,omitempty"` // what the OP publishes
	Policy   json.RawMessage   `json:"policy"`         // of the anchor
	Resolved map[string]string `json:"resolved"`       // what has to come out
	Deep     bool              `json:"deep,omitempty"` // an intermediate between
	Pin      string            `json:"pin,omitempty"`  // "", right, wrong
	Fault    string            `json:"fault,omitempty"`
	Resolver string            `json:"resolver,omitempty"` // "", nothing, no op, error
	Steps    []FlowStep        `json:"steps"`
}

type FlowStep struct {
	Exchange bool                `json:"exchange,omitempty"`
	Redirect string              `json:"redirect"`
	State    string              `json:"state"`
	Scope    string              `json:"scope"`
	Code     string              `json:"code"`
	More     map[string][]string `json:"more,omitempty"`
	Same     bool                `json:"same,omitempty"` // the same additional parameters as the step before
	Answer   string              `json:"answer,omitempty"`
	Status   int                 `json:"status,omitempty"`
	Doc      json.RawMessage     `json:"doc,omitempty"`
}

var opAuthEndpoints = []string{
	"https://op.example/auth", "https://op.example/auth?tenant=a%20b", "https://op.example/a%2Fb/auth?x=1&x=2", "https://login.op.example:8443/authorize?flow=%26&y=", "https://op.example",
	"https://op.example/auth?scope=openid+all&client_id=other", "https://op.example/auth?request=a.b.c&x=1&redirect_uri=https%3A%2F%2Felse.example",
	"https://op.example/auth?response_type=token&request=&request=b&scope=&scope=x",
}

var opTokenEndpoints = []string{
	"https://op.example/token", "https://op.example/token?code=own&client_id=other", "https://op.example/token?tenant=a%20b", "https://api.op.example:8443/v1/tok%2Fen", "https://op.example/token?x=1&x=2",
}

var moreNames = []string{"nonce", "prompt", "claims", "login_hint", "sub", "client_secret", "scope", "state", "aud", "iss", "client_id", "resource", "x", "max_age", "acr_values", "redirect_uri", "response_type", "code_challenge", "exp"}

func genFlowPlan(t *rapid.T) FlowPlan {
	p := FlowPlan{
		Alg: pick(t, "alg", allAlgs...), RP: pick(t, "rp", "https://rp.example", "https://rp.example/a?b=c&d=e", "https://rp.example/ü"),
		OP: pick(t, "op", "https://op.example", "https://op.example/tenant", "https://idp.example/"), Resolved: map[string]string{}, Deep: rapid.Bool().Draw(t, "deep"),
		Pin: pick(t, "pin", "", "", "right", "wrong"),
	}
	meta := map[string]any{"response_types_supported": []string{"code"}}
	pol := map[string]any{}
	vals := map[string][]string{
		"issuer": {p.OP, "https://other-issuer.example/x?y"}, "authorization_endpoint": opAuthEndpoints, "token_endpoint": opTokenEndpoints,
	}
	for _, n := range []string{"issuer", "authorization_endpoint", "token_endpoint"} {
		v, w := pick(t, n, vals[n]...), pick(t, n+" policy", vals[n]...)
		switch pick(t, "how "+n, "plain", "plain", "value", "default", "unused default") {
		case "plain":
			meta[n], p.Resolved[n] = v, v
		case "value":
			meta[n], p.Resolved[n] = v, w
			pol[n] = map[string]any{"value": w}
		case "default":
			p.Resolved[n] = w
			pol[n] = map[string]any{"default": w}
		case "unused default":
			meta[n], p.Resolved[n] = v, v
			pol[n] = map[string]any{"default": w}
		}
	}
	if len(pol) > 0 {
		p.Policy = raw(map[string]any{"openid_provider": pol})
	}
	p.Meta = raw(map[string]any{"openid_provider": meta})
	if chance(t, "broken", 20) {
		p.Fault = pick(t, "fault", "no op", "empty metadata", "no metadata", "unreachable", "not vouched for", "policy conflict", "null op")
		switch p.Fault {
		case "no op":
			p.Meta = raw(map[string]any{"openid_relying_party": map[string]any{"client_name": "x"}})
		case "empty metadata":
			p.Meta = raw(map[string]any{})
		case "null op":
			p.Meta = raw(map[string]any{"openid_provider": nil})
		case "no metadata":
			p.Meta = nil
		case "policy conflict":
			p.Policy = raw(map[string]any{"openid_provider": map[string]any{"issuer": map[string]any{"one_of": []string{"https://nobody.example"}, "essential": true}}})
		}
	} else if chance(t, "other resolver", 15) {
		p.Resolver = pick(t, "resolver", "nothing", "no op", "error", "good")
	}
	for k := intn(t, "nsteps", 1, 3); k > 0; k-- {
		s := FlowStep{
			Exchange: rapid.Bool().Draw(t, "exchange"), Redirect: pick(t, "redirect", append([]string{"https://rp.example/cb?x=1&y=ü"}, awkward...)...),
			State: pick(t, "state", "", "s1", "a b&c=d", "ü+%"), Scope: pick(t, "scope", "openid", "openid profile", "openid a&b", ""), Code: pick(t, "code", "c0de", "a+b/c==&x", "ü"),
		}
		s.Same = len(p.Steps) > 0 && chance(t, "same", 30)
		if !s.Same && chance(t, "more", 75) {
			s.More = map[string][]string{}
			for j := intn(t, "nmore", 0, 4); j > 0; j-- {
				n := pick(t, "more name", moreNames...)
				var vs []string
				for i := pick(t, "nvalues", 1, 1, 1, 2, 0); i > 0; i-- {
					vs = append(vs, pick(t, "more value", awkward...))
				}
				s.More[n] = vs
			}
		}
		s.Status = pick(t, "status", 200, 200, 200, 400, 401, 500, 503)
		s.Answer = pick(t, "answer", "tokens", "tokens", "tokens", "error", "html", "empty", "object", "neterr", "array", "string")
		switch s.Answer {
		case "tokens":
			s.Status = 200
			d := genDoc(t, "token", docOpts{share: 80, empty: 5, extra: 4, fold: pick(t, "folds", 0, 0, 20), depth: 3})
			delete(d, "error")
			d["access_token"] = pick(t, "token", "at", "a.b.c", "ü")
			s.Doc = raw(d)
		case "error":
			d := map[string]any{"error": pick(t, "code", "invalid_grant", "invalid_client", "server_error", "x")}
			if chance(t, "description", 60) {
				d["error_description"] = pick(t, "descr", "no", "ü <&>", "")
			}
			if chance(t, "error uri", 30) {
				d["error_uri"] = "https://op.example/e"
			}
			s.Doc = raw(d)
		}
		p.Steps = append(p.Steps, s)
	}
	return p
}

// otherResolver is a resolver an application may set.
type otherResolver struct {
	kind string
	meta *oidfed.Metadata
	last *apimodel.ResolveRequest
}

func (r otherResolver) Resolve(req apimodel.ResolveRequest) (*oidfed.Metadata, error) {
	*r.last = req
	switch r.kind {
	case "error":
		return nil, fmt.Errorf("no")
	case "nothing":
		return nil, nil
	case "no op":
		return &oidfed.Metadata{}, nil
	}
	return r.meta, nil
}

func (r otherResolver) ResolveResponsePayload(req apimodel.ResolveRequest) (res oidfed.ResolveResponsePayload, err error) {
	res.Metadata, err = r.Resolve(req)
	return
}

func (r otherResolver) ResolvePossible(apimodel.ResolveRequest) (bool, bool) { return false, false }

func (p *FlowPlan) install(w *World) {
	now := time.Now().Unix()
	stmt := func(sign int, iss, sub string, keys any, more map[string]any) string {
		m := map[string]any{"iss": iss, "sub": sub, "iat": now - 5, "exp": now + 100000, "jwks": keys}
		for k, v := range more {
			m[k] = v
		}
		return signJWT(key(sign), entityTyp, []byte(js(m)))
	}
	serve := func(u string, f func(q url.Values) string) {
		w.handle(u, func(_ *http.Request, q url.Values) Resp {
			b := f(q)
			if b == "" {
				return httpResp("404json", "", "")
			}
			return Resp{CT: "application/entity-statement+jwt", Body: []byte(b)}
		})
	}
	authority := func(id, fetch string, k int, hints []string, subs map[string]string) {
		more := map[string]any{"metadata": map[string]any{"federation_entity": map[string]any{"federation_fetch_endpoint": fetch}}}
		if len(hints) > 0 {
			more["authority_hints"] = hints
		}
		ec := stmt(k, id, id, jwkSet(k), more)
		serve(wellKnown(id), func(url.Values) string { return ec })
		serve(fetch, func(q url.Values) string { return subs[q.Get("sub")] })
	}
	const ta, ia = "https://ta.example", "https://ia.example"
	pol := map[string]any{}
	if p.Policy != nil {
		pol["metadata_policy"] = p.Policy
	}
	above := ta
	if p.Deep {
		above = ia
	}
	opMore := map[string]any{"authority_hints": []string{above}}
	if p.Meta != nil {
		opMore["metadata"] = p.Meta
	}
	op := stmt(3, p.OP, p.OP, jwkSet(3), opMore)
	if p.Fault != "unreachable" {
		serve(wellKnown(p.OP), func(url.Values) string { return op })
	}
	opKeys := jwkSet(3)
	if p.Fault == "not vouched for" {
		opKeys = jwkSet(9)
	}
	if p.Deep {
		authority(ia, "https://ia.example/fetch", 2, []string{ta}, map[string]string{p.OP: stmt(2, ia, p.OP, opKeys, nil)})
		authority(ta, "https://ta.example/fetch", 1, nil, map[string]string{ia: stmt(1, ta, ia, jwkSet(2), pol)})
	} else {
		authority(ta, "https://ta.example/fetch", 1, nil, map[string]string{p.OP: stmt(1, ta, p.OP, opKeys, pol)})
	}
}

func execFlow(c *Ctx, p FlowPlan) *Violation {
	w := newWorld()
	time.Sleep(700 * time.Millisecond)
	p.install(w)
	k := keyFor(p.Alg, 31)
	anchor := oidfed.TrustAnchor{EntityID: "https://ta.example"}
	switch p.Pin {
	case "right":
		anchor.JWKS = libJWKS(1)
	case "wrong":
		anchor.JWKS = libJWKS(8)
	}
	leaf := must1(oidfed.NewFederationLeaf(
		p.RP, []string{"https://ta.example"}, oidfed.TrustAnchors{anchor}, &oidfed.Metadata{},
		oidfed.NewEntityStatementSigner(key(30).Signer, libAlg(key(30).Alg)), 3600, k.Signer, libAlg(k.Alg), nil,
	))
	asked := &apimodel.ResolveRequest{}
	if p.Resolver != "" {
		var m oidfed.Metadata
		must(json.Unmarshal(raw(map[string]any{"openid_provider": p.Resolved}), &m))
		oidfed.DefaultMetadataResolver = otherResolver{kind: p.Resolver, meta: &m, last: asked}
	}
	fails := p.Fault != "" || p.Pin == "wrong"
	if p.Resolver != "" {
		fails = p.Resolver != "good"
	}
	var posted []*http.Request
	var step FlowStep
	tokenURL, tokenOwn, _ := strings.Cut(p.Resolved["token_endpoint"], "?")
	w.handle(tokenURL, func(r *http.Request, _ url.Values) Resp {
		posted = append(posted, r)
		a := Resp{Status: step.Status, CT: "application/json", Body: step.Doc}
		switch step.Answer {
		case "html":
			a.CT, a.Body = "text/html", []byte("<html>hi</html>")
		case "empty":
			a.Body = nil
		case "object":
			a.Body = []byte(`{"message":"hello"}`)
		case "array":
			a.Body = []byte(`[]`)
		case "string":
			a.Body = []byte(`"no"`)
		case "neterr":
			a.Err = true
		}
		return a
	})
	jtis := map[string]bool{}
	var more url.Values
	for i := range p.Steps {
		step = p.Steps[i]
		if !step.Same {
			more = nil
			if step.More != nil {
				more = url.Values{}
				for n, v := range step.More {
					more[n] = append([]string{}, v...)
				}
			}
		}
		before := js(more)
		given := url.Values{}
		for n, v := range more {
			given[n] = append([]string{}, v...)
		}
		var v *Violation
		if step.Exchange {
			w.mu.Lock()
			posted = nil
			w.mu.Unlock()
			from := w.logLen()
			tok, errRes, err := leaf.CodeExchange(p.OP, step.Code, step.Redirect, more)
			var posts []ReqLog
			for _, l := range w.Log[from:] {
				if l.Method == "POST" {
					posts = append(posts, l)
				}
			}
			v = p.judgeExchange(c, step, fails, given, tok, errRes, err, posts, posted, tokenURL, tokenOwn, k, jtis)
		} else {
			u, err := leaf.GetAuthorizationURL(p.OP, step.Redirect, step.State, step.Scope, more)
			v = p.judgeURL(c, step, fails, given, u, err, k, jtis)
		}
		if v != nil {
			v.Msg = fmt.Sprintf("step %d: %s", i, v.Msg)
			return v
		}
		if js(more) != before {
			return violf("changed", "step %d changed the passed parameters %s to %s", i, before, js(more))
		}
		if p.Resolver != "" && (asked.Subject != p.OP || !reflect.DeepEqual(asked.TrustAnchor, []string{"https://ta.example"})) {
			return violf("resolver", "the resolver was asked %s", js(asked))
		}
	}
	synctest.Wait()
	c.NonTrivialIf(!fails)
	c.LabelIf(fails, "unresolvable: %s%s", p.Fault, p.Resolver)
	return nil
}

func (p *FlowPlan) judgeURL(c *Ctx, s FlowStep, fails bool, more url.Values, u string, err error, k *testKey, jtis map[string]bool) *Violation {
	if fails {
		if err == nil {
			return violf("url:unresolved", "the OP cannot be resolved and the URL is %s", u)
		}
		return nil
	}
	if err != nil {
		return violf("url:error", "no URL: %v", err)
	}
	base, own, _ := strings.Cut(p.Resolved["authorization_endpoint"], "?")
	got, query, _ := strings.Cut(u, "?")
	if got != base {
		return violf("url:endpoint", "the URL goes to %s instead of %s", got, base)
	}
	q, err := url.ParseQuery(query)
	if err != nil {
		return violf("url:query", "the query of %s is malformed: %v", u, err)
	}
	want := must1(url.ParseQuery(own))
	want.Del("request") // judged below
	want.Set("client_id", p.RP)
	want.Set("response_type", "code")
	want.Set("redirect_uri", s.Redirect)
	want.Set("scope", s.Scope)
	for n, v := range want {
		if !reflect.DeepEqual(q[n], v) && !(n == "scope" && s.Scope == "" && len(q[n]) == 0) {
			return violf("url:"+n, "%s is %q instead of %q in %s", n, q[n], v, u)
		}
	}
	for _, n := range []string{"sub", "client_secret"} {
		if len(q[n]) != len(want[n]) {
			return violf("url:secret", "the URL %s has a %s", u, n)
		}
	}
	if len(q["request"]) != 1 {
		return violf("url:request", "request is %q", q["request"])
	}
	claims, d := checkToken(q.Get("request"), k.Alg, k.JWK, 0, jtis, nil)
	if d != "" {
		return violf("url:token", "%s", d)
	}
	exp := map[string]any{}
	for n, v := range more {
		switch len(v) {
		case 0:
			if len0, ok := claims[n].([]any); claims[n] == nil || ok && len(len0) == 0 {
				delete(claims, n)
			}
		case 1:
			exp[n] = v[0]
		default:
			exp[n] = generic(v)
		}
	}
	for _, n := range []string{"sub", "client_secret", "iat", "exp"} {
		delete(exp, n)
	}
	for n, v := range map[string]string{
		"iss": p.RP, "client_id": p.RP, "aud": p.Resolved["issuer"], "redirect_uri": s.Redirect, "state": s.State, "response_type": "code", "scope": s.Scope,
	} {
		exp[n] = v
		if g, ok := claims[n]; !ok && v == "" {
			_ = g
			delete(exp, n)
		}
	}
	// parameters without values that are overridden
	for n, v := range exp {
		if _, ok := claims[n]; !ok && v == "" {
			delete(exp, n)
		}
	}
	if d := docDiff("request object", exp, claims); d != "" {
		return violf("url:claims", "%s (additional parameters %s)", d, js(more))
	}
	c.Label("authorization URL")
	c.LabelIf(own != "", "endpoint with a query")
	return nil
}

func (p *FlowPlan) judgeExchange(
	c *Ctx, s FlowStep, fails bool, more url.Values, tok *oidfed.OIDCTokenResponse, errRes *oidfed.OIDCErrorResponse, err error, posts []ReqLog, reqs []*http.Request,
	tokenURL, tokenOwn string, k *testKey, jtis map[string]bool,
) *Violation {
	n := 0
	for _, b := range []bool{tok != nil, errRes != nil, err != nil} {
		if b {
			n++
		}
	}
	if n != 1 {
		return violf("exchange:outcome", "the exchange gives tokens %s, an error response %s and the error %v", js(tok), js(errRes), err)
	}
	if fails {
		if err == nil || len(posts) > 0 {
			return violf("exchange:unresolved", "the OP cannot be resolved and the exchange gives %v after %d requests", err, len(posts))
		}
		return nil
	}
	if len(posts) == 0 || len(posts) != len(reqs) || len(posts) > 1 && s.Answer != "neterr" {
		return violf("exchange:posts", "%d requests were posted, %d to the token endpoint %s (error %v)", len(posts), len(reqs), p.Resolved["token_endpoint"], err)
	}
	l := posts[0]
	if l.URL != tokenURL || !reflect.DeepEqual(l.Query, must1(url.ParseQuery(tokenOwn))) {
		return violf("exchange:endpoint", "posted to %s %v instead of %s", l.URL, l.Query, p.Resolved["token_endpoint"])
	}
	if ct := reqs[0].Header.Get("Content-Type"); ct != "application/x-www-form-urlencoded" {
		return violf("exchange:type", "posted as %q", ct)
	}
	form, perr := url.ParseQuery(l.Body)
	if perr != nil {
		return violf("exchange:form", "the form %q is malformed", l.Body)
	}
	if len(form["client_assertion"]) != 1 {
		return violf("exchange:assertion", "client assertions %q", form["client_assertion"])
	}
	claims, d := checkToken(form.Get("client_assertion"), k.Alg, k.JWK, 0, jtis, nil)
	if d != "" {
		return violf("exchange:token", "client assertion: %s", d)
	}
	if d := docDiff("client assertion", map[string]any{"iss": p.RP, "sub": p.RP, "aud": p.Resolved["token_endpoint"]}, claims); d != "" {
		return violf("exchange:assertion", "%s", d)
	}
	want := url.Values{}
	for n, v := range more {
		want[n] = v
	}
	for n, v := range map[string]string{
		"grant_type": "authorization_code", "code": s.Code, "redirect_uri": s.Redirect, "client_id": p.RP,
		"client_assertion_type": "urn:ietf:params:oauth:client-assertion-type:jwt-bearer", "client_assertion": form.Get("client_assertion"),
	} {
		want[n] = []string{v}
	}
	var names []string
	for n := range want {
		names = append(names, n)
	}
	for n := range form {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if !sameValues(form[n], want[n]) {
			return violf("exchange:param", "parameter %s is %q instead of %q", n, form[n], want[n])
		}
	}
	c.Label("answer %s %d", s.Answer, s.Status)
	switch s.Answer {
	case "tokens":
		if tok == nil {
			return violf("exchange:tokens", "no tokens for %s: %s %v", s.Doc, js(errRes), err)
		}
		var doc map[string]any
		must(json.Unmarshal(s.Doc, &doc))
		if d := checkDecoded("tokens", "token", doc, reflect.ValueOf(tok)); d != "" {
			return violf("exchange:tokens", "%s", d)
		}
	case "error":
		var want oidfed.OIDCErrorResponse
		must(json.Unmarshal(s.Doc, &want))
		if errRes == nil || *errRes != want {
			return violf("exchange:op error", "the OP answers %s, the exchange gives %s, %s, %v", s.Doc, js(tok), js(errRes), err)
		}
	case "object":
		if s.Status != 200 && tok != nil {
			return violf("exchange:failed", "the OP answers %d and the exchange gives tokens %s", s.Status, js(tok))
		}
	default:
		if err == nil {
			return violf("exchange:nothing", "the OP answers %s and the exchange gives %s, %s", s.Answer, js(tok), js(errRes))
		}
	}
	return nil
}

func init() {
	reg(
		"C19", "producer", 8000, 250000,
		"a request object producer (every algorithm) makes 1-5 request objects and client assertions from generated values; signature, exact claims, "+
			"times, and that no identifier is used twice. Non-trivial: an assertion, or an object of several values",
		genProducerPlan, execProducer,
	).bubble()
	reg(
		"C19", "flows", 8000, 250000,
		"an RP with an anchor (with and without configured keys) builds authorization URLs for and exchanges codes with an OP whose endpoints "+
			"come out of generated metadata and policies, with generated parameters and answers. Non-trivial: the OP can be resolved",
		genFlowPlan, execFlow,
	).bubble()
}
