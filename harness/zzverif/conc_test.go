package zzverif

// C24: many callers at the same time.

import (
	"encoding/json"
	"fmt"
	"net/url"
	"slices"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

// ---- questions over one federation

// ConcPlan are questions put at about the same time.
type ConcPlan struct {
	WarmPlan
	At []int `json:"at"` // when each question is put, in ms
}

func genConcPlan(t *rapid.T) ConcPlan {
	p := ConcPlan{WarmPlan: genWarmPlan(t)}
	for i := range p.Fed.Ents {
		e := &p.Fed.Ents[i]
		e.EC.DelayMs = pick(t, "ec delay", 0, 0, 0, 1, 20, 300)
		for j := range e.Subs {
			e.Subs[j].Stmt.DelayMs = pick(t, "sub delay", 0, 0, 0, 1, 20, 300)
		}
	}
	var qs []Query
	for _, q := range p.Queries {
		if q.Kind != "wait" {
			q.Spoil = false
			qs = append(qs, q)
		}
	}
	for k := intn(t, "same again", 0, 3); k > 0 && len(qs) > 0; k-- {
		qs = append(qs, qs[intn(t, "which", 0, len(qs)-1)])
	}
	p.Queries = qs
	for range p.Queries {
		p.At = append(p.At, pick(t, "at", 0, 0, 0, 0, 1, 20, 21, 310))
	}
	return p
}

func execConc(backend string) func(c *Ctx, p ConcPlan) *Violation {
	return func(c *Ctx, p ConcPlan) *Violation {
		if backend == "default" {
			time.Sleep(100 * 365 * 24 * time.Hour)
			n := fmt.Sprint(warmCases.Add(1))
			b := strings.NewReplacer("example", "example"+n, "infra", "infra"+n, "c.test", "c.test"+n).Replace(js(p))
			p = ConcPlan{}
			must(json.Unmarshal([]byte(b), &p))
		}
		w := newWorldKeepingCache()
		switch backend {
		case "redis":
			f := newFakeRedis()
			f.use()
			c.AtEnd(f.close)
		case "mem":
			w.useMemCache()
		}
		time.Sleep(500 * time.Millisecond)
		t0 := time.Now()
		p.Fed.install(w, t0)
		p.Fed.installLists(w)
		got := make([]warmAnswer, len(p.Queries))
		var wg sync.WaitGroup
		for i := range p.Queries {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(p.At[i]) * time.Millisecond)
				got[i], _ = p.Queries[i].ask()
			}()
		}
		wg.Wait()
		synctest.Wait()
		w.useMemCache()
		chains := 0
		for i := range p.Queries {
			q := &p.Queries[i]
			w.Cache.clear()
			want, _ := q.ask()
			synctest.Wait()
			chains += len(want.Chains)
			if q.Kind == "payload" && want.Best != nil && got[i].Best != nil {
				chains++
				w.Cache.clear()
				best := q.shortest()
				for toks, meta := range got[i].Best {
					if best[toks] == "" || best[toks] != strings.TrimSuffix(meta, "null") {
						return violf("payload", "query %d %s among others gives the chain [%s] with %s, alone %s", i, js(q), describeToks(strings.Split(toks, "|")), meta, js(best))
					}
				}
				continue
			}
			if js(got[i]) != js(want) {
				return violf("differs:"+q.Kind, "query %d %s among others gives\n%s\nalone\n%s\nqueries %s", i, js(q), describeAnswer(got[i]), describeAnswer(want), js(p.Queries))
			}
		}
		c.NonTrivialIf(len(p.Queries) > 1 && chains > 0)
		c.Label("queries %d", len(p.Queries))
		c.Label("chains %d", min(chains, 5))
		return nil
	}
}

// ---- things used by several callers

// SharedPlan are uses of the same values by several goroutines.
type SharedPlan struct {
	Fed     Fed            `json:"fed"`
	Subject string         `json:"subject"`
	TAs     []TA           `json:"tas"`
	Meta    map[string]any `json:"meta"`
	Policy  []pols         `json:"policy"`
	Alg     string         `json:"alg"`
	Life    int64          `json:"life"`
	Extra   map[string]any `json:"extra,omitempty"`
	Uses    []string       `json:"uses"`
}

var sharedUses = []string{
	"chain-metadata", "chain-expiry", "filter-meta", "filter-ta", "filter-len", "sort-asc", "sort-desc", "encode", "verify", "messages",
	"apply", "merge", "combine", "guess", "find", "ro", "assertion", "ec", "issue", "delegate", "sign", "parse", "authurl", "keys",
	"policy-check", "mark", "opmeta", "response", "signer-keys", "typed-keys", "collect", "collect-ops", "resolve",
}

func genSharedPlan(t *rapid.T) SharedPlan {
	var p SharedPlan
	f, subject, tas := genFed(t, fedOpts{maxEnts: 5, extraTypes: true})
	p.Meta, p.Policy = genPolicyCase(t, 2, true)
	if chance(t, "op", 50) {
		p.Meta["openid_provider"] = map[string]any{"issuer": subject, "authorization_endpoint": subject + "/auth?a=b", "token_endpoint": subject + "/token"}
	}
	wp := WarmPlan{Fed: f}
	wp.decorate(t, subject)
	p.Fed, p.Subject, p.TAs = wp.Fed, subject, tas
	p.Alg = pick(t, "alg", "ES256", "ES256", "EdDSA", "RS256", "PS256", "ES384")
	p.Life = pick(t, "life", int64(0), 60, 3600)
	if chance(t, "extra", 60) {
		p.Extra = map[string]any{"x_extra": genAny(t, 1)}
	}
	for k := intn(t, "nuses", 2, 8); k > 0; k-- {
		u := pick(t, "use", sharedUses...)
		p.Uses = append(p.Uses, u)
		if chance(t, "twice", 50) {
			p.Uses = append(p.Uses, u)
		}
	}
	return p
}

// shared are the values the uses have in common.
type shared struct {
	chains   oidfed.TrustChains
	meta     *oidfed.Metadata
	policies []*oidfed.MetadataPolicies
	leaf     *oidfed.FederationLeaf
	rop      *oidfed.RequestObjectProducer
	tmi      *oidfed.TrustMarkIssuer
	tmo      *oidfed.TrustMarkOwner
	jwt      []byte
	stmt     *oidfed.EntityStatement
	mark     []byte
	payload  oidfed.EntityStatementPayload
	sub      string
	ta       string
	resp     *oidfed.ResolveResponse
	signer   *oidfed.GeneralJWTSigner // nobody has used it before
	typed    *oidfed.TypedJWTSigner
	coll     oidfed.EntityCollector
	ops      oidfed.EntityCollector
	resolver oidfed.MetadataResolver
}

func (p *SharedPlan) build(w *World) *shared {
	s := &shared{sub: p.Subject, ta: p.TAs[0].ID}
	w.Cache.clear()
	r := oidfed.TrustResolver{TrustAnchors: libTAs(p.TAs), StartingEntity: p.Subject}
	s.chains = r.ResolveToValidChainsWithoutVerifyingMetadata()
	s.meta = &oidfed.Metadata{}
	must(json.Unmarshal([]byte(js(p.Meta)), s.meta))
	for _, x := range p.Policy {
		mp := &oidfed.MetadataPolicies{}
		must(json.Unmarshal([]byte(js(x)), mp))
		s.policies = append(s.policies, mp)
	}
	k := keyFor(p.Alg, 41)
	gen := oidfed.NewGeneralJWTSigner(k.Signer, libAlg(k.Alg))
	s.leaf = must1(oidfed.NewFederationLeaf(
		"https://rp.shared.example", []string{p.TAs[0].ID}, libTAs(p.TAs), s.meta, gen.EntityStatementSigner(), 600, k.Signer, libAlg(k.Alg), p.Extra,
	))
	s.rop = s.leaf.RequestObjectProducer()
	spec := oidfed.TrustMarkSpec{TrustMarkType: "https://tm.example/a", Ref: "https://ref.example", Extra: p.Extra}
	spec.Lifetime.Duration = time.Duration(p.Life) * time.Second
	s.tmi = oidfed.NewTrustMarkIssuer("https://tmi.shared.example", gen.TrustMarkSigner(), []oidfed.TrustMarkSpec{spec})
	own := oidfed.OwnedTrustMark{ID: "https://tm.example/a", Ref: "https://ref.example", Extra: p.Extra}
	s.tmo = oidfed.NewTrustMarkOwner("https://tmo.shared.example", gen.TrustMarkDelegationSigner(), []oidfed.OwnedTrustMark{own})
	now := time.Now().Unix()
	s.jwt = []byte(signJWT(k, entityTyp, []byte(js(map[string]any{
		"iss": "https://x.example", "sub": "https://x.example", "iat": now, "exp": now + 600, "jwks": map[string]any{"keys": []any{k.JWK}}, "metadata": p.Meta,
	}))))
	s.stmt = must1(oidfed.ParseEntityStatement(s.jwt))
	s.payload = s.stmt.EntityStatementPayload
	s.mark = []byte(must1(s.tmi.IssueTrustMark("https://tm.example/a", "https://x.example")).TrustMarkJWT)
	s.resp = &oidfed.ResolveResponse{Issuer: "https://x.example", Subject: "https://y.example"}
	s.resp.Metadata = s.meta
	s.resp.Extra = p.Extra
	s.signer = oidfed.NewGeneralJWTSigner(k.Signer, libAlg(k.Alg))
	s.typed = s.signer.Typed("x+jwt")
	s.coll = &oidfed.SimpleEntityCollector{}
	s.ops = oidfed.FilterableVerifiedChainsEntityCollector{
		Collector: s.coll, Filters: []oidfed.EntityCollectionFilter{oidfed.EntityCollectionFilterOPSupportedScopesIncludes([]string{s.ta}, "openid")},
	}
	s.resolver = oidfed.LocalMetadataResolver{}
	return s
}

// freshClaims are the claims of a token without those that are new each time.
func freshClaims(tok string) string {
	h, cl, err := splitClaims(tok)
	if err != "" {
		return err
	}
	for _, n := range []string{"jti", "iat", "exp"} {
		if _, ok := cl[n]; ok {
			cl[n] = "there"
		}
	}
	return js(h) + js(cl)
}

func splitClaims(tok string) (h, cl map[string]any, bad string) {
	cl, err := decodeClaims(tok)
	if err != nil {
		return nil, nil, "undecodable " + err.Error()
	}
	must(json.Unmarshal(must1(b64.DecodeString(strings.Split(tok, ".")[0])), &h))
	return
}

// use uses the shared values in one way; the result does not depend on when.
func (s *shared) use(what string, p *SharedPlan) string {
	res := func(v any, err error) string {
		if err != nil {
			return "error"
		}
		return js(v)
	}
	tok := func(b []byte, err error) string {
		if err != nil {
			return "error"
		}
		k := keyFor(p.Alg, 41)
		if _, _, err = verifyCompact(string(b), map[string]any{"keys": []any{k.JWK}}); err != nil {
			return "unverifiable"
		}
		return freshClaims(string(b))
	}
	list := func(cs oidfed.TrustChains) string {
		var out []string
		for _, c := range cs {
			out = append(out, strings.Join(chainTokens(c), "|"))
		}
		return js(out)
	}
	switch what {
	case "chain-metadata":
		var out []string
		for _, c := range s.chains {
			out = append(out, res(c.Metadata()))
		}
		return js(out)
	case "chain-expiry":
		var out []any
		for _, c := range s.chains {
			out = append(out, c.ExpiresAt().Unix(), c.PathLen())
		}
		return js(out)
	case "messages":
		var out []any
		for _, c := range s.chains {
			out = append(out, c.Messages())
		}
		return js(out)
	case "filter-meta":
		return list(s.chains.Filter(oidfed.TrustChainsFilterValidMetadata))
	case "filter-ta":
		return list(s.chains.Filter(oidfed.TrustChainsFilterTrustAnchor(s.ta)))
	case "filter-len":
		return list(s.chains.Filter(oidfed.TrustChainsFilterMinPathLength))
	case "sort-asc":
		return list(slices.Clone(s.chains).SortAsc(oidfed.TrustChainScoringPathLen))
	case "sort-desc":
		return list(slices.Clone(s.chains).SortDesc(oidfed.TrustChainScoringPathLen))
	case "encode":
		var out []string
		for _, c := range s.chains {
			for _, e := range c {
				out = append(out, js(e.EntityStatementPayload))
			}
		}
		return js(append(out, js(s.stmt.EntityStatementPayload)))
	case "verify":
		return fmt.Sprint(s.stmt.Verify(s.stmt.JWKS), s.stmt.TimeValid())
	case "apply":
		var out []string
		for _, mp := range s.policies {
			m, err := s.meta.ApplyPolicy(mp)
			out = append(out, res(m, err))
		}
		return js(out)
	case "merge":
		return res(oidfed.MergeMetadataPolicies(s.policies...))
	case "combine":
		var in []oidfed.MetadataPolicy
		for _, mp := range s.policies {
			in = append(in, mp.OpenIDProvider)
		}
		return res(oidfed.CombineMetadataPolicy("x", in...))
	case "policy-check":
		var out []string
		for _, mp := range s.policies {
			out = append(out, res(nil, mp.RelyingParty.Verify("a")), res(nil, mp.OpenIDProvider.Verify("b")))
		}
		return js(out)
	case "guess":
		return fmt.Sprint(len(s.meta.GuessEntityTypes())) + js(s.meta.GuessDisplayNames())
	case "find":
		var m map[string]any
		err := s.meta.FindEntityMetadata("openid_provider", &m)
		return res(m, err)
	case "ro":
		return tok(s.rop.RequestObject(map[string]any{"aud": "https://op.example", "scope": "openid", "state": "s"}))
	case "assertion":
		return tok(s.rop.ClientAssertion("https://op.example"))
	case "ec":
		return tok(s.leaf.EntityConfigurationJWT())
	case "keys":
		return js(s.leaf.JWKS()) + js(s.stmt.JWKS)
	case "signer-keys":
		return js(s.signer.JWKS()) + tok(s.signer.EntityStatementSigner().JWT(map[string]any{"a": 1}))
	case "typed-keys":
		return js(s.typed.JWKS()) + tok(s.typed.JWT(map[string]any{"a": 1}))
	case "collect", "collect-ops":
		by := s.coll
		if what == "collect-ops" {
			by = s.ops
		}
		var out []string
		for _, e := range by.CollectEntities(apimodel.EntityCollectionRequest{TrustAnchor: s.ta, Claims: []string{"entity_id", "entity_types", "ui_infos"}}) {
			out = append(out, js(e))
		}
		slices.Sort(out)
		return js(out)
	case "resolve":
		return res(s.resolver.Resolve(apimodel.ResolveRequest{Subject: s.sub, TrustAnchor: []string{s.ta}}))
	case "sign":
		return tok(s.leaf.SignEntityStatement(s.payload))
	case "issue":
		i, err := s.tmi.IssueTrustMark("https://tm.example/a", "https://y.example")
		if err != nil {
			return "error"
		}
		return tok([]byte(i.TrustMarkJWT), nil) + js(len(s.tmi.TrustMarkTypes()))
	case "delegate":
		return tok(s.tmo.DelegationJWT("https://tm.example/a", "https://y.example", time.Minute))
	case "parse":
		e, err := oidfed.ParseEntityStatement(s.jwt)
		if err != nil {
			return "error"
		}
		return js(e.EntityStatementPayload) + fmt.Sprint(e.Verify(e.JWKS))
	case "mark":
		m, err := oidfed.ParseTrustMark(s.mark)
		if err != nil {
			return "error"
		}
		return fmt.Sprint(m.VerifyExternal(s.leaf.JWKS()) == nil, m.Subject, m.TrustMarkType)
	case "response":
		return js(s.resp)
	case "opmeta":
		return res(s.leaf.ResolveOPMetadata(s.sub))
	case "authurl":
		u, err := s.leaf.GetAuthorizationURL(s.sub, "https://rp.example/cb", "state", "openid", url.Values{"x": {"y"}})
		if err != nil {
			return "error"
		}
		pu := must1(url.Parse(u))
		q := pu.Query()
		ro := q.Get("request")
		q.Del("request")
		pu.RawQuery = q.Encode()
		return pu.String() + freshClaims(ro)
	}
	panic(harnessErr{"use " + what})
}

func execShared(c *Ctx, p SharedPlan) *Violation {
	w := newWorld()
	time.Sleep(500 * time.Millisecond)
	t0 := time.Now()
	for i := range p.Fed.Ents {
		p.Fed.Ents[i].EC.Exp += 20000
		for j := range p.Fed.Ents[i].Subs {
			p.Fed.Ents[i].Subs[j].Stmt.Exp += 20000
		}
	}
	p.Fed.install(w, t0)
	// at once
	s := p.build(w)
	got := make([]string, len(p.Uses))
	var wg sync.WaitGroup
	for i, u := range p.Uses {
		wg.Add(1)
		go func() {
			defer wg.Done()
			got[i] = s.use(u, &p)
		}()
	}
	wg.Wait()
	synctest.Wait()
	// each alone, on values nobody has used
	for i, u := range p.Uses {
		w.Cache.clear()
		alone := p.build(w)
		if want := alone.use(u, &p); want != got[i] {
			return violf("differs:"+u, "%s of %v at the same time gives\n%s\nalone\n%s", u, p.Uses, describeLong(got[i]), describeLong(want))
		}
		// and on those that have been used
		if again := s.use(u, &p); again != got[i] {
			return violf("changed:"+u, "%s afterwards gives\n%s\nbefore\n%s\nuses %v", u, describeLong(again), describeLong(got[i]), p.Uses)
		}
		c.Label("%s", u)
		c.LabelIf(got[i] == "error", "error")
	}
	c.NonTrivialIf(len(p.Uses) > 1)
	return nil
}

func describeLong(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "…"
	}
	return s
}

func init() {
	rule := "2-11 related questions (chains with and without metadata, single steps, payloads, configurations, collections) are put at the same time or " +
		"shortly after another to a generated federation (policies, constraints, faults, response delays) under the race detector; every answer has to " +
		"equal the one to the question alone. Non-trivial: several questions, and a chain in an answer"
	reg("C24", "default-backend", 400, 20000, rule, genConcPlan, execConc("default")).bubble()
	reg("C24", "mem", 800, 50000, rule, genConcPlan, execConc("mem")).bubble()
	reg("C24", "redis", 400, 20000, rule, genConcPlan, execConc("redis")).bubble()
	reg("C24", "shared", 1200, 60000,
		"the same chains, statements, metadata, policies, signers, trust mark issuer and owner, and relying party are used in 2-16 of 33 ways at the same "+
			"time under the race detector; every result has to equal that on unused values, and repeat afterwards. Non-trivial: several uses",
		genSharedPlan, execShared).bubble()
}
