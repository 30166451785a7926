package zzverif

import (
	"encoding/json"
	"fmt"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/cache"
	"github.com/go-oidfed/lib/jwks"
)

// CacheVal is a value to be cached: Kind selects the Go type.
type CacheVal struct {
	Kind string          `json:"kind"` // strings, string, int, metadata, statement, chain, chains, jwks, bytes
	Doc  json.RawMessage `json:"doc,omitempty"`
	Stmt []Stmt          `json:"stmts,omitempty"`
	Keys []int           `json:"keys,omitempty"`
}

type CacheOp struct {
	Op  string `json:"op"` // set, get, wait
	Key int    `json:"key,omitempty"`
	Val int    `json:"val,omitempty"`
	TTL int64  `json:"ttl,omitempty"` // ns
	Ms  int64  `json:"ms,omitempty"`
}

type CacheKey struct {
	Sub, Iss string // statement key
	Subsys   string // other key, if set
	Rest     string
}

type CachePlan struct {
	Keys []CacheKey `json:"keys"`
	Vals []CacheVal `json:"vals"`
	Ops  []CacheOp  `json:"ops"`
}

func genCachePlan(t *rapid.T) CachePlan {
	var p CachePlan
	parts := []string{"a", "a:b", "b", "", ":", "https://a.example", "https://a.example/", "YQ==", "a\x00", "ä", "A"}
	for k := intn(t, "nkeys", 1, 4); k > 0; k-- {
		if chance(t, "other subsystem", 40) {
			p.Keys = append(
				p.Keys, CacheKey{
					Subsys: pick(
						t, "subsys", cache.KeyTrustTree, cache.KeyTrustTreeChains, cache.KeyTrustChainResolvedMetadata,
						cache.KeySubordinateListing, cache.KeyEntityConfiguration, cache.KeyOPMetadata,
					), Rest: pick(t, "rest", parts...),
				},
			)
		} else {
			p.Keys = append(p.Keys, CacheKey{Sub: pick(t, "sub", parts...), Iss: pick(t, "iss", parts...)})
		}
	}
	if chance(t, "look-alike key", 40) {
		// another key that has the same text if the parts are only put together
		k := p.Keys[0]
		sep := pick(t, "separator", ":", "", "/", "|", ",", " ", "\x00", "::", "#")
		if k.Subsys != "" {
			p.Keys[0] = CacheKey{Subsys: cache.KeyTrustTree, Rest: "_chains" + sep + "x"}
			p.Keys = append(p.Keys, CacheKey{Subsys: cache.KeyTrustTreeChains, Rest: pick(t, "rest", "x", sep+"x")})
		} else {
			k.Sub += "y" + sep + "x"
			p.Keys[0] = k
			p.Keys = append(p.Keys, CacheKey{Sub: k.Sub[:len(k.Sub)-1-len(sep)], Iss: "x" + sep + k.Iss})
		}
	}
	for k := intn(t, "nvals", 1, 4); k > 0; k-- {
		v := CacheVal{Kind: pick(t, "kind", "metadata", "statement", "chain", "chains", "jwks", "strings", "string", "int")}
		switch v.Kind {
		case "metadata":
			v.Doc = raw(genMetadata(t, metaOpts{maxTypes: 3, maxParams: 4, extraTypes: true}))
		case "statement", "chain", "chains":
			for j := intn(t, "nstmts", 1, 3); j > 0; j-- {
				v.Stmt = append(v.Stmt, genRichStmt(t))
			}
		case "jwks":
			for j := intn(t, "nkeys", 0, 3); j > 0; j-- {
				v.Keys = append(v.Keys, pick(t, "k", 1, 2, 3, 1000, 1010, 1020, 1030, 1060))
			}
		case "strings":
			v.Doc = raw(genStrings(t, "strings", 4, wordPool))
		case "string":
			v.Doc = raw(pick(t, "string", wordPool...))
		case "int":
			v.Doc = raw(intn(t, "int", -5, 1<<40))
		}
		p.Vals = append(p.Vals, v)
	}
	for k := intn(t, "nops", 2, 14); k > 0; k-- {
		o := CacheOp{Op: pick(t, "op", "set", "set", "get", "get", "get", "wait")}
		switch o.Op {
		case "set":
			o.Key, o.Val = intn(t, "key", 0, len(p.Keys)-1), intn(t, "val", 0, len(p.Vals)-1)
			o.TTL = pick(
				t, "ttl", int64(60500e6), int64(10500e6), int64(500e6), int64(3600500e6), 0, -1, -2, -1e9, -1<<62, -3600e9,
				int64(400*24*3600500e6), 1<<62, int64(100e6), int64(900e6), int64(1300e6), int64(9700e6), int64(70200e6), int64(3599800e6),
			)
		case "get":
			o.Key = intn(t, "key", 0, len(p.Keys)-1)
		case "wait":
			o.Ms = pick(t, "ms", int64(1), 1000, 11000, 61000, 3601000, 86400000, 200, 600, 1200, 1400, 9600, 9800, 60600, 3599900)
			if n := len(p.Ops); n > 0 && p.Ops[n-1].TTL > 0 && p.Ops[n-1].TTL < 1<<60 && chance(t, "around the end", 50) {
				// just before or just after what was stored last expires
				o.Ms = p.Ops[n-1].TTL/1000000 + pick(t, "delta", int64(-300), -30, -3, 3, 30, 300)
				o.Ms = max(o.Ms, 1)
			}
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

// genRichStmt draws a statement using all members.
func genRichStmt(t *rapid.T) Stmt {
	s := Stmt{
		Iss: pick(t, "iss", "https://a.example", "https://b.example"), Sub: pick(t, "sub", "https://a.example", "https://c.example"),
		Typ: entityTyp, Sign: 1 + intn(t, "sign", 0, 4), JWKS: []int{1 + intn(t, "jwks", 0, 4)}, Iat: -10, Exp: 1000000,
	}
	if chance(t, "hints", 50) {
		s.Hints = genStrings(t, "hints", 2, []string{"https://a.example", "https://ta.example"})
	}
	if chance(t, "meta", 70) {
		s.Meta = raw(genMetadata(t, metaOpts{maxTypes: 3, maxParams: 4, extraTypes: true}))
	}
	if chance(t, "policy", 40) {
		pol := map[string]any{}
		for k := intn(t, "npol", 0, 2); k > 0; k-- {
			et := pick(t, "pol type", append(knownTypes(), extraEntityTypes...)...)
			pol[et] = map[string]any{
				pick(t, "pol param", "contacts", "x_custom", "scope"): map[string]any{
					pick(t, "op", "subset_of", "add", "default"): distinct(genStrings(t, "opv", 3, listPool)),
				},
			}
		}
		s.Policy = raw(pol)
	}
	if chance(t, "constraints", 30) {
		s.Constraints = genConstraints(t, []string{"https://a.example", "https://b.example"})
	}
	if chance(t, "crit", 20) {
		s.PolicyCrit = genStrings(t, "crit", 2, []string{"add", "regexp"})
	}
	if chance(t, "extra", 40) {
		s.Extra = map[string]json.RawMessage{pick(t, "claim", "x", "aud", "source_endpoint", "foo"): raw(pick(t, "v", "s", "t"))}
	}
	if chance(t, "marks", 30) {
		if s.Extra == nil {
			s.Extra = map[string]json.RawMessage{}
		}
		s.Extra["trust_marks"] = raw([]any{map[string]any{"trust_mark_type": "https://tm.example", "trust_mark": "a.b.c", "more": 1}})
		s.Extra["trust_mark_issuers"] = raw(map[string]any{"https://tm.example": []string{"https://a.example"}, "*": []string{}})
		s.Extra["trust_mark_owners"] = raw(map[string]any{"https://tm.example": map[string]any{"sub": "https://o.example", "jwks": jwkSet(3)}})
	}
	return s
}

func (v CacheVal) make(t0 time.Time) any {
	stmts := func() (out oidfed.TrustChain) {
		for _, s := range v.Stmt {
			st, err := oidfed.ParseEntityStatement([]byte(s.token(t0)))
			if err != nil {
				panic(skipCase{"statement not parsed"})
			}
			out = append(out, st)
		}
		return
	}
	switch v.Kind {
	case "metadata":
		m := &oidfed.Metadata{}
		must(json.Unmarshal(v.Doc, m))
		return m
	case "statement":
		return stmts()[0]
	case "chain":
		return stmts()
	case "chains":
		c := stmts()
		return oidfed.TrustChains{c, c[:1]}
	case "jwks":
		if len(v.Keys) == 0 {
			return jwks.JWKS{}
		}
		return libJWKS(v.Keys...)
	case "strings":
		var s []string
		must(json.Unmarshal(v.Doc, &s))
		return s
	case "string":
		var s string
		must(json.Unmarshal(v.Doc, &s))
		return s
	case "int":
		var s int
		must(json.Unmarshal(v.Doc, &s))
		return s
	}
	panic(harnessErr{"kind " + v.Kind})
}

func (v CacheVal) target() any {
	switch v.Kind {
	case "metadata":
		return &oidfed.Metadata{}
	case "statement":
		return &oidfed.EntityStatement{}
	case "chain":
		return &oidfed.TrustChain{}
	case "chains":
		return &oidfed.TrustChains{}
	case "jwks":
		return &jwks.JWKS{}
	case "strings":
		return &[]string{}
	case "string":
		return new(string)
	case "int":
		return new(int)
	}
	panic(harnessErr{"kind " + v.Kind})
}

// observe renders everything observable about a value.
func observeValue(v any) string {
	switch x := v.(type) {
	case *oidfed.Metadata:
		return observeMetadata(x)
	case *oidfed.EntityStatement:
		return observeStatement(x)
	case oidfed.TrustChain:
		return observeChain(x)
	case *oidfed.TrustChain:
		return observeChain(*x)
	case oidfed.TrustChains:
		s := fmt.Sprint(len(x))
		for _, c := range x {
			s += "#" + observeChain(c)
		}
		return s
	case *oidfed.TrustChains:
		return observeValue(*x)
	case jwks.JWKS:
		return fmt.Sprint(x.Set == nil) + js(x)
	case *jwks.JWKS:
		return observeValue(*x)
	case *[]string:
		return observeValue(*x)
	case []string:
		return fmt.Sprintf("%q", x)
	case *string:
		return *x
	case *int:
		return fmt.Sprint(*x)
	}
	return fmt.Sprint(v)
}

func observeChain(c oidfed.TrustChain) string {
	s := fmt.Sprint(len(c))
	for _, st := range c {
		s += "|" + observeStatement(st)
	}
	return s + js(c.Messages())
}

func observeStatement(s *oidfed.EntityStatement) string {
	out := js(s.EntityStatementPayload) + fmt.Sprint(s.Issuer, s.Subject, s.IssuedAt.Unix(), s.ExpiresAt.Unix(), s.JWKS.Set == nil)
	for k := 1; k <= 5; k++ {
		out += fmt.Sprint(s.Verify(libJWKS(k)))
	}
	if s.Metadata != nil {
		out += observeMetadata(s.Metadata)
	}
	return out
}

// observeMetadata shows the encoding and which parameters count as present.
func observeMetadata(m *oidfed.Metadata) string {
	out := js(m)
	probe := oidfed.MetadataPolicies{}
	for _, et := range knownTypes() {
		pol := oidfed.MetadataPolicy{}
		for _, p := range knownParams[et] {
			switch p.Kind {
			case "s":
				pol[p.Name] = oidfed.MetadataPolicyEntry{"default": "DEFAULT"}
			case "l":
				pol[p.Name] = oidfed.MetadataPolicyEntry{"default": []any{"DEFAULT"}}
			case "b":
				pol[p.Name] = oidfed.MetadataPolicyEntry{"default": true}
			case "i":
				pol[p.Name] = oidfed.MetadataPolicyEntry{"default": 77777.0}
			}
		}
		switch et {
		case "openid_provider":
			probe.OpenIDProvider = pol
		case "openid_relying_party":
			probe.RelyingParty = pol
		case "oauth_authorization_server":
			probe.OAuthAuthorizationServer = pol
		case "oauth_client":
			probe.OAuthClient = pol
		case "oauth_resource":
			probe.OAuthProtectedResource = pol
		case "federation_entity":
			probe.FederationEntity = pol
		}
	}
	var cp oidfed.Metadata
	must(json.Unmarshal([]byte(js(m)), &cp)) // only to have an own copy of the maps
	func() {
		defer func() {
			if r := recover(); r != nil {
				out += " PANIC"
			}
		}()
		applied, err := m.ApplyPolicy(&probe)
		if err != nil {
			out += " ERR " + err.Error()
		} else {
			out += " DEFAULTS " + js(applied)
		}
	}()
	return out
}

// spoil modifies a value in place as far as possible.
func spoil(v any) {
	switch x := v.(type) {
	case *oidfed.Metadata:
		x.OpenIDProvider = nil
		if x.RelyingParty != nil {
			x.RelyingParty.ClientName = "SPOILED"
			for i := range x.RelyingParty.Contacts {
				x.RelyingParty.Contacts[i] = "SPOILED"
			}
		}
		for k := range x.Extra {
			x.Extra[k] = "SPOILED"
		}
	case *oidfed.EntityStatement:
		x.Issuer = "SPOILED"
		for i := range x.AuthorityHints {
			x.AuthorityHints[i] = "SPOILED"
		}
		if x.Metadata != nil {
			spoil(x.Metadata)
		}
		for k := range x.Extra {
			x.Extra[k] = "SPOILED"
		}
	case oidfed.TrustChain:
		for _, s := range x {
			spoil(s)
		}
	case *oidfed.TrustChain:
		spoil(*x)
	case *oidfed.TrustChains:
		for _, c := range *x {
			spoil(c)
		}
	case oidfed.TrustChains:
		for _, c := range x {
			spoil(c)
		}
	case []string:
		for i := range x {
			x[i] = "SPOILED"
		}
	case *[]string:
		spoil(*x)
	}
}

func (k CacheKey) key() string {
	if k.Subsys != "" {
		return cache.Key(k.Subsys, k.Rest)
	}
	return cache.EntityStmtCacheKey(k.Sub, k.Iss)
}

// id identifies the key independently of the library: two keys denote the same
// entry only if they are the same pair, or the very same raw key of the same
// subsystem.
func (k CacheKey) id() string { return fmt.Sprintf("%q", []string{k.Subsys, k.Rest, k.Sub, k.Iss}) }

// gocacheCases orders the cases that use the built-in default backend: it can
// not be emptied, so every case runs years after the one before.
var gocacheCases atomic.Int64

func execCache(backend string) func(c *Ctx, p CachePlan) *Violation {
	return func(c *Ctx, p CachePlan) *Violation {
		switch backend {
		case "redis":
			f := newFakeRedis()
			f.use()
			c.AtEnd(f.close)
		case "default":
			// the backend outlives the case; its janitor runs on the real clock, so
			// virtual time has to be ahead of it
			time.Sleep(100 * 365 * 24 * time.Hour)
		}
		prefix := ""
		if backend == "default" {
			prefix = fmt.Sprintf("case%d-", gocacheCases.Add(1))
		}
		t0 := time.Now()
		type entry struct {
			val int
			exp time.Time
			obs string
		}
		model := map[string]entry{}
		lens := map[string]bool{}
		for i := range p.Keys {
			p.Keys[i].Sub = prefix + p.Keys[i].Sub
			p.Keys[i].Rest = prefix + p.Keys[i].Rest
		}
		for i, o := range p.Ops {
			switch o.Op {
			case "wait":
				time.Sleep(time.Duration(o.Ms) * time.Millisecond)
			case "set":
				k := p.Keys[o.Key]
				v := p.Vals[o.Val].make(t0)
				obs := observeValue(p.Vals[o.Val].make(t0))
				if err := cache.Set(k.key(), v, time.Duration(o.TTL)); err != nil {
					return violf("set-error", "op %d: Set(%s %s) failed: %v", i, p.Vals[o.Val].Kind, js(p.Vals[o.Val]), err)
				}
				spoil(v)
				if o.TTL <= 0 {
					delete(model, k.id())
					c.Label("already expired")
				} else {
					model[k.id()] = entry{o.Val, time.Now().Add(time.Duration(o.TTL)), obs}
				}
			case "get":
				k := p.Keys[o.Key]
				e, ok := model[k.id()]
				kind := p.Vals[0].Kind
				if ok {
					kind = p.Vals[e.val].Kind
				}
				if ok && !time.Now().Before(e.exp) {
					ok = false
					c.NonTrivial()
					c.Label("lookup after expiry")
				}
				target := CacheVal{Kind: kind}.target()
				if !ok {
					// anything may be stored under another key, find out with a neutral target
					var anyV any
					found, err := cache.Get(k.key(), &anyV)
					if found {
						return violf("served-nothing-stored", "op %d: lookup of %s finds a value although nothing valid is stored under it (err %v)",
							i, k.id(), err)
					}
					c.Label("miss")
					continue
				}
				found, err := cache.Get(k.key(), target)
				if err != nil {
					return violf("get-error", "op %d: Get(%s) failed: %v for %s", i, kind, err, js(p.Vals[e.val]))
				}
				if !found {
					return violf("lost", "op %d: the %s stored under %s is not found, %v before its lifetime ends", i, kind, k.id(), time.Until(e.exp))
				}
				if got := observeValue(target); got != e.obs {
					return violf("not-equal", "op %d: %s comes back different:\n got  %s\n want %s", i, kind, got, e.obs)
				}
				spoil(target)
				c.NonTrivial()
				c.Label("hit %s", kind)
				lens[kind] = true
			}
		}
		return nil
	}
}

func init() {
	rule := "sequences of set/get/wait over 1-4 keys (look-alike subject/issuer pairs and subsystems) and 1-4 values of all cached types, " +
		"judged by a map with lifetimes; values are modified after storing and after lookup. Non-trivial: some lookup hits a stored " +
		"value or happens after its expiry"
	// the default backend has to come first: it is replaced for good by the others
	reg("C22", "default-backend", 6000, 150000, rule, genCachePlan, execCache("default")).bubble()
	reg("C22", "redis-backend", 6000, 150000, rule, genCachePlan, execCache("redis")).bubble()
}
