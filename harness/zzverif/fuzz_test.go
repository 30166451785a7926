package zzverif

// C08: nothing a remote party serves crashes the process.

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"testing/synctest"
	"time"

	"github.com/vmihailenco/msgpack/v5"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/internal/jwx"
	"github.com/go-oidfed/lib/jwks"
	"github.com/go-oidfed/lib/unixtime"
)

// ---- mutation of JSON documents

type jsonText string // raw JSON, written as it is

func (j jsonText) MarshalJSON() ([]byte, error) { return []byte(j), nil }

var nastyScalars = []any{
	nil, true, false, 0, -1, 1, 0.5, -0.5, 1e18, 1e300, -1e300, jsonText("9223372036854775808"), jsonText("1e400"), jsonText("-0"), "", "a", " ", "null",
	"https://ta.example", "https://leaf.example", ".", "..", "a.b.c", "@{mark}", "@{leaf}", "@{delegation}", "\x00", "\u2028", "%", "://", "https://", "mailto:x", "code",
	"openid_provider", "2026-01-01T00:00:00Z",
}

func genNasty(t *rapid.T, depth int) any {
	switch pick(t, "nasty", "scalar", "scalar", "scalar", "list", "object", "mixed", "deep", "wide", "json") {
	case "list":
		if depth <= 0 {
			return []any{}
		}
		l := []any{}
		for k := intn(t, "n", 0, 3); k > 0; k-- {
			l = append(l, genNasty(t, depth-1))
		}
		return l
	case "object":
		if depth <= 0 {
			return map[string]any{}
		}
		m := map[string]any{}
		for k := intn(t, "n", 0, 3); k > 0; k-- {
			m[pick(t, "k", memberPool...)] = genNasty(t, depth-1)
		}
		return m
	case "mixed":
		return []any{"a", 1, nil, []any{"b"}, map[string]any{"k": 1}, true, 0.5}[intn(t, "from", 0, 6):]
	case "deep":
		n := pick(t, "depth", 2, 5, 50)
		if chance(t, "objects", 50) {
			return jsonText(strings.Repeat(`{"a":`, n) + "1" + strings.Repeat("}", n))
		}
		return jsonText(strings.Repeat("[", n) + strings.Repeat("]", n))
	case "wide":
		l := make([]any, pick(t, "width", 8, 100))
		for i := range l {
			l[i] = fmt.Sprint("w", i%7)
		}
		return l
	case "json":
		return genAny(t, 2)
	}
	return nastyScalars[intn(t, "scalar", 0, len(nastyScalars)-1)]
}

var memberPool = []string{
	"iss", "sub", "iat", "exp", "jwks", "keys", "kty", "kid", "alg", "crv", "x", "y", "n", "e", "use", "metadata", "metadata_policy", "metadata_policy_crit", "crit",
	"constraints", "max_path_length", "naming_constraints", "permitted", "excluded", "allowed_entity_types", "authority_hints", "trust_marks", "trust_mark",
	"trust_mark_type", "trust_mark_issuers", "trust_mark_owners", "openid_provider", "openid_relying_party", "federation_entity", "oauth_client", "oauth_resource",
	"custom", "value", "add", "default", "one_of", "subset_of", "superset_of", "essential", "scope", "contacts", "grant_types", "display_name", "trust_chain",
	"federation_entities", "entity_id", "entity_types", "ui_infos", "delegation", "error", "id_token", "", "Extra", "ISS", "aud", "organization_name", "client_name",
}

// mutate changes one place of a document and returns the changed document.
func mutate(t *rapid.T, doc any) any {
	type place struct {
		get func() any
		set func(any)
		del func()
		in  map[string]any
		key string
	}
	root := doc
	places := []place{{get: func() any { return root }, set: func(v any) { root = v }}}
	var walk func(v any, set func(any))
	walk = func(v any, set func(any)) {
		switch x := v.(type) {
		case map[string]any:
			var ks []string
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				places = append(places, place{
					get: func() any { return x[k] }, set: func(v any) { x[k] = v }, del: func() { delete(x, k) }, in: x, key: k,
				})
				walk(x[k], func(v any) { x[k] = v })
			}
		case []any:
			for i := range x {
				places = append(places, place{
					get: func() any { return x[i] }, set: func(v any) { x[i] = v },
					del: func() { set(append(append([]any{}, x[:i]...), x[i+1:]...)) },
				})
				walk(x[i], func(v any) { x[i] = v })
			}
		}
	}
	walk(doc, func(v any) { root = v })
	lo := 1
	if len(places) == 1 || chance(t, "root", 2) {
		lo = 0
	}
	pl := places[intn(t, "place", lo, len(places)-1)]
	if lo == 0 {
		pl = places[0]
	} else if m, ok := doc.(map[string]any); ok && len(m) > 0 && chance(t, "top", 25) {
		// a member of the document itself
		k := pick(t, "member", sortedKeys(m)...)
		for _, x := range places {
			if x.key == k && x.in != nil && js(x.in) == js(m) {
				pl = x
				break
			}
		}
	}
	switch pick(t, "change", "replace", "replace", "replace", "null", "delete", "wrap", "unwrap", "swap", "insert", "insert", "rename", "empty", "repeat", "type") {
	case "replace":
		pl.set(genNasty(t, 2))
	case "null":
		pl.set(nil)
	case "delete":
		if pl.del != nil {
			pl.del()
		} else {
			pl.set(map[string]any{})
		}
	case "wrap":
		v := pl.get()
		pl.set(pick[any](t, "wrapped", []any{v}, []any{v, v}, map[string]any{"a": v}, []any{v, nil}))
	case "unwrap":
		switch x := pl.get().(type) {
		case []any:
			if len(x) > 0 {
				pl.set(x[0])
			}
		case map[string]any:
			for _, k := range sortedKeys(x) {
				pl.set(x[k])
				break
			}
		}
	case "swap":
		o := places[intn(t, "with", 0, len(places)-1)]
		v := deepCopy(o.get())
		pl.set(v)
	case "insert":
		switch x := pl.get().(type) {
		case map[string]any:
			x[pick(t, "member", memberPool...)] = genNasty(t, 2)
		case []any:
			pl.set(append(append([]any{}, x...), genNasty(t, 1)))
		default:
			pl.set(genNasty(t, 2))
		}
	case "rename":
		if pl.in != nil {
			v := pl.in[pl.key]
			delete(pl.in, pl.key)
			pl.in[pick(t, "to", memberPool...)] = v
		}
	case "empty":
		switch pl.get().(type) {
		case map[string]any:
			pl.set(map[string]any{})
		case []any:
			pl.set([]any{})
		case string:
			pl.set("")
		default:
			pl.set(0)
		}
	case "repeat":
		if x, ok := pl.get().([]any); ok && len(x) > 0 {
			pl.set(append(append([]any{}, x...), x...))
		}
	case "type":
		switch x := pl.get().(type) {
		case string:
			pl.set(pick[any](t, "as", []any{x}, strings.Split(x, ""), map[string]any{x: x}, len(x), x == ""))
		case bool:
			pl.set(fmt.Sprint(x))
		case float64, int, int64:
			pl.set(pick[any](t, "as", fmt.Sprint(x), []any{x}, x != 0, -1))
		default:
			pl.set(js(x))
		}
	}
	return root
}

func sortedKeys[V any, M ~map[string]V](m M) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func deepCopy(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			m[k] = deepCopy(e)
		}
		return m
	case []any:
		l := make([]any, len(x))
		for i := range x {
			l[i] = deepCopy(x[i])
		}
		return l
	}
	return v
}

// mutateText changes the bytes of a document or token.
func mutateText(t *rapid.T, s string) string {
	if s == "" {
		return pick(t, "text", "null", "{}", "[]", "x", ".", "..", "...", "\x00")
	}
	i := intn(t, "at", 0, len(s)-1)
	switch pick(t, "edit", "cut", "drop", "flip", "insert", "double", "tail", "head", "all") {
	case "cut":
		return s[:i]
	case "drop":
		return s[:i] + s[i+1:]
	case "flip":
		return s[:i] + string([]byte{s[i] ^ byte(1<<intn(t, "bit", 0, 7))}) + s[i+1:]
	case "insert":
		return s[:i] + pick(t, "what", "\"", "{", "}", "[", "]", ",", ":", ".", "\\", "\x00", "\xff", "null", "-", "1e9", " ", "\\u0000", "\\ud800") + s[i:]
	case "double":
		return s[:i] + s[i:] + s[i:]
	case "tail":
		return s[i:]
	case "head":
		return s[:i] + s
	}
	return pick(t, "instead", "", "null", "{}", "[]", "[null]", "\"\"", "0", ".", "..", "a.b.c", "eyJhbGciOiJub25lIn0..", "e30.e30.e30", "<html>", "\xff\xfe", "{\"payload\":\"e30\",\"signatures\":[]}")
}

// ---- documents on their own

// DocPlan is one document in some encoding.
type DocPlan struct {
	Kind string `json:"kind"`
	Via  string `json:"via"` // json, jwt, yaml, set
	Text []byte `json:"text"`
	Head []byte `json:"head,omitempty"` // JWT header, if not the usual one
	Edit []byte `json:"edit,omitempty"` // the token itself, if edited
}

func genDocPlan(t *rapid.T) DocPlan {
	names := schemaNames()
	p := DocPlan{Kind: names[intn(t, "kind", 0, len(names)-1)], Via: "json"}
	if chance(t, "statement", 40) {
		p.Kind = pick(t, "big kind", "statement", "resolve", "metadata", "mark", "delegation", "collection", "policies")
	}
	o := docOpts{share: pick(t, "share", 30, 60, 80), empty: pick(t, "empties", 0, 20), extra: pick(t, "extras", 0, 2), fold: pick(t, "folds", 0, 20), depth: 4}
	var doc any = generic(genDoc(t, p.Kind, o))
	for k := intn(t, "nmutations", 1, 4); k > 0; k-- {
		doc = mutate(t, doc)
	}
	text := js(doc)
	if chance(t, "bytes", 15) {
		text = mutateText(t, text)
	}
	p.Text = []byte(text)
	if jwtTypes[p.Kind] != "" && chance(t, "jwt", 75) {
		p.Via = "jwt"
		switch pick(t, "token", "good", "good", "good", "head", "head", "edit") {
		case "head":
			h := map[string]any{"alg": "ES256", "kid": key(1).Kid, "typ": jwtTypes[p.Kind]}
			var hd any = h
			if chance(t, "special header", 60) {
				h[pick(t, "h", "alg", "typ", "kid", "crit", "b64", "jwk", "x5c", "zip", "cty", "jku", "enc")] = pick[any](
					t, "hv", nil, "", "none", "HS256", 7, []any{}, []any{"b64"}, []any{"exp"}, false, map[string]any{}, key(1).JWK, "DEF", []any{nil},
				)
			} else {
				hd = mutate(t, generic(h))
			}
			p.Head = []byte(js(hd))
		case "edit":
			tok := signJWT(key(1), jwtTypes[p.Kind], p.Text)
			p.Edit = []byte(mutateText(t, tok))
		}
	}
	if p.Kind == "markspec" && chance(t, "yaml", 50) {
		p.Via = "yaml"
	}
	if chance(t, "key set", 8) {
		p.Kind, p.Via = "jwks", "set"
		var set any = generic(genKeySet(t))
		for k := intn(t, "nsetmutations", 1, 3); k > 0; k-- {
			set = mutate(t, set)
		}
		p.Text = []byte(js(set))
	}
	return p
}

func (p *DocPlan) token() []byte {
	if p.Edit != nil {
		return p.Edit
	}
	if p.Head != nil {
		in := b64.EncodeToString(p.Head) + "." + b64.EncodeToString(p.Text)
		return []byte(in + "." + b64.EncodeToString(rawSign(key(1), []byte(in))))
	}
	return []byte(signJWT(key(1), jwtTypes[p.Kind], p.Text))
}

// exercise calls the methods without parameters of a value.
func exercise(v any) {
	rv := reflect.ValueOf(v)
	if !rv.IsValid() || rv.Kind() == reflect.Ptr && rv.IsNil() {
		return
	}
	switch x := v.(type) { // no key set: its accessors are those of a nil interface
	case jwks.JWKS:
		if x.Set == nil {
			return
		}
	case *jwks.JWKS:
		if x.Set == nil {
			return
		}
	}
	rt := rv.Type()
	for i := 0; i < rt.NumMethod(); i++ {
		m := rt.Method(i)
		if m.Type.NumIn() == 1 && m.Name != "String" {
			rv.Method(i).Call(nil)
		}
	}
	json.Marshal(v) //nolint:errcheck
}

// exerciseStatement uses what a statement consists of.
func exerciseStatement(s *oidfed.EntityStatement, keys jwks.JWKS) {
	if s == nil {
		return
	}
	exercise(s)
	exercise(s.EntityStatementPayload)
	s.Verify(keys)
	s.Verify(s.JWKS)
	exerciseMetadata(s.Metadata)
	exercise(s.MetadataPolicy)
	if b, err := msgpack.Marshal(s); err == nil {
		var c oidfed.EntityStatement
		if msgpack.Unmarshal(b, &c) == nil {
			exercise(c)
		}
	}
	for i := range s.TrustMarks {
		exerciseMarkInfo(&s.TrustMarks[i], s, keys)
	}
	s.TrustMarks.VerifiedFederation(&s.EntityStatementPayload)
	s.TrustMarks.FindByID("x")
	if s.Metadata != nil && s.MetadataPolicy != nil {
		if m, err := s.Metadata.ApplyPolicy(s.MetadataPolicy); err == nil {
			exerciseMetadata(m)
		}
		if p, err := oidfed.MergeMetadataPolicies(s.MetadataPolicy, s.MetadataPolicy); err == nil {
			exercise(p)
		}
	}
}

func exerciseMarkInfo(i *oidfed.TrustMarkInfo, ta *oidfed.EntityStatement, keys jwks.JWKS) {
	exercise(i)
	var owners []oidfed.TrustMarkOwnerSpec
	if ta != nil {
		i.VerifyFederation(&ta.EntityStatementPayload) //nolint:errcheck
		for _, o := range ta.TrustMarkOwners {
			owners = append(owners, o)
			break
		}
	}
	i.VerifyExternal(keys)            //nolint:errcheck
	i.VerifyExternal(keys, owners...) //nolint:errcheck
	if m, err := i.TrustMark(); err == nil {
		exerciseMark(m, ta, keys)
	}
}

func exerciseMark(m *oidfed.TrustMark, ta *oidfed.EntityStatement, keys jwks.JWKS) {
	if m == nil {
		return
	}
	exercise(m)
	m.VerifyExternal(keys)                                                                 //nolint:errcheck
	m.VerifyExternal(keys, oidfed.TrustMarkOwnerSpec{ID: "https://x.example", JWKS: keys}) //nolint:errcheck
	if ta != nil {
		m.VerifyFederation(&ta.EntityStatementPayload) //nolint:errcheck
	}
	if d, err := m.Delegation(); err == nil && d != nil {
		exercise(d)
		d.VerifyExternal(keys) //nolint:errcheck
		if ta != nil {
			d.VerifyFederation(&ta.EntityStatementPayload) //nolint:errcheck
		}
	}
}

func exerciseMetadata(m *oidfed.Metadata) {
	if m == nil {
		return
	}
	exercise(m)
	m.IterateStringClaim("organization_name", func(string, string) {})
	m.IterateStringClaim("jwks", func(string, string) {})
	m.IterateStringSliceClaim("contacts", func(string, []string) {})
	m.IterateStringSliceClaim("scope", func(string, []string) {})
	for _, et := range append([]string{"custom_type", "", "openid_provider", "federation_entity"}, m.GuessEntityTypes()...) {
		var anyM map[string]any
		m.FindEntityMetadata(et, &anyM) //nolint:errcheck
		var op oidfed.OpenIDProviderMetadata
		m.FindEntityMetadata(et, &op) //nolint:errcheck
	}
	for _, e := range []any{m.OpenIDProvider, m.RelyingParty, m.OAuthAuthorizationServer, m.OAuthClient, m.OAuthProtectedResource, m.FederationEntity} {
		exercise(e)
	}
}

func execDoc(c *Ctx, p DocPlan) *Violation {
	newWorld()
	keys := libJWKS(1, 2)
	used := false
	got := func(err error) bool {
		used = used || err == nil
		return err == nil
	}
	switch p.Via {
	case "json", "set":
		if p.Via == "set" {
			var s jwks.JWKS
			if got(json.Unmarshal(p.Text, &s)) {
				exercise(s)
				if b, err := msgpack.Marshal(s); err == nil {
					var s2 jwks.JWKS
					msgpack.Unmarshal(b, &s2) //nolint:errcheck
				}
				if m, err := jwx.Parse([]byte(signJWT(key(1), "x", []byte("{}")))); err == nil {
					m.VerifyWithSet(s) //nolint:errcheck
				}
			}
			break
		}
		v := schemas[p.Kind].New()
		if got(json.Unmarshal(p.Text, v)) {
			exercise(v)
			if b, err := msgpack.Marshal(v); err == nil {
				msgpack.Unmarshal(b, schemas[p.Kind].New()) //nolint:errcheck
			}
			switch x := v.(type) {
			case *oidfed.Metadata:
				exerciseMetadata(x)
			case *oidfed.EntityStatementPayload:
				exerciseStatement(&oidfed.EntityStatement{EntityStatementPayload: *x}, keys)
			case *oidfed.TrustMarkInfo:
				exerciseMarkInfo(x, nil, keys)
			case *oidfed.MetadataPolicies:
				oidfed.MergeMetadataPolicies(x, x) //nolint:errcheck
			}
		}
	case "yaml":
		v := schemas[p.Kind].New()
		if got(yaml.Unmarshal(p.Text, v)) {
			exercise(v)
			yaml.Marshal(v) //nolint:errcheck
		}
	case "jwt":
		tok := p.token()
		if m, err := jwx.Parse(tok); err == nil {
			exercise(m)
			m.VerifyWithSet(keys)        //nolint:errcheck
			m.VerifyWithSet(jwks.JWKS{}) //nolint:errcheck
			m.VerifyType(jwtTypes[p.Kind])
		}
		jwx.GetExp(tok) //nolint:errcheck
		if s, err := oidfed.ParseEntityStatement(tok); got(err) {
			exerciseStatement(s, keys)
		}
		if m, err := oidfed.ParseTrustMark(tok); got(err) {
			exerciseMark(m, nil, keys)
		}
		if r, err := oidfed.ParseResolveResponse(tok); got(err) {
			exerciseResolved(&r.ResolveResponsePayload, keys)
			exercise(r)
		}
		mark := &oidfed.TrustMarkInfo{TrustMarkType: "https://tm.example/a", TrustMarkJWT: string(tok)}
		exerciseMarkInfo(mark, nil, keys)
		// as a delegation
		outer := signJWT(key(1), markTyp, []byte(js(map[string]any{
			"iss": "https://x.example", "sub": "https://y.example", "trust_mark_type": "https://tm.example/a", "iat": 1, "delegation": string(tok),
		})))
		if m, err := oidfed.ParseTrustMark([]byte(outer)); err == nil {
			exerciseMark(m, nil, keys)
		}
	}
	c.NonTrivialIf(used)
	c.Label("%s as %s", p.Kind, p.Via)
	return nil
}

func exerciseResolved(r *oidfed.ResolveResponsePayload, keys jwks.JWKS) {
	if r == nil {
		return
	}
	exercise(r)
	exerciseMetadata(r.Metadata)
	for i := range r.TrustMarks {
		exerciseMarkInfo(&r.TrustMarks[i], nil, keys)
	}
	for _, m := range r.TrustChain {
		if m == nil {
			continue
		}
		if s, err := oidfed.ParseEntityStatement(m.RawJWT); err == nil {
			exerciseStatement(s, keys)
		}
	}
}

// ---- policies

type NastyPolicyPlan struct {
	Meta json.RawMessage   `json:"meta"`
	Pols []json.RawMessage `json:"pols"`
}

func genNastyPolicyPlan(t *rapid.T) NastyPolicyPlan {
	var p NastyPolicyPlan
	meta, ps := genPolicyCase(t, intn(t, "npolicies", 1, 4), rapid.Bool().Draw(t, "repair"))
	var m any = generic(meta)
	for k := intn(t, "meta mutations", 0, 2); k > 0; k-- {
		m = mutate(t, m)
	}
	p.Meta = raw(m)
	for _, x := range ps {
		var d any = generic(x)
		for k := pick(t, "policy mutations", 0, 1, 1, 2); k > 0; k-- {
			d = mutate(t, d)
		}
		p.Pols = append(p.Pols, raw(d))
	}
	return p
}

func execNastyPolicy(c *Ctx, p NastyPolicyPlan) *Violation {
	newWorld()
	var ps []*oidfed.MetadataPolicies
	for _, b := range p.Pols {
		var x oidfed.MetadataPolicies
		if json.Unmarshal(b, &x) != nil {
			continue
		}
		for et, pol := range map[string]oidfed.MetadataPolicy{
			"openid_provider": x.OpenIDProvider, "openid_relying_party": x.RelyingParty, "oauth_client": x.OAuthClient, "federation_entity": x.FederationEntity,
		} {
			pol.Verify(et) //nolint:errcheck
		}
		for et, pol := range x.Extra {
			pol.Verify(et) //nolint:errcheck
			for _, e := range pol {
				for _, v := range []any{nil, "a", 1, []any{"a", 1}, []string{"a"}, map[string]any{}, 0.5, true, []any{nil}} {
					e.ApplyTo(v, v != nil, "x") //nolint:errcheck
				}
			}
		}
		ps = append(ps, &x)
	}
	var m oidfed.Metadata
	if json.Unmarshal(p.Meta, &m) == nil {
		for _, x := range ps {
			if out, err := m.ApplyPolicy(x); err == nil {
				exerciseMetadata(out)
				c.NonTrivial()
			}
		}
		if merged, err := oidfed.MergeMetadataPolicies(ps...); err == nil {
			if out, err := m.ApplyPolicy(merged); err == nil {
				exerciseMetadata(out)
				c.NonTrivial()
			}
		}
	} else {
		oidfed.MergeMetadataPolicies(ps...) //nolint:errcheck
	}
	return nil
}

// ---- a whole federation

const (
	fzTA   = "https://ta.example"
	fzIA   = "https://ia.example"
	fzLeaf = "https://leaf.example"
	fzTMI  = "https://tmi.example"
	fzOwn  = "https://owner.example"
	fzMark = "https://tm.example/a"
)

// ServedDoc is something served, by name.
type ServedDoc struct {
	Name string `json:"name"`
	Text []byte `json:"text"`           // payload of a token, or the body; @{name} stands for the token of that document
	Typ  string `json:"typ,omitempty"`  // of a token
	Key  int    `json:"key,omitempty"`  // signing it
	Head []byte `json:"head,omitempty"` // header, if unusual
	Edit bool   `json:"edit,omitempty"` // Text is everything
}

type NastyFedPlan struct {
	Docs    []ServedDoc `json:"docs"`
	Changed []string    `json:"changed"`
	Ask     []string    `json:"ask"`
}

const fzNow = 946684800 // when a bubble starts

func genNastyFedPlan(t *rapid.T) NastyFedPlan {
	var p NastyFedPlan
	o := docOpts{share: pick(t, "share", 20, 50), extra: pick(t, "extras", 0, 1), depth: 2}
	stmt := func(name string, k int, iss, sub string, keys int, more map[string]any) {
		m := map[string]any{"iss": iss, "sub": sub, "iat": fzNow - 100, "exp": fzNow + 100000, "jwks": jwkSet(keys)}
		for k, v := range more {
			m[k] = v
		}
		p.Docs = append(p.Docs, ServedDoc{Name: name, Text: raw(m), Typ: entityTyp, Key: k})
	}
	auth := func(id string, more map[string]any) map[string]any {
		fe := map[string]any{
			"federation_fetch_endpoint": id + "/fetch", "federation_list_endpoint": id + "/list", "organization_name": "Org", "contacts": []string{"a", "b"},
		}
		for k, v := range more {
			fe[k] = v
		}
		return map[string]any{"federation_entity": fe}
	}
	pols := func() any {
		_, ps := genPolicyCase(t, 1, true)
		return ps[0]
	}
	leafMeta := genDoc(t, "metadata", o)
	op := map[string]any{}
	if x, ok := leafMeta["openid_provider"].(map[string]any); ok {
		op = x
	}
	for k, v := range map[string]any{
		"issuer": fzLeaf, "authorization_endpoint": fzLeaf + "/auth?x=1", "token_endpoint": fzLeaf + "/token", "response_types_supported": []string{"code"},
		"scopes_supported": []string{"openid"}, "grant_types_supported": []string{"authorization_code"}, "client_registration_types_supported": []string{"automatic"},
		"organization_name": "Leaf", "contacts": []string{"x"},
	} {
		op[k] = v
	}
	leafMeta["openid_provider"] = op
	leafMeta["custom_type"] = map[string]any{"organization_name": "Custom", "contacts": []string{"x"}}

	p.Docs = append(p.Docs, ServedDoc{Name: "delegation", Typ: delegTyp, Key: 6, Text: raw(map[string]any{
		"iss": fzOwn, "sub": fzTMI, "trust_mark_type": fzMark, "iat": fzNow - 100, "exp": fzNow + 100000,
	})})
	p.Docs = append(p.Docs, ServedDoc{Name: "mark", Typ: markTyp, Key: 4, Text: raw(map[string]any{
		"iss": fzTMI, "sub": fzLeaf, "trust_mark_type": fzMark, "iat": fzNow - 100, "exp": fzNow + 100000, "delegation": "@{delegation}",
	})})
	marks := []any{map[string]any{"trust_mark_type": fzMark, "trust_mark": "@{mark}"}}
	taMore := map[string]any{
		"metadata":           auth(fzTA, map[string]any{"federation_resolve_endpoint": fzTA + "/resolve", "federation_collection_endpoint": fzTA + "/collection"}),
		"trust_mark_issuers": map[string]any{fzMark: []string{fzTMI}, "https://tm.example/b": []string{}},
		"trust_mark_owners":  map[string]any{fzMark: map[string]any{"sub": fzOwn, "jwks": jwkSet(6)}},
	}
	stmt("ta", 1, fzTA, fzTA, 1, taMore)
	stmt("ia", 2, fzIA, fzIA, 2, map[string]any{"metadata": auth(fzIA, nil), "authority_hints": []string{fzTA}})
	stmt("leaf", 3, fzLeaf, fzLeaf, 3, map[string]any{
		"metadata": leafMeta, "authority_hints": []string{fzIA, fzTA}, "trust_marks": marks,
	})
	stmt("tmi", 4, fzTMI, fzTMI, 4, map[string]any{
		"metadata": auth(fzTMI, map[string]any{"federation_trust_mark_endpoint": fzTMI + "/mark"}), "authority_hints": []string{fzTA}, "trust_marks": marks,
	})
	constraints := func() any { return genDoc(t, "constraints", docOpts{share: 40, depth: 2}) }
	sub := func(name string, k int, iss, sub string, keys int) {
		more := map[string]any{}
		if chance(t, "policy", 60) {
			more["metadata_policy"] = pols()
		}
		if chance(t, "constraints", 25) {
			more["constraints"] = constraints()
		}
		if chance(t, "crit", 10) {
			more["metadata_policy_crit"] = []string{"value"}
		}
		stmt(name, k, iss, sub, keys, more)
	}
	sub("ta-ia", 1, fzTA, fzIA, 2)
	sub("ta-leaf", 1, fzTA, fzLeaf, 3)
	sub("ta-tmi", 1, fzTA, fzTMI, 4)
	sub("ia-leaf", 2, fzIA, fzLeaf, 3)
	body := func(name string, v any) { p.Docs = append(p.Docs, ServedDoc{Name: name, Text: raw(v)}) }
	body("ta-list", []string{fzIA, fzLeaf, fzTMI})
	body("ia-list", []string{fzLeaf})
	body("tmi-list", []string{})
	res := map[string]any{
		"iss": fzTA, "sub": fzLeaf, "iat": fzNow - 10, "exp": fzNow + 1000, "metadata": leafMeta, "trust_marks": marks,
		"trust_chain": []string{"@{leaf}", "@{ia-leaf}", "@{ta-ia}", "@{ta}"},
	}
	p.Docs = append(p.Docs, ServedDoc{Name: "resolve", Typ: "resolve-response+jwt", Key: 1, Text: raw(res)})
	body("collection", map[string]any{"federation_entities": []any{map[string]any{
		"entity_id": fzLeaf, "entity_types": []string{"openid_provider"}, "trust_marks": marks, "trust_chain": []string{"@{leaf}", "@{ta-leaf}"},
		"ui_infos": map[string]any{"openid_provider": map[string]any{"display_name": "x", "keywords": []string{"a"}}},
	}}, "last_updated": fzNow, "next_entity_id": "x"})
	body("token", genDoc(t, "token", docOpts{share: 50, extra: 2, depth: 2}))
	p.Docs = append(p.Docs, ServedDoc{Name: "issued-mark", Typ: markTyp, Key: 4, Text: raw(map[string]any{
		"iss": fzTMI, "sub": fzLeaf, "trust_mark_type": fzMark, "iat": fzNow - 100, "exp": fzNow + 100000, "delegation": "@{delegation}",
	})})

	for k := pick(t, "changed docs", 1, 1, 1, 2, 3); k > 0; k-- {
		d := &p.Docs[intn(t, "doc", 0, len(p.Docs)-1)]
		if d.Edit {
			continue
		}
		p.Changed = append(p.Changed, d.Name)
		switch pick(t, "how", "json", "json", "json", "json", "json", "json", "text", "head", "token", "key") {
		case "json":
			var v any
			if json.Unmarshal(d.Text, &v) != nil {
				continue
			}
			for j := intn(t, "nmutations", 1, 4); j > 0; j-- {
				v = mutate(t, v)
			}
			d.Text = raw(v)
		case "text":
			d.Text = []byte(mutateText(t, string(d.Text)))
		case "head":
			if d.Typ != "" {
				d.Head = []byte(js(mutate(t, generic(map[string]any{"alg": "ES256", "kid": key(d.Key).Kid, "typ": d.Typ}))))
			}
		case "token":
			if d.Typ != "" {
				d.Text, d.Edit = []byte(mutateText(t, signJWT(key(d.Key), d.Typ, d.Text))), true
			}
		case "key":
			if d.Typ != "" {
				d.Key = intn(t, "other key", 1, 7)
			}
		}
	}
	all := append([]string{}, nastyAsks...)
	n := intn(t, "asks", 2, 6)
	for ; n > 0 && len(all) > 0; n-- {
		i := intn(t, "ask", 0, len(all)-1)
		p.Ask = append(p.Ask, all[i])
		all = append(all[:i:i], all[i+1:]...)
	}
	return p
}

var nastyAsks = []string{"chains", "types", "payload", "collect", "filtered", "ops", "configs", "marks", "flow", "remote", "smart", "refresh", "remote-marks"}

func (p *NastyFedPlan) install(w *World) map[string]string {
	toks := map[string]string{}
	byName := map[string]*ServedDoc{}
	for i := range p.Docs {
		byName[p.Docs[i].Name] = &p.Docs[i]
	}
	var tok func(name string, depth int) string
	tok = func(name string, depth int) string {
		if s, ok := toks[name]; ok {
			return s
		}
		d := byName[name]
		if d == nil || depth > 4 {
			return "x.y.z"
		}
		text := string(d.Text)
		for _, n := range []string{"mark", "delegation", "leaf", "ia-leaf", "ta-ia", "ta-leaf", "ta"} {
			if n != name && strings.Contains(text, "@{"+n+"}") {
				text = strings.ReplaceAll(text, "@{"+n+"}", tok(n, depth+1))
			}
		}
		switch {
		case d.Edit || d.Typ == "":
			toks[name] = text
		case d.Head != nil:
			in := b64.EncodeToString(d.Head) + "." + b64.EncodeToString([]byte(text))
			toks[name] = in + "." + b64.EncodeToString(rawSign(key(d.Key), []byte(in)))
		default:
			toks[name] = signJWT(key(d.Key), d.Typ, []byte(text))
		}
		return toks[name]
	}
	serve := func(u, ct string, f func(q url.Values) string) {
		w.handle(u, func(_ *http.Request, q url.Values) Resp {
			name := f(q)
			if name == "" {
				return httpResp("404json", "", "")
			}
			return Resp{CT: ct, Body: []byte(toks[name])}
		})
	}
	for i := range p.Docs {
		tok(p.Docs[i].Name, 0)
	}
	one := func(name string) func(url.Values) string { return func(url.Values) string { return name } }
	const es = "application/entity-statement+jwt"
	for id, n := range map[string]string{fzTA: "ta", fzIA: "ia", fzLeaf: "leaf", fzTMI: "tmi"} {
		serve(wellKnown(id), es, one(n))
		serve(id+"/fetch", es, func(q url.Values) string {
			sub := map[string]string{fzIA: "ia", fzLeaf: "leaf", fzTMI: "tmi"}[q.Get("sub")]
			if _, ok := byName[n+"-"+sub]; ok {
				return n + "-" + sub
			}
			return ""
		})
		serve(id+"/list", "application/json", one(n+"-list"))
	}
	serve(fzTA+"/resolve", "application/resolve-response+jwt", one("resolve"))
	serve(fzTA+"/collection", "application/json", one("collection"))
	serve(fzLeaf+"/token", "application/json", one("token"))
	serve(fzTMI+"/mark", "application/trust-mark+jwt", one("issued-mark"))
	return toks
}

func execNastyFed(c *Ctx, p NastyFedPlan) *Violation {
	w := newWorld()
	time.Sleep(500 * time.Millisecond)
	toks := p.install(w)
	anchors := oidfed.TrustAnchors{{EntityID: fzTA}}
	keys := libJWKS(1, 2, 3, 4)
	req := apimodel.ResolveRequest{Subject: fzLeaf, TrustAnchor: []string{fzTA}}
	creq := apimodel.EntityCollectionRequest{TrustAnchor: fzTA}
	found := 0
	seen := map[string]bool{} // every statement of a case is exercised once
	statement := func(s *oidfed.EntityStatement) {
		if s != nil && !seen[s.Issuer+" "+s.Subject] {
			seen[s.Issuer+" "+s.Subject] = true
			exerciseStatement(s, keys)
		}
	}
	entities := func(es []*oidfed.CollectedEntity) {
		for _, e := range es {
			found++
			exercise(e)
			if e == nil {
				continue
			}
			for i := range e.TrustMarks {
				exerciseMarkInfo(&e.TrustMarks[i], nil, keys)
			}
		}
	}
	for _, ask := range p.Ask {
		switch ask {
		case "chains", "types":
			for _, sub := range []string{fzLeaf, fzTMI, fzTA} {
				r := oidfed.TrustResolver{TrustAnchors: anchors, StartingEntity: sub}
				if ask == "types" {
					r.Types = []string{"openid_provider", "custom_type"}
				}
				chains := r.ResolveToValidChains()
				chains = append(chains, r.ResolveToValidChainsWithoutVerifyingMetadata()...)
				for _, ch := range chains {
					found++
					exercise(ch)
					if m, err := ch.Metadata(); err == nil {
						exerciseMetadata(m)
					}
					for _, s := range ch {
						statement(s)
					}
				}
				chains.SortAsc(oidfed.TrustChainScoringPathLen)
				chains.SortDesc(oidfed.TrustChainScoringPathLen)
				chains.Filter(oidfed.TrustChainsFilterTrustAnchor(fzTA), oidfed.TrustChainsFilterMaxPathLength(1))
				r = oidfed.TrustResolver{TrustAnchors: anchors, StartingEntity: sub}
				r.Resolve()
				r.Chains()
				r.VerifySignatures()
				r.Chains()
			}
		case "payload":
			for _, sub := range []string{fzLeaf, fzTMI, fzIA} {
				q := req
				q.Subject = sub
				if r, err := (oidfed.LocalMetadataResolver{}).ResolveResponsePayload(q); err == nil {
					found++
					exerciseResolved(&r, keys)
				}
			}
		case "collect":
			entities((&oidfed.SimpleEntityCollector{}).CollectEntities(creq))
			q := creq
			q.Claims = []string{"entity_types", "ui_infos", "trust_marks"}
			q.NameQuery = "lea"
			entities((&oidfed.SimpleEntityCollector{}).CollectEntities(q))
			q.NameQuery, q.TrustMarkTypes, q.EntityTypes = "", []string{fzMark}, []string{"openid_provider", "custom_type"}
			entities((&oidfed.SimpleEntityCollector{}).CollectEntities(q))
		case "ops":
			entities((&oidfed.SimpleOPCollector{}).CollectEntities(creq))
			entities(oidfed.VerifiedChainsEntityCollector{}.CollectEntities(creq))
		case "filtered":
			entities(oidfed.FilterableVerifiedChainsEntityCollector{Filters: []oidfed.EntityCollectionFilter{
				oidfed.EntityCollectionFilterOPs(), oidfed.EntityCollectionFilterOPSupportedGrantTypesIncludes([]string{fzTA}, "authorization_code"),
				oidfed.EntityCollectionFilterOPSupportedScopesIncludes([]string{fzTA}, "openid"),
				oidfed.EntityCollectionFilterOPSupportsAutomaticRegistration([]string{fzTA}),
			}}.CollectEntities(creq))
		case "configs":
			for _, id := range []string{fzTA, fzIA, fzLeaf, fzTMI} {
				for i := 0; i < 2; i++ { // the second from the cache
					if s, err := oidfed.GetEntityConfiguration(id); err == nil {
						found++
						statement(s)
					}
				}
			}
			for _, s := range [][2]string{{fzTA, fzIA}, {fzIA, fzLeaf}, {fzTA, fzTMI}} {
				if st, err := oidfed.FetchEntityStatement(s[0]+"/fetch", s[1], s[0]); err == nil {
					found++
					statement(st)
				}
			}
		case "marks", "remote-marks":
			if ask == "remote-marks" {
				oidfed.DefaultMetadataResolver = oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: fzTA + "/resolve"}
			}
			ta, err := oidfed.GetEntityConfiguration(fzTA)
			if err == nil && ta != nil {
				info := &oidfed.TrustMarkInfo{TrustMarkType: fzMark, TrustMarkJWT: toks["mark"]}
				exerciseMarkInfo(info, ta, keys)
				if leaf, err := oidfed.GetEntityConfiguration(fzLeaf); err == nil {
					found++
					leaf.TrustMarks.VerifiedFederation(&ta.EntityStatementPayload)
				}
			}
			oidfed.DefaultMetadataResolver = oidfed.LocalMetadataResolver{}
		case "flow":
			leaf := must1(oidfed.NewFederationLeaf(
				"https://rp.example", nil, anchors, &oidfed.Metadata{}, oidfed.NewEntityStatementSigner(key(30).Signer, libAlg("ES256")), 3600,
				key(30).Signer, libAlg("ES256"), nil,
			))
			for _, r := range []oidfed.MetadataResolver{
				oidfed.LocalMetadataResolver{}, oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: fzTA + "/resolve"}, oidfed.SmartRemoteMetadataResolver{},
			} {
				oidfed.DefaultMetadataResolver = r
				if _, err := leaf.GetAuthorizationURL(fzLeaf, "https://rp.example/cb", "s", "openid", nil); err == nil {
					found++
				}
				if tok, errRes, err := leaf.CodeExchange(fzLeaf, "c", "https://rp.example/cb", nil); err == nil {
					found++
					exercise(tok)
					exercise(errRes)
				}
			}
			oidfed.DefaultMetadataResolver = oidfed.LocalMetadataResolver{}
		case "remote", "smart":
			var r oidfed.MetadataResolver = oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: fzTA + "/resolve"}
			var col oidfed.EntityCollector = oidfed.SimpleRemoteEntityCollector{EntityCollectionEndpoint: fzTA + "/collection"}
			if ask == "smart" {
				r, col = oidfed.SmartRemoteMetadataResolver{}, oidfed.SmartRemoteEntityCollector{TrustAnchors: []string{fzTA, fzIA}}
			}
			if m, err := r.Resolve(req); err == nil {
				found++
				exerciseMetadata(m)
			}
			if res, err := r.ResolveResponsePayload(req); err == nil {
				exerciseResolved(&res, keys)
			}
			r.ResolvePossible(req)
			entities(col.CollectEntities(creq))
			oidfed.DefaultMetadataResolver = r
			entities(oidfed.FilterableVerifiedChainsEntityCollector{Collector: col, Filters: []oidfed.EntityCollectionFilter{
				oidfed.EntityCollectionFilterOPSupportedScopesIncludes([]string{fzTA}, "openid"),
			}}.CollectEntities(creq))
			oidfed.DefaultMetadataResolver = oidfed.LocalMetadataResolver{}
		case "refresh":
			conf := &oidfed.EntityConfigurationTrustMarkConfig{TrustMarkType: fzMark, TrustMarkIssuer: fzTMI, Refresh: true, MinLifetime: unixtime.NewDurationInSeconds(10)}
			if conf.Verify(fzLeaf, "", nil) == nil {
				if _, err := conf.TrustMarkJWT(); err == nil {
					found++
				}
				time.Sleep(90 * time.Second)
				conf.TrustMarkJWT() //nolint:errcheck
			}
			static := &oidfed.EntityConfigurationTrustMarkConfig{TrustMarkType: fzMark, TrustMarkIssuer: fzTMI, JWT: toks["mark"]}
			if static.Verify(fzLeaf, "", nil) == nil {
				static.TrustMarkJWT() //nolint:errcheck
			}
		default:
			panic(harnessErr{"ask " + ask})
		}
		synctest.Wait()
		c.Label("ask %s", ask)
	}
	for _, n := range p.Changed {
		c.Label("changed %s", n)
	}
	if w.Over {
		return violf("unbounded", "request budget exhausted")
	}
	c.NonTrivialIf(found > 0)
	return nil
}

func init() {
	reg(
		"C08", "documents", 80000, 1000000,
		"a generated document of any kind with 1-4 structural mutations (wrong types, nulls, missing, repeated and renamed members, nesting, foreign "+
			"values) or edited bytes, as JSON, YAML or JWT with usual and unusual headers, is decoded and everything decoded is used: all accessors, "+
			"encoding, verification, policies. Oracle: no panic. Non-trivial: something was decoded",
		genDocPlan, execDoc,
	).bubble()
	reg(
		"C08", "policies", 40000, 600000,
		"generated metadata and policies with mutations are verified, merged and applied. Oracle: no panic. Non-trivial: a policy was applied",
		genNastyPolicyPlan, execNastyPolicy,
	)
	reg(
		"C08", "federation", 4800, 200000,
		"a federation (anchor, intermediate, OP, trust mark issuer and owner, remote resolver and collector, token endpoint) of which 1-3 documents are "+
			"mutated is asked 2-6 of 13 kinds of questions and the answers are used. Oracle: no panic, no unbounded requests. Non-trivial: something was obtained",
		genNastyFedPlan, execNastyFed,
	).bubble()
}
