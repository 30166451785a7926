package zzverif

// C16: documents survive decoding and re-encoding.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/jwks"
	"github.com/go-oidfed/lib/unixtime"
)

// The members each document has, written down from the specifications and the
// documented structs; not derived from the code under test at run time.
type member struct {
	Name, Field, Kind string
	Req               bool // the document is generated with it, and it is encoded even when empty
	Keep              bool // an empty value means something else than an absent one
}

type docSchema struct {
	Members []member
	Extra   bool // unknown members are kept in Extra
	New     func() any
	Open    string // kind of the values of unknown members, if not anything
	Bare    bool   // every member is optional: {} is a document
}

var schemas = map[string]*docSchema{
	"statement": {
		Extra: true, New: func() any { return &oidfed.EntityStatementPayload{} },
		Members: []member{
			{"iss", "Issuer", "s", true, false}, {"sub", "Subject", "s", true, false},
			{"iat", "IssuedAt", "t", true, false}, {"exp", "ExpiresAt", "t", true, false},
			{"jwks", "JWKS", "j", true, false}, {"aud", "Audience", "s", false, false},
			{"authority_hints", "AuthorityHints", "l", false, false},
			{"metadata", "Metadata", "o:metadata", false, false},
			{"metadata_policy", "MetadataPolicy", "o:policies", false, false},
			{"constraints", "Constraints", "o:constraints", false, false},
			{"crit", "CriticalExtensions", "l", false, false},
			{"metadata_policy_crit", "MetadataPolicyCrit", "l", false, false},
			{"trust_marks", "TrustMarks", "a:markinfo", false, false},
			{"trust_mark_issuers", "TrustMarkIssuers", "ml", false, false},
			{"trust_mark_owners", "TrustMarkOwners", "mo:owner", false, false},
			{"source_endpoint", "SourceEndpoint", "s", false, false},
			{"trust_anchor_id", "TrustAnchorID", "s", false, false},
		},
	},
	"metadata": {
		Extra: true, New: func() any { return &oidfed.Metadata{} },
		Members: []member{
			{"openid_provider", "OpenIDProvider", "o:openid_provider", false, true},
			{"openid_relying_party", "RelyingParty", "o:openid_relying_party", false, true},
			{"oauth_authorization_server", "OAuthAuthorizationServer", "o:oauth_authorization_server", false, true},
			{"oauth_client", "OAuthClient", "o:oauth_client", false, true},
			{"oauth_resource", "OAuthProtectedResource", "o:oauth_resource", false, true},
			{"federation_entity", "FederationEntity", "o:federation_entity", false, true},
		},
	},
	"policies": {
		Extra: true, Open: "pol", New: func() any { return &oidfed.MetadataPolicies{} },
		Members: []member{
			{"openid_provider", "OpenIDProvider", "pol", false, false},
			{"openid_relying_party", "RelyingParty", "pol", false, false},
			{"oauth_authorization_server", "OAuthAuthorizationServer", "pol", false, false},
			{"oauth_client", "OAuthClient", "pol", false, false},
			{"oauth_resource", "OAuthProtectedResource", "pol", false, false},
			{"federation_entity", "FederationEntity", "pol", false, false},
		},
	},
	"constraints": {
		New: func() any { return &oidfed.ConstraintSpecification{} },
		Members: []member{
			{"max_path_length", "MaxPathLength", "i", false, true},
			{"naming_constraints", "NamingConstraints", "o:naming", false, true},
			{"allowed_entity_types", "AllowedEntityTypes", "l", false, true},
		},
	},
	"naming": {
		New: func() any { return &oidfed.NamingConstraints{} },
		Members: []member{
			{"permitted", "Permitted", "l", false, true},
			{"excluded", "Excluded", "l", false, false},
		},
	},
	"owner": {
		New: func() any { return &oidfed.TrustMarkOwnerSpec{} },
		Members: []member{
			{"sub", "ID", "s", true, false}, {"jwks", "JWKS", "j", true, false},
		},
	},
	"markinfo": {
		Extra: true, New: func() any { return &oidfed.TrustMarkInfo{} },
		Members: []member{
			{"trust_mark_type", "TrustMarkType", "s", true, false},
			{"trust_mark", "TrustMarkJWT", "s", true, false},
		},
	},
	"mark": {
		Extra: true, New: func() any { return &oidfed.TrustMark{} },
		Members: []member{
			{"iss", "Issuer", "s", true, false}, {"sub", "Subject", "s", true, false},
			{"trust_mark_type", "TrustMarkType", "s", true, false}, {"iat", "IssuedAt", "t", true, false},
			{"logo_uri", "LogoURI", "s", false, false}, {"exp", "ExpiresAt", "t", false, true},
			{"ref", "Ref", "s", false, false}, {"delegation", "DelegationJWT", "s", false, false},
		},
	},
	"delegation": {
		Extra: true, New: func() any { return &oidfed.DelegationJWT{} },
		Members: []member{
			{"iss", "Issuer", "s", true, false}, {"sub", "Subject", "s", true, false},
			{"trust_mark_type", "TrustMarkType", "s", true, false}, {"iat", "IssuedAt", "t", true, false},
			{"exp", "ExpiresAt", "t", false, true}, {"ref", "Ref", "s", false, false},
		},
	},
	"markspec": {
		Extra: true, New: func() any { return &oidfed.TrustMarkSpec{} },
		Members: []member{
			{"trust_mark_type", "TrustMarkType", "s", true, false}, {"lifetime", "Lifetime", "d", true, false},
			{"ref", "Ref", "s", true, false}, {"logo_uri", "LogoURI", "s", true, false},
			{"include_extra_claims_in_info", "IncludeExtraClaimsInInfo", "b", true, false},
			{"delegation_jwt", "DelegationJWT", "s", true, false},
		},
	},
	"resolve": {
		Extra: true, New: func() any { return &oidfed.ResolveResponse{} },
		Members: []member{
			{"iss", "Issuer", "s", true, false}, {"sub", "Subject", "s", true, false},
			{"iat", "IssuedAt", "t", true, false}, {"exp", "ExpiresAt", "t", true, false},
			{"aud", "Audience", "s", false, false},
			{"metadata", "Metadata", "o:metadata", false, false},
			{"trust_marks", "TrustMarks", "a:markinfo", false, false},
			{"trust_chain", "TrustChain", "jwts", false, false},
		},
	},
	"resolve-payload": {
		Extra: true, Bare: true, New: func() any { return &oidfed.ResolveResponsePayload{} },
		Members: []member{
			{"metadata", "Metadata", "o:metadata", false, false},
			{"trust_marks", "TrustMarks", "a:markinfo", false, false},
			{"trust_chain", "TrustChain", "jwts", false, false},
		},
	},
	"collected": {
		Extra: true, New: func() any { return &oidfed.CollectedEntity{} },
		Members: []member{
			{"entity_id", "EntityID", "s", true, false},
			{"trust_marks", "TrustMarks", "a:markinfo", false, false},
			{"trust_chain", "TrustChain", "jwts", false, false},
			{"entity_types", "EntityTypes", "l", false, false},
			{"ui_infos", "UIInfos", "mo:uiinfo", false, false},
		},
	},
	"uiinfo": {
		Extra: true, Bare: true, New: func() any { return &oidfed.UIInfo{} },
		Members: []member{
			{"display_name", "DisplayName", "s", false, false}, {"description", "Description", "s", false, false},
			{"keywords", "Keywords", "l", false, false}, {"logo_uri", "LogoURI", "s", false, false},
			{"policy_uri", "PolicyURI", "s", false, false}, {"information_uri", "InformationURI", "s", false, false},
		},
	},
	"collection": {
		Extra: true, New: func() any { return &oidfed.EntityCollectionResponse{} },
		Members: []member{
			{"federation_entities", "FederationEntities", "a:collected", true, false},
			{"next_entity_id", "NextEntityID", "s", false, false},
			{"last_updated", "LastUpdated", "t", false, true},
		},
	},
	"token": {
		Extra: true, New: func() any { return &oidfed.OIDCTokenResponse{} },
		Members: []member{
			{"access_token", "AccessToken", "s", true, false}, {"token_type", "TokenType", "s", true, false},
			{"expires_in", "ExpiresIn", "i", true, false}, {"refresh_token", "RefreshToken", "s", true, false},
			{"scope", "Scopes", "s", true, false}, {"id_token", "IDToken", "s", true, false},
		},
	},
}

func init() {
	types := map[string]func() any{
		"openid_provider":            func() any { return &oidfed.OpenIDProviderMetadata{} },
		"openid_relying_party":       func() any { return &oidfed.OpenIDRelyingPartyMetadata{} },
		"oauth_authorization_server": func() any { return &oidfed.OAuthAuthorizationServerMetadata{} },
		"oauth_client":               func() any { return &oidfed.OAuthClientMetadata{} },
		"oauth_resource":             func() any { return &oidfed.OAuthProtectedResourceMetadata{} },
		"federation_entity":          func() any { return &oidfed.FederationEntityMetadata{} },
	}
	for et, ps := range knownParams {
		s := &docSchema{Extra: true, Bare: true, New: types[et]}
		for _, p := range ps {
			k := p.Kind
			switch {
			case k == "m" && p.Name == "mtls_endpoint_aliases":
				k = "ms"
			case k == "m":
				k = "ml"
			}
			s.Members = append(s.Members, member{Name: p.Name, Field: p.Field, Kind: k})
		}
		schemas[et] = s
	}
}

func (s *docSchema) find(name string) *member {
	for i := range s.Members {
		if s.Members[i].Name == name {
			return &s.Members[i]
		}
	}
	return nil
}

func schemaNames() []string {
	var out []string
	for n := range schemas {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// ---- generation

type docOpts struct {
	share int // per cent of the optional members present
	empty int // per cent of the members that are empty
	extra int // unknown members at most
	fold  int // per cent of the unknown members named like a known one up to case
	depth int
}

func genDoc(t *rapid.T, name string, o docOpts) map[string]any {
	s := schemas[name]
	d := map[string]any{}
	if o.depth < 0 {
		o.share, o.extra = 0, 0
	}
	if len(s.Members) > 20 { // metadata: a few of the many parameters
		for k := intn(t, "nmembers", 0, 8*o.share/50); k > 0; k-- {
			m := s.Members[intn(t, "member", 0, len(s.Members)-1)]
			d[m.Name] = genMember(t, m, o)
		}
	} else {
		for _, m := range s.Members {
			if m.Req || chance(t, "has "+m.Name, o.share) {
				d[m.Name] = genMember(t, m, o)
			}
		}
	}
	if s.Extra {
		for k := intn(t, "nextra", 0, o.extra); k > 0; k-- {
			n := genExtraName(t, s, o)
			if s.find(n) != nil {
				continue
			}
			if s.Open == "pol" {
				d[n] = genPolicyDoc(t)
			} else if chance(t, "null extra", 5) {
				d[n] = nil
			} else {
				d[n] = genAny(t, 2)
			}
		}
	}
	return d
}

func genExtraName(t *rapid.T, s *docSchema, o docOpts) string {
	if chance(t, "fold", o.fold) {
		m := s.Members[intn(t, "fold member", 0, len(s.Members)-1)]
		switch intn(t, "fold kind", 0, 4) {
		case 0:
			return strings.ToUpper(m.Name)
		case 1:
			return strings.ToUpper(m.Name[:1]) + m.Name[1:]
		case 2:
			return strings.Replace(m.Name, "s", "\u017f", 1) // folds to s
		case 3:
			return m.Field
		default:
			return strings.ReplaceAll(m.Name, "_", "")
		}
	}
	return pick(t, "extra name",
		"x", "x_custom", "Extra", "extra", "-", "", "wasSet", "jwtMsg", "trustmark", "iss", "sub", "exp", "aud", "jwks", "trust_chain",
		"display_name", "metadata", "type", "trust_mark_id", "id", "entity_id", "ä€", "<&>\u2028", "a.b", "key with space", "Payload",
		"scope", "lifetime", "#text", "custom_type",
	)
}

func genPolicyDoc(t *rapid.T) map[string]any {
	pol := map[string]any{}
	for k := intn(t, "npol", 0, 3); k > 0; k-- {
		e := map[string]any{}
		for j := intn(t, "nops", 0, 3); j > 0; j-- {
			e[pick(t, "op", "value", "add", "default", "one_of", "subset_of", "superset_of", "essential", "x_op", "Value")] = genAny(t, 2)
		}
		pol[pick(t, "pol param", "scope", "contacts", "grant_types", "x_custom", "Scope", "client_name", "")] = e
	}
	return pol
}

func genMember(t *rapid.T, m member, o docOpts) any {
	kind, sub, _ := strings.Cut(m.Kind, ":")
	empty := chance(t, "empty", o.empty)
	o.depth--
	switch kind {
	case "s":
		if empty {
			return ""
		}
		return pick(t, "str", "a", "https://x.example/a?b=c&d=e", "ä€", "<&>\u2028", "x y", " ", "\"\\", "null", "0", "true", "a\tb\nc")
	case "l":
		if empty {
			return []any{}
		}
		out := []any{}
		for k := intn(t, "nl", 1, 4); k > 0; k-- {
			out = append(out, pick(t, "el", wordPool...))
		}
		return out
	case "b":
		return !empty && rapid.Bool().Draw(t, "bool")
	case "i":
		if empty {
			return 0
		}
		return pick(t, "int", 1, 2, 7, 3600, 1<<31, 1<<40)
	case "t":
		if chance(t, "fraction", 15) {
			return float64(intn(t, "sec", 1_000_000_000, 4_000_000_000)) + pick(t, "frac", 0.5, 0.25, 0.125, 0.1, 0.123, 0.999)
		}
		return pick(t, "time", 1, 1000, 946684800, 1700000000, 4102444800, 253402300799, 1_000_000_000_000)
	case "d":
		if empty {
			return 0
		}
		return pick(t, "duration", 1, 60, 3600, 86400, 31536000, 0.5, 1.25, 2.75)
	case "j":
		if empty {
			return map[string]any{"keys": []any{}}
		}
		return genKeySet(t)
	case "ms":
		out := map[string]any{}
		if !empty {
			for k := intn(t, "nms", 1, 2); k > 0; k-- {
				out[pick(t, "k", "a", "b", "A", "", "token_endpoint")] = pick(t, "v", wordPool...)
			}
		}
		return out
	case "ml":
		out := map[string]any{}
		if !empty {
			for k := intn(t, "nml", 1, 2); k > 0; k-- {
				out[pick(t, "k", "a", "b", "A", "", "https://t.example")] = toAnys(genStrings(t, "v", 2, wordPool))
			}
		}
		return out
	case "o":
		if empty {
			o.share, o.extra = 0, 0
		}
		return genDoc(t, sub, o)
	case "a":
		out := []any{}
		if !empty {
			for k := intn(t, "na", 1, 2); k > 0; k-- {
				out = append(out, genDoc(t, sub, o))
			}
		}
		return out
	case "mo":
		out := map[string]any{}
		if !empty {
			for k := intn(t, "nmo", 1, 2); k > 0; k-- {
				out[pick(t, "k", "openid_provider", "b", "", "https://t.example/x")] = genDoc(t, sub, o)
			}
		}
		return out
	case "pol":
		if empty {
			return map[string]any{}
		}
		return genPolicyDoc(t)
	case "jwts":
		out := []any{}
		if !empty {
			for k := intn(t, "nj", 1, 3); k > 0; k-- {
				out = append(out, signJWT(key(intn(t, "key", 0, 3)), "entity-statement+jwt", []byte(js(map[string]any{"iss": "a", "n": k}))))
			}
		}
		return out
	}
	panic(harnessErr{"kind " + m.Kind})
}

func toAnys(in []string) []any {
	out := []any{}
	for _, s := range in {
		out = append(out, s)
	}
	return out
}

// genKeySet draws a key set, with unusual parameters at the keys and at the set.
func genKeySet(t *rapid.T) map[string]any {
	used := map[string]bool{}
	keys := []any{}
	for k := intn(t, "nkeys", 1, 3); k > 0; k-- {
		i := intn(t, "key", 0, 12)
		if chance(t, "other alg", 40) {
			i = 1000 + 10*intn(t, "alg", 0, len(otherAlgs)-1) + i%2
		}
		if used[key(i).Kid] {
			continue
		}
		used[key(i).Kid] = true
		jwk := map[string]any{}
		for n, v := range key(i).JWK {
			jwk[n] = v
		}
		if chance(t, "unusual key", 25) {
			switch intn(t, "unusual", 0, 5) {
			case 0:
				jwk["kid"] = pick(t, "kid", "a", "ä€", "x y", "https://k.example/1")
			case 1:
				delete(jwk, "kid")
			case 2:
				delete(jwk, "alg")
			case 3:
				jwk["x_custom"] = genAny(t, 1)
			case 4:
				jwk["key_ops"] = []any{"verify"}
			default:
				jwk["iat"] = 1700000000
			}
		}
		keys = append(keys, jwk)
	}
	set := map[string]any{"keys": keys}
	if chance(t, "set member", 10) {
		set[pick(t, "set member name", "x_custom", "iss", "exp")] = pick[any](t, "set member value", "a", 1, []any{"b"}, true)
	}
	return set
}

// ---- normal form

// normDoc removes from a document what counts as absent: null or empty values
// of known members (except where being empty has a meaning).
func normDoc(name string, v any) any {
	d, ok := v.(map[string]any)
	if !ok {
		return v
	}
	s := schemas[name]
	out := map[string]any{}
	for n, mv := range d {
		m := s.find(n)
		if m == nil {
			out[n] = mv
			continue
		}
		w := normMember(*m, mv)
		if w == nil || !m.Keep && isEmptyJSON(w) && !keepsZero(name, w) {
			continue
		}
		out[n] = w
	}
	return out
}

func normMember(m member, v any) any {
	kind, sub, _ := strings.Cut(m.Kind, ":")
	switch kind {
	case "o":
		return normDoc(sub, v)
	case "a":
		if l, ok := v.([]any); ok {
			out := []any{}
			for _, e := range l {
				out = append(out, normDoc(sub, e))
			}
			return out
		}
	case "mo":
		if mm, ok := v.(map[string]any); ok {
			out := map[string]any{}
			for k, e := range mm {
				out[k] = normDoc(sub, e)
			}
			return out
		}
	case "j":
		if s, ok := v.(map[string]any); ok && len(s) == 1 {
			if l, ok := s["keys"].([]any); ok && len(l) == 0 {
				return nil
			}
		}
	}
	return v
}

func generic(v any) any {
	var out any
	must(json.Unmarshal([]byte(js(v)), &out))
	return out
}

// docDiff describes where two JSON values differ.
func docDiff(path string, a, b any) string {
	am, aok := a.(map[string]any)
	bm, bok := b.(map[string]any)
	if aok && bok {
		names := map[string]bool{}
		for k := range am {
			names[k] = true
		}
		for k := range bm {
			names[k] = true
		}
		var sorted []string
		for k := range names {
			sorted = append(sorted, k)
		}
		sort.Strings(sorted)
		for _, k := range sorted {
			av, ain := am[k]
			bv, bin := bm[k]
			switch {
			case !bin:
				return fmt.Sprintf("%s.%s was %s and is missing", path, k, js(av))
			case !ain:
				return fmt.Sprintf("%s.%s is %s and was not there", path, k, js(bv))
			}
			if d := docDiff(path+"."+k, av, bv); d != "" {
				return d
			}
		}
		return ""
	}
	if reflect.DeepEqual(a, b) {
		return ""
	}
	return fmt.Sprintf("%s was %s and is %s", path, js(a), js(b))
}

// ---- judging what was decoded

// checkDecoded compares the decoded value with the document it was decoded from.
func checkDecoded(path, name string, doc map[string]any, v reflect.Value) string {
	s := schemas[name]
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return fmt.Sprintf("%s was not decoded", path)
		}
		v = v.Elem()
	}
	known := map[string]bool{}
	for i := 0; i < v.NumField(); i++ {
		tag, _, _ := strings.Cut(v.Type().Field(i).Tag.Get("json"), ",")
		if tag != "" && tag != "-" {
			known[tag] = true
		}
	}
	for _, m := range s.Members {
		known[m.Name] = true
		f := v.FieldByName(m.Field)
		if !f.IsValid() {
			panic(harnessErr{"no field " + m.Field + " in " + v.Type().String()})
		}
		dv, ok := doc[m.Name]
		if !ok || dv == nil {
			if !f.IsZero() && !(f.Kind() == reflect.Struct && emptyKeySet(f)) {
				return fmt.Sprintf("%s.%s was not in the document and is %s", path, m.Name, show(f))
			}
			continue
		}
		if d := checkField(path+"."+m.Name, m, dv, f); d != "" {
			return d
		}
	}
	if !s.Extra {
		return ""
	}
	want := map[string]any{}
	for n, dv := range doc {
		if !known[n] {
			want[n] = dv
		}
	}
	got, ok := generic(v.FieldByName("Extra").Interface()).(map[string]any)
	if !ok {
		got = map[string]any{}
	}
	return docDiff(path+" extra", want, got)
}

func show(f reflect.Value) string {
	b, err := json.Marshal(f.Interface())
	if err != nil {
		return fmt.Sprintf("%v", f.Interface())
	}
	return string(b)
}

func emptyKeySet(f reflect.Value) bool {
	j, ok := f.Interface().(jwks.JWKS)
	return ok && (j.Set == nil || j.Len() == 0)
}

func checkField(path string, m member, dv any, f reflect.Value) string {
	kind, sub, _ := strings.Cut(m.Kind, ":")
	is := func(want any) string {
		return docDiff(path, dv, want)
	}
	if f.Kind() == reflect.Ptr && kind != "o" {
		if f.IsNil() {
			if kind == "j" && normMember(m, dv) == nil {
				return ""
			}
			return fmt.Sprintf("%s was %s and is not set", path, js(dv))
		}
		f = f.Elem()
	}
	switch kind {
	case "s":
		return is(f.String())
	case "b":
		return is(f.Bool())
	case "i":
		return is(float64(f.Int()))
	case "t":
		u := f.Interface().(unixtime.Unixtime)
		sec := dv.(float64)
		diff := u.Time.Sub(time.Unix(int64(sec), int64((sec-float64(int64(sec)))*1e9)))
		if diff < -time.Microsecond || diff > time.Microsecond {
			return fmt.Sprintf("%s was %s and is %v", path, js(dv), u.UTC())
		}
		return ""
	case "d":
		d := f.Interface().(unixtime.DurationInSeconds).Duration
		if diff := d - time.Duration(dv.(float64)*1e9); diff < -time.Microsecond || diff > time.Microsecond {
			return fmt.Sprintf("%s was %s and is %v", path, js(dv), d)
		}
		return ""
	case "j":
		j := f.Interface().(jwks.JWKS)
		if normMember(m, dv) == nil {
			if j.Set != nil && j.Len() != 0 {
				return fmt.Sprintf("%s was empty and is %s", path, show(f))
			}
			return ""
		}
		if j.Set == nil {
			return fmt.Sprintf("%s was %s and is not set", path, js(dv))
		}
		return is(generic(j.Set))
	case "l", "ml", "ms", "pol":
		if f.Len() == 0 && isEmptyJSON(dv) {
			if m.Keep && f.IsNil() {
				return fmt.Sprintf("%s was %s and is not set", path, js(dv))
			}
			return ""
		}
		return is(generic(f.Interface()))
	case "jwts":
		got := []any{}
		for _, p := range f.Interface().(oidfed.JWSMessages) {
			got = append(got, string(p.RawJWT))
		}
		return is(any(got))
	case "o":
		return checkDecoded(path, sub, dv.(map[string]any), f)
	case "a":
		l := dv.([]any)
		if len(l) != f.Len() {
			return fmt.Sprintf("%s had %d elements and has %d", path, len(l), f.Len())
		}
		for i := range l {
			if d := checkDecoded(fmt.Sprintf("%s[%d]", path, i), sub, l[i].(map[string]any), f.Index(i)); d != "" {
				return d
			}
		}
		return ""
	case "mo":
		mm := dv.(map[string]any)
		if len(mm) != f.Len() {
			return fmt.Sprintf("%s had %d members and has %d", path, len(mm), f.Len())
		}
		for k := range mm {
			e := f.MapIndex(reflect.ValueOf(k))
			if !e.IsValid() {
				return fmt.Sprintf("%s.%s is missing", path, k)
			}
			if d := checkDecoded(path+"."+k, sub, mm[k].(map[string]any), e); d != "" {
				return d
			}
		}
		return ""
	}
	panic(harnessErr{"kind " + m.Kind})
}

// ---- the checks

type CodecPlan struct {
	Kind string          `json:"kind"`
	Doc  json.RawMessage `json:"doc"`
	Via  string          `json:"via"` // json, jwt, yaml, reuse
}

var jwtTypes = map[string]string{
	"statement": "entity-statement+jwt", "mark": "trust-mark+jwt", "resolve": "resolve-response+jwt",
	"delegation": "trust-mark-delegation+jwt",
}

func genCodecPlan(t *rapid.T) CodecPlan {
	names := schemaNames()
	p := CodecPlan{Kind: names[intn(t, "kind", 0, len(names)-1)], Via: "json"}
	if chance(t, "statement", 20) {
		p.Kind = pick(t, "big kind", "statement", "resolve", "metadata", "collected", "collection")
	}
	o := docOpts{
		share: pick(t, "share", 30, 50, 80), empty: pick(t, "empties", 0, 10, 30), extra: pick(t, "extras", 0, 2, 4),
		fold: pick(t, "folds", 0, 0, 30), depth: 4,
	}
	p.Doc = raw(genDoc(t, p.Kind, o))
	if jwtTypes[p.Kind] != "" && rapid.Bool().Draw(t, "jwt") {
		p.Via = "jwt"
	}
	if p.Kind == "markspec" && rapid.Bool().Draw(t, "yaml") {
		p.Via = "yaml"
	}
	return p
}

func execCodec(c *Ctx, p CodecPlan) *Violation {
	s := schemas[p.Kind]
	var doc map[string]any
	must(json.Unmarshal(p.Doc, &doc))
	c.Label("kind %s", p.Kind)
	c.Label("via %s", p.Via)
	unknown, knownN, fold := 0, 0, false
	for n := range doc {
		if s.find(n) != nil {
			knownN++
			continue
		}
		unknown++
		for _, m := range s.Members {
			fold = fold || strings.EqualFold(m.Name, n)
		}
	}
	c.LabelIf(unknown > 0, "unknown members")
	c.LabelIf(fold, "unknown member equal to a known one up to case")
	c.NonTrivialIf(unknown > 0 && knownN > 0)
	norm := normDoc(p.Kind, doc)

	v := s.New()
	switch p.Via {
	case "json":
		if err := json.Unmarshal(p.Doc, v); err != nil {
			return violf("decode-"+p.Kind, "decoding the %s %s: %v", p.Kind, p.Doc, err)
		}
	case "jwt":
		token := []byte(signJWT(key(1), jwtTypes[p.Kind], p.Doc))
		var err error
		switch p.Kind {
		case "statement":
			var st *oidfed.EntityStatement
			if st, err = oidfed.ParseEntityStatement(token); err == nil {
				v = &st.EntityStatementPayload
			}
		case "mark":
			v, err = oidfed.ParseTrustMark(token)
		case "resolve":
			v, err = oidfed.ParseResolveResponse(token)
		case "delegation":
			outer := signJWT(key(1), jwtTypes["mark"], []byte(js(map[string]any{
				"iss": "a", "sub": "b", "trust_mark_type": "t", "iat": 1, "delegation": string(token),
			})))
			var tm *oidfed.TrustMark
			if tm, err = oidfed.ParseTrustMark([]byte(outer)); err == nil {
				v, err = tm.Delegation()
			}
		}
		if err != nil {
			return violf("parse-"+p.Kind, "parsing a JWT with the payload %s: %v", p.Doc, err)
		}
	case "yaml":
		y := must1(yaml.Marshal(doc))
		if err := yaml.Unmarshal(y, v); err != nil {
			return violf("yaml-decode-"+p.Kind, "decoding the %s\n%s: %v", p.Kind, y, err)
		}
	}
	if d := checkDecoded(p.Kind, p.Kind, doc, reflect.ValueOf(v)); d != "" {
		return violf("decoded-"+p.Kind, "decoding %s: %s", p.Doc, d)
	}
	// encoding it again, as a value and through a pointer
	for i, x := range []any{v, reflect.ValueOf(v).Elem().Interface()} {
		var enc []byte
		var err error
		if p.Via == "yaml" {
			var y []byte
			if y, err = yaml.Marshal(x); err == nil {
				var g any
				if err = yaml.Unmarshal(y, &g); err == nil {
					enc, err = json.Marshal(g)
				}
			}
		} else {
			enc, err = json.Marshal(x)
		}
		if err != nil {
			return violf("encode-"+p.Kind, "encoding what was decoded from %s: %v", p.Doc, err)
		}
		var back map[string]any
		if err = json.Unmarshal(enc, &back); err != nil {
			return violf("encode-"+p.Kind, "decoding %s and encoding it gives %s: %v", p.Doc, enc, err)
		}
		if d := docDiff(p.Kind, norm, normDoc(p.Kind, back)); d != "" {
			return violf("recoded-"+p.Kind, "decoding %s and encoding it gives %s: %s", p.Doc, enc, d)
		}
		if i == 0 && p.Via == "json" && !bytes.Equal(enc, p.Doc) {
			// decoding what was encoded changes nothing any more
			w := s.New()
			if err = json.Unmarshal(enc, w); err != nil {
				return violf("decode-"+p.Kind, "decoding the encoded %s: %v", enc, err)
			}
			again, err := json.Marshal(w)
			if d := docDiff(p.Kind, norm, normDoc(p.Kind, generic(json.RawMessage(again)))); err != nil || d != "" {
				return violf("recoded-"+p.Kind, "%s is encoded as %s after another round (%v)", enc, again, err)
			}
		}
	}
	return nil
}

// ---- metadata by name

type FindPlan struct {
	Doc    json.RawMessage `json:"doc"`
	Type   string          `json:"type"`
	Into   string          `json:"into"` // own, any, map, custom
	Build  bool            `json:"build,omitempty"`
	Reused bool            `json:"reused,omitempty"`
}

// customMetadata is metadata as a user of the library could define it.
type customMetadata struct {
	DisplayName *string         `json:"display_name"`
	Keywords    []string        `json:"keywords"`
	Scope       json.RawMessage `json:"scope"`
	Custom      any             `json:"x_custom"`
	Issuer      string          `json:"issuer"`
}

func genFindPlan(t *rapid.T) FindPlan {
	o := docOpts{share: 60, empty: pick(t, "empties", 0, 20), extra: 3, depth: 3}
	doc := map[string]any{}
	for k := intn(t, "ntypes", 0, 3); k > 0; k-- {
		if rapid.Bool().Draw(t, "known") {
			et := pick(t, "type", knownTypes()...)
			doc[et] = genDoc(t, et, o)
			continue
		}
		mm := map[string]any{}
		for j := intn(t, "nparams", 0, 4); j > 0; j-- {
			switch intn(t, "param", 0, 4) {
			case 0:
				mm["display_name"] = pick(t, "dn", wordPool...)
			case 1:
				mm["keywords"] = toAnys(genStrings(t, "kw", 3, wordPool))
			case 2:
				mm["scope"] = genAny(t, 2)
			case 3:
				mm["x_custom"] = genAny(t, 2)
			default:
				mm["issuer"] = "https://i.example"
			}
		}
		doc[pick(t, "other type", append([]string{"Extra", "Openid_Provider", "openid_provider,omitempty"}, extraEntityTypes...)...)] = mm
	}
	p := FindPlan{Into: pick(t, "into", "own", "any", "map", "custom"), Type: pick(t, "asked", append(append([]string{"-", "", "Extra"}, extraEntityTypes...), knownTypes()...)...)}
	var present []string
	for n := range doc {
		present = append(present, n)
	}
	sort.Strings(present)
	if len(present) > 0 && chance(t, "present", 75) {
		p.Type = pick(t, "present type", present...)
	}
	p.Doc = raw(doc)
	return p
}

func execFind(c *Ctx, p FindPlan) *Violation {
	var doc map[string]any
	must(json.Unmarshal(p.Doc, &doc))
	var m oidfed.Metadata
	if err := json.Unmarshal(p.Doc, &m); err != nil {
		panic(skipCase{"metadata not decoded"})
	}
	before := js(m)
	s, known := schemas[p.Type]
	known = known && knownParams[p.Type] != nil
	var into any
	switch {
	case p.Into == "own" && known:
		into = s.New()
	case p.Into == "any":
		into = new(any)
	case p.Into == "map":
		into = &map[string]any{}
	default:
		into = &customMetadata{}
	}
	err := m.FindEntityMetadata(p.Type, into)
	if js(m) != before {
		return violf("find-changes", "looking up %q in %s changed it", p.Type, p.Doc)
	}
	want, present := doc[p.Type].(map[string]any)
	c.LabelIf(known, "known type")
	c.LabelIf(!known, "unknown type")
	c.Label("into %s", p.Into)
	c.LabelIf(!present, "absent")
	if !present {
		if err == nil {
			return violf("find-absent", "%q is found in %s: %s", p.Type, p.Doc, js(into))
		}
		return nil
	}
	c.NonTrivialIf(len(want) > 0)
	if err != nil {
		return violf("find", "%q is not found in %s: %v", p.Type, p.Doc, err)
	}
	norm := func(v any) any {
		if known {
			return normDoc(p.Type, v)
		}
		return v
	}
	switch x := into.(type) {
	case *customMetadata:
		var w customMetadata
		must(json.Unmarshal([]byte(js(norm(want))), &w))
		if a, b := generic(w), generic(x); !known {
			if d := docDiff("metadata", a, b); d != "" {
				return violf("find", "%q of %s in a custom type: %s", p.Type, p.Doc, d)
			}
		} else if d := docDiff("metadata", dropEmpty(a), dropEmpty(b)); d != "" {
			return violf("find", "%q of %s in a custom type: %s", p.Type, p.Doc, d)
		}
	default:
		if p.Into == "own" {
			if d := checkDecoded("metadata", p.Type, want, reflect.ValueOf(into)); d != "" {
				return violf("find", "%q of %s: %s", p.Type, p.Doc, d)
			}
		}
		if d := docDiff("metadata", norm(want), norm(generic(into))); d != "" {
			return violf("find", "%q of %s: %s", p.Type, p.Doc, d)
		}
	}
	return nil
}

func dropEmpty(v any) any {
	out := map[string]any{}
	for k, e := range v.(map[string]any) {
		if !isEmptyJSON(e) {
			out[k] = e
		}
	}
	return out
}

func init() {
	reg("C16", "recode", 80000, 2000000,
		"the document has both known and unknown members", genCodecPlan, execCodec)
	reg("C16", "find", 8000, 300000,
		"the entity type asked for is present with at least one parameter", genFindPlan, execFind)
}
