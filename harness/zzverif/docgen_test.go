package zzverif

// Generators for metadata and other JSON documents.

import (
	"encoding/json"
	"sort"

	"pgregory.net/rapid"
)

var wordPool = []string{"a", "b", "c", "d", "openid", "email", "profile", "RS256", "ES256", "code", "x y", "ä€", "<&>", ""}
var listPool = []string{"a", "b", "c", "d", "e"}

func genStrings(t *rapid.T, label string, max int, pool []string) []string {
	out := []string{}
	for k := intn(t, "n "+label, 0, max); k > 0; k-- {
		out = append(out, pick(t, label, pool...))
	}
	return out
}

func distinct(in []string) []string {
	seen := map[string]bool{}
	out := []string{}
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// genAny draws a JSON value of bounded depth, without null at the top.
func genAny(t *rapid.T, depth int) any {
	hi := 6
	if depth <= 0 {
		hi = 4
	}
	switch intn(t, "json kind", 0, hi) {
	case 0:
		return pick(t, "word", wordPool...)
	case 1:
		return intn(t, "int", -3, 1000)
	case 2:
		return rapid.Bool().Draw(t, "bool")
	case 3:
		return pick(t, "num", 0.5, -1.25, 1e6, 1e18, 123456789012, 0)
	case 4:
		return genStrings(t, "strs", 3, wordPool)
	case 5:
		l := []any{}
		for k := intn(t, "nlist", 0, 3); k > 0; k-- {
			if chance(t, "null el", 8) {
				l = append(l, nil)
			} else {
				l = append(l, genAny(t, depth-1))
			}
		}
		return l
	default:
		m := map[string]any{}
		for k := intn(t, "nobj", 0, 3); k > 0; k-- {
			if chance(t, "null member", 8) {
				m[pick(t, "member", "k", "l", "nested", "iss", "x")] = nil
			} else {
				m[pick(t, "member", "k", "l", "nested", "iss", "x")] = genAny(t, depth-1)
			}
		}
		return m
	}
}

// genParam draws a value of the right kind for a known parameter.
func genParam(t *rapid.T, p paramInfo) any {
	switch p.Kind {
	case "s":
		if p.Name == "scope" {
			s := ""
			for i, w := range distinct(genStrings(t, "scope", 4, []string{"openid", "email", "profile", "a", "b"})) {
				if i > 0 {
					s += " "
				}
				s += w
			}
			return s
		}
		return pick(t, "string", wordPool...)
	case "l":
		if chance(t, "unusual list", 15) {
			return genStrings(t, "list", 4, wordPool)
		}
		return distinct(genStrings(t, "list", 4, listPool))
	case "b":
		return rapid.Bool().Draw(t, "bool")
	case "i":
		return pick(t, "int", 0, 1, 2, 5, 100, 1000000, 4294967296)
	case "j":
		n := intn(t, "nkeys", 1, 2)
		ks := []int{}
		for i := 0; i < n; i++ {
			ks = append(ks, 1+intn(t, "key", 0, 8))
		}
		if n == 2 && ks[0] == ks[1] {
			ks = ks[:1]
		}
		return jwkSet(ks...)
	case "m":
		m := map[string]any{}
		for k := intn(t, "nmap", 0, 2); k > 0; k-- {
			if p.Name == "mtls_endpoint_aliases" {
				m[pick(t, "mk", "token_endpoint", "x")] = pick(t, "mv", wordPool...)
			} else {
				m[pick(t, "mk", "ar", "par")] = genStrings(t, "mvs", 2, listPool)
			}
		}
		return m
	}
	panic(harnessErr{"kind " + p.Kind})
}

var extraParams = []string{"x_custom", "vendor_param", "subject_types", "x_scope"}
var extraEntityTypes = []string{"custom_type", "other_type", "openid_credential_issuer"}

func knownTypes() []string {
	var out []string
	for k := range knownParams {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type metaOpts struct {
	maxTypes, maxParams int
	extraTypes          bool
	focus               map[string][]string // parameters drawn with preference
}

// genMetadata draws metadata of known and unknown entity types.
func genMetadata(t *rapid.T, o metaOpts) map[string]any {
	m := map[string]any{}
	for k := intn(t, "ntypes", 0, o.maxTypes); k > 0; k-- {
		if o.extraTypes && chance(t, "extra type", 25) {
			et := pick(t, "extra entity type", extraEntityTypes...)
			if chance(t, "odd metadata", 10) {
				m[et] = genAny(t, 2)
				continue
			}
			mm := map[string]any{}
			for j := intn(t, "nparams", 0, o.maxParams); j > 0; j-- {
				mm[pick(t, "param", "x_custom", "scope", "list", "display_name", "vendor_param")] = genAny(t, 2)
			}
			m[et] = mm
			continue
		}
		et := pick(t, "entity type", knownTypes()...)
		m[et] = genTypeMetadata(t, et, o)
	}
	return m
}

func genTypeMetadata(t *rapid.T, et string, o metaOpts) map[string]any {
	mm := map[string]any{}
	ps := knownParams[et]
	for j := intn(t, "nparams", 0, o.maxParams); j > 0; j-- {
		switch {
		case chance(t, "extra param", 15):
			mm[pick(t, "extra", extraParams...)] = genAny(t, 2)
		case len(o.focus[et]) > 0 && chance(t, "focus", 60):
			n := pick(t, "focus param", o.focus[et]...)
			for _, p := range ps {
				if p.Name == n {
					mm[n] = genParam(t, p)
				}
			}
		default:
			p := ps[intn(t, "param", 0, len(ps)-1)]
			mm[p.Name] = genParam(t, p)
		}
	}
	return mm
}

// normDoc removes what counts as absent: empty values of known parameters that
// the library encodes as absent (or the reverse). See DESIGN.md, C16.
func normMetadata(raw []byte) map[string]any {
	var m map[string]any
	must(json.Unmarshal(raw, &m))
	for et, ps := range knownParams {
		mm, ok := m[et].(map[string]any)
		if !ok {
			continue
		}
		for _, p := range ps {
			if v, ok := mm[p.Name]; ok && isEmptyJSON(v) && !keepsZero(et, v) {
				delete(mm, p.Name)
			}
		}
	}
	return m
}

// keepsZero: metadata keeps explicit false, 0 and "" apart from absent.
func keepsZero(schema string, v any) bool {
	if knownParams[schema] == nil {
		return false
	}
	switch v.(type) {
	case bool, float64, string:
		return true
	}
	return false
}

func isEmptyJSON(v any) bool {
	switch x := v.(type) {
	case nil:
		return true
	case string:
		return x == ""
	case bool:
		return !x
	case float64:
		return x == 0
	case []any:
		return len(x) == 0
	case map[string]any:
		return len(x) == 0
	}
	return false
}
