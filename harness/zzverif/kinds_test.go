package zzverif

// C16: a document that does not have the members it should have is refused.

import (
	"encoding/json"
	"fmt"
	"strings"

	"pgregory.net/rapid"

	oidfed "github.com/go-oidfed/lib"
)

// KindPlan is a document one member of which has a value of another kind.
type KindPlan struct {
	Kind  string          `json:"kind"`
	Doc   json.RawMessage `json:"doc"`
	Path  []string        `json:"path"`  // of objects down to the member
	Value json.RawMessage `json:"value"` // what it is instead
	Via   string          `json:"via"`
}

// unfit are values a member of a kind cannot have.
func unfit(t *rapid.T, kind string) any {
	num, str, boolean, obj, list := any(intn(t, "num", 0, 3)), any(pick(t, "str", "x", "", "1")), any(rapid.Bool().Draw(t, "bool")),
		any(map[string]any{"k": "v"}), any([]any{"a"})
	var opts []any
	switch kind {
	case "s":
		opts = []any{num, boolean, obj, list}
	case "l":
		opts = []any{num, boolean, obj, []any{"a", num}, []any{obj}}
	case "b":
		opts = []any{num, str, obj, list}
	case "i":
		opts = []any{str, boolean, obj, list, 1.5, "1700000000"}
	case "t", "d":
		opts = []any{str, boolean, obj, list, "1700000000"}
	case "j":
		opts = []any{num, str, boolean, list}
	case "ml":
		opts = []any{num, str, boolean, list, map[string]any{"k": obj}, map[string]any{"k": num}}
	case "ms":
		opts = []any{num, str, boolean, list, map[string]any{"k": num}, map[string]any{"k": list}}
	case "pol", "mo", "o":
		opts = []any{num, str, boolean, list}
	case "a":
		opts = []any{num, str, boolean, map[string]any{"k": "v"}, []any{num}, []any{str}}
	case "jwts":
		opts = []any{num, str, boolean, obj, []any{num}, []any{"no.jwt"}}
	}
	return opts[intn(t, "unfit", 0, len(opts)-1)]
}

func genKindPlan(t *rapid.T) KindPlan {
	names := schemaNames()
	p := KindPlan{Kind: names[intn(t, "kind", 0, len(names)-1)], Via: "json"}
	if jwtTypes[p.Kind] != "" && p.Kind != "delegation" && chance(t, "jwt", 40) {
		p.Via = "jwt"
	}
	doc := genDoc(t, p.Kind, docOpts{share: 40, extra: 1, depth: 3})
	p.Doc = raw(doc)
	name, at := p.Kind, any(generic(p.Doc))
	for {
		// some member of the object at hand, preferably one further down
		m := at.(map[string]any)
		s := schemas[name]
		var in []member
		for _, mb := range s.Members {
			if k, _, _ := strings.Cut(mb.Kind, ":"); (k == "o" || k == "a" || k == "mo") && !isEmptyJSON(m[mb.Name]) {
				in = append(in, mb)
			}
		}
		if len(in) > 0 && chance(t, "down", 65) {
			mb := in[intn(t, "into", 0, len(in)-1)]
			k, sub, _ := strings.Cut(mb.Kind, ":")
			p.Path = append(p.Path, mb.Name)
			switch v := m[mb.Name].(type) {
			case []any:
				i := intn(t, "element", 0, len(v)-1)
				p.Path = append(p.Path, fmt.Sprint(i))
				at = v[i]
			case map[string]any:
				at = v
				if k == "mo" {
					n := pick(t, "entry", sortedKeys(v)...)
					p.Path = append(p.Path, n)
					at = v[n]
				}
			}
			name = sub
			continue
		}
		mb := s.Members[intn(t, "member", 0, len(s.Members)-1)]
		k, _, _ := strings.Cut(mb.Kind, ":")
		p.Path = append(p.Path, mb.Name)
		p.Value = raw(unfit(t, k))
		return p
	}
}

func replaceAt(v any, path []string, with any) any {
	if len(path) == 0 {
		return with
	}
	switch x := v.(type) {
	case map[string]any:
		x[path[0]] = replaceAt(x[path[0]], path[1:], with)
	case []any:
		var i int
		must1(fmt.Sscan(path[0], &i))
		x[i] = replaceAt(x[i], path[1:], with)
	}
	return v
}

func execKinds(c *Ctx, p KindPlan) *Violation {
	s := schemas[p.Kind]
	if err := json.Unmarshal(p.Doc, s.New()); err != nil {
		panic(skipCase{"not decoded unchanged"})
	}
	c.Label("kind %s", p.Kind)
	c.LabelIf(len(p.Path) > 1, "further down")
	c.NonTrivialIf(len(p.Path) > 1 || len(p.Doc) > 40)
	bad := js(replaceAt(generic(p.Doc), p.Path, generic(p.Value)))
	where := strings.Join(p.Path, ".")
	v := s.New()
	var err error
	if p.Via == "jwt" {
		token := []byte(signJWT(key(1), jwtTypes[p.Kind], []byte(bad)))
		switch p.Kind {
		case "statement":
			_, err = oidfed.ParseEntityStatement(token)
		case "mark":
			_, err = oidfed.ParseTrustMark(token)
		case "resolve":
			_, err = oidfed.ParseResolveResponse(token)
		}
	} else {
		err = json.Unmarshal([]byte(bad), v)
	}
	if err == nil {
		return violf(
			fmt.Sprintf("kind-%s-%s", p.Kind, p.Path[len(p.Path)-1]), "a document of kind %s is decoded (%s) though %s is %s: %s", p.Kind, p.Via, where, p.Value, bad,
		)
	}
	return nil
}

func init() {
	reg("C16", "kinds", 20000, 600000,
		"a valid document of any kind, in which one known member (at any depth) is replaced by a JSON value its field cannot hold, has to be refused, "+
			"as JSON and as a JWT payload. Non-trivial: the member is further down, or there are more of them",
		genKindPlan, execKinds)
}
