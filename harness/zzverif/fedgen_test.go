package zzverif

import (
	"encoding/json"
	"fmt"

	"pgregory.net/rapid"
)

func pick[T any](t *rapid.T, label string, xs ...T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, label)]
}
func chance(t *rapid.T, label string, percent int) bool {
	// rapid shrinks towards 0: "not happening" is the simplest
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-percent
}
func intn(t *rapid.T, label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, label) }
func raw(v any) json.RawMessage                     { return json.RawMessage(js(v)) }

var hostPool = []string{
	"a.example", "b.example", "ta.example", "sub.a.example", "deep.sub.a.example", "xa.example", "a.example.evil.org",
	"example", "b.example:8443", "a.example:444", "sub.b.example", "c.test", "a-b.example",
}
var pathPool = []string{"", "", "", "", "", "", "/x", "/x", "/x/y", "/x/y", "/t1", "/t1", "/x%2Fy", "/%C3%A9", "/X", "/x.y~z"}
var leafTypes = []string{
	"openid_relying_party", "openid_provider", "oauth_client", "oauth_resource", "oauth_authorization_server",
	"federation_entity", "custom_type", "other_type",
}

type fedOpts struct {
	maxEnts     int
	constraints int // percent of subordinate statements with constraints
	attacks     bool
	faultMax    int
	extraTypes  bool
}

func genIDs(t *rapid.T, n int) []string {
	seen := map[string]bool{}
	var ids []string
	for i := 0; i < n; i++ {
		id := "https://" + pick(t, "host", hostPool...) + pick(t, "path", pathPool...)
		for k := 0; seen[wellKnown(id)]; k++ {
			id = fmt.Sprintf("%s/e%d", id, i)
		}
		if chance(t, "slash", 4) {
			id += "/"
		}
		seen[wellKnown(id)] = true
		ids = append(ids, id)
	}
	return ids
}

// endpointURL is where the i-th entity has its endpoints; some are hosted
// together and differ in a query parameter only.
func endpointURL(i int, which string) string {
	if i%2 == 1 {
		return fmt.Sprintf("https://api.infra/%s?entity=%d", which, i)
	}
	return fmt.Sprintf("https://fetch%d.infra/%s", i, which)
}

func authorityMeta(i int, id string) map[string]any {
	return map[string]any{
		"federation_entity": map[string]any{
			"federation_fetch_endpoint": endpointURL(i, "fetch"),
			"federation_list_endpoint":  endpointURL(i, "list"),
			"organization_name":         "org " + id,
		},
	}
}

// genFed draws a federation (without faults): entity 0.. are the anchors, the
// last ones leaves; the subordinate statements match the hints.
func genFed(t *rapid.T, o fedOpts) (f Fed, subject string, tas []TA) {
	shape := pick(t, "shape", "any", "any", "any", "any", "any", "any", "any", "any", "any", "any", "any", "line", "fan")
	n := intn(t, "n", 2, o.maxEnts)
	switch shape {
	case "line": // every entity below the one before
		n = intn(t, "n line", 7, 14)
	case "fan": // many superiors next to each other
		n = intn(t, "n fan", 7, 12)
	}
	ids := genIDs(t, n)
	nTA := 1
	if n > 2 && chance(t, "two anchors", 35) {
		nTA = 2
	}
	for i := 0; i < n; i++ {
		meta := map[string]any{}
		if i < n-1 || chance(t, "leaf is authority", 15) {
			meta = authorityMeta(i, ids[i])
		}
		if i >= nTA && (i == n-1 || chance(t, "typed", 40)) {
			k := intn(t, "ntypes", 0, 2)
			for j := 0; j < k; j++ {
				ty := pick(t, "type", leafTypes...)
				if ty == "federation_entity" && meta[ty] != nil {
					continue
				}
				if !o.extraTypes && (ty == "custom_type" || ty == "other_type") {
					continue
				}
				meta[ty] = map[string]any{"organization_name": "o"}
				if ty == "openid_relying_party" || ty == "oauth_client" {
					meta[ty] = map[string]any{"client_name": "c"}
				}
			}
		}
		e := Ent{
			ID: ids[i],
			EC: Stmt{
				Iss: ids[i], Sub: ids[i], Typ: entityTyp, Sign: i + 1, JWKS: []int{i + 1},
				Iat: -int64(intn(t, "iat", 10, 1000)), Exp: int64(intn(t, "exp", 100, 100000)),
			},
			Fetch: endpointURL(i, "fetch"),
		}
		if len(meta) > 0 || chance(t, "empty metadata", 70) {
			e.EC.Meta = raw(meta)
		}
		if chance(t, "two keys", 25) {
			e.EC.JWKS = append(e.EC.JWKS, 100+i)
			if chance(t, "second signs", 40) {
				e.EC.Sign = 100 + i
			}
		}
		e.EC.NoIat = chance(t, "no iat", 5)
		f.Ents = append(f.Ents, e)
	}
	// hints
	for i := 0; i < n; i++ {
		var k int
		switch {
		case i < nTA && i == 0:
			k = 0
			if chance(t, "anchor hints", 10) {
				k = 1
			}
		case i < nTA:
			if chance(t, "anchor 2 hints", 40) {
				k = 1
			}
		default:
			k = pick(t, "nhints", 1, 1, 2, 2, 3)
		}
		seen := map[int]bool{i: true}
		if shape == "line" && i > 0 {
			seen[i-1] = true
			f.link(t, i, i-1)
			k = pick(t, "more hints", 0, 0, 0, 0, 0, 0, 0, 1)
		}
		if shape == "fan" && i > 0 {
			if i < n-1 {
				k = 1
			} else {
				for h := 1; h < i; h++ {
					seen[h] = true
					f.link(t, i, h)
				}
			}
		}
		for j := 0; j < k; j++ {
			h := intn(t, "hint", 0, n-1)
			if shape == "fan" && i < n-1 && i > 0 {
				h = intn(t, "fan hint", 0, min(i-1, 1))
			}
			if i > 0 && !chance(t, "any hint", 15) {
				h = h % i
			}
			if seen[h] {
				continue
			}
			seen[h] = true
			f.link(t, i, h)
		}
	}
	for i := 0; i < nTA; i++ {
		ta := TA{ID: ids[i]}
		switch pick(t, "pin", 0, 1, 1, 2) {
		case 1:
			ta.Pin = append([]int{}, f.Ents[i].EC.JWKS...)
		case 2:
			ta.Pin = []int{f.Ents[i].EC.Sign}
			// its statements have to be signed with that key
			for j := range f.Ents[i].Subs {
				f.Ents[i].Subs[j].Stmt.Sign = f.Ents[i].EC.Sign
			}
		}
		tas = append(tas, ta)
	}
	if o.constraints > 0 {
		for i := range f.Ents {
			for j := range f.Ents[i].Subs {
				if chance(t, "constrained", o.constraints) {
					f.Ents[i].Subs[j].Stmt.Constraints = genConstraints(t, ids)
				}
			}
		}
	}
	if chance(t, "bystander claims", 30) {
		for i := range f.Ents {
			e := &f.Ents[i]
			if chance(t, "ec bystander", 30) {
				e.EC.Extra = bystanderClaims(t, pick(t, "names", ids...))
			}
			for j := range e.Subs {
				if chance(t, "sub bystander", 30) {
					e.Subs[j].Stmt.Extra = bystanderClaims(t, pick(t, "names", e.Fetch, e.ID))
				}
			}
		}
	}
	if chance(t, "large", 4) {
		e := &f.Ents[intn(t, "large entity", 0, n-1)]
		size := pick(t, "size", 20000, 70000, 300000)
		if len(e.Subs) > 0 && chance(t, "large sub", 50) {
			e.Subs[intn(t, "which sub", 0, len(e.Subs)-1)].Stmt.Pad = size
		} else {
			e.EC.Pad = size
		}
	}
	si := n - 1
	if chance(t, "other subject", 25) {
		si = intn(t, "subject", 0, n-1)
	}
	return f, ids[si], tas
}

// bystanderClaims decide nothing, whatever they name.
func bystanderClaims(t *rapid.T, name string) map[string]json.RawMessage {
	out := map[string]json.RawMessage{}
	for k := intn(t, "n bystanders", 1, 2); k > 0; k-- {
		switch c := pick(t, "bystander", "source_endpoint", "trust_anchor_id", "jti", "x_claim", "ref", "logo_uri"); c {
		case "x_claim":
			out[c] = raw(map[string]any{"iss": name, "exp": 1})
		default:
			out[c] = raw(name)
		}
	}
	return out
}

// link adds h as authority of i together with the subordinate statement.
func (f *Fed) link(t *rapid.T, i, h int) {
	e, a := &f.Ents[i], &f.Ents[h]
	e.EC.Hints = append(e.EC.Hints, a.ID)
	if len(metaTypes(a.EC.Meta)) == 0 || fetchEndpointOf(a.EC.Meta) == "" {
		a.EC.Meta = raw(authorityMeta(h, a.ID))
	}
	s := Stmt{
		Iss: a.ID, Sub: e.ID, Typ: entityTyp, Sign: a.EC.JWKS[0], JWKS: append([]int{}, e.EC.JWKS...),
		Iat: -int64(intn(t, "sub iat", 10, 1000)), Exp: int64(intn(t, "sub exp", 100, 100000)),
	}
	if chance(t, "vouch other key too", 15) {
		s.JWKS = append(s.JWKS, 300+i)
	}
	a.Subs = append(a.Subs, SubStmt{About: e.ID, Stmt: s})
}

func genConstraints(t *rapid.T, ids []string) json.RawMessage {
	c := map[string]any{}
	if chance(t, "max", 45) {
		c["max_path_length"] = intn(t, "max_path_length", 0, 3)
	}
	names := func(label string) []string {
		var out []string
		for j := intn(t, "n"+label, 0, 3); j > 0; j-- {
			switch intn(t, label+"kind", 0, 4) {
			case 0, 1:
				out = append(out, refHost(pick(t, label, ids...)))
			case 2:
				h := refHost(pick(t, label, ids...))
				for k := 0; k < len(h); k++ {
					if h[k] == '.' {
						h = h[k:]
						break
					}
				}
				out = append(out, h)
			case 3:
				out = append(out, "."+refHost(pick(t, label, ids...)))
			default:
				out = append(out, pick(t, label, ".example", ".a.example", "a.example", "example", ".test", "A.EXAMPLE", ".org", "."))
			}
		}
		if out == nil {
			out = []string{}
		}
		return out
	}
	if chance(t, "naming", 50) {
		nc := map[string]any{}
		if chance(t, "permitted", 60) {
			nc["permitted"] = names("permitted")
		}
		if chance(t, "excluded", 50) {
			nc["excluded"] = names("excluded")
		}
		c["naming_constraints"] = nc
	}
	if chance(t, "types", 40) {
		ts := []string{}
		for j := intn(t, "nallowed", 0, 4); j > 0; j-- {
			ts = append(ts, pick(t, "allowed", leafTypes...))
		}
		c["allowed_entity_types"] = ts
	}
	return raw(c)
}

var httpFaults = []string{"404", "404json", "500json", "500html", "garbage", "neterr", "empty", "html", "500badjson", "503obj"}

// injectFault breaks one thing of the federation.
func (f *Fed) injectFault(t *rapid.T, tas []TA) string {
	n := len(f.Ents)
	i := intn(t, "fault entity", 0, n-1)
	e := &f.Ents[i]
	s := &e.EC
	where := "ec"
	if len(e.Subs) > 0 && chance(t, "fault in sub", 55) {
		s = &e.Subs[intn(t, "fault sub", 0, len(e.Subs)-1)].Stmt
		where = "sub"
	}
	kinds := []string{
		"sign", "iss", "sub", "typ", "mangle", "http", "expired", "future", "jwks", "selfkey", "deadhint", "nofetch",
		"otherfetch", "unknownsub", "echo-ec", "pin", "fake-ta", "meta", "orphan", "sibling-key", "kid", "intruder",
		"stolen-hint", "strip-hints",
	}
	k := pick(t, "fault", kinds...)
	rogue := 900 + i
	switch k {
	case "sign":
		s.Sign = pick(t, "rogue", rogue, 1+(i+1)%n, 100+i)
	case "kid":
		s.KidOf, s.Sign = s.Sign, rogue
	case "iss":
		s.Iss = pick(t, "iss", f.Ents[intn(t, "iss of", 0, n-1)].ID, "https://nowhere.example", "")
	case "sub":
		s.Sub = pick(t, "sub", f.Ents[intn(t, "sub of", 0, n-1)].ID, "https://nowhere.example", "")
	case "typ":
		s.Typ = pick(t, "typ", "", "JWT", "trust-mark+jwt", "resolve-response+jwt", "entity-statement", "application/entity-statement+jwt")
	case "mangle":
		s.Mangle = pick(t, "mangle", "sig", "payload", "trunc", "none", "header", "swap", "nosig")
	case "http":
		s.HTTP = pick(t, "http", httpFaults...)
	case "expired":
		s.Iat, s.Exp = -1000, -int64(intn(t, "ago", 2, 900))
	case "future":
		s.Iat = int64(intn(t, "in", 2, 90))
		s.NoIat = false
	case "jwks":
		if where == "sub" {
			s.JWKS = pick(t, "jwks", []int{rogue}, nil, []int{1 + intn(t, "key of", 0, n-1)})
		}
	case "selfkey": // signs with an own, unattested key it lists itself
		e.EC.JWKS = append(e.EC.JWKS, rogue)
		s.Sign = rogue
	case "deadhint":
		e.EC.Hints = append([]string{pick(t, "dead", "https://dead.example", "https://a.example/none", "", "not a url", e.ID+"/zz")}, e.EC.Hints...)
	case "nofetch":
		e.EC.Meta = raw(map[string]any{"federation_entity": map[string]any{"organization_name": "x"}})
	case "otherfetch":
		e.EC.Meta = raw(authorityMeta(intn(t, "fetch of", 0, n-1), e.ID))
	case "unknownsub":
		if len(e.Subs) > 0 {
			j := intn(t, "drop", 0, len(e.Subs)-1)
			e.Subs = append(append([]SubStmt{}, e.Subs[:j]...), e.Subs[j+1:]...)
		}
	case "echo-ec": // the fetch endpoint answers with the subject's own configuration
		if len(e.Subs) > 0 {
			j := intn(t, "echo", 0, len(e.Subs)-1)
			if b := f.byID(e.Subs[j].About); b >= 0 {
				e.Subs[j].Stmt = f.Ents[b].EC
			}
		}
	case "pin":
		tas[intn(t, "pin of", 0, len(tas)-1)].Pin = []int{950}
	case "fake-ta": // an attacker serves a configuration naming the anchor
		e.EC.Iss = tas[0].ID
		if chance(t, "fake sub", 60) {
			e.EC.Sub = tas[0].ID
		}
	case "meta":
		e.EC.Meta = nil
	case "orphan":
		e.EC.Hints = nil
	case "sibling-key":
		if where == "sub" {
			s.JWKS = append(s.JWKS, 1+intn(t, "key of", 0, n-1))
		} else {
			s.Sign = 1 + intn(t, "signed by", 0, n-1)
			s.JWKS = append(s.JWKS, s.Sign)
		}
	case "intruder": // a new entity nobody knows, with hints to the others
		id := fmt.Sprintf("https://evil%d.example", len(f.Ents))
		in := Ent{
			ID: id,
			EC: Stmt{
				Iss: id, Sub: id, Typ: entityTyp, Sign: 800 + n, JWKS: []int{800 + n}, Iat: -10, Exp: 1000,
				Hints: []string{f.Ents[intn(t, "evil hint", 0, n-1)].ID}, Meta: raw(authorityMeta(n, id)),
			},
			Fetch: endpointURL(n, "fetch"),
		}
		// it claims everybody as its subordinate
		for j := range f.Ents {
			in.Subs = append(
				in.Subs, SubStmt{
					About: f.Ents[j].ID, Stmt: Stmt{
						Iss: id, Sub: f.Ents[j].ID, Typ: entityTyp, Sign: 800 + n,
						JWKS: f.Ents[j].EC.JWKS, Iat: -10, Exp: 1000,
					},
				},
			)
		}
		// some entity trusts it
		f.Ents[i].EC.Hints = append([]string{id}, f.Ents[i].EC.Hints...)
		f.Ents = append(f.Ents, in)
	case "stolen-hint": // hints to an authority that does not list it
		h := f.Ents[intn(t, "steal", 0, n-1)].ID
		for _, x := range append(e.EC.Hints, e.ID) {
			if x == h {
				return k
			}
		}
		e.EC.Hints = append(e.EC.Hints, h)
	case "strip-hints": // no hints at all: must not become its own anchor
		for j := range f.Ents {
			if f.Ents[j].ID != tas[0].ID && chance(t, "strip", 50) {
				f.Ents[j].EC.Hints = nil
			}
		}
	}
	return k + "@" + where
}

// FedPlan is one resolution case.
type FedPlan struct {
	Fed      Fed      `json:"fed"`
	Subject  string   `json:"subject"`
	TAs      []TA     `json:"tas"`
	Types    []string `json:"types,omitempty"`
	Faults   []string `json:"faults,omitempty"`
	Metadata bool     `json:"metadata"` // with metadata verification
}

func genFedPlan(o fedOpts) func(t *rapid.T) FedPlan {
	return func(t *rapid.T) FedPlan {
		var p FedPlan
		p.Fed, p.Subject, p.TAs = genFed(t, o)
		for k := intn(t, "nfaults", 0, o.faultMax); k > 0; k-- {
			p.Faults = append(p.Faults, p.Fed.injectFault(t, p.TAs))
		}
		p.dedupHints()
		p.Metadata = rapid.Bool().Draw(t, "metadata")
		if o.constraints == 0 && chance(t, "types", 15) {
			for k := intn(t, "n types", 1, 2); k > 0; k-- {
				p.Types = append(p.Types, pick(t, "requested type", leafTypes...))
			}
		}
		return p
	}
}

// dedupHints keeps hints duplicate free: the library may or may not report a
// path once per hint, the property does not say.
func (p *FedPlan) dedupHints() {
	for i := range p.Fed.Ents {
		seen := map[string]bool{}
		var out []string
		for _, h := range p.Fed.Ents[i].EC.Hints {
			if !seen[h] {
				out = append(out, h)
			}
			seen[h] = true
		}
		p.Fed.Ents[i].EC.Hints = out
	}
}
