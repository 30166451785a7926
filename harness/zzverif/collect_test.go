package zzverif

// C14, C15: entity collection.

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

// Listing is what a subordinate listing endpoint answers.
type Listing struct {
	IDs     []string `json:"ids"`
	HTTP    string   `json:"http,omitempty"`
	Body    string   `json:"body,omitempty"` // instead of the ids
	DelayMs int      `json:"delay_ms,omitempty"`
}

// CollectPlan is one collection.
type CollectPlan struct {
	Fed       Fed                `json:"fed"`
	TA        string             `json:"ta"`
	Lists     map[string]Listing `json:"lists"` // by endpoint
	Types     []string           `json:"types,omitempty"`
	Name      string             `json:"name,omitempty"`
	Claims    []string           `json:"claims,omitempty"`
	Collector string             `json:"collector"`
	Filters   []string           `json:"filters,omitempty"`
	Needed    []string           `json:"needed,omitempty"`
	Parallel  string             `json:"parallel,omitempty"` // "", own, shared
	Faults    []string           `json:"faults,omitempty"`
	Wide      int                `json:"wide,omitempty"` // additional simple subordinates of the anchor
}

var uiTypes = []string{
	"federation_entity", "openid_relying_party", "openid_provider", "oauth_client", "oauth_resource", "oauth_authorization_server",
}

var namePool = []string{"Alpha University", "Beta College", "alphabet", "ALPHA", "Zeta", "Uni of Beta", "The alpha & the <omega>", "Ünï"}

var uiStrings = []string{"description", "logo_uri", "policy_uri", "information_uri"}

func nameParam(entityType string) string {
	switch entityType {
	case "openid_relying_party", "oauth_client":
		return "client_name"
	case "oauth_resource":
		return "resource_name"
	}
	return "organization_name"
}

// decorate adds what collections report to the metadata of the entities.
func (f *Fed) decorate(t *rapid.T) {
	for i := range f.Ents {
		e := &f.Ents[i]
		m := map[string]map[string]any{}
		if len(e.EC.Meta) == 0 || json.Unmarshal(e.EC.Meta, &m) != nil {
			continue
		}
		var types []string
		for ty := range m {
			types = append(types, ty)
		}
		sort.Strings(types)
		for _, ty := range types {
			mm := m[ty]
			if mm == nil {
				continue
			}
			delete(mm, nameParam(ty))
			if chance(t, "name", 60) {
				mm[nameParam(ty)] = pick(t, "fallback name", namePool...)
			}
			if chance(t, "display", 50) {
				mm["display_name"] = pick(t, "display name", namePool...)
			}
			for _, u := range uiStrings {
				if chance(t, u, 40) {
					mm[u] = "https://ui.example/" + u + fmt.Sprint(i) + "?a=1&b=<2>"
				}
			}
			if chance(t, "keywords", 40) {
				mm["keywords"] = []string{"k" + fmt.Sprint(i), pick(t, "keyword", "x", "y", "")}
			}
			if chance(t, "tagged", 10) {
				mm["display_name#de"] = "Deutscher Name"
			}
			if ty == "openid_provider" {
				if chance(t, "grants", 70) {
					mm["grant_types_supported"] = genSubset(t, "grant", "authorization_code", "refresh_token", "implicit")
				}
				if chance(t, "scopes", 70) {
					mm["scopes_supported"] = genSubset(t, "scope", "openid", "profile", "email")
				}
				if chance(t, "regs", 70) {
					mm["client_registration_types_supported"] = genSubset(t, "reg", "automatic", "explicit")
				}
			}
		}
		e.EC.Meta = raw(m)
	}
}

func genSubset(t *rapid.T, label string, xs ...string) []string {
	out := []string{}
	for _, x := range xs {
		if chance(t, label+x, 55) {
			out = append(out, x)
		}
	}
	return out
}

func listEndpointOf(meta json.RawMessage) string {
	var m struct {
		F struct {
			E string `json:"federation_list_endpoint"`
		} `json:"federation_entity"`
	}
	if len(meta) == 0 || json.Unmarshal(meta, &m) != nil {
		return ""
	}
	return m.F.E
}

func genCollect(t *rapid.T, claims bool) CollectPlan {
	var p CollectPlan
	var tas []TA
	constr := 0
	if chance(t, "constrained", 20) {
		constr = 30
	}
	p.Fed, _, tas = genFed(t, fedOpts{maxEnts: 8, extraTypes: true, constraints: constr})
	p.TA = tas[0].ID
	p.Fed.decorate(t)
	for k := pick(t, "nfaults", 0, 0, 1, 2, 3); k > 0; k-- {
		p.Faults = append(p.Faults, p.Fed.injectFault(t, []TA{{ID: p.TA}}))
	}
	fp := FedPlan{Fed: p.Fed}
	fp.dedupHints()
	p.Lists = map[string]Listing{}
	var ids []string
	for _, e := range p.Fed.Ents {
		ids = append(ids, e.ID)
	}
	for i := range p.Fed.Ents {
		e := &p.Fed.Ents[i]
		e.EC.DelayMs = pick(t, "ec delay", 0, 0, 0, 1, 7, 300)
		ep := endpointURL(i, "list")
		l := Listing{IDs: []string{}, DelayMs: pick(t, "list delay", 0, 0, 1, 5, 200)}
		for _, s := range e.Subs {
			if !chance(t, "not listed", 5) {
				l.IDs = append(l.IDs, s.About)
			}
		}
		for k := pick(t, "more listed", 0, 0, 0, 1, 2); k > 0; k-- {
			l.IDs = append(l.IDs, pick(t, "listed", append(ids, "https://dead.example", "", "not a url", p.TA+"/")...))
		}
		if chance(t, "list fault", 12) {
			switch pick(t, "list kind", 0, 1, 1) {
			case 0:
				l.Body = pick(t, "list body", `{"a":1}`, `null`, `[1,2]`, `"x"`, `[["https://a.example"]]`, `[`, `[null]`)
			case 1:
				l.HTTP = pick(t, "list http", httpFaults...)
			}
		}
		p.Lists[ep] = l
	}
	if chance(t, "wide", 2) {
		p.Wide = pick(t, "width", 20, 130, 150)
	}
	if chance(t, "types", 40) {
		p.Types = append(p.Types, pick(t, "type", leafTypes...))
		if chance(t, "two types", 40) {
			p.Types = append(p.Types, pick(t, "type", leafTypes...))
		}
	}
	if chance(t, "name", 30) {
		p.Name = pick(t, "query", "alpha", "Uni", "AU", "zz", "Beta College", "a b", "lpha", "university", "Ü")
	}
	p.Collector = pick(t, "collector", "simple", "simple", "simple", "op", "verified", "filterable")
	if claims {
		p.Collector = "simple"
		if !chance(t, "default claims", 25) {
			for k := intn(t, "nclaims", 1, 4); k > 0; k-- {
				cl := pick(
					t, "claim", "entity_types", "display_name", "description", "keywords", "logo_uri", "policy_uri",
					"information_uri", "trust_chain", "metadata", "trust_marks", "unknown", "entity_id",
				)
				if !slices.Contains(p.Claims, cl) {
					p.Claims = append(p.Claims, cl)
				}
			}
		}
		return p
	}
	if chance(t, "claims", 30) {
		p.Claims = []string{"entity_types"}
		if chance(t, "metadata claim", 60) {
			p.Claims = append(p.Claims, pick(t, "resolved claim", "metadata", "trust_chain"))
		}
	}
	if p.Collector == "filterable" {
		for k := intn(t, "nfilters", 0, 2); k > 0; k-- {
			p.Filters = append(p.Filters, pick(t, "filter", "ops", "grants", "scopes", "explicit", "automatic", "odd", "pinned", "wrongly pinned"))
		}
		p.Needed = append(genSubset(t, "need", "openid", "authorization_code"), pick(t, "needed", "authorization_code", "openid", "x"))
	}
	if chance(t, "parallel", 35) {
		p.Parallel = pick(t, "how", "own", "shared")
	}
	return p
}

func (p *CollectPlan) request() apimodel.EntityCollectionRequest {
	return apimodel.EntityCollectionRequest{
		TrustAnchor: p.TA, EntityTypes: append([]string(nil), p.Types...), NameQuery: p.Name,
		Claims: append([]string(nil), p.Claims...),
	}
}

func (p *CollectPlan) install(w *World, t0 time.Time) *served {
	if p.Wide > 0 {
		ep := "https://fetch0.infra/list"
		l := p.Lists[ep]
		ta := p.Fed.Ents[0]
		for i := 0; i < p.Wide; i++ {
			id := fmt.Sprintf("https://w%d.example", i)
			m := map[string]any{"openid_provider": map[string]any{"display_name": namePool[i%len(namePool)]}}
			if i%3 == 0 {
				m["federation_entity"] = authorityMeta(len(p.Fed.Ents), id)["federation_entity"]
				p.Lists[endpointURL(len(p.Fed.Ents), "list")] = Listing{IDs: []string{id, ta.ID}}
			}
			p.Fed.Ents = append(
				p.Fed.Ents, Ent{
					ID: id,
					EC: Stmt{
						Iss: id, Sub: id, Typ: entityTyp, Sign: 20 + i%40, JWKS: []int{20 + i%40}, Iat: -10, Exp: 100000,
						Hints: []string{ta.ID}, Meta: raw(m), DelayMs: i % 3,
					},
					Fetch: endpointURL(len(p.Fed.Ents), "fetch"),
				},
			)
			l.IDs = append(l.IDs, id)
			p.Fed.Ents[0].Subs = append(
				p.Fed.Ents[0].Subs, SubStmt{
					About: id, Stmt: Stmt{
						Iss: ta.ID, Sub: id, Typ: entityTyp, Sign: ta.EC.JWKS[0], JWKS: []int{20 + i%40}, Iat: -10, Exp: 100000,
					},
				},
			)
		}
		p.Lists[ep] = l
	}
	sv := p.Fed.install(w, t0)
	for ep, l := range p.Lists {
		body := l.Body
		if body == "" {
			body = js(l.IDs)
		}
		r := httpResp(l.HTTP, body, "application/json")
		r.Delay = time.Duration(l.DelayMs) * time.Millisecond
		w.handle(ep, func(*http.Request, url.Values) Resp { return r })
	}
	return sv
}

// reach tells which identifiers are reachable through listings: must are
// those the collection has to find, may those it may find.
func (p *CollectPlan) reach() (must, may map[string]bool) {
	walk := func(lenient bool) map[string]bool {
		found := map[string]bool{}
		done := map[string]bool{}
		var visit func(id string)
		visit = func(id string) {
			if done[id] {
				return
			}
			done[id] = true
			i := p.Fed.byID(id)
			if i < 0 || !p.usable(id, lenient) {
				return
			}
			l, ok := p.Lists[listEndpointOf(p.Fed.Ents[i].EC.Meta)]
			if !ok || l.HTTP != "" || l.Body != "" {
				return
			}
			for _, s := range l.IDs {
				if p.usable(s, lenient) {
					found[s] = true
					visit(s)
				}
			}
		}
		visit(p.TA)
		return found
	}
	return walk(false), walk(true)
}

// usable tells whether the entity has a configuration to be used.
func (p *CollectPlan) usable(id string, lenient bool) bool {
	i := p.Fed.byID(id)
	if i < 0 {
		return false
	}
	s := &p.Fed.Ents[i].EC
	if lenient { // nothing is said about the verification of configurations here
		return s.HTTP == "" && s.Typ == entityTyp
	}
	return s.served() && s.Iss == id && s.Sub == id && s.sigOK(s.JWKS) && s.timeOK(0) && len(metaTypes(s.Meta)) > 0
}

func displayNames(meta json.RawMessage) map[string]string {
	m := map[string]map[string]any{}
	if len(meta) > 0 {
		must(json.Unmarshal(meta, &m))
	}
	out := map[string]string{}
	for _, ty := range uiTypes {
		if m[ty] == nil {
			continue
		}
		n, _ := m[ty]["display_name"].(string)
		if n == "" {
			n, _ = m[ty][nameParam(ty)].(string)
		}
		if n != "" {
			out[ty] = n
		}
	}
	return out
}

// nameMatch: yes, no, or (a fuzzy match) maybe.
func nameMatch(q string, names map[string]string) string {
	if q == "" {
		return "yes"
	}
	res := "no"
	lq := strings.ToLower(q)
	for _, n := range names {
		ln := strings.ToLower(n)
		if strings.Contains(ln, lq) {
			return "yes"
		}
		rq := []rune(lq)
		for _, r := range ln {
			if len(rq) > 0 && r == rq[0] {
				rq = rq[1:]
			}
		}
		if len(rq) == 0 || lq != asciiOnly(lq) || ln != asciiOnly(ln) {
			res = "maybe"
		}
	}
	return res
}

func asciiOnly(s string) string {
	return strings.Map(
		func(r rune) rune {
			if r > 127 {
				return -1
			}
			return r
		}, s,
	)
}

// matches tells whether the entity is to be collected: yes, no, maybe.
func (p *CollectPlan) matches(sv *served, id string) string {
	i := p.Fed.byID(id)
	meta := p.Fed.Ents[i].EC.Meta
	types := p.Types
	if p.Collector == "op" {
		types = []string{"openid_provider"}
	}
	if len(types) > 0 {
		ok := false
		for _, ty := range metaTypes(meta) {
			ok = ok || slices.Contains(types, ty)
		}
		if !ok {
			return "no"
		}
	}
	res := nameMatch(p.Name, displayNames(meta))
	if res == "no" {
		return res
	}
	if p.Collector == "verified" || p.Collector == "filterable" {
		valid := false
		for _, pa := range p.Fed.refResolve(sv, id, []TA{{ID: p.TA}}, 0) {
			valid = valid || len(pa.Reasons) == 0
		}
		if id == p.TA {
			return "maybe" // a chain of the anchor to itself
		}
		if !valid {
			return "no"
		}
	}
	m := map[string]map[string]json.RawMessage{}
	if len(meta) > 0 {
		must(json.Unmarshal(meta, &m))
	}
	op := m["openid_provider"]
	has := func(param string, vals ...string) bool {
		var l []string
		if op[param] != nil {
			must(json.Unmarshal(op[param], &l))
		}
		for _, v := range vals {
			if !slices.Contains(l, v) {
				return false
			}
		}
		return true
	}
	for _, f := range p.Filters {
		ok := op != nil
		switch f {
		case "grants":
			ok = ok && has("grant_types_supported", p.Needed...)
		case "scopes":
			ok = ok && has("scopes_supported", p.Needed...)
		case "explicit", "automatic":
			ok = ok && has("client_registration_types_supported", f)
		case "odd":
			ok = len(id)%2 == 1
		case "pinned":
			ok = true
		case "wrongly pinned":
			ok = false
		}
		if !ok {
			return "no"
		}
	}
	return res
}

func (p *CollectPlan) collector() oidfed.EntityCollector {
	switch p.Collector {
	case "simple":
		return &oidfed.SimpleEntityCollector{}
	case "op":
		return &oidfed.SimpleOPCollector{}
	case "verified":
		return oidfed.VerifiedChainsEntityCollector{}
	}
	c := oidfed.FilterableVerifiedChainsEntityCollector{}
	if len(p.Needed)%2 == 0 {
		c.Collector = &oidfed.SimpleEntityCollector{}
	}
	tas := []string{p.TA}
	pinned := func(keys ...int) oidfed.EntityCollectionFilter {
		return oidfed.EntityCollectionFilterVerifiedChains{TrustAnchors: libTAs([]TA{{ID: p.TA, Pin: keys}})}
	}
	for _, f := range p.Filters {
		switch f {
		case "ops":
			c.Filters = append(c.Filters, oidfed.EntityCollectionFilterOPs())
		case "grants":
			c.Filters = append(c.Filters, oidfed.EntityCollectionFilterOPSupportedGrantTypesIncludes(tas, p.Needed...))
		case "scopes":
			c.Filters = append(c.Filters, oidfed.EntityCollectionFilterOPSupportedScopesIncludes(tas, p.Needed...))
		case "explicit":
			c.Filters = append(c.Filters, oidfed.EntityCollectionFilterOPSupportsExplicitRegistration(tas))
		case "automatic":
			c.Filters = append(c.Filters, oidfed.EntityCollectionFilterOPSupportsAutomaticRegistration(tas))
		case "pinned":
			if i := p.Fed.byID(p.TA); i >= 0 {
				c.Filters = append(c.Filters, pinned(p.Fed.Ents[i].EC.JWKS...))
			}
		case "wrongly pinned":
			c.Filters = append(c.Filters, pinned(990))
		case "odd":
			c.Filters = append(
				c.Filters, oidfed.NewEntityCollectionFilter(func(e *oidfed.CollectedEntity) bool { return len(e.EntityID)%2 == 1 }),
			)
		}
	}
	return c
}

func execCollect(c *Ctx, p CollectPlan) *Violation {
	w := newWorld()
	t0 := time.Now()
	sv := p.install(w, t0)
	var results [][]*oidfed.CollectedEntity
	run := 1
	if p.Parallel != "" {
		run = 2
	}
	results = make([][]*oidfed.CollectedEntity, run)
	shared := p.collector()
	var wg sync.WaitGroup
	for i := range results {
		wg.Add(1)
		go func() {
			defer wg.Done()
			col := shared
			if p.Parallel == "own" {
				col = p.collector()
			}
			results[i] = col.CollectEntities(p.request())
		}()
	}
	wg.Wait()
	// and once more, from the caches
	results = append(results, shared.CollectEntities(p.request()))
	if w.Over {
		return violf("unbounded", "the collection made more than 20000 requests")
	}
	mustFind, mayFind := p.reach()
	rejected := 0
	verdict := map[string]string{}
	for id := range mayFind {
		verdict[id] = p.matches(sv, id)
		if verdict[id] == "no" {
			rejected++
		}
	}
	for i, res := range results {
		got := map[string]bool{}
		for _, e := range res {
			if got[e.EntityID] {
				return violf("twice", "%s collected twice (%s, run %d of %d)", e.EntityID, p.Collector, i, run)
			}
			got[e.EntityID] = true
			if !mayFind[e.EntityID] {
				return violf("not-reachable", "%s collected but not reachable from %s", e.EntityID, p.TA)
			}
			if verdict[e.EntityID] == "no" {
				return violf("not-matching", "%s collected by %s although it does not match types %v name %q filters %v", e.EntityID, p.Collector, p.Types, p.Name, p.Filters)
			}
		}
		for id := range mustFind {
			if verdict[id] == "yes" && !got[id] {
				return violf("missing", "%s not collected by %s (run %d of %d): types %v name %q filters %v; got %v", id, p.Collector, i, run, p.Types, p.Name, p.Filters, got)
			}
		}
	}
	yes := 0
	for id := range mustFind {
		if verdict[id] == "yes" {
			yes++
		}
	}
	c.NonTrivialIf(yes > 1 && (rejected > 0 || len(p.Faults) > 0 || p.Parallel != "" || len(p.Types)+len(p.Name) == 0))
	c.Label("collector %s", p.Collector)
	c.LabelIf(p.Parallel != "", "parallel %s", p.Parallel)
	c.Label("to find %d", min(yes, 8))
	c.LabelIf(rejected > 0, "rejected some")
	c.LabelIf(p.Wide > 128, "more than 128 subordinates")
	return nil
}

// C15

func wantClaim(p *CollectPlan, c string) bool {
	return len(p.Claims) == 0 || slices.Contains(p.Claims, c)
}

func execClaims(c *Ctx, p CollectPlan) *Violation {
	w := newWorld()
	t0 := time.Now()
	sv := p.install(w, t0)
	res := (&oidfed.SimpleEntityCollector{}).CollectEntities(p.request())
	judged, withUI := 0, 0
	for _, e := range res {
		if !p.usable(e.EntityID, false) {
			continue
		}
		judged++
		meta := p.Fed.Ents[p.Fed.byID(e.EntityID)].EC.Meta
		m := map[string]map[string]any{}
		must(json.Unmarshal(meta, &m))
		// types
		got := append([]string{}, e.EntityTypes...)
		sort.Strings(got)
		want := []string{}
		if wantClaim(&p, "entity_types") {
			want = metaTypes(meta)
		}
		if !slices.Equal(got, want) {
			return violf("entity-types", "%s reported with entity types %v, has %v (claims %v)", e.EntityID, got, want, p.Claims)
		}
		// what there is to show
		ui := map[string]map[string]any{}
		for _, ty := range uiTypes {
			mm := m[ty]
			if mm == nil {
				continue
			}
			u := map[string]any{}
			for _, cl := range append([]string{"keywords"}, uiStrings...) {
				if mm[cl] != nil && wantClaim(&p, cl) {
					u[cl] = mm[cl]
				}
			}
			if n := displayNames(meta)[ty]; n != "" && wantClaim(&p, "display_name") {
				u["display_name"] = n
			}
			if len(u) > 0 {
				ui[ty] = u
			}
		}
		gotUI := map[string]map[string]any{}
		for ty, i := range e.UIInfos {
			if !slices.Contains(uiTypes, ty) {
				continue // nothing is said about other types
			}
			if len(i.Extra) > 0 {
				return violf("ui-extra", "%s: %s of %s are not in their fields but in the extra members", e.EntityID, js(i.Extra), ty)
			}
			u := map[string]any{}
			setIf(u, "display_name", i.DisplayName)
			setIf(u, "description", i.Description)
			setIf(u, "logo_uri", i.LogoURI)
			setIf(u, "policy_uri", i.PolicyURI)
			setIf(u, "information_uri", i.InformationURI)
			if len(i.Keywords) > 0 {
				u["keywords"] = i.Keywords
			}
			if len(u) > 0 {
				gotUI[ty] = u
			}
		}
		if !jsonEq(js(gotUI), js(ui)) {
			return violf("ui-infos", "%s reported with %s, has %s (claims %v)", e.EntityID, js(gotUI), js(ui), p.Claims)
		}
		withUI += len(ui)
		// its chain
		var toks []string
		for _, msg := range e.TrustChain {
			toks = append(toks, string(msg.RawJWT))
		}
		if !slices.Contains(p.Claims, "trust_chain") {
			if len(toks) > 0 {
				return violf("chain-unasked", "%s reported with a trust chain (claims %v)", e.EntityID, p.Claims)
			}
		} else if e.EntityID != p.TA {
			var valid [][]string
			for _, pa := range p.Fed.refResolve(sv, e.EntityID, []TA{{ID: p.TA}}, 0) {
				if len(pa.Reasons) == 0 {
					valid = append(valid, pa.Tokens)
				}
			}
			if len(toks) == 0 && len(valid) > 0 {
				return violf("chain-missing", "%s reported without its trust chain", e.EntityID)
			}
			if len(toks) > 0 && missingFrom([][]string{toks}, valid) != nil {
				return violf("chain-wrong", "%s reported with an invalid trust chain %s", e.EntityID, describeToks(toks))
			}
			c.LabelIf(len(toks) > 0, "with chain")
		}
		if len(e.TrustMarks) > 0 || len(e.Extra) > 0 {
			return violf("unasked", "%s reported with trust marks or other members: %s", e.EntityID, js(e))
		}
		// what is sent
		var sent map[string]any
		must(json.Unmarshal([]byte(js(e)), &sent))
		wantSent := map[string]any{"entity_id": e.EntityID}
		if len(e.EntityTypes) > 0 {
			wantSent["entity_types"] = e.EntityTypes
		}
		if len(ui) > 0 {
			wantSent["ui_infos"] = ui
		}
		if len(toks) > 0 {
			wantSent["trust_chain"] = toks
		}
		for ty := range e.UIInfos {
			if !slices.Contains(uiTypes, ty) {
				wantSent["ui_infos"] = sent["ui_infos"]
			}
		}
		if !jsonEq(js(sent), js(wantSent)) {
			return violf("sent", "%s is sent as %s, expected %s", e.EntityID, js(sent), js(wantSent))
		}
	}
	c.NonTrivialIf(judged > 0 && (withUI > 0 || len(p.Claims) > 0))
	c.LabelIf(withUI > 0, "with ui infos")
	c.LabelIf(len(p.Claims) == 0, "default claims")
	return nil
}

func init() {
	reg(
		"C14", "collect", 1600, 40000,
		"a generated federation with subordinate listings (cycles, dead entries, failing endpoints, delays) is collected with one "+
			"of the collectors, in part concurrently, under the race detector. Non-trivial: more than one entity has to be found "+
			"and others are rejected, faulty, or concurrent runs compared",
		func(t *rapid.T) CollectPlan { return genCollect(t, false) }, execCollect,
	).bubble()
	reg(
		"C15", "claims", 5000, 150000,
		"as collect, with random requested claims; every collected entity is compared with an independent extraction. "+
			"Non-trivial: an entity was judged and something was to be reported or claims were chosen",
		func(t *rapid.T) CollectPlan { return genCollect(t, true) }, execClaims,
	).bubble()
}
