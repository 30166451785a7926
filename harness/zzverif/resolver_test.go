package zzverif

// C26: the configured metadata resolver.

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

// ---- resolvers that come to the same

// wrappedResolver is the resolver of an application which hands every question
// on to one of the library.
type wrappedResolver struct {
	inner oidfed.MetadataResolver
	asked *int
}

var errTooOften = errors.New("asked too often")

func (r wrappedResolver) Resolve(req apimodel.ResolveRequest) (*oidfed.Metadata, error) {
	if *r.asked++; *r.asked > 300 {
		return nil, errTooOften
	}
	return r.inner.Resolve(req)
}

func (r wrappedResolver) ResolveResponsePayload(req apimodel.ResolveRequest) (oidfed.ResolveResponsePayload, error) {
	if *r.asked++; *r.asked > 300 {
		return oidfed.ResolveResponsePayload{}, errTooOften
	}
	return r.inner.ResolveResponsePayload(req)
}

func (r wrappedResolver) ResolvePossible(req apimodel.ResolveRequest) (bool, bool) {
	if *r.asked++; *r.asked > 300 {
		return false, false
	}
	return r.inner.ResolvePossible(req)
}

// embeddingResolver is another way of doing so.
type embeddingResolver struct{ oidfed.LocalMetadataResolver }

// WrapPlan is a federation asked with different resolvers configured.
type WrapPlan struct {
	AttributePlan
	Kinds []string `json:"kinds"`
	Ask   []string `json:"ask"`            // the entities asked about
	Warm  bool     `json:"warm,omitempty"` // the cache is kept in between
}

var wrapKinds = []string{"wrapped", "wrapped smart", "wrapped twice", "smart", "pointer", "embedding", "embedding pointer", "smart pointer"}

func genWrapPlan(t *rapid.T) WrapPlan {
	p := WrapPlan{AttributePlan: genAttributePlan(t), Warm: chance(t, "warm", 30)}
	for i := range p.Fed.Ents {
		e := &p.Fed.Ents[i].EC
		// there are no remote resolvers
		var m map[string]map[string]any
		if len(e.Meta) > 0 && json.Unmarshal(e.Meta, &m) == nil && m["federation_entity"] != nil {
			delete(m["federation_entity"], "federation_resolve_endpoint")
			e.Meta = raw(m)
		}
	}
	for k := intn(t, "nask", 1, 3); k > 0; k-- {
		if id := p.Fed.Ents[intn(t, "ask", 0, len(p.Fed.Ents)-1)].ID; !slices.Contains(p.Ask, id) {
			p.Ask = append(p.Ask, id)
		}
	}
	for k := pick(t, "nkinds", 1, 1, 2); k > 0; k-- {
		p.Kinds = append(p.Kinds, pick(t, "kind", wrapKinds...))
	}
	if chance(t, "marks by each other", 40) && len(p.Fed.Ents) > 1 {
		// entities which have marks from themselves, or from each other
		a := p.Fed.Ents[intn(t, "one", 0, len(p.Fed.Ents)-1)].ID
		b := p.Fed.Ents[intn(t, "other", 0, len(p.Fed.Ents)-1)].ID
		ty := "https://tm.example/peer"
		for _, x := range [][2]string{{a, b}, {b, a}} {
			i := p.Fed.byID(x[0])
			m := Mark{Announced: ty, Type: ty, Iss: x[0], Sub: x[1], Typ: markTyp, Sign: 950, Iat: -5}
			if ks := p.Fed.Ents[i].EC.JWKS; len(ks) > 0 {
				m.Sign = ks[0]
			}
			p.Marks[x[1]] = append(p.Marks[x[1]], m)
		}
	}
	return p
}

func makeResolver(kind string, asked *int) oidfed.MetadataResolver {
	switch kind {
	case "wrapped":
		return wrappedResolver{oidfed.LocalMetadataResolver{}, asked}
	case "wrapped smart":
		return &wrappedResolver{oidfed.SmartRemoteMetadataResolver{}, asked}
	case "wrapped twice":
		return wrappedResolver{&wrappedResolver{&oidfed.LocalMetadataResolver{}, asked}, asked}
	case "smart":
		return oidfed.SmartRemoteMetadataResolver{}
	case "smart pointer":
		return &oidfed.SmartRemoteMetadataResolver{}
	case "pointer":
		return &oidfed.LocalMetadataResolver{}
	case "embedding":
		return embeddingResolver{}
	case "embedding pointer":
		return &embeddingResolver{}
	}
	return oidfed.LocalMetadataResolver{}
}

func sortedByID(es []*oidfed.CollectedEntity) []*oidfed.CollectedEntity {
	sort.SliceStable(es, func(i, j int) bool { return es[i].EntityID < es[j].EntityID })
	return es
}

// answers asks everything that depends on the configured resolver.
func (p *WrapPlan) answers(t0 time.Time, tokens map[string][]string, asked *int) map[string]string {
	out := map[string]string{}
	put := func(what string, v any, err error) {
		if *asked > 300 {
			return
		}
		*asked = 0
		if err != nil {
			out[what] = "error"
			return
		}
		out[what] = js(generic(raw(v)))
	}
	ta := p.taPayload(t0)
	anchors := oidfed.NewTrustAnchorsFromEntityIDs(p.TA)
	rp := &oidfed.FederationLeaf{TrustAnchors: anchors}
	for _, id := range p.Ask {
		req := apimodel.ResolveRequest{Subject: id, TrustAnchor: []string{p.TA}}
		m, err := oidfed.DefaultMetadataResolver.Resolve(req)
		put("resolve "+id, m, err)
		pl, err := oidfed.DefaultMetadataResolver.ResolveResponsePayload(req)
		put("payload "+id, map[string]any{"metadata": pl.Metadata, "chain": pl.TrustChain, "marks": infoTokens(pl.TrustMarks)}, err)
		v, iv := oidfed.DefaultMetadataResolver.ResolvePossible(req)
		put("possible "+id, []bool{v, iv}, nil)
		put("filter "+id, oidfed.EntityCollectionFilterVerifiedChains{TrustAnchors: anchors}.Filter(&oidfed.CollectedEntity{EntityID: id}), nil)
		put("automatic "+id, oidfed.EntityCollectionFilterOPSupportsAutomaticRegistration([]string{p.TA}).Filter(&oidfed.CollectedEntity{EntityID: id}), nil)
		op, err := rp.ResolveOPMetadata(id)
		put("op "+id, op, err)
		for k, m := range p.Marks[id] {
			info := oidfed.TrustMarkInfo{TrustMarkType: m.Announced, TrustMarkJWT: tokens[id][k]}
			put(fmt.Sprintf("mark %s %d", id, k), info.VerifyFederation(ta) == nil, nil)
		}
	}
	es := (&oidfed.SimpleEntityCollector{}).CollectEntities(
		apimodel.EntityCollectionRequest{TrustAnchor: p.TA, TrustMarkTypes: p.Filter, Claims: p.Claims},
	)
	put("collection", sortedByID(es), nil)
	return out
}

func execWrap(c *Ctx, p WrapPlan) *Violation {
	// an endless recursion shall not take a GB before it is noticed
	defer debug.SetMaxStack(debug.SetMaxStack(128 << 20))
	w := newWorld()
	t0 := time.Now()
	tokens := map[string][]string{}
	for i := range p.Fed.Ents {
		e := &p.Fed.Ents[i]
		if e.EC.Extra == nil {
			e.EC.Extra = map[string]json.RawMessage{}
		}
		var infos []any
		for _, m := range p.Marks[e.ID] {
			tok := m.token(t0)
			tokens[e.ID] = append(tokens[e.ID], tok)
			infos = append(infos, map[string]any{"trust_mark_type": m.Announced, "trust_mark": tok})
		}
		if infos != nil {
			e.EC.Extra["trust_marks"] = raw(infos)
		}
	}
	p.install(w, t0)
	p.Fed.installLists(w)
	w.Cache.maxDepth = 3000
	asked := 0
	want := p.answers(t0, tokens, &asked)
	marks, chains := 0, 0
	for what, a := range want {
		if strings.HasPrefix(what, "payload") && a != "error" {
			chains++
			if !strings.Contains(a, `"marks":null`) {
				marks++
			}
		}
	}
	c.LabelIf(marks > 0, "trust marks resolved")
	c.NonTrivialIf(chains > 0 && marks > 0)
	for _, kind := range p.Kinds {
		if !p.Warm {
			w.Cache.clear()
		}
		w.budget = 20000
		w.Cache.gets = 0
		oidfed.DefaultMetadataResolver = makeResolver(kind, &asked)
		got := p.answers(t0, tokens, &asked)
		if asked > 300 {
			return violf("endless", "with a resolver that hands everything on (%s) it is asked without end", kind)
		}
		if w.Over {
			return violf("endless", "with a resolver of kind %s, one comes out again where one went in: calls nest without end", kind)
		}
		for _, what := range sortedKeys(want) {
			if got[what] != want[what] {
				first, _, _ := strings.Cut(what, " ")
				return violf("differs:"+first, "with a resolver of kind %s that comes to the same, %s is %s instead of %s", kind, what, got[what], want[what])
			}
		}
	}
	return nil
}

// ---- a resolver that answers by itself

// Scripted is what a resolver says about one entity.
type Scripted struct {
	ID      string          `json:"id"`
	Err     bool            `json:"err,omitempty"`
	Nothing bool            `json:"nothing,omitempty"` // no metadata at all
	Meta    json.RawMessage `json:"meta,omitempty"`
	Valid   bool            `json:"valid,omitempty"`
	Invalid bool            `json:"invalid,omitempty"`
	Marks   []Mark          `json:"marks,omitempty"`
	Chain   []int           `json:"chain,omitempty"` // its keys as in the chain; none: no chain
	Keys    []int           `json:"keys"`            // its keys as in its own configuration
	Served  bool            `json:"served"`          // its configuration can be fetched
	Listed  bool            `json:"listed,omitempty"`
	Own     json.RawMessage `json:"own,omitempty"` // metadata in its configuration
}

// ScriptPlan is what is asked while the resolver is configured.
type ScriptPlan struct {
	Ents    []Scripted `json:"ents"`
	Anchors []string   `json:"anchors"`
	Pinned  bool       `json:"pinned,omitempty"`
	Needed  []string   `json:"needed,omitempty"`
	Claims  []string   `json:"claims,omitempty"`
	Pointer bool       `json:"pointer,omitempty"`
	Marks   []Mark     `json:"marks"`
	Direct  bool       `json:"direct,omitempty"` // the filters decide on entities collected with metadata
}

type scriptedResolver struct {
	mu   *sync.Mutex
	ents map[string]*Scripted
	t0   time.Time
	log  *[]string
}

func (r scriptedResolver) note(how string, req apimodel.ResolveRequest) *Scripted {
	r.mu.Lock()
	defer r.mu.Unlock()
	*r.log = append(*r.log, askedFor(how, req.Subject, req.TrustAnchor, req.EntityTypes...))
	return r.ents[req.Subject]
}

func askedFor(how, subject string, anchors []string, types ...string) string {
	return js([]any{how, subject, append([]string{}, anchors...), append([]string{}, types...)})
}

func (e *Scripted) meta() *oidfed.Metadata {
	if e.Nothing {
		return nil
	}
	m := &oidfed.Metadata{}
	must(json.Unmarshal(e.Meta, m))
	return m
}

func (e *Scripted) chain(t0 time.Time) (out []string) {
	if len(e.Chain) > 0 {
		claims := map[string]any{"iss": e.ID, "sub": e.ID, "iat": t0.Unix() - 1, "exp": t0.Unix() + 9999, "jwks": jwkSet(e.Chain...)}
		out = append(out, signJWT(key(e.Chain[0]), entityTyp, []byte(js(claims))))
		out = append(out, signJWT(key(1), entityTyp, []byte(`{"iss":"https://ta.example","sub":"https://ta.example","iat":1,"exp":2,"jwks":{"keys":[]}}`)))
	}
	return
}

func (r scriptedResolver) Resolve(req apimodel.ResolveRequest) (*oidfed.Metadata, error) {
	e := r.note("resolve", req)
	if e == nil || e.Err {
		return nil, errors.New("no")
	}
	return e.meta(), nil
}

func (r scriptedResolver) ResolveResponsePayload(req apimodel.ResolveRequest) (res oidfed.ResolveResponsePayload, err error) {
	e := r.note("payload", req)
	if e == nil || e.Err {
		return res, errors.New("no")
	}
	res.Metadata = e.meta()
	for _, m := range e.Marks {
		res.TrustMarks = append(res.TrustMarks, oidfed.TrustMarkInfo{TrustMarkType: m.Announced, TrustMarkJWT: m.token(r.t0)})
	}
	if c := e.chain(r.t0); c != nil {
		must(json.Unmarshal(raw(c), &res.TrustChain))
	}
	return
}

func (r scriptedResolver) ResolvePossible(req apimodel.ResolveRequest) (bool, bool) {
	e := r.note("possible", req)
	if e == nil {
		return false, false
	}
	return e.Valid, e.Invalid
}

func genScriptPlan(t *rapid.T) ScriptPlan {
	p := ScriptPlan{
		Anchors: []string{"https://ta.example"}, Pinned: rapid.Bool().Draw(t, "pinned"), Pointer: rapid.Bool().Draw(t, "pointer"),
		Claims: genSubset(t, "claim", "entity_types", "trust_marks", "trust_chain", "metadata", "ui_infos"),
		Direct: rapid.Bool().Draw(t, "direct"),
	}
	for k := intn(t, "more anchors", 0, 2); k > 0; k-- {
		p.Anchors = append(p.Anchors, fmt.Sprintf("https://ta%d.example", k))
	}
	p.Needed = genSubset(t, "needed", "openid", "authorization_code", "email", "implicit")
	opMeta := func() json.RawMessage {
		if chance(t, "no op", 20) {
			return raw(map[string]any{"federation_entity": map[string]any{}})
		}
		op := map[string]any{"issuer": pick(t, "issuer", "https://x.example", "https://y.example")}
		if chance(t, "grants", 80) {
			op["grant_types_supported"] = genSubset(t, "grant", "openid", "authorization_code", "email", "implicit")
		}
		if chance(t, "scopes", 80) {
			op["scopes_supported"] = genSubset(t, "scope", "openid", "authorization_code", "email", "implicit")
		}
		if chance(t, "regs", 80) {
			op["client_registration_types_supported"] = genSubset(t, "reg", "automatic", "explicit")
		}
		return raw(map[string]any{"openid_provider": op})
	}
	for k := intn(t, "nents", 1, 4); k > 0; k-- {
		e := Scripted{
			ID: fmt.Sprintf("https://e%d.example", k), Err: chance(t, "err", 15), Nothing: chance(t, "nothing", 10), Meta: opMeta(), Own: opMeta(),
			Valid: rapid.Bool().Draw(t, "valid"), Served: chance(t, "served", 85), Listed: chance(t, "listed", 80), Keys: []int{10 + k},
		}
		e.Invalid = !e.Valid && rapid.Bool().Draw(t, "invalid")
		switch intn(t, "chain", 0, 3) {
		case 0:
		case 1:
			e.Chain = []int{20 + k}
		default:
			e.Chain = []int{10 + k}
		}
		for j := intn(t, "nmarks", 0, 2); j > 0; j-- {
			e.Marks = append(e.Marks, Mark{Announced: "t" + fmt.Sprint(j), Type: "t", Iss: "i", Sub: "s", Typ: markTyp, Sign: 3, Iat: -1})
		}
		p.Ents = append(p.Ents, e)
	}
	for k := intn(t, "nmarks", 1, 3); k > 0; k-- {
		m := Mark{Announced: "t", Type: "t", Iss: "https://ta.example", Sub: "https://s.example", Typ: markTyp, Sign: 1, Iat: -int64(k)}
		if chance(t, "by an entity", 85) {
			e := p.Ents[intn(t, "issuer", 0, len(p.Ents)-1)]
			m.Iss = e.ID
			var n int
			must1(fmt.Sscanf(e.ID, "https://e%d", &n))
			m.Sign = pick(t, "mark key", 10+n, 10+n, 20+n, 1)
		}
		p.Marks = append(p.Marks, m)
	}
	return p
}

func execScripted(c *Ctx, p ScriptPlan) *Violation {
	w := newWorld()
	t0 := time.Now()
	var log []string
	r := scriptedResolver{mu: &sync.Mutex{}, ents: map[string]*Scripted{}, t0: t0, log: &log}
	var listed []string
	serveEC := func(id string, keys []int, meta json.RawMessage) {
		claims := map[string]any{"iss": id, "sub": id, "iat": t0.Unix() - 1, "exp": t0.Unix() + 9999, "jwks": jwkSet(keys...), "metadata": meta}
		tok := signJWT(key(keys[0]), entityTyp, []byte(js(claims)))
		w.handle(wellKnown(id), func(*http.Request, url.Values) Resp {
			return Resp{CT: "application/entity-statement+jwt", Body: []byte(tok)}
		})
	}
	for i := range p.Ents {
		e := &p.Ents[i]
		r.ents[e.ID] = e
		if e.Listed {
			listed = append(listed, e.ID)
		}
		if e.Served {
			serveEC(e.ID, e.Keys, e.Own)
		}
	}
	serveEC("https://ta.example", []int{1}, raw(map[string]any{"federation_entity": map[string]any{"federation_list_endpoint": "https://ta.example/list"}}))
	w.handle("https://ta.example/list", func(*http.Request, url.Values) Resp {
		return Resp{CT: "application/json", Body: []byte(js(append([]string{}, listed...)))}
	})
	oidfed.DefaultMetadataResolver = r
	if p.Pointer {
		oidfed.DefaultMetadataResolver = &r
	}
	anchors := oidfed.NewTrustAnchorsFromEntityIDs(p.Anchors...)
	if p.Pinned {
		for i := range anchors {
			anchors[i].JWKS = libJWKS(1)
		}
	}
	// asked judges what was asked since the last time
	asked := func(what string, must bool, want ...string) *Violation {
		got := log
		log = nil
		for _, g := range got {
			if !slices.Contains(want, g) {
				return violf("asked", "for %s the resolver was asked %s instead of %v", what, g, want)
			}
		}
		if must && len(got) == 0 {
			return violf("not asked", "for %s the resolver was not asked (%v)", what, want)
		}
		return nil
	}
	nothingElse := len(w.Log)
	decided := 0
	var collected map[string]*oidfed.CollectedEntity
	filters := func(e *Scripted, ce *oidfed.CollectedEntity, metaKnown bool) *Violation {
		var op map[string][]string
		var doc map[string]map[string]json.RawMessage
		if !e.Nothing && !e.Err {
			must(json.Unmarshal(e.Meta, &doc))
			if m, ok := doc["openid_provider"]; ok {
				op = map[string][]string{}
				for k, v := range m {
					var l []string
					if json.Unmarshal(v, &l) == nil {
						op[k] = l
					}
				}
			}
		}
		subset := func(in []string) bool {
			for _, n := range p.Needed {
				if !slices.Contains(in, n) {
					return false
				}
			}
			return true
		}
		for _, f := range []struct {
			name string
			f    oidfed.EntityCollectionFilter
			want bool
		}{
			{"grant types", oidfed.EntityCollectionFilterOPSupportedGrantTypesIncludes(p.Anchors, p.Needed...), op != nil && subset(op["grant_types_supported"])},
			{"scopes", oidfed.EntityCollectionFilterOPSupportedScopesIncludes(p.Anchors, p.Needed...), op != nil && subset(op["scopes_supported"])},
			{"explicit", oidfed.EntityCollectionFilterOPSupportsExplicitRegistration(p.Anchors), op != nil && slices.Contains(op["client_registration_types_supported"], "explicit")},
			{"automatic", oidfed.EntityCollectionFilterOPSupportsAutomaticRegistration(p.Anchors), op != nil && slices.Contains(op["client_registration_types_supported"], "automatic")},
		} {
			if got := f.f.Filter(ce); got != f.want {
				return violf("filter:"+f.name, "the filter for %s (needed %v) on %s is %v although the configured resolver has %s", f.name, p.Needed, e.ID, got, js(e))
			}
			if f.want {
				decided++
			}
			if v := asked("the filter for "+f.name, !metaKnown, askedFor("resolve", e.ID, p.Anchors)); v != nil {
				return v
			}
		}
		if got := (oidfed.EntityCollectionFilterVerifiedChains{TrustAnchors: anchors}).Filter(ce); got != e.Valid {
			return violf("filter:chains", "the filter for verified chains on %s is %v although the configured resolver has %s", e.ID, got, js(e))
		}
		return asked("the filter for verified chains", true, askedFor("possible", e.ID, p.Anchors))
	}
	leaf := oidfed.FederationLeaf{TrustAnchors: anchors}
	for i := range p.Ents {
		e := &p.Ents[i]
		if v := filters(e, &oidfed.CollectedEntity{EntityID: e.ID}, false); v != nil {
			return v
		}
		op, err := leaf.ResolveOPMetadata(e.ID)
		var doc map[string]any
		must(json.Unmarshal(e.Meta, &doc))
		if ok := !e.Err && !e.Nothing && doc["openid_provider"] != nil; ok != (err == nil) {
			return violf("op", "ResolveOPMetadata(%s): %v although the configured resolver has %s", e.ID, err, js(e))
		} else if ok {
			if d := docDiff("op", normDoc("openid_provider", doc["openid_provider"]), normDoc("openid_provider", generic(raw(op)))); d != "" {
				return violf("op", "ResolveOPMetadata(%s): %s", e.ID, d)
			}
		}
		if v := asked("the metadata of an OP", true, askedFor("resolve", e.ID, p.Anchors, "openid_provider")); v != nil {
			return v
		}
	}
	if len(w.Log) != nothingElse {
		return violf("requests", "there are requests (%v) although the configured resolver answers everything", w.Log)
	}
	// trust marks
	var ta oidfed.EntityStatementPayload
	must(json.Unmarshal([]byte(js(map[string]any{"iss": "https://ta.example", "sub": "https://ta.example", "jwks": jwkSet(1), "iat": 1, "exp": 2})), &ta))
	for i := range p.Marks {
		m := &p.Marks[i]
		want := false
		e := r.ents[m.Iss]
		switch {
		case e == nil:
			want = m.Sign == 1
		case e.Err:
		case len(e.Chain) > 0:
			want = slices.Contains(e.Chain, m.Sign)
		default:
			want = e.Served && slices.Contains(e.Keys, m.Sign)
		}
		info := oidfed.TrustMarkInfo{TrustMarkType: m.Announced, TrustMarkJWT: m.token(t0)}
		if err := info.VerifyFederation(&ta); (err == nil) != want {
			return violf("mark", "trust mark %s: %v although the configured resolver has for its issuer %s", js(m), err, js(e))
		}
		if want && e != nil {
			decided++
		}
		if v := asked("a trust mark", e != nil, askedFor("payload", m.Iss, []string{"https://ta.example"})); v != nil {
			return v
		}
	}
	// collecting
	collected = map[string]*oidfed.CollectedEntity{}
	for _, ce := range (&oidfed.SimpleEntityCollector{}).CollectEntities(apimodel.EntityCollectionRequest{TrustAnchor: "https://ta.example", Claims: append([]string{}, p.Claims...)}) {
		collected[ce.EntityID] = ce
	}
	payload := slices.Contains(p.Claims, "metadata") || slices.Contains(p.Claims, "trust_chain")
	var may []string
	for _, id := range listed {
		may = append(may, askedFor("payload", id, []string{"https://ta.example"}))
	}
	if v := asked("a collection", false, may...); v != nil {
		return v
	}
	for _, id := range listed {
		e, ce := r.ents[id], collected[id]
		if !e.Served {
			continue
		}
		if ce == nil {
			return violf("collected", "%s is not collected", id)
		}
		var chain, marks []string
		if !e.Err && payload {
			if slices.Contains(p.Claims, "trust_chain") {
				chain = e.chain(t0)
			}
			if slices.Contains(p.Claims, "trust_marks") {
				for _, m := range e.Marks {
					marks = append(marks, m.token(t0))
				}
			}
		}
		var gotChain []string
		for _, x := range ce.TrustChain {
			gotChain = append(gotChain, string(x.RawJWT))
		}
		if !slices.Equal(gotChain, chain) {
			return violf("collected chain", "%s is collected with the chain %v, the configured resolver has %v", id, gotChain, chain)
		}
		if got := infoTokens(ce.TrustMarks); !slices.Equal(got, marks) {
			return violf("collected marks", "%s is collected with the trust marks %v, the configured resolver has %v", id, got, marks)
		}
		if p.Direct {
			if v := filters(e, ce, !e.Err && !e.Nothing && slices.Contains(p.Claims, "metadata")); v != nil {
				return v
			}
		}
	}
	c.NonTrivialIf(decided > 0 && len(p.Ents) > 1)
	c.LabelIf(p.Pinned, "anchors with keys")
	c.LabelIf(payload, "collected with what the resolver answers")
	return nil
}

func init() {
	reg(
		"C26", "scripted", 6000, 200000,
		"a resolver of the application, which answers from a generated script that differs from what the network has, is configured; the filters, OP metadata "+
			"lookup, trust mark verification and collection have to come out as the script says, with exactly the questions asked that were "+
			"to be asked. Non-trivial: several entities, and the script leads to something positive",
		genScriptPlan, execScripted,
	).bubble()
	reg(
		"C26", "delegating", 1600, 60000,
		"a generated federation (0-2 faults) whose entities publish trust marks (also of their own, and of each other) is asked everything that needs the "+
			"configured resolver: with the local one, and with 1-2 others which come to the same (an application's own that hands everything on, pointers, "+
			"embedding, the smart one without remote endpoints). Non-trivial: some entity resolves with trust marks",
		genWrapPlan, execWrap,
	).bubble()
}
