package zzverif

// C21: remote resolving and collecting carries the request, returns the answer
// as received, and falls back.

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

// ---- what is asked and what comes back

// RemotePlan is one request to a remote endpoint and its answer.
type RemotePlan struct {
	Kind    string                           `json:"kind"` // resolve, payload, response, possible, collect
	Smart   bool                             `json:"smart,omitempty"`
	Resolve apimodel.ResolveRequest          `json:"resolve"`
	Collect apimodel.EntityCollectionRequest `json:"collect"`
	Own     string                           `json:"own,omitempty"` // query the endpoint URL comes with
	Doc     json.RawMessage                  `json:"doc"`
	CT      string                           `json:"ct,omitempty"`
	Alg     string                           `json:"alg,omitempty"`
}

var awkward = []string{
	"https://leaf.example", "https://leaf.example/a b", "https://leaf.example/?x=1&y=2", "https://leaf.example/ü", "https://a.example/+%2F", "x", "a,b", "<&>\"'",
	"https://ta.example", "https://ta2.example:8443/p", "100%", "#frag", "a;b", "sub=1",
}

func genRemotePlan(t *rapid.T) RemotePlan {
	p := RemotePlan{
		Kind: pick(t, "kind", "resolve", "payload", "response", "possible", "collect", "collect"), Smart: chance(t, "smart", 30),
		Own: pick(t, "own query", "", "", "", "tenant=7", "tenant=a%20b&x=%2B", "a=1&a=2"),
	}
	strs := func(label string, max int) []string {
		var out []string
		for k := intn(t, label+" n", 0, max); k > 0; k-- {
			out = append(out, pick(t, label, awkward...))
		}
		return out
	}
	p.Resolve = apimodel.ResolveRequest{Subject: pick(t, "subject", awkward...), EntityTypes: strs("type", 3)}
	p.Resolve.TrustAnchor = append([]string{"https://remote.example"}, strs("anchor", 3)...)
	if !p.Smart && chance(t, "no remote", 40) {
		p.Resolve.TrustAnchor = strs("anchor", 3)
	}
	p.Collect = apimodel.EntityCollectionRequest{
		TrustMarkTypes: strs("mark type", 2), EntityTypes: strs("ctype", 2), Claims: strs("claim", 3), TrustAnchor: pick(t, "canchor", awkward...),
	}
	if p.Smart {
		p.Collect.TrustAnchor = "https://remote.example"
	}
	if chance(t, "from", 50) {
		p.Collect.FromEntityID = pick(t, "from id", awkward...)
	}
	if chance(t, "limit", 50) {
		p.Collect.Limit = pick[uint64](t, "limit n", 1, 2, 50, 1000000, 1<<63)
	}
	if chance(t, "name", 50) {
		p.Collect.NameQuery = pick(t, "name query", append([]string{"uni", "Ünï & Co", "a+b"}, awkward...)...)
	}
	o := docOpts{share: pick(t, "share", 30, 60, 90), empty: pick(t, "empties", 0, 10), extra: pick(t, "extras", 0, 2, 4), fold: pick(t, "folds", 0, 0, 20), depth: 4}
	if p.Kind == "collect" {
		p.CT = pick(t, "ct", "application/json", "application/json", "application/json;charset=UTF-8")
		p.Doc = raw(genDoc(t, "collection", o))
	} else {
		p.CT = pick(t, "ct", "application/resolve-response+jwt", "application/resolve-response+jwt", "application/jwt", "text/plain")
		p.Doc = raw(genDoc(t, "resolve", o))
	}
	return p
}

func sameValues(got, want []string) bool {
	return len(got) == len(want) && (len(got) == 0 || reflect.DeepEqual(got, want))
}

// checkParams compares the request that arrived with what was asked for.
func checkParams(got url.Values, own string, want map[string][]string) string {
	exp, err := url.ParseQuery(own)
	must(err)
	for k, v := range want {
		exp[k] = append(exp[k], v...)
	}
	var names []string
	for k := range exp {
		names = append(names, k)
	}
	for k := range got {
		if _, ok := exp[k]; !ok {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	for _, k := range names {
		g, w := got[k], exp[k]
		if sameValues(g, w) {
			continue
		}
		if len(w) == 0 && len(want[k]) == 0 && want[k] != nil && (sameValues(g, []string{""}) || sameValues(g, []string{"0"}) && k == "limit") {
			continue // unset
		}
		return fmt.Sprintf("parameter %s is %q instead of %q", k, g, w)
	}
	return ""
}

func (p *RemotePlan) params() map[string][]string {
	one := func(s string) []string {
		if s == "" {
			return []string{}
		}
		return []string{s}
	}
	list := func(l []string) []string { return append([]string{}, l...) }
	if p.Kind == "collect" {
		r := p.Collect
		lim := []string{}
		if r.Limit != 0 {
			lim = []string{strconv.FormatUint(r.Limit, 10)}
		}
		return map[string][]string{
			"from_entity_id": one(r.FromEntityID), "limit": lim, "trust_mark_type": list(r.TrustMarkTypes), "trust_anchor": one(r.TrustAnchor),
			"entity_type": list(r.EntityTypes), "name_query": one(r.NameQuery), "claims": list(r.Claims),
		}
	}
	r := p.Resolve
	return map[string][]string{"sub": one(r.Subject), "trust_anchor": list(r.TrustAnchor), "entity_type": list(r.EntityTypes)}
}

const remoteURL = "https://remote.example/endpoint"

func remoteEC(member, endpoint string) []byte {
	now := time.Now().Unix()
	return []byte(signJWT(key(5), entityTyp, []byte(js(map[string]any{
		"iss": "https://remote.example", "sub": "https://remote.example", "iat": now, "exp": now + 1000000, "jwks": setOf(key(5)),
		"metadata": map[string]any{"federation_entity": map[string]any{member: endpoint}},
	}))))
}

func execRemote(c *Ctx, p RemotePlan) *Violation {
	w := newWorld()
	time.Sleep(500 * time.Millisecond)
	full := remoteURL
	if p.Own != "" {
		full += "?" + p.Own
	}
	member := "federation_resolve_endpoint"
	if p.Kind == "collect" {
		member = "federation_collection_endpoint"
	}
	ec := remoteEC(member, full)
	w.handle(wellKnown("https://remote.example"), func(*http.Request, url.Values) Resp {
		return Resp{CT: "application/entity-statement+jwt", Body: ec}
	})
	body := []byte(p.Doc)
	if p.Kind != "collect" {
		body = []byte(signJWT(key(5), "resolve-response+jwt", p.Doc))
	}
	w.handle(remoteURL, func(*http.Request, url.Values) Resp { return Resp{CT: p.CT, Body: body} })
	var doc map[string]any
	must(json.Unmarshal(p.Doc, &doc))

	before := js(p.Resolve) + js(p.Collect)
	c.Label("kind %s", p.Kind)
	c.LabelIf(p.Smart, "smart")
	c.LabelIf(p.Own != "", "endpoint with a query")
	var r oidfed.MetadataResolver = oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: full}
	if p.Smart {
		r = oidfed.SmartRemoteMetadataResolver{}
	}
	diff := ""
	switch p.Kind {
	case "collect":
		var col oidfed.EntityCollector = oidfed.SimpleRemoteEntityCollector{EntityCollectionEndpoint: full}
		if p.Smart {
			col = oidfed.SmartRemoteEntityCollector{TrustAnchors: []string{"https://other.example"}}
		}
		got := col.CollectEntities(p.Collect)
		want := doc["federation_entities"].([]any)
		if len(got) != len(want) {
			diff = fmt.Sprintf("%d entities instead of %d", len(got), len(want))
			break
		}
		for i, e := range got {
			if e == nil {
				diff = fmt.Sprintf("entity %d is nil", i)
				break
			}
			if diff = checkDecoded(fmt.Sprintf("entity %d", i), "collected", want[i].(map[string]any), reflect.ValueOf(e)); diff != "" {
				break
			}
		}
	case "possible":
		if v, i := r.ResolvePossible(p.Resolve); !v || i {
			diff = fmt.Sprintf("ResolvePossible gives %v, %v for a positive answer", v, i)
		}
	case "response":
		if p.Smart {
			panic(skipCase{"there is no smart ResolveResponse"})
		}
		res, _, err := oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: full}.ResolveResponse(p.Resolve)
		if err != nil || res == nil {
			diff = fmt.Sprintf("no response: %v", err)
			break
		}
		diff = checkDecoded("response", "resolve", doc, reflect.ValueOf(res))
	case "payload":
		res, err := r.ResolveResponsePayload(p.Resolve)
		if err != nil {
			diff = fmt.Sprintf("no payload: %v", err)
			break
		}
		sub := map[string]any{}
		for k, v := range doc {
			switch k {
			case "iss", "sub", "iat", "exp", "aud":
			default:
				sub[k] = v
			}
		}
		diff = checkDecoded("payload", "resolve-payload", sub, reflect.ValueOf(res))
	case "resolve":
		m, err := r.Resolve(p.Resolve)
		if err != nil {
			diff = fmt.Sprintf("no metadata: %v", err)
			break
		}
		want, ok := doc["metadata"].(map[string]any)
		if !ok {
			if m != nil && js(m) != "{}" {
				diff = "metadata out of nothing"
			}
			break
		}
		diff = checkDecoded("metadata", "metadata", want, reflect.ValueOf(m))
	}
	synctest.Wait()
	reqs := w.requestsTo(remoteURL)
	if len(reqs) == 0 {
		return violf("no request", "no request arrives at the endpoint: %s", diff)
	}
	for _, l := range reqs {
		if l.Method != "GET" {
			return violf("method", "%s request", l.Method)
		}
		if d := checkParams(l.Query, p.Own, p.params()); d != "" {
			return violf("request:"+p.Kind, "%s", d)
		}
	}
	if diff != "" {
		return violf("answer:"+p.Kind, "%s", diff)
	}
	if js(p.Resolve)+js(p.Collect) != before {
		return violf("changed", "the request was changed to %s %s", js(p.Resolve), js(p.Collect))
	}
	set := 0
	for _, v := range p.params() {
		if len(v) > 0 {
			set++
		}
	}
	c.NonTrivialIf(set >= 2 && len(doc) > 0)
	return nil
}

// ---- who answers

// Remote is what the endpoints of a trust anchor do.
type Remote struct {
	EC       string `json:"ec,omitempty"`       // how the configuration is served
	Endpoint bool   `json:"endpoint,omitempty"` // whether the configuration names one
	Kind     string `json:"kind,omitempty"`     // ok, empty, late, silent, error:<code>, or a fault
	N        int    `json:"n,omitempty"`
}

// SmartPlan is a federation with several trust anchors that have endpoints.
type SmartPlan struct {
	Fed     Fed      `json:"fed"`
	Ask     []Smart  `json:"ask"`
	Remotes []Remote `json:"remotes"` // of the anchors
	Anchors []string `json:"anchors"`
}

type Smart struct {
	Kind    string   `json:"kind"` // resolve, payload, possible, collect
	Subject string   `json:"subject,omitempty"`
	TAs     []int    `json:"tas"` // the configured anchors, for collect the first is the one asked for
	Types   []string `json:"types,omitempty"`
}

var remoteErrors = []string{"invalid_subject", "invalid_trust_anchor", "invalid_trust_chain", "invalid_metadata", "not_found", "server_error", "temporarily_unavailable", "INVALID_TRUST_CHAIN", "invalid_request"}

func genSmartPlan(t *rapid.T) SmartPlan {
	var p SmartPlan
	f, subject, tas := genFed(t, fedOpts{maxEnts: 6, extraTypes: true})
	p.Fed = f
	fp := FedPlan{Fed: p.Fed}
	fp.dedupHints()
	for i := range p.Fed.Ents {
		p.Fed.Ents[i].EC.Exp += 20000
		for j := range p.Fed.Ents[i].Subs {
			p.Fed.Ents[i].Subs[j].Stmt.Exp += 20000
		}
	}
	seen := map[string]bool{}
	var ids []string
	for _, e := range p.Fed.Ents {
		ids = append(ids, e.ID)
	}
	add := func(id string) {
		if !seen[id] {
			seen[id] = true
			p.Anchors = append(p.Anchors, id)
		}
	}
	for _, ta := range tas {
		add(ta.ID)
	}
	for k := intn(t, "more anchors", 0, 2); k > 0; k-- {
		add(pick(t, "anchor", ids...))
	}
	if chance(t, "unknown anchor", 20) {
		add("https://gone.example")
	}
	for i, id := range p.Anchors {
		r := Remote{Endpoint: chance(t, "endpoint", 85), N: intn(t, "n", 0, 30)}
		switch pick(t, "remote", "ok", "ok", "error", "error", "fault", "fault", "slow", "ec", "empty") {
		case "ok":
			r.Kind = "ok"
		case "empty":
			r.Kind = "empty"
		case "error":
			r.Kind = "error:" + pick(t, "code", remoteErrors...)
		case "fault":
			r.Kind = pick(t, "fault", faultKinds...)
		case "slow":
			r.Kind = pick(t, "slow", "late", "silent")
		case "ec":
			r.Kind, r.EC = "ok", pick(t, "ec fault", "neterr", "404", "500jwt", "html", "empty")
		}
		p.Remotes = append(p.Remotes, r)
		j := p.Fed.byID(id)
		if j < 0 {
			continue
		}
		e := &p.Fed.Ents[j]
		e.EC.HTTP = r.EC
		m := map[string]map[string]any{}
		if len(e.EC.Meta) > 0 {
			must(json.Unmarshal(e.EC.Meta, &m))
		}
		if m["federation_entity"] == nil {
			m["federation_entity"] = map[string]any{}
		}
		if r.Endpoint {
			m["federation_entity"]["federation_resolve_endpoint"] = fmt.Sprintf("https://remote%d.infra/resolve", i)
			m["federation_entity"]["federation_collection_endpoint"] = fmt.Sprintf("https://remote%d.infra/collection", i)
		} else if chance(t, "odd endpoint", 30) {
			m["federation_entity"]["federation_collection_endpoint"] = pick[any](t, "odd", 7, "", []string{"https://remote0.infra/collection"}, nil)
		}
		e.EC.Meta = raw(m)
		if !r.Endpoint && chance(t, "bare", 25) {
			if e.EC.Meta = nil; rapid.Bool().Draw(t, "other metadata") {
				e.EC.Meta = raw(map[string]any{"openid_provider": map[string]any{"issuer": id}})
			}
		}
	}
	for k := intn(t, "nask", 1, 3); k > 0; k-- {
		q := Smart{Kind: pick(t, "kind", "resolve", "payload", "payload", "possible", "possible", "collect", "collect"), Subject: subject}
		if chance(t, "other", 20) {
			q.Subject = pick(t, "qsubject", append([]string{"https://unknown.example"}, ids...)...)
		}
		perm := rapid.Permutation(seq(len(p.Anchors))).Draw(t, "order")
		q.TAs = perm[:intn(t, "ntas", 1, len(perm))]
		if chance(t, "types", 15) {
			q.Types = []string{pick(t, "qtype", leafTypes...)}
		}
		p.Ask = append(p.Ask, q)
	}
	return p
}

func seq(n int) (out []int) {
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return
}

func remoteMark(i int) string { return fmt.Sprintf("answer of remote %d", i) }

// answer is what the endpoint of anchor i serves.
func (r Remote) answer(i int, collect bool) Resp {
	good := Resp{CT: "application/resolve-response+jwt"}
	meta := map[string]any{"openid_relying_party": map[string]any{"client_name": remoteMark(i)}}
	switch {
	case collect && r.Kind == "empty":
		good = Resp{CT: "application/json", Body: []byte(`{"federation_entities":[]}`)}
	case collect:
		good = Resp{CT: "application/json", Body: []byte(js(map[string]any{"federation_entities": []any{
			map[string]any{"entity_id": "https://" + fmt.Sprintf("r%d", i) + ".example", "entity_types": []string{"openid_provider"}, "mark": remoteMark(i)},
		}}))}
	case r.Kind == "empty":
		good.Body = []byte(signJWT(key(5), "resolve-response+jwt", []byte(js(map[string]any{
			"iss": "https://x.example", "sub": "https://y.example", "iat": 1, "exp": 2000000000, "metadata": map[string]any{},
		}))))
	default:
		good.Body = []byte(signJWT(key(5), "resolve-response+jwt", []byte(js(map[string]any{
			"iss": "https://x.example", "sub": "https://y.example", "iat": 1, "exp": 2000000000, "metadata": meta, "mark": remoteMark(i),
		}))))
	}
	code, isErr := strings.CutPrefix(r.Kind, "error:")
	switch {
	case isErr:
		return Resp{Status: []int{400, 404, 403, 500}[r.N%4], CT: "application/json", Body: []byte(js(map[string]any{"error": code, "error_description": "no"}))}
	case r.Kind == "ok" || r.Kind == "empty":
		return good
	case r.Kind == "late":
		good.Delay = 12 * time.Second
		return good
	case r.Kind == "silent":
		good.Delay = time.Hour
		return good
	}
	f := faulty(r.Kind, r.N, good, collect)
	return f
}

// verdict is what the endpoint says about a request: "ok", "valid", "invalid"
// or "" for nothing.
func (r Remote) verdict() string {
	if r.EC != "" || !r.Endpoint {
		return ""
	}
	switch r.Kind {
	case "ok", "empty", "late":
		return "ok"
	case "error:invalid_metadata":
		return "valid"
	case "error:invalid_trust_chain":
		return "invalid"
	}
	return ""
}

func (q Smart) ask(anchors []string, local bool) string {
	var ids []string
	for _, i := range q.TAs {
		ids = append(ids, anchors[i])
	}
	var r oidfed.MetadataResolver = oidfed.SmartRemoteMetadataResolver{}
	if local {
		r = oidfed.LocalMetadataResolver{}
	}
	req := apimodel.ResolveRequest{Subject: q.Subject, TrustAnchor: ids, EntityTypes: q.Types}
	switch q.Kind {
	case "resolve":
		m, err := r.Resolve(req)
		if err != nil {
			return "error"
		}
		return js(m)
	case "payload":
		res, err := r.ResolveResponsePayload(req)
		if err != nil {
			return "error"
		}
		// of several shortest chains any may be given
		return js(map[string]any{"m": res.Metadata, "n": len(res.TrustChain), "extra": res.Extra})
	case "possible":
		v, i := r.ResolvePossible(req)
		return fmt.Sprint(v, " ", i)
	}
	var col oidfed.EntityCollector = oidfed.SmartRemoteEntityCollector{TrustAnchors: ids}
	if local {
		col = &oidfed.SimpleEntityCollector{}
	}
	var out []string
	for _, e := range col.CollectEntities(apimodel.EntityCollectionRequest{TrustAnchor: ids[0], EntityTypes: q.Types}) {
		sort.Strings(e.EntityTypes)
		out = append(out, js(e))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func execSmart(c *Ctx, p SmartPlan) *Violation {
	w := newWorld()
	time.Sleep(500 * time.Millisecond)
	p.Fed.install(w, time.Now())
	p.Fed.installLists(w)
	for i, r := range p.Remotes {
		w.handle(fmt.Sprintf("https://remote%d.infra/resolve", i), func(*http.Request, url.Values) Resp { return r.answer(i, false) })
		w.handle(fmt.Sprintf("https://remote%d.infra/collection", i), func(*http.Request, url.Values) Resp { return r.answer(i, true) })
	}
	for n, q := range p.Ask {
		got := q.ask(p.Anchors, false)
		synctest.Wait()
		w.Cache.clear()
		local := q.ask(p.Anchors, true)
		synctest.Wait()
		w.Cache.clear()
		if w.Over {
			return violf("unbounded", "request budget exhausted")
		}
		who, verdict := -1, ""
		for _, i := range q.TAs {
			r := p.Remotes[i]
			if p.Fed.byID(p.Anchors[i]) < 0 {
				continue
			}
			v := r.verdict()
			if v == "ok" || q.Kind == "possible" && v != "" {
				who, verdict = i, v
				break
			}
		}
		want := local
		if who >= 0 {
			r := p.Remotes[who]
			a := r.answer(who, q.Kind == "collect")
			switch q.Kind {
			case "possible":
				want = fmt.Sprint(verdict != "invalid", " ", verdict == "invalid")
			case "collect":
				var res oidfed.EntityCollectionResponse
				must(json.Unmarshal(a.Body, &res))
				var out []string
				for _, e := range res.FederationEntities {
					out = append(out, js(e))
				}
				want = strings.Join(out, "\n")
			default:
				res := must1(oidfed.ParseResolveResponse(a.Body))
				want = js(res.Metadata)
				if q.Kind == "payload" {
					want = js(map[string]any{"m": res.Metadata, "n": len(res.TrustChain), "extra": res.Extra})
				}
			}
		}
		var rs []string
		for _, i := range q.TAs {
			rs = append(rs, fmt.Sprintf("%d %s %+v", i, p.Anchors[i], p.Remotes[i]))
		}
		if got != want {
			return violf("smart:"+q.Kind, "question %d %s of anchors %s:\ngives  %s\nwanted %s (of remote %d; local %s)", n, js(q), strings.Join(rs, "; "), got, want, who, local)
		}
		c.Label("%s: %s", q.Kind, map[bool]string{true: "remote", false: "local"}[who >= 0])
		c.NonTrivialIf(len(q.TAs) > 1 && got != "error" && got != "")
		if who >= 0 {
			for _, i := range q.TAs {
				if i == who {
					break
				}
				c.Label("skipped: %s", p.Remotes[i].Kind)
			}
		}
	}
	return nil
}

func init() {
	reg(
		"C21", "remote", 15000, 500000,
		"one request with generated fields (awkward strings, lists, unset ones) to a remote resolve or collection endpoint (with its own query), "+
			"answered with a generated document; the request must arrive with exactly its fields under the protocol names, the answer must be "+
			"returned as received. Non-trivial: at least two fields set",
		genRemotePlan, execRemote,
	).bubble()
	reg(
		"C21", "smart", 8000, 250000,
		"a generated federation with 1-5 anchors whose endpoints answer, answer with errors, fail, are silent or are missing is asked 1-3 "+
			"questions through the smart variants; wanted: the answer of the first that answers, else the local result. Non-trivial: several "+
			"anchors and an answer",
		genSmartPlan, execSmart,
	).bubble()
}
