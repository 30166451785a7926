package zzverif

// C23: failed fetches are failures, whatever their content, and nothing of
// them stays.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/unixtime"
)

// Fault is an endpoint that fails.
type Fault struct {
	Route int    `json:"route"` // index into the sorted endpoints, modulo their number
	Kind  string `json:"kind"`
	Other int    `json:"other,omitempty"` // for bodies of other endpoints
}

var faultStatuses = []int{400, 401, 403, 404, 404, 410, 429, 500, 500, 502, 503, 599}

var faultKinds = []string{
	"same", "same", "same", "json", "json", "html", "object", "badjson", "nothing", "neterr", "200html", "200empty", "200garbage",
	"200object", "200wrapped", "200number", "200other", "200mixed", "200cut", "200more",
}

// faulty turns a good response into a failed one; kinds starting with 200 are
// of the wrong kind.
func faulty(kind string, n int, good Resp, isList bool) Resp {
	st := faultStatuses[n%len(faultStatuses)]
	switch kind {
	case "same":
		good.Status = st
		return good
	case "json":
		return Resp{Status: st, CT: "application/json", Body: []byte(`{"error":"temporarily_unavailable","error_description":"later"}`)}
	case "html":
		return Resp{Status: st, CT: "text/html", Body: []byte("<html>oops</html>")}
	case "object":
		return Resp{Status: st, CT: "application/json", Body: []byte(`{"iss":"https://x.example"}`)}
	case "badjson":
		return Resp{Status: st, CT: "application/json", Body: []byte(`{"error":`)}
	case "nothing":
		return Resp{Status: st}
	case "neterr":
		return Resp{Err: true}
	case "200html":
		return Resp{CT: "text/html", Body: []byte("<html>please log in</html>")}
	case "200empty":
		return Resp{CT: good.CT}
	case "200garbage":
		return Resp{CT: good.CT, Body: []byte("\x00\x01garbage.not.jwt")}
	case "200object":
		return Resp{CT: "application/json", Body: []byte(`{"status":"ok"}`)}
	case "200wrapped":
		return Resp{CT: "application/json", Body: []byte(`{"data":` + js(string(good.Body)) + `}`)}
	case "200number":
		return Resp{CT: "application/json", Body: []byte("17")}
	case "200other":
		// the kind of document the other endpoints serve
		if isList {
			return Resp{CT: "application/entity-statement+jwt", Body: []byte(signJWT(key(3), entityTyp, []byte(`{}`)))}
		}
		return Resp{CT: "application/json", Body: []byte(`["https://leaf.example"]`)}
	}
	isJSON := len(good.Body) > 0 && (good.Body[0] == '[' || good.Body[0] == '{')
	switch kind {
	case "200mixed":
		// a list with something else in it
		var v any
		if !isJSON || json.Unmarshal(good.Body, &v) != nil {
			return faulty("200number", n, good, isList)
		}
		odd := []any{17, map[string]any{"id": "x"}, []any{}, true}[n%4]
		switch x := v.(type) {
		case []any:
			return Resp{CT: good.CT, Body: []byte(js(append(x, odd)))}
		case map[string]any:
			for _, k := range sortedKeys(x) {
				switch l := x[k].(type) {
				case []any:
					x[k] = append(l, "odd")
				case string:
					x[k] = 17
				}
			}
			return Resp{CT: good.CT, Body: []byte(js(x))}
		}
	case "200cut":
		// the beginning of the answer
		cut := len(good.Body) * (1 + n%4) / 5
		if i := bytes.LastIndexByte(good.Body, '.'); !isJSON && i >= 0 {
			cut = min(cut, i)
		}
		return Resp{CT: good.CT, Body: good.Body[:cut]}
	case "200more":
		// more than the answer
		return Resp{CT: good.CT, Body: append(bytes.Clone(good.Body), []string{"}", `{"a":1}`, ".e30", ",", "\x00", "]", "<html>", "]]"}[n%8]...)}
	}
	panic(harnessErr{"fault " + kind})
}

func genFault(t *rapid.T) Fault {
	return Fault{Route: intn(t, "route", 0, 30), Kind: pick(t, "fault", faultKinds...), Other: intn(t, "status", 0, 30)}
}

// RecoverPlan is a federation some of whose endpoints fail for a while.
type RecoverPlan struct {
	Fed     Fed     `json:"fed"`
	Queries []Query `json:"queries"`
	Faults  []Fault `json:"faults"`
}

func genRecoverPlan(t *rapid.T) RecoverPlan {
	var p RecoverPlan
	f, subject, tas := genFed(t, fedOpts{maxEnts: 6, extraTypes: true, constraints: pick(t, "constr", 0, 0, 0, 20)})
	p.Fed = f
	for k := pick(t, "nfaults", 0, 0, 0, 1); k > 0; k-- {
		p.Fed.injectFault(t, []TA{{}})
	}
	fp := FedPlan{Fed: p.Fed}
	fp.dedupHints()
	for k := intn(t, "nfailing", 1, 3); k > 0; k-- {
		p.Faults = append(p.Faults, genFault(t))
	}
	var ids []string
	for _, e := range p.Fed.Ents {
		ids = append(ids, e.ID)
	}
	for k := intn(t, "nqueries", 1, 4); k > 0; k-- {
		q := Query{Kind: pick(t, "kind", "chains", "nometa", "payload", "possible", "getec", "collect", "collect"), Subject: subject}
		if chance(t, "other", 25) {
			q.Subject = pick(t, "qsubject", ids...)
		}
		q.TAs = []TA{tas[intn(t, "ta", 0, len(tas)-1)]}
		if len(tas) > 1 && chance(t, "two tas", 40) {
			q.TAs = append([]TA{}, tas[:2]...)
		}
		if chance(t, "types", 20) {
			q.Types = []string{pick(t, "qtype", leafTypes...)}
		}
		p.Queries = append(p.Queries, q)
	}
	return p
}

func execRecover(c *Ctx, p RecoverPlan) *Violation {
	w := newWorld()
	time.Sleep(500 * time.Millisecond)
	p.Fed.install(w, time.Now())
	p.Fed.installLists(w)
	var urls []string
	for u := range w.routes {
		urls = append(urls, u)
	}
	sort.Strings(urls)
	byURL := map[string]Fault{}
	for _, f := range p.Faults {
		byURL[urls[f.Route%len(urls)]] = f
	}
	mode, hit := "off", 0
	for _, u := range urls {
		good := w.routes[u]
		f, isFaulty := byURL[u]
		if !isFaulty {
			continue
		}
		isList := strings.Contains(u, "/list")
		w.routes[u] = func(r *http.Request, q url.Values) Resp {
			resp := good(r, q)
			switch mode {
			case "off":
				return resp
			case "plain":
				return Resp{Err: true}
			}
			if resp.Err || resp.Status != 0 && resp.Status != 200 {
				return resp
			}
			hit++
			return faulty(f.Kind, f.Other, resp, isList)
		}
	}
	ask := func() (out []warmAnswer) {
		for i := range p.Queries {
			a, _ := p.Queries[i].ask()
			synctest.Wait()
			out = append(out, a)
		}
		return
	}
	mode = "fault"
	failing := ask()
	mode = "off"
	after := ask()
	w.Cache.clear()
	mode = "plain"
	plain := ask()
	w.Cache.clear()
	mode = "off"
	clean := ask()
	if w.Over {
		return violf("unbounded", "request budget exhausted")
	}
	for i, q := range p.Queries {
		if js(failing[i]) != js(plain[i]) {
			return violf("used:"+q.Kind, "with failing endpoints %s the query %s gives\n%s\nwith unreachable ones\n%s", describeFaults(byURL), js(q), describeAnswer(failing[i]), describeAnswer(plain[i]))
		}
		if js(after[i]) != js(clean[i]) {
			return violf("kept:"+q.Kind, "after the endpoints %s recovered the query %s gives\n%s\nwithout the failure\n%s", describeFaults(byURL), js(q), describeAnswer(after[i]), describeAnswer(clean[i]))
		}
	}
	c.NonTrivialIf(hit > 0 && js(plain) != js(clean))
	c.LabelIf(hit == 0, "nothing failing was asked")
	for _, f := range byURL {
		c.LabelIf(hit > 0, "fault %s", f.Kind)
	}
	return nil
}

func describeFaults(m map[string]Fault) string {
	var out []string
	for u, f := range m {
		out = append(out, u+": "+f.Kind)
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// FetchPlan is a sequence of answers of one endpoint.
type FetchPlan struct {
	Target  string   `json:"target"`
	Answers []Fault  `json:"answers"` // Kind "" is a good answer
	IDs     []string `json:"ids"`
	Query   bool     `json:"query,omitempty"`
	Types   []string `json:"types,omitempty"`
}

var fetchTargets = []string{"ec", "fetch", "list", "mark", "resolve", "resolve-payload", "possible", "collect"}

func genFetchPlan(t *rapid.T) FetchPlan {
	p := FetchPlan{Target: pick(t, "target", fetchTargets...), Query: chance(t, "query", 30)}
	for k := intn(t, "nanswers", 1, 5); k > 0; k-- {
		f := genFault(t)
		if chance(t, "good", 30) {
			f = Fault{}
		}
		p.Answers = append(p.Answers, f)
	}
	for k := intn(t, "nids", 1, 3); k > 0; k-- {
		p.IDs = append(p.IDs, fmt.Sprintf("https://leaf%d.example", k))
	}
	return p
}

func execFetch(c *Ctx, p FetchPlan) *Violation {
	w := newWorld()
	time.Sleep(500 * time.Millisecond)
	const id = "https://e.example"
	t0 := time.Now()
	stmt := func(iss, sub string, more map[string]any) []byte {
		m := map[string]any{"iss": iss, "sub": sub, "iat": t0.Unix(), "exp": t0.Unix() + 1000000, "jwks": setOf(key(1))}
		for k, v := range more {
			m[k] = v
		}
		return []byte(signJWT(key(1), entityTyp, []byte(js(m))))
	}
	u := "https://e.example/endpoint"
	full := u
	if p.Query {
		full += "?tenant=a%20b"
	}
	const ect = "application/entity-statement+jwt"
	fedMeta := func(m map[string]any) map[string]any {
		return map[string]any{"metadata": map[string]any{"federation_entity": m}}
	}
	var good Resp
	// call returns what was obtained, or "" for a failure
	var call func() string
	want := "data"
	check := func(got, exp string) string {
		if got == exp {
			return "data"
		}
		return "unexpected: " + got
	}
	switch p.Target {
	case "ec":
		u = wellKnown(id)
		good = Resp{CT: ect, Body: stmt(id, id, map[string]any{"x": p.IDs})}
		call = func() string {
			s, err := oidfed.GetEntityConfiguration(id)
			if err != nil {
				return ""
			}
			return check(js(s.Extra["x"]), js(p.IDs))
		}
	case "fetch":
		good = Resp{CT: ect, Body: stmt(id, p.IDs[0], map[string]any{"x": p.IDs})}
		call = func() string {
			s, err := oidfed.FetchEntityStatement(full, p.IDs[0], id)
			if err != nil {
				return ""
			}
			return check(js(s.Extra["x"]), js(p.IDs))
		}
	case "list":
		good = Resp{CT: "application/json", Body: []byte(js(p.IDs))}
		ec := stmt(id, id, fedMeta(map[string]any{"federation_list_endpoint": full}))
		w.handle(wellKnown(id), func(*http.Request, url.Values) Resp { return Resp{CT: ect, Body: ec} })
		for _, l := range p.IDs {
			leaf := stmt(l, l, map[string]any{"metadata": map[string]any{"openid_provider": map[string]any{}}})
			w.handle(wellKnown(l), func(*http.Request, url.Values) Resp { return Resp{CT: ect, Body: leaf} })
		}
		exp := append([]string{}, p.IDs...)
		sort.Strings(exp)
		call = func() string {
			var ids []string
			for _, e := range (&oidfed.SimpleEntityCollector{}).CollectEntities(apimodel.EntityCollectionRequest{TrustAnchor: id}) {
				ids = append(ids, e.EntityID)
			}
			sort.Strings(ids)
			if len(ids) == 0 {
				return ""
			}
			return check(js(ids), js(exp))
		}
	case "mark":
		tok := signJWT(key(1), markTyp, []byte(js(map[string]any{
			"iss": id, "sub": "https://me.example", "trust_mark_type": "https://tm.example/a", "iat": t0.Unix(), "exp": t0.Unix() + 1000000,
		})))
		good = Resp{CT: "application/trust-mark+jwt", Body: []byte(tok)}
		ec := stmt(id, id, fedMeta(map[string]any{"federation_trust_mark_endpoint": full}))
		w.handle(wellKnown(id), func(*http.Request, url.Values) Resp { return Resp{CT: ect, Body: ec} })
		conf := &oidfed.EntityConfigurationTrustMarkConfig{TrustMarkType: "https://tm.example/a", TrustMarkIssuer: id, MinLifetime: unixtime.NewDurationInSeconds(1)}
		must(conf.Verify("https://me.example", "", nil))
		call = func() string {
			time.Sleep(61 * time.Second)
			got, err := conf.TrustMarkJWT()
			if err != nil {
				return ""
			}
			return check(got, tok)
		}
	case "resolve", "resolve-payload", "possible":
		meta := map[string]any{"openid_provider": map[string]any{"issuer": "https://leaf.example", "x": any(p.IDs)}}
		tok := signJWT(key(1), "resolve-response+jwt", []byte(js(map[string]any{
			"iss": id, "sub": "https://leaf.example", "iat": t0.Unix(), "exp": t0.Unix() + 1000000, "metadata": meta,
		})))
		good = Resp{CT: "application/resolve-response+jwt", Body: []byte(tok)}
		r := oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: full}
		req := apimodel.ResolveRequest{Subject: "https://leaf.example", TrustAnchor: []string{id}}
		call = func() string {
			if p.Target == "possible" {
				valid, invalid := r.ResolvePossible(req)
				switch {
				case invalid:
					return "taken as proof"
				case valid:
					return "data"
				}
				return ""
			}
			if p.Target == "resolve-payload" {
				res, err := r.ResolveResponsePayload(req)
				if err != nil {
					return ""
				}
				return check(js(normDoc("metadata", generic(res.Metadata))), js(normDoc("metadata", generic(meta))))
			}
			m, err := r.Resolve(req)
			if err != nil {
				return ""
			}
			if m == nil {
				return "nothing"
			}
			return check(js(normDoc("metadata", generic(m))), js(normDoc("metadata", generic(meta))))
		}
	case "collect":
		var es []any
		for _, i := range p.IDs {
			es = append(es, map[string]any{"entity_id": i, "entity_types": []string{"openid_provider"}})
		}
		good = Resp{CT: "application/json", Body: []byte(js(map[string]any{"federation_entities": es}))}
		call = func() string {
			got := oidfed.SimpleRemoteEntityCollector{EntityCollectionEndpoint: full}.CollectEntities(apimodel.EntityCollectionRequest{TrustAnchor: id})
			if len(got) == 0 {
				return ""
			}
			return check(js(generic(got)), js(generic(es)))
		}
	}
	n := 0
	inCall := 0
	w.handle(
		u, func(*http.Request, url.Values) Resp {
			inCall++
			if n >= len(p.Answers) || p.Answers[n].Kind == "" {
				return good
			}
			a := p.Answers[n]
			return faulty(a.Kind, a.Other, good, p.Target == "list")
		},
	)
	obtained := false
	fails := 0
	for n = 0; n <= len(p.Answers); n++ {
		inCall = 0
		got := call()
		synctest.Wait()
		kind := ""
		if n < len(p.Answers) {
			kind = p.Answers[n].Kind
		}
		isGood := kind == ""
		if obtained && inCall == 0 {
			// kept from a good answer
			if got != want {
				return violf("lost:"+p.Target, "%s: call %d gives %q from what was kept of a good answer", p.Target, n, got)
			}
			continue
		}
		if inCall == 0 {
			return violf("not retried:"+p.Target, "%s: call %d makes no request after %d failed ones (gives %q)", p.Target, n, fails, got)
		}
		if isGood {
			obtained = true
			if got != want {
				return violf("not recovered:"+p.Target, "%s: call %d gets a good answer but gives %q", p.Target, n, got)
			}
			continue
		}
		fails++
		if p.Target == "mark" && obtained && got == want {
			continue
		}
		if got != "" {
			return violf("used:"+p.Target, "%s: call %d gets the failed answer %q and gives %q", p.Target, n, kind, got)
		}
	}
	c.NonTrivialIf(fails > 0)
	c.Label("target %s", p.Target)
	return nil
}

func init() {
	reg(
		"C23", "endpoints", 16000, 600000,
		"each endpoint kind (configuration, fetch, listing, trust mark, resolve, collection) answers a generated sequence of failures "+
			"(error statuses with every kind of body including the right one, transport failures, bodies of the wrong kind) and good answers; "+
			"every failed one has to give a failure, every next call has to ask again. Non-trivial: at least one failed answer",
		genFetchPlan, execFetch,
	).bubble()
	reg(
		"C23", "recovery", 4000, 120000,
		"a generated federation with some failing endpoints is asked 1-4 questions, before and after they recover; the answers have to equal "+
			"those with unreachable endpoints and those without the failures. Non-trivial: the failures change an answer",
		genRecoverPlan, execRecover,
	).bubble()
}
