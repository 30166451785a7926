package zzverif

// C05: the same questions against cold and warm caches.

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync/atomic"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/cache"
)

// Query is one question to the library.
type Query struct {
	Kind    string   `json:"kind"` // chains, nometa, unverified, late, possible, payload, getec, collect, stmt, wait
	Subject string   `json:"subject,omitempty"`
	TAs     []TA     `json:"tas,omitempty"`
	Types   []string `json:"types,omitempty"`
	Spoil   bool     `json:"spoil,omitempty"` // change what was returned afterwards
	Secs    int      `json:"secs,omitempty"`
	Fetch   string   `json:"fetch,omitempty"` // where the statement of the (first) anchor about the subject is fetched
}

type WarmPlan struct {
	Fed     Fed      `json:"fed"`
	Queries []Query  `json:"queries"`
	Faults  []string `json:"faults,omitempty"`
	// what goes wrong with the cache, see cacheFaults
	Cache []int `json:"cache,omitempty"`
}

func genWarmPlan(t *rapid.T) WarmPlan {
	var p WarmPlan
	f, subject, tas := genFed(t, fedOpts{maxEnts: 6, extraTypes: true, constraints: pick(t, "constr", 0, 0, 20)})
	p.Fed = f
	for i := range p.Fed.Ents {
		// nothing expires while the questions are asked
		p.Fed.Ents[i].EC.Exp += 20000
		for j := range p.Fed.Ents[i].Subs {
			p.Fed.Ents[i].Subs[j].Stmt.Exp += 20000
		}
	}
	p.decorate(t, subject)
	for k := pick(t, "nfaults", 0, 0, 0, 1, 2); k > 0; k-- {
		p.Faults = append(p.Faults, p.Fed.injectFault(t, []TA{{}}))
	}
	// and nothing becomes valid, and what a fault added does not expire either
	for i := range p.Fed.Ents {
		e := &p.Fed.Ents[i]
		later := func(s *Stmt) {
			if s.Iat > 0 {
				s.Iat, s.Exp = s.Iat+100000, s.Exp+200000
			}
			if s.Exp > 0 && s.Exp < 20000 {
				s.Exp += 20000
			}
		}
		later(&e.EC)
		for j := range e.Subs {
			later(&e.Subs[j].Stmt)
		}
	}
	fp := FedPlan{Fed: p.Fed}
	fp.dedupHints()
	var ids []string
	for _, e := range p.Fed.Ents {
		ids = append(ids, e.ID)
	}
	var types []string
	if i := p.Fed.byID(subject); i >= 0 {
		types = metaTypes(p.Fed.Ents[i].EC.Meta)
	}
	types = append(types, pick(t, "type", leafTypes...))
	ta := func() TA {
		a := TA{ID: pick(t, "ta", ids...)}
		if chance(t, "real ta", 75) {
			a.ID = tas[intn(t, "ta of", 0, len(tas)-1)].ID
		}
		i := p.Fed.byID(a.ID)
		switch pick(t, "pin", 0, 0, 1, 1, 2, 3) {
		case 1:
			a.Pin = append([]int{}, p.Fed.Ents[i].EC.JWKS...)
		case 2:
			a.Pin = []int{p.Fed.Ents[i].EC.Sign}
		case 3:
			a.Pin = []int{950 + intn(t, "wrong pin", 0, 1)}
		}
		return a
	}
	for k := intn(t, "nqueries", 2, 8); k > 0; k-- {
		q := Query{Kind: pick(t, "kind", "chains", "chains", "nometa", "payload", "unverified", "late", "possible", "getec", "collect", "opmeta", "stmt", "wait")}
		if len(p.Queries) > 0 && chance(t, "variation", 60) {
			// the question before with one thing changed
			q = p.Queries[intn(t, "of", 0, len(p.Queries)-1)]
			switch pick(t, "change", "nothing", "kind", "types", "pin", "tas", "subject", "spelling") {
			case "kind":
				q.Kind = pick(t, "kind", "chains", "nometa", "payload", "unverified", "late", "possible", "opmeta", "getec", "stmt")
			case "types":
				q.Types = nil
				if chance(t, "some types", 70) {
					q.Types = []string{pick(t, "qtype", types...)}
				}
			case "pin":
				q.TAs = append([]TA{}, q.TAs...)
				for i := range q.TAs {
					old := q.TAs[i].ID
					q.TAs[i] = ta()
					q.TAs[i].ID = old
				}
			case "tas":
				q.TAs = []TA{ta()}
			case "subject":
				q.Subject = pick(t, "qsubject", ids...)
			case "spelling":
				// another identifier, although it looks like this one
				respell := func(id string) string {
					switch pick(t, "spelling", "slash", "case", "escaped", "space") {
					case "slash":
						if cut, ok := strings.CutSuffix(id, "/"); ok {
							return cut
						}
						return id + "/"
					case "case":
						return "https://" + strings.ToUpper(strings.TrimPrefix(id, "https://"))
					case "escaped":
						return strings.Replace(id, "e", "%65", 1)
					}
					return id + " "
				}
				if len(q.TAs) > 0 && chance(t, "issuer", 30) {
					q.TAs = append([]TA{}, q.TAs...)
					q.TAs[0].ID = respell(q.TAs[0].ID)
				} else {
					q.Subject = respell(q.Subject)
				}
				q.Kind = pick(t, "kind", q.Kind, "getec", "stmt")
			}
			if len(q.TAs) == 0 && q.Kind != "wait" {
				q.TAs = []TA{ta()}
			}
			q.Spoil = chance(t, "spoil", 40)
			p.Queries = append(p.Queries, q)
			continue
		}
		q.Subject = subject
		if chance(t, "other", 25) {
			q.Subject = pick(t, "qsubject", ids...)
		}
		q.TAs = []TA{ta()}
		if o := ta(); o.ID != q.TAs[0].ID && chance(t, "two tas", 40) {
			q.TAs = append(q.TAs, o)
		}
		if chance(t, "types", 30) {
			for j := intn(t, "n types", 1, 2); j > 0; j-- {
				q.Types = append(q.Types, pick(t, "qtype", types...))
			}
		}
		if q.Kind == "wait" {
			q = Query{Kind: "wait", Secs: pick(t, "secs", 1, 30, 400)}
		}
		q.Spoil = chance(t, "spoil", 40)
		p.Queries = append(p.Queries, q)
	}
	for i := range p.Queries {
		p.Fed.fetchable(&p.Queries[i])
	}
	return p
}

// fetchable settles where a statement query goes: to the issuer's endpoint, as
// the resolver would. Others are not asked for, as the answer is not theirs to
// give; neither is an issuer's statement about itself.
func (f *Fed) fetchable(q *Query) {
	q.Fetch = ""
	if q.Kind != "stmt" {
		return
	}
	if q.Subject != q.TAs[0].ID {
		for i := range f.Ents {
			e := &f.Ents[i]
			var m struct {
				FE struct {
					Fetch string `json:"federation_fetch_endpoint"`
				} `json:"federation_entity"`
			}
			if len(e.EC.Meta) > 0 {
				_ = json.Unmarshal(e.EC.Meta, &m)
			}
			if looksLike(e.ID, q.TAs[0].ID) && e.Fetch != "" && m.FE.Fetch == e.Fetch {
				q.Fetch = e.Fetch
			}
			if e.ID == q.TAs[0].ID {
				break
			}
		}
	}
	if q.Fetch == "" {
		q.Kind = "getec"
	}
}

func looksLike(a, b string) bool {
	norm := func(s string) string {
		return strings.ToLower(strings.ReplaceAll(strings.TrimRight(s, "/ "), "%65", "e"))
	}
	return norm(a) == norm(b)
}

// decorate gives the subject rich metadata and its superiors policies for it.
func (p *WarmPlan) decorate(t *rapid.T, subject string) {
	meta, ps := genPolicyCase(t, 3, true)
	if chance(t, "harmless policies", 50) {
		for _, x := range ps {
			for et := range x {
				for param, e := range x[et] {
					for op := range e {
						if op != "default" && op != "add" {
							delete(e, op)
						}
					}
					if len(e) == 0 {
						delete(x[et], param)
					}
				}
			}
		}
	}
	for i := range p.Fed.Ents {
		e := &p.Fed.Ents[i]
		if e.ID == subject || chance(t, "others too", 20) {
			m := map[string]any{}
			if len(e.EC.Meta) > 0 {
				must(json.Unmarshal(e.EC.Meta, &m))
			}
			for et, v := range meta {
				old, ok := m[et].(map[string]any)
				nv, ok2 := v.(map[string]any)
				if !ok || !ok2 {
					if et != "federation_entity" {
						m[et] = v
					}
					continue
				}
				for k, x := range nv {
					old[k] = x
				}
			}
			e.EC.Meta = raw(m)
		}
		for j := range e.Subs {
			if chance(t, "policy", 40) {
				e.Subs[j].Stmt.Policy = raw(ps[intn(t, "which", 0, len(ps)-1)])
			}
		}
	}
}

type warmAnswer struct {
	Chains []string          // tokens and metadata, sorted
	Best   map[string]string // shortest chains: tokens -> metadata
	Other  string
}

func chainObs(ch oidfed.TrustChain) (toks, meta string) {
	toks = strings.Join(chainTokens(ch), "|")
	m, err := ch.Metadata()
	if err != nil {
		return toks, "error"
	}
	return toks, js(m)
}

// ask puts the question; the second result are the things the answer consists
// of.
func (q *Query) ask() (a warmAnswer, vals []any) {
	r := oidfed.TrustResolver{TrustAnchors: libTAs(q.TAs), StartingEntity: q.Subject, Types: append([]string(nil), q.Types...)}
	var ids []string
	for _, ta := range q.TAs {
		ids = append(ids, ta.ID)
	}
	req := apimodel.ResolveRequest{Subject: q.Subject, TrustAnchor: ids, EntityTypes: append([]string(nil), q.Types...)}
	var chains oidfed.TrustChains
	switch q.Kind {
	case "wait":
		time.Sleep(time.Duration(q.Secs) * time.Second)
		return
	case "chains":
		chains = r.ResolveToValidChains()
	case "nometa":
		chains = r.ResolveToValidChainsWithoutVerifyingMetadata()
	case "unverified":
		r.Resolve()
		chains = r.Chains()
	case "late":
		r.Resolve()
		r.Chains()
		r.VerifySignatures()
		chains = r.Chains()
	case "possible":
		v, i := oidfed.LocalMetadataResolver{}.ResolvePossible(req)
		a.Other = fmt.Sprint(v, i)
		return
	case "payload":
		res, err := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(req)
		if err != nil {
			a.Other = "error"
			return
		}
		var toks []string
		for _, m := range res.TrustChain {
			toks = append(toks, string(m.RawJWT))
		}
		a.Best = map[string]string{strings.Join(toks, "|"): js(res.Metadata) + js(res.TrustMarks)}
		vals = append(vals, res.Metadata)
		return
	case "opmeta":
		m, err := oidfed.FederationLeaf{TrustAnchors: libTAs(q.TAs)}.ResolveOPMetadata(q.Subject)
		if err != nil {
			a.Best = map[string]string{"op": "error"}
			return
		}
		a.Best = map[string]string{"op": js(m)}
		vals = append(vals, &oidfed.Metadata{OpenIDProvider: m})
		return
	case "getec":
		ec, err := oidfed.GetEntityConfiguration(q.Subject)
		if err != nil {
			a.Other = "error"
			return
		}
		a.Other = js(ec.EntityStatementPayload)
		vals = append(vals, ec)
		return
	case "stmt":
		st, err := oidfed.FetchEntityStatement(q.Fetch, q.Subject, q.TAs[0].ID)
		if err != nil {
			a.Other = "error"
			return
		}
		a.Other = js(st.EntityStatementPayload)
		vals = append(vals, st)
		return
	case "collect":
		es := (&oidfed.SimpleEntityCollector{}).CollectEntities(apimodel.EntityCollectionRequest{
			TrustAnchor: ids[0], EntityTypes: append([]string(nil), q.Types...),
		})
		var out []string
		for _, e := range es {
			sort.Strings(e.EntityTypes)
			out = append(out, js(e))
		}
		sort.Strings(out)
		a.Other = strings.Join(out, "\n")
		return
	default:
		panic(harnessErr{"query " + q.Kind})
	}
	for _, ch := range chains {
		toks, meta := chainObs(ch)
		a.Chains = append(a.Chains, toks+" => "+meta)
		for _, s := range ch {
			vals = append(vals, s)
		}
		if m, err := ch.Metadata(); err == nil {
			vals = append(vals, m)
		}
	}
	sort.Strings(a.Chains)
	return
}

// spoilAll changes everything reachable in the exported fields.
func spoilAll(vals []any) {
	for _, v := range vals {
		switch x := v.(type) {
		case *oidfed.EntityStatement:
			if x == nil {
				continue
			}
			if x.Metadata != nil {
				*x.Metadata = oidfed.Metadata{}
			}
			if x.MetadataPolicy != nil {
				*x.MetadataPolicy = oidfed.MetadataPolicies{}
			}
			for i := range x.AuthorityHints {
				x.AuthorityHints[i] = "https://spoiled.example"
			}
			x.JWKS = libJWKS(970)
			x.Constraints = &oidfed.ConstraintSpecification{AllowedEntityTypes: []string{"none"}}
			x.Issuer, x.Subject = "spoiled", "spoiled"
		case *oidfed.Metadata:
			if x == nil {
				continue
			}
			mv := reflect.ValueOf(x).Elem()
			for i := 0; i < mv.NumField(); i++ {
				if f := mv.Field(i); f.Kind() == reflect.Pointer && !f.IsNil() && f.CanSet() {
					f.Elem().SetZero()
				}
			}
			for k := range x.Extra {
				x.Extra[k] = "spoiled"
			}
		}
	}
}

var warmCases atomic.Int64

func execWarm(backend string) func(c *Ctx, p WarmPlan) *Violation {
	return func(c *Ctx, p WarmPlan) *Violation {
		if backend == "default" {
			// see execCache: entries of this backend outlive the case
			time.Sleep(100 * 365 * 24 * time.Hour)
			n := fmt.Sprint(warmCases.Add(1))
			b := strings.NewReplacer("example", "example"+n, "infra", "infra"+n, "c.test", "c.test"+n).Replace(js(p))
			p = WarmPlan{}
			must(json.Unmarshal([]byte(b), &p))
		}
		w := newWorldKeepingCache()
		var cf *cacheFaults
		switch backend {
		case "redis":
			f := newFakeRedis()
			f.use()
			c.AtEnd(f.close)
		case "mem":
			w.useMemCache()
		case "failing":
			w.useMemCache()
			cf = &cacheFaults{plan: p.Cache}
			cache.SetCache(failingCache{w.Cache, cf})
		case "failing-redis":
			f := newFakeRedis()
			f.use()
			cf = &cacheFaults{plan: p.Cache}
			f.fault = cf.next
			c.AtEnd(f.close)
		}
		time.Sleep(500 * time.Millisecond)
		t0 := time.Now()
		sv := p.Fed.install(w, t0)
		p.Fed.installLists(w)
		var warm []warmAnswer
		for i := range p.Queries {
			q := &p.Queries[i]
			a, vals := q.ask()
			warm = append(warm, a)
			synctest.Wait()
			if q.Spoil {
				spoilAll(vals)
			}
		}
		chainsSeen, repeated := 0, 0
		w.useMemCache()
		for i := range p.Queries {
			q := &p.Queries[i]
			if q.Kind == "wait" {
				continue
			}
			w.Cache.clear()
			cold, _ := q.ask()
			synctest.Wait()
			chainsSeen += len(cold.Chains)
			if i > 0 {
				repeated++
			}
			if q.Kind == "opmeta" {
				w.Cache.clear()
				if outcomes := q.opOutcomes(); !outcomes[warm[i].Best["op"]] || !outcomes[cold.Best["op"]] {
					return violf("opmeta", "query %d %s: warm caches give OP metadata %s, cold ones %s, the shortest chains %s", i, js(q), warm[i].Best["op"], cold.Best["op"], js(outcomes))
				}
				continue
			}
			if q.Kind == "payload" && cold.Best != nil && warm[i].Best != nil {
				chainsSeen++
				// of several shortest chains any may be chosen
				w.Cache.clear()
				best := q.shortest()
				for toks, meta := range warm[i].Best {
					if best[toks] == "" {
						return violf("payload-chain", "query %d %s: warm caches give the chain [%s], not one of the %d shortest", i, js(q), describeToks(strings.Split(toks, "|")), len(best))
					}
					if best[toks] != strings.TrimSuffix(meta, "null") {
						return violf("payload-metadata", "query %d %s: warm caches give metadata %s, cold ones %s", i, js(q), meta, best[toks])
					}
				}
				continue
			}
			if js(warm[i]) != js(cold) {
				return violf("differs:"+q.Kind, "query %d %s with warm caches gives\n%s\nwith cold caches\n%s\nqueries %s", i, js(q), describeAnswer(warm[i]), describeAnswer(cold), js(p.Queries))
			}
		}
		_ = sv
		c.NonTrivialIf(repeated > 0 && chainsSeen > 0 && (cf == nil || cf.hits() > 0))
		c.Label("chains %d", min(chainsSeen, 5))
		for _, q := range p.Queries {
			c.Label("query %s", q.Kind)
		}
		return nil
	}
}

// shortest are the chains a resolve response may contain, with their metadata.
func (q *Query) shortest() map[string]string {
	r := oidfed.TrustResolver{Types: append([]string(nil), q.Types...), StartingEntity: q.Subject}
	for _, ta := range q.TAs {
		r.TrustAnchors = append(r.TrustAnchors, oidfed.TrustAnchor{EntityID: ta.ID})
	}
	out := map[string]string{}
	best := 1 << 30
	for _, ch := range r.ResolveToValidChains() {
		toks, meta := chainObs(ch)
		if l := ch.PathLen(); l < best {
			best, out = l, map[string]string{}
		}
		if ch.PathLen() == best {
			out[toks] = meta
		}
	}
	return out
}

// opOutcomes are the possible results of resolving the subject as an OP.
func (q *Query) opOutcomes() map[string]bool {
	r := oidfed.TrustResolver{TrustAnchors: libTAs(q.TAs), StartingEntity: q.Subject, Types: []string{"openid_provider"}}
	out := map[string]bool{}
	best := 1 << 30
	for _, ch := range r.ResolveToValidChains() {
		m, err := ch.Metadata()
		o := "error"
		if err == nil && m.OpenIDProvider != nil {
			o = js(m.OpenIDProvider)
		}
		if l := ch.PathLen(); l < best {
			best, out = l, map[string]bool{}
		}
		if ch.PathLen() == best {
			out[o] = true
		}
	}
	if len(out) == 0 {
		out["error"] = true
	}
	return out
}

func describeAnswer(a warmAnswer) string {
	out := a.Other
	for _, c := range a.Chains {
		toks, meta, _ := strings.Cut(c, " => ")
		out += "[" + describeToks(strings.Split(toks, "|")) + "] " + meta + "\n"
	}
	for toks, meta := range a.Best {
		out += "[" + describeToks(strings.Split(toks, "|")) + "] " + meta + "\n"
	}
	return out
}

func init() {
	rule := "a generated federation (policies, constraints, faults) is asked 2-8 related questions in sequence (chains with and without " +
		"metadata, single steps, payloads, collections; varying anchors, pins, types, subjects), results being spoiled in between; every " +
		"answer has to equal the one with cold caches. Non-trivial: some answer after the first has a chain"
	reg("C05", "mem", 5000, 120000, rule, genWarmPlan, execWarm("mem")).bubble()
	reg("C05", "default-backend", 2500, 60000, rule, genWarmPlan, execWarm("default")).bubble()
	reg("C05", "redis", 2500, 60000, rule, genWarmPlan, execWarm("redis")).bubble()
}
