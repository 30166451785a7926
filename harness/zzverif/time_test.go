package zzverif

// C04: histories on a virtual clock. Every document is issued anew on every
// fetch, following a generated schedule of lifetimes and failures.

import (
	"fmt"
	"net/http"
	"net/url"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

// DocVer is what one fetch of a document yields.
type DocVer struct {
	Iat  int64  `json:"iat"`  // seconds relative to the fetch
	Life int64  `json:"life"` // expiration relative to the fetch
	HTTP string `json:"http,omitempty"`
	Slow int64  `json:"slow,omitempty"` // seconds to answer
}

type TimeOp struct {
	Op      string `json:"op"` // wait, resolve, getec, payload, late
	Secs    int64  `json:"secs,omitempty"`
	Ent     int    `json:"ent,omitempty"`
	NoMeta  bool   `json:"nometa,omitempty"`
	Shuffle bool   `json:"types,omitempty"`
}

type TimePlan struct {
	Hints  [][]int             `json:"hints"` // entity -> authorities; entity 0 is the anchor
	EC     [][]DocVer          `json:"ec"`
	Sub    map[string][]DocVer `json:"sub"` // "authority-subject"
	Pin    bool                `json:"pin"`
	Grace  int64               `json:"grace"`
	Factor float64             `json:"factor"`
	Ops    []TimeOp            `json:"ops"`
	Policy bool                `json:"policy"`
}

var lifePool = []int64{2, 10, 30, 61, 100, 300, 1000, 3601, 7200, 90000}
var waitPool = []int64{1, 5, 20, 45, 60, 300, 1800, 3600, 7200, 86400}

func genTimePlan(t *rapid.T) TimePlan {
	n := intn(t, "n", 2, 4)
	p := TimePlan{Sub: map[string][]DocVer{}}
	base := pick(t, "base life", lifePool...)
	doc := func() []DocVer {
		var vs []DocVer
		for k := intn(t, "versions", 1, 3); k > 0; k-- {
			v := DocVer{Iat: -pick(t, "age", int64(0), 0, 1, 5, 60, 5000), Life: base}
			if chance(t, "own life", 50) {
				v.Life = pick(t, "life", lifePool...)
			}
			switch intn(t, "oddity", 0, 19) {
			case 19:
				v.Life = -pick(t, "ago", int64(1), 10, 1000)
			case 18:
				v.Iat = pick(t, "ahead", int64(1), 30, 600)
			case 17:
				v.HTTP = pick(t, "http", "404", "500json", "neterr", "500html")
			case 16:
				v.Slow = pick(t, "slow", int64(1), 4, 15)
			}
			if v.Life <= 0 && v.Iat > v.Life {
				v.Iat = v.Life - 100
			}
			if v.Iat > 0 && v.Life <= v.Iat {
				v.Life = v.Iat + 50
			}
			vs = append(vs, v)
		}
		return vs
	}
	for i := 0; i < n; i++ {
		var h []int
		if i > 0 {
			h = []int{intn(t, "hint", 0, i-1)}
			if o := intn(t, "hint 2", 0, i-1); o != h[0] && chance(t, "two hints", 40) {
				h = append(h, o)
			}
		}
		p.Hints = append(p.Hints, h)
		p.EC = append(p.EC, doc())
		for _, a := range h {
			p.Sub[fmt.Sprintf("%d-%d", a, i)] = doc()
		}
	}
	p.Pin = rapid.Bool().Draw(t, "pin")
	p.Policy = chance(t, "policy", 30)
	p.Grace = pick(t, "grace", int64(3600), 0, 10, 60, 1000000)
	p.Factor = pick(t, "factor", 0.5, 0, 0.25, 0.75, 0.9, 1)
	for k := intn(t, "nops", 2, 12); k > 0; k-- {
		o := TimeOp{Op: pick(t, "op", "resolve", "wait", "resolve", "wait", "getec", "payload", "late")}
		switch o.Op {
		case "wait":
			o.Secs = pick(t, "secs", waitPool...)
			if chance(t, "life based", 40) {
				o.Secs = max(1, base/pick(t, "part", int64(1), 2, 3, 4))
			}
		case "late":
			o.Secs = pick(t, "secs", waitPool...)
			o.Ent = n - 1
		default:
			o.Ent = n - 1
			if chance(t, "other entity", 25) {
				o.Ent = intn(t, "ent", 0, n-1)
			}
			o.NoMeta = chance(t, "no metadata", 40)
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

type servedDoc struct {
	doc      string
	iat, exp int64
	at       time.Time
	slow     int64
	ok       bool
}

var timeCases atomic.Int64

func execTime(backend string) func(c *Ctx, p TimePlan) *Violation {
	return func(c *Ctx, p TimePlan) *Violation {
		suffix := ""
		if backend == "default" {
			// see execCache: entries of this backend outlive the case
			time.Sleep(100 * 365 * 24 * time.Hour)
			suffix = fmt.Sprintf(".c%d", timeCases.Add(1))
		}
		w := newWorldKeepingCache()
		switch backend {
		case "redis":
			f := newFakeRedis()
			f.use()
			c.AtEnd(f.close)
		case "mem":
			w.useMemCache()
		}
		time.Sleep(500 * time.Millisecond)
		oidfed.ResolverCacheGracePeriod = time.Duration(p.Grace) * time.Second
		oidfed.ResolverCacheLifetimeElapsedGraceFactor = p.Factor
		n := len(p.Hints)
		id := func(i int) string { return fmt.Sprintf("https://e%d%s.example", i, suffix) }
		var mu sync.Mutex
		tokens := map[string]servedDoc{}
		history := map[string][]servedDoc{} // by document
		count := map[string]int{}
		answer := func(name string, vers []DocVer, s Stmt) Resp {
			now := time.Now()
			mu.Lock()
			k := count[name]
			count[name]++
			mu.Unlock()
			v := vers[min(k, len(vers)-1)]
			s.Iat, s.Exp = v.Iat, v.Life
			d := servedDoc{doc: name, iat: now.Unix() + v.Iat, exp: now.Unix() + v.Life, at: now, slow: v.Slow, ok: v.HTTP == ""}
			tok := s.token(now)
			r := httpResp(v.HTTP, tok, "application/entity-statement+jwt")
			r.Delay = time.Duration(v.Slow) * time.Second
			mu.Lock()
			// the same document may be issued twice within a second
			if old, known := tokens[tok]; !known || !old.ok {
				tokens[tok] = d
			}
			history[name] = append(history[name], d)
			mu.Unlock()
			return r
		}
		for i := 0; i < n; i++ {
			meta := authorityMeta(i, id(i))
			meta["federation_entity"].(map[string]any)["federation_fetch_endpoint"] = id(i) + "/fetch"
			meta["openid_relying_party"] = map[string]any{"client_name": "", "contacts": []string{"a"}}
			ec := Stmt{Iss: id(i), Sub: id(i), Typ: entityTyp, Sign: i + 1, JWKS: []int{i + 1}, Meta: raw(meta)}
			for _, h := range p.Hints[i] {
				ec.Hints = append(ec.Hints, id(h))
			}
			name := fmt.Sprintf("ec-%d", i)
			w.handle(wellKnown(id(i)), func(*http.Request, url.Values) Resp { return answer(name, p.EC[i], ec) })
			w.handle(
				id(i)+"/fetch", func(_ *http.Request, q url.Values) Resp {
					for j := range p.Hints {
						if q.Get("sub") != id(j) {
							continue
						}
						for _, h := range p.Hints[j] {
							if h == i {
								st := Stmt{Iss: id(i), Sub: id(j), Typ: entityTyp, Sign: i + 1, JWKS: []int{j + 1}}
								if p.Policy {
									st.Policy = raw(map[string]any{"openid_relying_party": map[string]any{"contacts": map[string]any{"add": []string{"b"}}}})
								}
								k := fmt.Sprintf("%d-%d", i, j)
								return answer("sub-"+k, p.Sub[k], st)
							}
						}
					}
					return httpResp("404json", "", "")
				},
			)
		}
		ta := TA{ID: id(0)}
		if p.Pin {
			ta.Pin = []int{1}
		}
		tas := libTAs([]TA{ta})
		usable := func(d servedDoc, at int64) bool { return d.ok && d.iat <= at && at < d.exp }
		// docs a path needs
		var pathsOf func(i int) [][]int
		pathsOf = func(i int) [][]int {
			if i == 0 {
				return [][]int{{0}}
			}
			var out [][]int
			for _, h := range p.Hints[i] {
				for _, q := range pathsOf(h) {
					out = append(out, append([]int{i}, q...))
				}
			}
			return out
		}
		docsOf := func(path []int) (names []string, vers [][]DocVer) {
			for k, i := range path {
				names, vers = append(names, fmt.Sprintf("ec-%d", i)), append(vers, p.EC[i])
				if k+1 < len(path) {
					key := fmt.Sprintf("%d-%d", path[k+1], i)
					names, vers = append(names, "sub-"+key), append(vers, p.Sub[key])
				}
			}
			return
		}
		// mustExist: whatever unexpired copy is used and whatever is fetched next is fine
		mustExist := func(path []int, at int64) bool {
			names, vers := docsOf(path)
			for k, name := range names {
				for _, d := range history[name] {
					if d.ok && d.exp > at && !usable(d, at) {
						return false
					}
				}
				for c := count[name]; c < count[name]+3; c++ { // background refreshes may consume some
					v := vers[k][min(c, len(vers[k])-1)]
					if v.HTTP != "" || v.Iat > 0 || v.Life <= 0 || v.Slow > 0 {
						return false
					}
				}
			}
			return true
		}
		issued := func(tok string) (servedDoc, bool) {
			mu.Lock()
			defer mu.Unlock()
			d, ok := tokens[tok]
			return d, ok
		}
		interesting := false
		for oi, o := range p.Ops {
			now := time.Now()
			at := now.Unix()
			var chains oidfed.TrustChains
			var must bool
			before := map[string]int{}
			mu.Lock()
			for k, v := range history {
				before[k] = len(v)
			}
			for _, pa := range pathsOf(o.Ent) {
				must = must || mustExist(pa, at)
			}
			mu.Unlock()
			lateOp := false
			switch o.Op {
			case "wait":
				time.Sleep(time.Duration(o.Secs) * time.Second)
				continue
			case "resolve":
				r := oidfed.TrustResolver{TrustAnchors: tas, StartingEntity: id(o.Ent)}
				if o.NoMeta {
					chains = r.ResolveToValidChainsWithoutVerifyingMetadata()
				} else {
					chains = r.ResolveToValidChains()
				}
				// a slow path may outlast the statements of the others
				mu.Lock()
				seen := fmt.Sprint(history)
				mu.Unlock()
				if must && len(chains) == 0 && time.Now().Unix() == at {
					return violf("no-fresh", "op %d (%s): no chain for %s although every cached or fresh statement of a path is valid; history %v",
						oi, js(o), id(o.Ent), seen)
				}
			case "late":
				r := oidfed.TrustResolver{TrustAnchors: tas, StartingEntity: id(o.Ent)}
				r.Resolve()
				synctest.Wait()
				time.Sleep(time.Duration(o.Secs) * time.Second)
				r.VerifySignatures()
				chains = r.Chains()
				lateOp = true
			case "getec":
				_, err := oidfed.GetEntityConfiguration(id(o.Ent))
				_ = err
				// a usable cached copy answers at once, also while a new one
				// is requested
				mu.Lock()
				hs := history[fmt.Sprintf("ec-%d", o.Ent)]
				b := before[fmt.Sprintf("ec-%d", o.Ent)]
				cached := b > 0
				for k := 0; k < b; k++ { // no slower answer came in later
					cached = cached && (hs[k].slow == 0 || hs[k].at.Unix()+hs[k].slow < hs[b-1].at.Unix())
				}
				if cached {
					v := hs[b-1]
					cached = v.ok && v.iat <= v.at.Unix() && v.exp > at+1
				}
				mu.Unlock()
				if took := time.Since(now); cached && took >= time.Second {
					return violf("refresh-in-foreground", "op %d: %s was cached and valid at %d, but it took %v to get it, until a new one was there",
						oi, id(o.Ent), at, took)
				}
				c.LabelIf(cached && len(hs) > b && hs[b].slow > 0, "slow refresh")
			case "payload":
				res, err := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(
					apimodel.ResolveRequest{Subject: id(o.Ent), TrustAnchor: []string{id(0)}},
				)
				got := time.Now().Unix()
				if err == nil {
					for _, m := range res.TrustChain {
						d, known := issued(string(m.RawJWT))
						if !known || !usable(d, got) {
							return violf("expired-used", "op %d: resolve payload at %d contains %s valid %d..%d", oi, got, d.doc, d.iat, d.exp)
						}
					}
				}
			}
			ret := time.Now().Unix()
			for _, ch := range chains {
				minExp := int64(1 << 62)
				for _, tok := range chainTokens(ch) {
					d, known := issued(tok)
					if !known {
						return violf("unknown-statement", "op %d: chain contains a statement never served", oi)
					}
					if !usable(d, ret) {
						return violf("expired-used", "op %d (%s): chain returned at %d contains %s valid %d..%d only", oi, js(o), ret, d.doc, d.iat, d.exp)
					}
					minExp = min(minExp, d.exp)
				}
				if e := ch.ExpiresAt(); e.Unix() != minExp {
					return violf("chain-expiry", "op %d: chain expires at %d according to ExpiresAt, its earliest statement at %d", oi, e.Unix(), minExp)
				}
			}
			synctest.Wait()
			// background requests
			mu.Lock()
			refreshed := map[string]bool{}
			for name, hs := range history {
				for k := before[name]; k < len(hs); k++ {
					h := hs[k]
					if lateOp && h.at.Unix() != at {
						continue
					}
					if k == 0 {
						continue
					}
					// the copies that may have been the cached one during the
					// operation: answers overtake each other
					got := func(d servedDoc) int64 { return d.at.Unix() + d.slow }
					last := int64(-1 << 60)
					for _, d := range hs[:before[name]] {
						if d.ok && got(d) < at {
							last = max(last, got(d))
						}
					}
					allowed, copies := false, 0
					for _, d := range hs[:k] {
						if !d.ok || got(d) < last-1 || got(d) > h.at.Unix() {
							continue
						}
						copies++
						rem := time.Unix(d.exp, 0).Sub(h.at)
						total := time.Duration(d.exp-d.iat) * time.Second
						if !usable(d, h.at.Unix()) || rem <= oidfed.ResolverCacheGracePeriod && 1-float64(rem)/float64(total) >= p.Factor-1e-9 {
							allowed = true
						}
					}
					allowed = allowed || copies == 0
					if !allowed {
						v := hs[k-1]
						mu.Unlock()
						return violf("needless-refresh", "op %d: %s requested again at %v although the cached one (%d..%d) is valid and not due (grace %ds, factor %v)",
							oi, name, h.at.Unix(), v.iat, v.exp, p.Grace, p.Factor)
					}
					refreshed[name] = true
					c.Label("refresh")
					interesting = true
				}
			}
			if o.Op == "getec" {
				name := fmt.Sprintf("ec-%d", o.Ent)
				if b := before[name]; b > 0 {
					v := history[name][b-1]
					rem := time.Unix(v.exp, 0).Sub(now)
					total := time.Duration(v.exp-v.iat) * time.Second
					if v.ok && v.slow == 0 && (b < 2 || history[name][b-2].slow == 0) && (b < 3 || history[name][b-3].slow == 0) && v.iat <= at && rem > 0 && rem <= oidfed.ResolverCacheGracePeriod &&
						1-float64(rem)/float64(total) > p.Factor+1e-9 && len(history[name]) == b {
						mu.Unlock()
						return violf("no-refresh", "op %d: %s used from the cache within its refresh window (%d..%d at %d, grace %d, factor %v) without being requested",
							oi, name, v.iat, v.exp, at, p.Grace, p.Factor)
					}
				}
			}
			mu.Unlock()
			mu.Lock()
			for name, hs := range history {
				if len(hs) > before[name] && before[name] > 0 {
					interesting = true
					c.LabelIf(!refreshed[name], "fetched anew")
				}
			}
			mu.Unlock()
			c.LabelIf(len(chains) > 0, "chains")
			c.LabelIf(o.Op == "resolve" && len(chains) == 0, "no chain")
		}
		c.NonTrivialIf(interesting)
		return nil
	}
}

func init() {
	rule := "histories of waiting, resolving, fetching configurations and late chain extraction over a federation of 2-4 entities whose " +
		"documents are issued anew on each fetch with generated lifetimes, failures and slowness; every returned statement has to be valid " +
		"at that moment, chain expiry exact, expired statements fetched anew, background requests only in the window. Non-trivial: some " +
		"document is requested more than once"
	reg("C04", "default-backend", 4000, 100000, rule, genTimePlan, execTime("default")).bubble()
	reg("C04", "mem", 8000, 250000, rule, genTimePlan, execTime("mem")).bubble()
	reg("C04", "redis", 4000, 150000, rule, genTimePlan, execTime("redis")).bubble()
}
