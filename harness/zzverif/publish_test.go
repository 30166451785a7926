package zzverif

// C18: the configuration an entity publishes about itself, over a history of
// publications on a virtual clock, with trust marks that are configured,
// fetched, refreshed or issued by the entity itself.

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"sync"
	"time"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/unixtime"
)

// MarkVer is what one request to a trust mark endpoint yields.
type MarkVer struct {
	Life int64  `json:"life"` // 0: does not expire
	HTTP string `json:"http,omitempty"`
	Bad  string `json:"bad,omitempty"` // not a trust mark
	Slow int64  `json:"slow,omitempty"`
}

// PubMark is a configured trust mark.
type PubMark struct {
	Kind  string    `json:"kind"` // static, refresh, fetch, self
	Own   bool      `json:"own,omitempty"`
	Life  int64     `json:"life"` // of the configured or self-issued mark, 0: does not expire
	Min   int64     `json:"min"`
	Grace int64     `json:"grace"`
	Vers  []MarkVer `json:"vers,omitempty"`
	EC    []string  `json:"ec,omitempty"` // how the issuer's configuration is answered
	Query bool      `json:"query,omitempty"`
	Ref   string    `json:"ref,omitempty"`
	// SpecType is a type in the specification for self-issued marks; the type of the configuration counts
	SpecType string `json:"spec_type,omitempty"`
	YAML     bool   `json:"yaml,omitempty"`
}

type PubOp struct {
	Op   string `json:"op"` // publish, both, wait, sign
	Secs int64  `json:"secs,omitempty"`
}

type PubPlan struct {
	ID       string              `json:"id"`
	Alg      string              `json:"alg"`
	Lifetime int64               `json:"lifetime"`
	Leaf     bool                `json:"leaf,omitempty"`
	Hints    []string            `json:"hints,omitempty"`
	Meta     map[string]any      `json:"meta,omitempty"`
	Extra    map[string]any      `json:"extra,omitempty"`
	Issuers  map[string][]string `json:"issuers,omitempty"`
	Owners   map[string]any      `json:"owners,omitempty"`
	Marks    []PubMark           `json:"marks,omitempty"`
	Ops      []PubOp             `json:"ops"`
}

var pubLives = []int64{0, 5, 12, 40, 61, 90, 150, 700, 3700, 90000}

func genPubMark(t *rapid.T) PubMark {
	m := PubMark{
		Kind:  pick(t, "kind", "fetch", "refresh", "static", "self", "fetch", "refresh"),
		Life:  pick(t, "life", pubLives...),
		Min:   pick(t, "min", int64(0), 0, 1, 30, 100, 4000),
		Grace: pick(t, "grace", int64(0), 0, 1, 50, 200, 100000),
		YAML:  chance(t, "yaml", 25),
	}
	m.Own = m.Kind != "self" && chance(t, "own endpoint", 20)
	if m.Kind == "self" || m.Kind == "static" {
		m.Ref = pick(t, "ref", "", "https://ref.example/r")
		m.SpecType = pick(t, "spec type", "", "", "", "https://tm.example/other", "https://tm.example/0")
		return m
	}
	m.Query = chance(t, "query", 25)
	base := pick(t, "base", pubLives...)
	for k := intn(t, "versions", 1, 4); k > 0; k-- {
		v := MarkVer{Life: base}
		if chance(t, "own life", 40) {
			v.Life = pick(t, "life", pubLives...)
		}
		switch intn(t, "oddity", 0, 9) {
		case 9:
			v.Bad = pick(t, "bad", "typ", "garbage", "html", "empty", "none", "notype")
		case 8, 7:
			v.HTTP = pick(t, "http", "404", "404json", "500json", "500html", "500jwt", "404jwt", "503obj", "neterr")
		case 6:
			v.Slow = pick(t, "slow", int64(1), 4, 15)
		}
		m.Vers = append(m.Vers, v)
	}
	if !m.Own {
		for k := intn(t, "ec versions", 0, 2); k > 0; k-- {
			m.EC = append(m.EC, pick(t, "ec", "", "", "404", "500json", "neterr", "nometa", "noendpoint", "500jwt", "garbage"))
		}
	}
	return m
}

var pubExtraNames = []string{"x", "x_custom", "organization", "aud2", "trust_mark", "federation", "ä"}

func genPubPlan(t *rapid.T) PubPlan {
	p := PubPlan{
		ID:  pick(t, "id", "https://me.example", "https://me.example/", "https://me.example/a/b", "https://me.example:8443"),
		Alg: "ES256", Lifetime: pick(t, "lifetime", int64(600), 0, 1, 60, 86400, -5, 31536000),
		Leaf:  rapid.Bool().Draw(t, "leaf"),
		Hints: genStrings(t, "hints", 3, []string{"https://ia.example", "https://ta.example", "https://ta.example/"}),
	}
	if chance(t, "other alg", 20) {
		p.Alg = pick(t, "alg", allAlgs...)
	}
	if chance(t, "metadata", 60) {
		p.Meta = genDoc(t, "metadata", docOpts{share: 40, extra: 1, empty: 5, depth: 2})
	}
	for k := intn(t, "nextra", 0, 2); k > 0; k-- {
		if p.Extra == nil {
			p.Extra = map[string]any{}
		}
		p.Extra[pick(t, "extra", pubExtraNames...)] = genAny(t, 2)
	}
	if chance(t, "issuers", 30) {
		p.Issuers = map[string][]string{}
		for k := intn(t, "nissuers", 1, 2); k > 0; k-- {
			p.Issuers[pick(t, "type", "https://tm.example/a", "https://tm.example/b")] = genStrings(t, "allowed", 2, []string{"https://i.example", "https://j.example"})
		}
	}
	if chance(t, "owners", 30) {
		p.Owners = map[string]any{"https://tm.example/a": genDoc(t, "owner", docOpts{share: 100})}
	}
	for k := intn(t, "nmarks", 0, 4); k > 0; k-- {
		p.Marks = append(p.Marks, genPubMark(t))
	}
	for k := intn(t, "nops", 1, 14); k > 0; k-- {
		o := PubOp{Op: pick(t, "op", "publish", "wait", "publish", "wait", "both", "sign")}
		if o.Op == "wait" {
			o.Secs = pick(t, "secs", int64(1), 7, 20, 40, 59, 61, 90, 300, 3599, 3700, 86000)
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

// attempt is a request for a mark.
type attempt struct {
	start, end time.Time
	done       bool
	token      string // empty if it failed
	exp        time.Time
}

type pubMarkState struct {
	m        PubMark
	typ      string
	issuer   string
	initial  *attempt // configured
	attempts []*attempt
	ecFails  []time.Time
	ecN      int
	doomed   bool // the issuer's configuration never leads to the endpoint
	self     []*attempt
	stayed   string // mark without expiration
	stayedAt time.Time
	renewed  time.Time // published within the grace period then
	bad      string
}

// group reports whether a request at t belongs to the retries of the last one.
func retryOf(last, t time.Time) bool { return t.Sub(last) < time.Millisecond }

func execPublication(c *Ctx, p PubPlan) *Violation {
	w := newWorld()
	var mu sync.Mutex
	time.Sleep(500 * time.Millisecond)
	t0 := time.Now()
	k := keyFor(p.Alg, 21)
	signer := oidfed.NewEntityStatementSigner(k.Signer, libAlg(k.Alg))
	var meta *oidfed.Metadata
	if p.Meta != nil {
		meta = &oidfed.Metadata{}
		if err := json.Unmarshal([]byte(js(p.Meta)), meta); err != nil {
			panic(skipCase{"metadata refused"})
		}
	}
	hints := append([]string(nil), p.Hints...)
	var extra map[string]any
	if p.Extra != nil {
		extra = jsonAny(p.Extra)
	}
	var fe *oidfed.FederationEntity
	if p.Leaf {
		l, err := oidfed.NewFederationLeaf(p.ID, hints, nil, meta, signer, p.Lifetime, k.Signer, libAlg(k.Alg), extra)
		must(err)
		fe = &l.FederationEntity
	} else {
		e, err := oidfed.NewFederationEntity(p.ID, hints, meta, signer, p.Lifetime, extra)
		must(err)
		fe = e
	}
	if p.Issuers != nil {
		must(json.Unmarshal([]byte(js(p.Issuers)), &fe.TrustMarkIssuers))
	}
	if p.Owners != nil {
		if err := json.Unmarshal([]byte(js(p.Owners)), &fe.TrustMarkOwners); err != nil {
			panic(skipCase{"owners refused"})
		}
	}
	const ownEndpoint = "https://own.example/tm"
	marks := make([]*pubMarkState, len(p.Marks))
	byType := map[string]*pubMarkState{}
	serve := func(s *pubMarkState) Handler {
		return func(r *http.Request, q url.Values) Resp {
			mu.Lock()
			now := time.Now()
			n := len(s.attempts)
			var v MarkVer
			if n > 0 && retryOf(s.attempts[n-1].start, now) && s.m.Vers[(n-1)%len(s.m.Vers)].HTTP == "neterr" {
				mu.Unlock()
				return Resp{Err: true}
			}
			v = s.m.Vers[n%len(s.m.Vers)]
			a := &attempt{start: now}
			s.attempts = append(s.attempts, a)
			if n > 0 && now.Sub(s.attempts[n-1].start) < time.Minute {
				s.bad = fmt.Sprintf("mark %s was requested again after %v", s.typ, now.Sub(s.attempts[n-1].start))
			}
			if r.Method != "GET" || q.Get("sub") != p.ID || len(q["sub"]) != 1 || len(q["trust_mark_type"]) != 1 || s.m.Query && q.Get("tenant") != "a b" {
				s.bad = fmt.Sprintf("mark %s was requested with %s %v", s.typ, r.Method, q)
			}
			mu.Unlock()
			if v.Slow > 0 {
				time.Sleep(time.Duration(v.Slow) * time.Second)
			}
			now = time.Now()
			typ := markTyp
			claims := map[string]any{"iss": s.issuer, "sub": p.ID, "trust_mark_type": s.typ, "iat": now.Unix(), "n": n}
			if v.Life != 0 {
				claims["exp"] = now.Unix() + v.Life
			}
			switch v.Bad {
			case "typ":
				typ = delegTyp
			case "none":
				typ = ""
			}
			tok := signJWT(key(31), typ, []byte(js(claims)))
			if v.Bad == "" && v.HTTP == "" {
				mu.Lock()
				a.token, a.end, a.done = tok, now, true
				if v.Life != 0 {
					a.exp = time.Unix(now.Unix()+v.Life, 0)
				}
				mu.Unlock()
			}
			switch v.Bad {
			case "garbage", "html", "empty":
				return httpResp(v.Bad, "", "application/trust-mark+jwt")
			case "notype":
				return httpResp("", `{"trust_mark":"`+tok+`"}`, "application/json")
			}
			return httpResp(v.HTTP, tok, "application/trust-mark+jwt")
		}
	}
	for i, m := range p.Marks {
		s := &pubMarkState{m: m, typ: fmt.Sprintf("https://tm.example/%d", i), issuer: fmt.Sprintf("https://tmi%d.example", i)}
		if m.Own || m.Kind == "self" {
			s.issuer = p.ID
		}
		marks[i] = s
		byType[s.typ] = s
		conf := map[string]any{}
		switch m.Kind {
		case "static", "refresh":
			claims := map[string]any{"iss": s.issuer, "sub": p.ID, "trust_mark_type": s.typ, "iat": t0.Unix()}
			a := &attempt{start: t0.Add(-time.Hour), end: t0.Add(-time.Hour), done: true}
			if m.Life != 0 {
				claims["exp"] = t0.Unix() + m.Life
				a.exp = time.Unix(t0.Unix()+m.Life, 0)
			}
			if m.Ref != "" {
				claims["ref"] = m.Ref
			}
			a.token = signJWT(key(31), markTyp, []byte(js(claims)))
			s.initial = a
			conf["trust_mark_jwt"] = a.token
			conf["refresh"] = m.Kind == "refresh"
		case "self":
			conf["self_issued"] = true
			conf["trust_mark_type"] = s.typ
			spec := map[string]any{"lifetime": m.Life}
			setIf(spec, "ref", m.Ref)
			setIf(spec, "trust_mark_type", m.SpecType)
			conf["self_issuance_spec"] = spec
		default:
			conf["trust_mark_type"] = s.typ
			conf["trust_mark_issuer"] = s.issuer
		}
		if m.Min != 0 {
			conf["min_lifetime"] = m.Min
		}
		if m.Grace != 0 {
			conf["refresh_grace_period"] = m.Grace
		}
		var tmc oidfed.EntityConfigurationTrustMarkConfig
		if m.YAML {
			if err := yaml.Unmarshal([]byte(js(conf)), &tmc); err != nil {
				return violf("yaml", "configuration %s of a trust mark does not decode: %v", js(conf), err)
			}
		} else {
			str := func(n string) string { v, _ := conf[n].(string); return v }
			tmc.TrustMarkType, tmc.TrustMarkIssuer, tmc.JWT = str("trust_mark_type"), str("trust_mark_issuer"), str("trust_mark_jwt")
			tmc.Refresh = m.Kind == "refresh"
			tmc.SelfIssued = m.Kind == "self"
			tmc.MinLifetime, tmc.RefreshGracePeriod = unixtime.NewDurationInSeconds(float64(m.Min)), unixtime.NewDurationInSeconds(float64(m.Grace))
			if tmc.SelfIssued {
				tmc.SelfIssuanceSpec = oidfed.TrustMarkSpec{TrustMarkType: m.SpecType, Lifetime: unixtime.NewDurationInSeconds(float64(m.Life)), Ref: m.Ref}
			}
		}
		endpoint := fmt.Sprintf("https://tmi%d.example/tm", i)
		own := fmt.Sprintf("%s/%d", ownEndpoint, i)
		if m.Own {
			endpoint = own
		}
		withQuery := func(u string) string {
			if m.Query {
				return u + "?tenant=a%20b"
			}
			return u
		}
		if err := tmc.Verify(p.ID, withQuery(own), signer.TrustMarkSigner()); err != nil {
			return violf("config", "configuration %s of a trust mark is refused: %v", js(conf), err)
		}
		fe.TrustMarks = append(fe.TrustMarks, &tmc)
		if m.Kind != "fetch" && m.Kind != "refresh" {
			continue
		}
		w.handle(endpoint, serve(s))
		if m.Own {
			continue
		}
		s.doomed = len(m.EC) > 0
		for _, e := range m.EC {
			s.doomed = s.doomed && e != ""
		}
		w.handle(
			wellKnown(s.issuer), func(*http.Request, url.Values) Resp {
				mu.Lock()
				defer mu.Unlock()
				now := time.Now()
				if n := len(s.ecFails); n > 0 && retryOf(s.ecFails[n-1], now) && m.EC[(s.ecN-1)%len(m.EC)] == "neterr" {
					return Resp{Err: true}
				}
				kind := ""
				if len(m.EC) > 0 {
					kind = m.EC[s.ecN%len(m.EC)]
				}
				s.ecN++
				md := map[string]any{"federation_entity": map[string]any{"federation_trust_mark_endpoint": withQuery(endpoint)}}
				hk := kind
				switch kind {
				case "nometa":
					md, hk = nil, ""
				case "noendpoint":
					md, hk = map[string]any{"federation_entity": map[string]any{}}, ""
				}
				claims := map[string]any{
					"iss": s.issuer, "sub": s.issuer, "iat": now.Unix(), "exp": now.Unix() + 30, "jwks": setOf(key(31)),
				}
				if md != nil {
					claims["metadata"] = md
				}
				if kind != "" {
					if n := len(s.ecFails); n > 0 && s.doomed && hk != "" && now.Sub(s.ecFails[n-1]) < time.Minute {
						s.bad = fmt.Sprintf("the issuer of mark %s was asked again after %v", s.typ, now.Sub(s.ecFails[n-1]))
					}
					s.ecFails = append(s.ecFails, now)
				}
				return httpResp(hk, signJWT(key(31), "entity-statement+jwt", []byte(js(claims))), "application/entity-statement+jwt")
			},
		)
	}
	lifetime := p.Lifetime
	if lifetime <= 0 {
		lifetime = 86400
	}
	base := map[string]any{"iss": p.ID, "sub": p.ID, "jwks": setOf(k)}
	if len(p.Hints) > 0 {
		base["authority_hints"] = p.Hints
	}
	if p.Meta != nil {
		base["metadata"] = p.Meta
	}
	if len(p.Issuers) > 0 {
		base["trust_mark_issuers"] = p.Issuers
	}
	if len(p.Owners) > 0 {
		base["trust_mark_owners"] = p.Owners
	}
	for n, v := range p.Extra {
		base[n] = v
	}
	want := normDoc("statement", generic(base))
	refreshed, missing, nonexp, recovered := 0, 0, 0, 0
	published, concurrent := 0, false
	secs := func(v any) (time.Time, bool) {
		f, ok := v.(float64)
		return time.Unix(int64(f), int64((f-float64(int64(f)))*1e9)), ok
	}
	// judgeMark decides on one mark of a publication between a and b.
	judgeMark := func(s *pubMarkState, tok string, a, b time.Time) *Violation {
		mu.Lock()
		defer mu.Unlock()
		if s.bad != "" {
			return violf("attempts", "%s", s.bad)
		}
		minimum := time.Duration(s.m.Min) * time.Second
		if s.m.Min == 0 {
			minimum = 10 * time.Second
		}
		if s.stayed != "" && a.After(s.stayedAt) && tok != s.stayed && s.m.Kind != "static" {
			return violf("kept", "mark %s does not expire but is %q", s.typ, tok)
		}
		switch s.m.Kind {
		case "static":
			if tok != s.initial.token {
				return violf("static", "mark %s is %q, configured is %q", s.typ, tok, s.initial.token)
			}
			return nil
		case "self":
			life := time.Duration(s.m.Life) * time.Second
			if tok == "" {
				if s.m.Life != 0 && life <= minimum+61*time.Second && (len(s.self) > 0 || concurrent) {
					missing++
					return nil
				}
				return violf("left out", "self-issued mark %s is missing", s.typ)
			}
			h, body, err := verifyCompact(tok, setOf(k))
			if err != nil || h["typ"] != markTyp {
				return violf("self-issued", "self-issued mark %s: %v, header %v", s.typ, err, h)
			}
			var got map[string]any
			must(json.Unmarshal(body, &got))
			iat, ok := secs(got["iat"])
			exp, expOK := secs(got["exp"])
			if !ok || iat.After(b.Add(time.Microsecond)) || expOK != (s.m.Life != 0) || expOK && (exp.Sub(iat)-life).Abs() > time.Millisecond {
				return violf("self-issued", "self-issued mark %s (lifetime %v): %s", s.typ, life, body)
			}
			if !s.renewed.IsZero() && a.After(s.renewed) && iat.Before(s.renewed.Truncate(time.Second)) {
				return violf("not renewed", "self-issued mark %s was published at %v within its grace period, but is the same later", s.typ, s.renewed)
			}
			if expOK && exp.Sub(a) <= minimum && iat.Before(a.Truncate(time.Second)) {
				return violf("stale", "self-issued mark %s expires in %v", s.typ, exp.Sub(b))
			}
			delete(got, "iat")
			delete(got, "exp")
			wantClaims := map[string]any{"iss": p.ID, "sub": p.ID, "trust_mark_type": s.typ}
			setIf(wantClaims, "ref", s.m.Ref)
			if !jsonEq(js(got), js(wantClaims)) {
				return violf("self-issued", "self-issued mark %s: %s", s.typ, body)
			}
			if !expOK {
				nonexp++
				s.stayed, s.stayedAt = tok, b
			}
			if n := len(s.self); n == 0 || s.self[n-1].token != tok {
				if n > 0 {
					refreshed++
				}
				s.self = append(s.self, &attempt{token: tok})
			}
			return nil
		}
		// what it may be: the last one obtained before, or one obtained meanwhile
		cur := s.initial
		var candidates []*attempt
		recent := false
		for _, at := range s.attempts {
			if at.start.After(b) {
				continue
			}
			if b.Sub(at.start) <= time.Minute {
				recent = true
			}
			if at.token == "" || at.end.After(b) {
				continue
			}
			if !at.end.Before(a) {
				candidates = append(candidates, at)
			} else {
				cur = at
			}
		}
		for _, at := range s.ecFails {
			if b.Sub(at) <= time.Minute {
				recent = true
			}
		}
		fresh := func(at *attempt, when time.Time) bool {
			return at != nil && (at.exp.IsZero() || at.exp.Sub(when) > minimum)
		}
		replaced := false // by one with a lifetime that does not suffice
		for _, at := range candidates {
			replaced = replaced || !fresh(at, b)
		}
		if tok == "" {
			switch {
			case fresh(cur, b) && !replaced:
				return violf("left out", "mark %s (expiring %v) is left out at %v", s.typ, cur.exp.Unix(), b.Unix())
			case !recent:
				return violf("left out", "mark %s is left out at %v without trying to obtain it", s.typ, b.Unix())
			}
			// an attempt of this very publication
			for _, at := range candidates {
				if fresh(at, b) && !replaced && !at.start.Before(a) {
					return violf("left out", "mark %s was obtained but left out", s.typ)
				}
			}
			missing++
			return nil
		}
		for _, at := range candidates {
			if at.token == tok {
				if s.initial != nil || len(s.attempts) > 1 {
					refreshed++
				}
				if at.exp.IsZero() {
					nonexp++
					s.stayed, s.stayedAt = tok, b
				}
				if len(s.attempts) > 1 && s.attempts[0].token == "" {
					recovered++
				}
				return nil
			}
		}
		if cur == nil || cur.token != tok {
			return violf("unknown mark", "mark %s is %q, current is %v", s.typ, tok, cur)
		}
		if !fresh(cur, a) && cur.end.Before(a) {
			return violf("stale", "mark %s is published at %v though it expires at %v, with a minimum of %v", s.typ, b.Unix(), cur.exp.Unix(), minimum)
		}
		if cur.exp.IsZero() {
			nonexp++
			s.stayed, s.stayedAt = tok, b
		}
		return nil
	}
	ahead := 0
	// judgeAhead decides, some ms after it, whether a publication of mark tok
	// between a and b had to, and did, set off its renewal.
	judgeAhead := func(s *pubMarkState, tok string, a, b time.Time) *Violation {
		mu.Lock()
		defer mu.Unlock()
		if tok == "" || s.m.Kind == "static" {
			return nil
		}
		minimum, grace := 10*time.Second, time.Hour
		if s.m.Min != 0 {
			minimum = time.Duration(s.m.Min) * time.Second
		}
		if s.m.Grace != 0 {
			grace = time.Duration(s.m.Grace) * time.Second
		}
		if s.m.Kind == "self" {
			claims := must1(decodeClaims(tok))
			exp, ok := secs(claims["exp"])
			if iat, _ := secs(claims["iat"]); ok && a.Sub(iat) > 62*time.Second && exp.Sub(a) > minimum+time.Second && exp.Sub(a) < grace-time.Second {
				ahead++
				s.renewed = a
			}
			return nil
		}
		var at *attempt
		started, tried := false, false
		for _, x := range append([]*attempt{s.initial}, s.attempts...) {
			if x == nil {
				continue
			}
			if x.token == tok {
				at = x
			}
			started = started || !x.start.Before(a)
			tried = tried || x.start.Before(a) && a.Sub(x.start) < 62*time.Second
		}
		for _, x := range s.ecFails {
			started = started || !x.Before(a)
			tried = tried || x.Before(a) && a.Sub(x) < 62*time.Second
		}
		switch {
		case at == nil || !at.end.Before(a):
		case at.exp.IsZero():
			if started {
				return violf("needless", "mark %s does not expire but is requested again", s.typ)
			}
		case at.exp.Sub(b) > max(minimum, grace)+time.Second:
			if started {
				return violf("needless", "mark %s is requested again %v before it expires, the grace period is %v", s.typ, at.exp.Sub(b), grace)
			}
		case at.exp.Sub(b) > minimum+time.Second && at.exp.Sub(a) < grace-time.Second && !tried:
			ahead++
			if !started {
				return violf("not renewed", "mark %s is published %v before it expires, the grace period is %v, but it is not requested again", s.typ, at.exp.Sub(a), grace)
			}
		}
		return nil
	}
	var included map[string]string
	judge := func(tok string, a, b time.Time) *Violation {
		h, body, err := verifyCompact(tok, setOf(k))
		if err != nil {
			return violf("signature", "published configuration does not verify: %v", err)
		}
		if h["typ"] != "entity-statement+jwt" {
			return violf("typ", "published configuration has type %v", h["typ"])
		}
		var got map[string]any
		must(json.Unmarshal(body, &got))
		iat, ok1 := secs(got["iat"])
		exp, ok2 := secs(got["exp"])
		if !ok1 || !ok2 || iat.Before(a.Truncate(time.Second)) || iat.After(b.Add(time.Microsecond)) {
			return violf("iat", "published between %v and %v with iat %v, exp %v", a, b, got["iat"], got["exp"])
		}
		if (exp.Sub(iat) - time.Duration(lifetime)*time.Second).Abs() > time.Millisecond {
			return violf("lifetime", "published with iat %v, exp %v; the lifetime is %d", got["iat"], got["exp"], lifetime)
		}
		tms, _ := got["trust_marks"].([]any)
		delete(got, "iat")
		delete(got, "exp")
		delete(got, "trust_marks")
		if d := docDiff("", want, normDoc("statement", got)); d != "" {
			return violf("claims", "published configuration: %s", d)
		}
		included = map[string]string{}
		last := -1
		for _, tm := range tms {
			info, _ := tm.(map[string]any)
			typ, _ := info["trust_mark_type"].(string)
			raw, _ := info["trust_mark"].(string)
			if len(info) != 2 || raw == "" || byType[typ] == nil || included[typ] != "" {
				return violf("trust marks", "published trust mark %s", js(tm))
			}
			included[typ] = raw
			for i, s := range marks {
				if s.typ == typ {
					if i < last {
						return violf("trust marks", "published trust marks are in another order: %s", js(tms))
					}
					last = i
				}
			}
		}
		for _, s := range marks {
			if v := judgeMark(s, included[s.typ], a, b); v != nil {
				return v
			}
		}
		return nil
	}
	publish := func() (string, time.Time, time.Time, error) {
		a := time.Now()
		tok, err := fe.EntityConfigurationJWT()
		return string(tok), a, time.Now(), err
	}
	for _, o := range p.Ops {
		var pa, pb time.Time
		switch o.Op {
		case "wait":
			time.Sleep(time.Duration(o.Secs) * time.Second)
		case "sign":
			now := time.Now().Unix()
			claims := generic(map[string]any{"iss": p.ID, "sub": "https://sub.example", "iat": now, "exp": now + 7, "jwks": setOf(key(22)), "x": p.Extra})
			var pl oidfed.EntityStatementPayload
			must(json.Unmarshal([]byte(js(claims)), &pl))
			tok, err := fe.SignEntityStatement(pl)
			if err != nil {
				return violf("sign", "statement is not signed: %v", err)
			}
			h, body, err := verifyCompact(string(tok), setOf(k))
			if err != nil || h["typ"] != "entity-statement+jwt" || !jsonEq(string(body), js(claims)) {
				return violf("sign", "signed statement: %v, header %v, claims %s, want %s", err, h, body, js(claims))
			}
		case "publish":
			published++
			tok, a, b, err := publish()
			if err != nil {
				return violf("refused", "configuration is not published: %v", err)
			}
			if v := judge(tok, a, b); v != nil {
				return v
			}
			pa, pb = a, b
		case "both":
			published += 2
			concurrent = true
			type res struct {
				tok  string
				a, b time.Time
				err  error
			}
			var rs [2]res
			var wg sync.WaitGroup
			for i := range rs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					rs[i].tok, rs[i].a, rs[i].b, rs[i].err = publish()
				}()
			}
			wg.Wait()
			for _, r := range rs {
				if r.err != nil {
					return violf("refused", "configuration is not published: %v", r.err)
				}
				if v := judge(r.tok, r.a, r.b); v != nil {
					return v
				}
			}
		}
		time.Sleep(7 * time.Millisecond)
		for _, s := range marks {
			if pa.IsZero() {
				break
			}
			if v := judgeAhead(s, included[s.typ], pa, pb); v != nil {
				return v
			}
		}
	}
	time.Sleep(20 * time.Second)
	mu.Lock()
	defer mu.Unlock()
	for _, s := range marks {
		if s.bad != "" {
			return violf("attempts", "%s", s.bad)
		}
	}
	c.NonTrivialIf(published > 1 && len(marks) > 0)
	c.LabelIf(refreshed > 0, "a mark was replaced")
	c.LabelIf(missing > 0, "an unobtainable mark was left out")
	c.LabelIf(recovered > 0, "obtained after a failure")
	c.LabelIf(ahead > 0, "a mark had to be renewed ahead")
	c.LabelIf(nonexp > 0, "mark without expiration")
	c.LabelIf(concurrent, "concurrent publications")
	c.LabelIf(len(marks) == 0, "no marks")
	return nil
}

func init() {
	reg(
		"C18", "publish", 6000, 150000,
		"nontrivial: at least two publications of a configuration with trust marks",
		genPubPlan, execPublication,
	).bubble()
}
