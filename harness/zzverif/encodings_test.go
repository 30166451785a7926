package zzverif

// C17: encodings of times, durations, key sets and lists; validity checks.

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"slices"
	"time"

	"github.com/vmihailenco/msgpack/v5"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/jwks"
	"github.com/go-oidfed/lib/unixtime"
)

// codecs are the ways a value is encoded and decoded again.
var codecs = map[string]struct {
	enc func(any) ([]byte, error)
	dec func([]byte, any) error
}{
	"json":    {json.Marshal, json.Unmarshal},
	"yaml":    {yaml.Marshal, yaml.Unmarshal},
	"msgpack": {msgpack.Marshal, msgpack.Unmarshal},
}

type holder[T any] struct {
	V T   `json:"v" yaml:"v"`
	P *T  `json:"p" yaml:"p"`
	L []T `json:"l" yaml:"l"`
}

// roundTrip encodes the value alone and inside of other values and returns
// what is decoded, with a description of where it was.
func roundTrip[T any](codec string, v T) (out []T, err error) {
	c := codecs[codec]
	b, err := c.enc(v)
	if err != nil {
		return nil, fmt.Errorf("encoding: %w", err)
	}
	var w T
	if err = c.dec(b, &w); err != nil {
		return nil, fmt.Errorf("decoding %s: %w", b, err)
	}
	out = append(out, w)
	if b, err = c.enc(&v); err != nil {
		return nil, fmt.Errorf("encoding a pointer: %w", err)
	}
	var q T
	if err = c.dec(b, &q); err != nil {
		return nil, fmt.Errorf("decoding %s: %w", b, err)
	}
	out = append(out, q)
	if b, err = c.enc(holder[T]{V: v, P: &v, L: []T{v, v}}); err != nil {
		return nil, fmt.Errorf("encoding within a value: %w", err)
	}
	var h holder[T]
	if err = c.dec(b, &h); err != nil {
		return nil, fmt.Errorf("decoding %s: %w", b, err)
	}
	if h.P == nil {
		h.P = new(T) // from null
	}
	if len(h.L) == 0 && reflect.ValueOf(*h.P).IsZero() {
		h.L = make([]T, 2) // yaml leaves out null elements
	}
	if len(h.L) != 2 {
		return nil, fmt.Errorf("decoding %s gives %s", b, js(h))
	}
	return append(out, h.V, *h.P, h.L[0], h.L[1]), nil
}

// ---- times and durations

type InstantPlan struct {
	Sec   int64   `json:"sec"`
	Nano  int64   `json:"nano"`
	Codec string  `json:"codec"`
	Text  float64 `json:"text"` // a number to decode
}

func genInstantPlan(t *rapid.T) InstantPlan {
	p := InstantPlan{Codec: pick(t, "codec", "json", "yaml")}
	p.Sec = pick(t, "range", int64(0), 1, -1, 946684800, 1700000000, 4102444800, 253402300799)
	p.Sec += int64(intn(t, "offset", -1_000_000_000, 1_000_000_000)) * int64(intn(t, "scaled", 0, 1))
	p.Sec = min(p.Sec, 253402300799) // the last second of the year 9999
	if chance(t, "fraction", 50) {
		p.Nano = int64(pick(t, "coarse", 1, 1000, 1_000_000)) * int64(intn(t, "nano", 0, 999))
	}
	p.Text = pick(t, "whole", float64(p.Sec), float64(p.Sec)+0.5, float64(p.Sec)+0.123, float64(p.Sec)+float64(p.Nano)/1e9)
	return p
}

// near says if the times are the same up to what seconds in a float64 can tell.
func near(a, b time.Time) bool {
	tolerance := math.Nextafter(math.Abs(float64(a.Unix()))+1, math.Inf(1)) - math.Abs(float64(a.Unix())) - 1
	if d := a.Sub(b).Abs(); d > time.Duration(tolerance*1e9)+2*time.Nanosecond {
		return false
	}
	return a.Nanosecond() != 0 || a.Equal(b) // whole seconds exactly
}

func execTimes(c *Ctx, p InstantPlan) *Violation {
	u := unixtime.Unixtime{Time: time.Unix(p.Sec, p.Nano)}
	c.Label("codec %s", p.Codec)
	c.LabelIf(p.Nano != 0, "with a fraction")
	c.NonTrivial()
	got, err := roundTrip(p.Codec, u)
	if err != nil {
		return violf("time-"+p.Codec, "%v: %v", u.UTC(), err)
	}
	for _, g := range got {
		if !near(u.Time, g.Time) {
			return violf("time-"+p.Codec, "the time %v encoded as %s is %v when decoded", u.UTC(), p.Codec, g.UTC())
		}
	}
	if p.Codec != "json" {
		return nil
	}
	b := must1(json.Marshal(u))
	var f float64
	if err = json.Unmarshal(b, &f); err != nil || math.Abs(f-(float64(p.Sec)+float64(p.Nano)/1e9)) > 1e-6 {
		return violf("time-json-form", "the time %v is encoded as %s", u.UTC(), b)
	}
	text := js(p.Text)
	var w unixtime.Unixtime
	if err = json.Unmarshal([]byte(text), &w); err != nil {
		return violf("time-decode", "decoding the time %s: %v", text, err)
	}
	sec, frac := math.Modf(p.Text)
	if want := time.Unix(int64(sec), int64(math.Round(frac*1e9))); want.Sub(w.Time).Abs() > 2*time.Nanosecond || frac == 0 && !want.Equal(w.Time) {
		return violf("time-decode", "%s is decoded as %v and not %v", text, w.UTC(), want.UTC())
	}
	return nil
}

type DurationPlan struct {
	Nanos int64   `json:"nanos"`
	Codec string  `json:"codec"`
	Text  float64 `json:"text"`
}

func genDurationPlan(t *rapid.T) DurationPlan {
	p := DurationPlan{Codec: pick(t, "codec", "json", "yaml")}
	sec := int64(pick(t, "range", 0, 1, 10, 60, 3600, 86400, 31536000, 3153600000))
	sec += int64(intn(t, "more", 0, 100000)) * int64(intn(t, "scaled", 0, 1))
	p.Nanos = sec * 1e9
	p.Text = float64(sec)
	if chance(t, "fraction", 50) {
		n := int64(pick(t, "coarse", 1, 1000, 1_000_000)) * int64(intn(t, "nano", 0, 999))
		p.Nanos += n
		p.Text += float64(n) / 1e9
	}
	if chance(t, "negative", 10) {
		p.Nanos, p.Text = -p.Nanos, -p.Text
	}
	return p
}

func execDurations(c *Ctx, p DurationPlan) *Violation {
	d := unixtime.DurationInSeconds{Duration: time.Duration(p.Nanos)}
	c.Label("codec %s", p.Codec)
	c.LabelIf(p.Nanos%1e9 != 0, "with a fraction")
	c.NonTrivial()
	same := func(a, b time.Duration) bool {
		return (a - b).Abs() <= time.Duration(math.Abs(float64(a))*0x1p-52)+time.Nanosecond
	}
	got, err := roundTrip(p.Codec, d)
	if err != nil {
		return violf("duration-"+p.Codec, "%v: %v", d, err)
	}
	for _, g := range got {
		if !same(d.Duration, g.Duration) {
			return violf("duration-"+p.Codec, "the duration %v encoded as %s is %v when decoded", d, p.Codec, g)
		}
	}
	var f float64
	b := must1(codecs[p.Codec].enc(d))
	if err = codecs[p.Codec].dec(b, &f); err != nil || math.Abs(f-float64(p.Nanos)/1e9) > 1e-6 {
		return violf("duration-form", "the duration %v is encoded as %s", d, b)
	}
	var w unixtime.DurationInSeconds
	text := js(p.Text)
	if err = codecs[p.Codec].dec([]byte(text), &w); err != nil || !same(w.Duration, time.Duration(p.Text*1e9)) {
		return violf("duration-decode", "%s is decoded as %v (%v)", text, w, err)
	}
	if n := unixtime.NewDurationInSeconds(p.Text); !same(n.Duration, time.Duration(p.Text*1e9)) {
		return violf("duration-new", "%s seconds are made %v", text, n)
	}
	return nil
}

// ---- validity

type ValidityPlan struct {
	Iat *int64 `json:"iat,omitempty"` // milliseconds from now
	Exp *int64 `json:"exp,omitempty"`
	// the zero value given instead of nil
	ZeroIat bool `json:"zero_iat,omitempty"`
	ZeroExp bool `json:"zero_exp,omitempty"`
}

func genValidityPlan(t *rapid.T) ValidityPlan {
	bound := func(l string) *int64 {
		if chance(t, "no "+l, 20) {
			return nil
		}
		x := int64(pick(t, l, 1, 500, 1000, 60_000, 3_600_000, 86_400_000, 31_536_000_000, 400*31_536_000_000))
		x += int64(intn(t, "more "+l, 0, 5))
		if rapid.Bool().Draw(t, "past "+l) {
			x = -x
		}
		return &x
	}
	return ValidityPlan{
		Iat: bound("iat"), Exp: bound("exp"),
		ZeroIat: rapid.Bool().Draw(t, "zero iat"), ZeroExp: rapid.Bool().Draw(t, "zero exp"),
	}
}

func execValidity(c *Ctx, p ValidityPlan) *Violation {
	now := time.Now()
	at := func(ms *int64, zero bool) *unixtime.Unixtime {
		if ms == nil {
			if zero {
				return &unixtime.Unixtime{}
			}
			return nil
		}
		return &unixtime.Unixtime{Time: now.Add(time.Duration(*ms%86_400_000)*time.Millisecond).AddDate(0, 0, int(*ms/86_400_000))}
	}
	iat, exp := at(p.Iat, p.ZeroIat), at(p.Exp, p.ZeroExp)
	want := (p.Iat == nil || *p.Iat < 0) && (p.Exp == nil || *p.Exp > 0)
	c.LabelIf(p.Iat == nil, "no issuance")
	c.LabelIf(p.Exp == nil, "no expiration")
	c.LabelIf(want, "valid")
	c.NonTrivialIf(p.Iat != nil && p.Exp != nil)
	desc := func() string {
		s := "no issuance"
		if p.Iat != nil {
			s = fmt.Sprintf("issued %d ms from now", *p.Iat)
		}
		if p.Exp == nil {
			return s + ", no expiration"
		}
		return s + fmt.Sprintf(", expiring %d ms from now", *p.Exp)
	}
	if err := unixtime.VerifyTime(iat, exp); (err == nil) != want {
		return violf("validity", "%s: valid is %v (%v)", desc(), err == nil, err)
	}
	var s oidfed.EntityStatementPayload
	if iat != nil {
		s.IssuedAt = *iat
	}
	if exp != nil {
		s.ExpiresAt = *exp
	}
	if got := s.TimeValid(); got != want {
		return violf("validity-statement", "a statement %s: valid is %v", desc(), got)
	}
	if exp != nil && p.Exp != nil {
		// time passes
		if got := unixtime.Until(*exp); *p.Exp < 31_536_000_000 && *p.Exp > -31_536_000_000 && got != time.Duration(*p.Exp)*time.Millisecond {
			return violf("until", "until a time %d ms from now it is %v", *p.Exp, got)
		}
		if *p.Exp > 0 && *p.Exp <= 86_400_000 && (p.Iat == nil || *p.Iat < 0) {
			time.Sleep(time.Duration(*p.Exp)*time.Millisecond + 500*time.Microsecond)
			if unixtime.VerifyTime(iat, exp) == nil || s.TimeValid() {
				return violf("validity", "%s: valid half a millisecond after its expiration", desc())
			}
		}
	}
	if p.Iat != nil && *p.Iat > 0 && *p.Iat <= 86_400_000 && (p.Exp == nil || *p.Exp > *p.Iat+1) {
		time.Sleep(time.Duration(*p.Iat)*time.Millisecond + 500*time.Microsecond)
		if unixtime.VerifyTime(iat, exp) != nil || !s.TimeValid() {
			return violf("validity", "%s: not valid half a millisecond after its issuance", desc())
		}
	}
	return nil
}

// ---- key sets

type KeySetPlan struct {
	Set   json.RawMessage `json:"set"`
	Codec string          `json:"codec"`
	Nil   bool            `json:"nil,omitempty"`
}

func genKeySetPlan(t *rapid.T) KeySetPlan {
	p := KeySetPlan{Codec: pick(t, "codec", "json", "yaml", "msgpack"), Nil: chance(t, "nil", 3)}
	if chance(t, "empty", 5) {
		p.Set = raw(map[string]any{"keys": []any{}})
	} else {
		p.Set = raw(genKeySet(t))
	}
	return p
}

func execKeySet(c *Ctx, p KeySetPlan) *Violation {
	var j jwks.JWKS
	var want any = generic(p.Set)
	if p.Nil {
		want = nil
	} else if err := json.Unmarshal(p.Set, &j); err != nil {
		return violf("keyset-json", "decoding %s: %v", p.Set, err)
	}
	if m := (member{Kind: "j"}); want != nil {
		want = normMember(m, want)
	}
	c.Label("codec %s", p.Codec)
	c.NonTrivialIf(want != nil)
	observe := func(j jwks.JWKS) any {
		if j.Set == nil || j.Len() == 0 {
			return nil
		}
		return generic(j.Set)
	}
	if d := docDiff("set", want, observe(j)); d != "" {
		return violf("keyset-json", "decoding %s: %s", p.Set, d)
	}
	got, err := roundTrip(p.Codec, j)
	if err != nil {
		return violf("keyset-"+p.Codec, "%s: %v", p.Set, err)
	}
	for _, g := range got {
		if d := docDiff("set", want, observe(g)); d != "" {
			return violf("keyset-"+p.Codec, "%s encoded as %s and decoded: %s", p.Set, p.Codec, d)
		}
	}
	if p.Codec == "yaml" && !p.Nil {
		// JSON is YAML, too
		var k jwks.JWKS
		if err = yaml.Unmarshal(p.Set, &k); err != nil {
			return violf("keyset-yaml", "decoding %s as yaml: %v", p.Set, err)
		}
		if d := docDiff("set", want, observe(k)); d != "" {
			return violf("keyset-yaml", "decoding %s as yaml: %s", p.Set, d)
		}
	}
	// the keys themselves can be used
	if want == nil {
		return nil
	}
	for i, g := range got {
		if g.Len() != j.Len() {
			return violf("keyset-"+p.Codec, "%s has %d keys after the round trip", p.Set, g.Len())
		}
		_ = i
	}
	return nil
}

type PublishPlan struct {
	Key    int    `json:"key"`
	Alg    string `json:"alg,omitempty"`
	Public bool   `json:"public"`
	Codec  string `json:"codec"`
}

func genPublishPlan(t *rapid.T) PublishPlan {
	p := PublishPlan{Key: intn(t, "key", 0, 12), Public: rapid.Bool().Draw(t, "public"), Codec: pick(t, "codec", "json", "yaml", "msgpack")}
	if chance(t, "other alg", 70) {
		p.Alg = pick(t, "alg", append([]string{"ES256"}, otherAlgs...)...)
		p.Key = intn(t, "nth", 0, 1)
	}
	return p
}

var privateParams = []string{"d", "p", "q", "dp", "dq", "qi", "oth", "k"}

// privateIn finds private key material in a JSON document.
func privateIn(v any) string {
	switch x := v.(type) {
	case []any:
		for _, e := range x {
			if s := privateIn(e); s != "" {
				return s
			}
		}
	case map[string]any:
		if _, isKey := x["kty"]; isKey {
			for _, n := range privateParams {
				if _, ok := x[n]; ok {
					return n
				}
			}
		}
		for _, e := range x {
			if s := privateIn(e); s != "" {
				return s
			}
		}
	}
	return ""
}

func execPublish(c *Ctx, p PublishPlan) *Violation {
	k := key(p.Key)
	if p.Alg != "" {
		k = algKey(p.Alg, p.Key)
	}
	alg := libAlg(k.Alg)
	c.Label("alg %s", k.Alg)
	c.NonTrivial()
	want := map[string]any{}
	for n, v := range publicJWK(k.Signer.Public()) {
		want[n] = v
	}
	want["kid"], want["alg"], want["use"] = thumbprint(publicJWK(k.Signer.Public())), k.Alg, "sig"
	var in any = k.Signer
	if p.Public {
		in = k.Signer.Public()
	}
	signer := oidfed.NewGeneralJWTSigner(k.Signer, alg)
	metadata := &oidfed.Metadata{FederationEntity: &oidfed.FederationEntityMetadata{DisplayName: "x"}}
	fe := must1(oidfed.NewFederationEntity("https://e.example", nil, metadata, signer.EntityStatementSigner(), 0, nil))
	leaf := must1(oidfed.NewFederationLeaf("https://e.example", nil, nil, metadata, signer.EntityStatementSigner(), 0, k.Signer, alg, nil))
	sets := map[string]jwks.JWKS{
		"KeyToJWKS":                     jwks.KeyToJWKS(in, alg),
		"the signer":                    signer.JWKS(),
		"the typed signer":              signer.Typed("x").JWKS(),
		"the entity configuration":      fe.EntityConfigurationPayload().JWKS,
		"the leaf entity configuration": leaf.EntityConfigurationPayload().JWKS,
		"the trust mark signer":         signer.TrustMarkSigner().JWKS(),
		"the delegation signer":         signer.TrustMarkDelegationSigner().JWKS(),
		"the resolve signer":            signer.ResolveResponseSigner().JWKS(),
		"NewTrustMarkSigner":            oidfed.NewTrustMarkSigner(k.Signer, alg).JWKS(),
		"NewEntityStatementSigner":      oidfed.NewEntityStatementSigner(k.Signer, alg).JWKS(),
	}
	for from, j := range sets {
		got, err := roundTrip(p.Codec, j)
		if err != nil {
			return violf("published", "the keys of %s as %s: %v", from, p.Codec, err)
		}
		for _, g := range append(got, j) {
			v := generic(g)
			if n := privateIn(v); n != "" {
				return violf("private", "the keys of %s contain the private parameter %s: %s", from, n, js(v))
			}
			if d := docDiff("set", generic(map[string]any{"keys": []any{want}}), v); d != "" {
				return violf("published", "the keys of %s for %s: %s", from, k.Alg, d)
			}
		}
	}
	for what, token := range map[string][]byte{
		"entity configuration": must1(fe.EntityConfigurationJWT()), "leaf entity configuration": must1(leaf.EntityConfigurationJWT()),
	} {
		claims := must1(decodeClaims(string(token)))
		if n := privateIn(claims); n != "" {
			return violf("private", "the %s contains the private parameter %s", what, n)
		}
	}
	return nil
}

// ---- lists

type ListPlan struct {
	Kind  string            `json:"kind"` // string, int, any, object, bool
	Vals  []json.RawMessage `json:"vals"`
	Codec string            `json:"codec"`
	Nil   bool              `json:"nil,omitempty"`
}

type listEl struct {
	A string `json:"a" yaml:"a"`
	B int    `json:"b" yaml:"b"`
}

func genListPlan(t *rapid.T) ListPlan {
	p := ListPlan{Kind: pick(t, "kind", "string", "string", "int", "any", "object", "bool"), Codec: pick(t, "codec", "json", "yaml")}
	for k := pick(t, "n", 0, 1, 1, 1, 2, 3, 5); k > 0; k-- {
		var v any
		switch p.Kind {
		case "string":
			v = pick(t, "s", append([]string{"null", "true", "~", "1", "0x1f", "1.5", "2001-01-01", "[a]", "{a: b}", "- a", "a: b", "#c", "'", "\"", "a\nb", "\t", "no"}, wordPool...)...)
		case "int":
			v = intn(t, "i", -1000, 1_000_000_000)
		case "bool":
			v = rapid.Bool().Draw(t, "b")
		case "object":
			v = listEl{A: pick(t, "a", wordPool...), B: intn(t, "b", 0, 3)}
		default:
			v = pick[any](t, "any", "a", "null", "1", 1.5, true, map[string]any{"k": "v"}, map[string]any{}, map[string]any{"l": []any{"x"}}, "")
		}
		p.Vals = append(p.Vals, raw(v))
	}
	p.Nil = len(p.Vals) == 0 && rapid.Bool().Draw(t, "nil")
	return p
}

func execList(c *Ctx, p ListPlan) *Violation {
	switch p.Kind {
	case "string":
		return execListOf[string](c, p)
	case "int":
		return execListOf[int64](c, p)
	case "bool":
		return execListOf[bool](c, p)
	case "object":
		return execListOf[listEl](c, p)
	}
	return execListOf[any](c, p)
}

func execListOf[T any](c *Ctx, p ListPlan) *Violation {
	vals := []T{}
	for _, r := range p.Vals {
		var v T
		must(json.Unmarshal(r, &v))
		vals = append(vals, v)
	}
	c.Label("codec %s", p.Codec)
	c.Label("%s, %d elements", p.Kind, min(len(vals), 2))
	c.NonTrivial()
	same := func(a []T, b []T) bool {
		return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(generic(a), generic(b))
	}
	cd := codecs[p.Codec]
	check := func(text []byte) *Violation {
		got := oidfed.SliceOrSingleValue[T](slices.Clone(vals))
		if len(vals) > 0 {
			got = got[:1:1] // what was there before is replaced
		}
		if err := cd.dec(text, &got); err != nil {
			return violf("list-decode", "decoding %s (%s) as a %s list: %v", text, p.Codec, p.Kind, err)
		}
		if !same(vals, got) {
			return violf("list-decode", "decoding %s (%s) as a %s list gives %s", text, p.Codec, p.Kind, js([]T(got)))
		}
		return nil
	}
	if v := check(must1(cd.enc(vals))); v != nil {
		return v
	}
	if len(vals) == 1 {
		if v := check(must1(cd.enc(vals[0]))); v != nil {
			return v
		}
	}
	v := oidfed.SliceOrSingleValue[T](vals)
	if p.Nil {
		v = nil
	}
	got, err := roundTrip(p.Codec, v)
	if err != nil {
		return violf("list", "%s as %s: %v", js(vals), p.Codec, err)
	}
	for _, g := range got {
		if !same(vals, g) {
			return violf("list", "the list %s encoded as %s is %s when decoded", js(vals), p.Codec, js([]T(g)))
		}
	}
	return nil
}

func init() {
	reg("C17", "times", 20000, 2000000, "always", genInstantPlan, execTimes)
	reg("C17", "durations", 20000, 2000000, "always", genDurationPlan, execDurations)
	reg("C17", "validity", 10000, 500000, "both bounds are given", genValidityPlan, execValidity).bubble()
	reg("C17", "keysets", 10000, 500000, "the set has keys", genKeySetPlan, execKeySet)
	reg("C17", "published", 1500, 30000, "always", genPublishPlan, execPublish)
	reg("C17", "lists", 20000, 1000000, "always", genListPlan, execList)
}
