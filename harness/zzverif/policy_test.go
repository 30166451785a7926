package zzverif

// C06, C07, C09: metadata policies against an independent evaluator that works
// on plain JSON values.

import (
	"encoding/json"
	"fmt"
	"slices"
	"sort"
	"strings"

	"time"

	"pgregory.net/rapid"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

// polEntry maps operators to values, pol parameters to entries, pols entity
// types to policies.
type (
	polEntry map[string]any
	pol      map[string]polEntry
	pols     map[string]pol
)

var stdOps = []string{"value", "add", "default", "one_of", "subset_of", "superset_of", "essential"}

func isStd(op string) bool { return slices.Contains(stdOps, op) }

func asList(v any) []any {
	switch l := v.(type) {
	case nil:
		return nil
	case []any:
		return l
	}
	return []any{v}
}

func inList(v any, l []any) bool {
	for _, x := range l {
		if js(x) == js(v) {
			return true
		}
	}
	return false
}

func subList(a, b []any) bool {
	for _, x := range a {
		if !inList(x, b) {
			return false
		}
	}
	return true
}

func unionList(a, b []any) []any {
	out := append([]any{}, a...)
	for _, x := range b {
		if !inList(x, out) {
			out = append(out, x)
		}
	}
	return out
}

func intersectList(a, b []any) []any {
	out := []any{}
	for _, x := range a {
		if inList(x, b) {
			out = append(out, x)
		}
	}
	return out
}

// sameValue: equal, lists up to order and repetition.
func sameValue(a, b any) bool {
	la, aok := a.([]any)
	lb, bok := b.([]any)
	if aok && bok {
		return subList(la, lb) && subList(lb, la)
	}
	return js(a) == js(b)
}

// nullNotInOneOf: whether the combination is an error is open
const nullNotInOneOf = "null value not in one_of"

// refValid judges an entry on its own; "" means valid. (All of this agrees with the 2019 official test vectors.)
func refValid(e polEntry) string {
	has := func(op string) bool { _, ok := e[op]; return ok }
	if has("one_of") && (has("subset_of") || has("superset_of") || has("add")) {
		return "one_of next to a list operator"
	}
	if has("add") && has("value") && !subList(asList(e["add"]), asList(e["value"])) {
		return "add not in value"
	}
	if has("add") && has("subset_of") && !subList(asList(e["add"]), asList(e["subset_of"])) {
		return "add not in subset_of"
	}
	if has("superset_of") && has("subset_of") && !subList(asList(e["superset_of"]), asList(e["subset_of"])) {
		return "superset_of not in subset_of"
	}
	if has("value") && has("subset_of") && e["value"] != nil && !subList(asList(e["value"]), asList(e["subset_of"])) {
		return "value not in subset_of"
	}
	if has("value") && has("superset_of") && e["value"] != nil && !subList(asList(e["superset_of"]), asList(e["value"])) {
		return "value not above superset_of"
	}
	if has("value") && has("one_of") && !inList(e["value"], asList(e["one_of"])) {
		if e["value"] == nil {
			return nullNotInOneOf
		}
		return "value not in one_of"
	}
	if has("value") && e["value"] == nil && (has("default") || e["essential"] == true) {
		return "null value with default or essential"
	}
	if has("one_of") && len(asList(e["one_of"])) == 0 {
		return "one_of empty"
	}
	return ""
}

func refMergeEntry(a, b polEntry) (polEntry, string) {
	out := polEntry{}
	for op, v := range a {
		out[op] = v
	}
	for op, bv := range b {
		av, both := a[op]
		if !both {
			out[op] = bv
			continue
		}
		switch op {
		case "value", "default":
			if !sameValue(av, bv) {
				return nil, op + " conflict"
			}
		case "add", "superset_of":
			out[op] = unionList(asList(av), asList(bv))
		case "one_of", "subset_of":
			out[op] = intersectList(asList(av), asList(bv))
		case "essential":
			out[op] = av == true || bv == true
		default:
			for _, c := range customOps {
				if c.name == op {
					m, why := c.merge(av, bv)
					if why != "" {
						return nil, why
					}
					out[op] = m
				}
			}
		}
	}
	return out, refValid(out)
}

// refMerge merges complete policies; the reason is "" when possible.
func refMerge(ps ...pols) (pols, string) {
	out := pols{}
	for _, p := range ps {
		for et, pp := range p {
			if out[et] == nil {
				out[et] = pol{}
			}
			for name, e := range pp {
				if why := refValid(e); why != "" {
					return nil, fmt.Sprintf("%s.%s: %s", et, name, why)
				}
				old, ok := out[et][name]
				if !ok {
					out[et][name] = e
					continue
				}
				m, why := refMergeEntry(old, e)
				if why != "" {
					return nil, fmt.Sprintf("%s.%s: %s", et, name, why)
				}
				out[et][name] = m
			}
		}
	}
	return out, ""
}

// refOp is a registered operator of the harness, see C09.
type refOp struct {
	name  string
	after string // place in the order
	apply func(v any, set bool, pv any) (any, bool, string)
	merge func(a, b any) (any, string)
}

// refApplyEntry applies an entry to a value; the reason is "" without error.
func refApplyEntry(param string, e polEntry, v any, set bool) (any, bool, string) {
	has := func(op string) bool { _, ok := e[op]; return ok }
	asWords := false
	if param == "scope" {
		for _, op := range stdOps {
			if _, isList := e[op].([]any); isList {
				asWords = true
			}
		}
		if s, ok := v.(string); ok && asWords {
			l := []any{}
			for _, w := range strings.Fields(s) {
				l = append(l, w)
			}
			v = l
		}
	}
	order := []string{}
	for _, op := range append([]string{""}, stdOps...) {
		order = append(order, op)
		for _, c := range customOps {
			if c.after == op {
				order = append(order, c.name)
			}
		}
	}
	for _, op := range order {
		if !has(op) {
			continue
		}
		pv := e[op]
		switch op {
		case "value":
			v, set = pv, pv != nil
		case "add":
			if !set {
				v, set = asList(pv), true
			} else {
				v = unionList(asList(v), asList(pv))
			}
		case "default":
			if !set {
				v, set = pv, true
			}
		case "one_of":
			if set && !inList(v, asList(pv)) {
				return nil, false, "one_of"
			}
		case "subset_of":
			if set {
				v = intersectList(asList(v), asList(pv))
			}
		case "superset_of":
			if set && !subList(asList(pv), asList(v)) {
				return nil, false, "superset_of"
			}
		case "essential":
			if pv == true && !set {
				return nil, false, "essential"
			}
			if pv == true && v == "" {
				panic(skipCase{"empty string made essential"})
			}
		default:
			for _, c := range customOps {
				if c.name == op {
					var why string
					if v, set, why = c.apply(v, set, pv); why != "" {
						return nil, false, why
					}
				}
			}
		}
	}
	if l, ok := v.([]any); ok && asWords {
		ws := []string{}
		for _, w := range l {
			s, isStr := w.(string)
			if !isStr {
				panic(skipCase{"scope that is no string"})
			}
			ws = append(ws, s)
		}
		v = strings.Join(ws, " ")
	}
	return v, set, ""
}

// refApply applies a merged policy to metadata.
func refApply(meta map[string]any, p pols) (map[string]any, string) {
	out := map[string]any{}
	for et, m := range meta {
		mm, ok := m.(map[string]any)
		if !ok || p[et] == nil {
			out[et] = m
			continue
		}
		nm := map[string]any{}
		for k, v := range mm {
			nm[k] = v
		}
		for name, e := range p[et] {
			v, set := mm[name]
			r, set, why := refApplyEntry(name, e, v, set)
			if why != "" {
				return nil, fmt.Sprintf("%s.%s: %s", et, name, why)
			}
			if set {
				nm[name] = r
			} else {
				delete(nm, name)
			}
		}
		out[et] = nm
	}
	return out, ""
}

// canonMeta makes metadata comparable: lists of parameters named by a policy
// are sorted, and what counts as absent for known parameters removed.
func canonMeta(m any, named pols) string {
	n := normMetadata([]byte(js(m)))
	for et, p := range named {
		mm, ok := n[et].(map[string]any)
		if !ok {
			continue
		}
		for name := range p {
			switch v := mm[name].(type) {
			case []any:
				ss := []string{}
				for _, x := range v {
					ss = append(ss, js(x))
				}
				sort.Strings(ss)
				mm[name] = slices.Compact(ss)
			case string:
				if name == "scope" {
					ws := strings.Fields(v)
					sort.Strings(ws)
					mm[name] = ws
				}
			}
		}
	}
	return js(n)
}

// ---- generators

type polParam struct {
	name, kind string // s l b i o (object) w (scope)
}

func polParams(et string) (out []polParam) {
	for _, p := range knownParams[et] {
		if p.Name == "request_authentication_methods_supported" {
			out = append(out, polParam{p.Name, "ml"})
			continue
		}
		k := map[string]string{"s": "s", "l": "l", "b": "b", "i": "i", "j": "o", "m": "m"}[p.Kind]
		if p.Name == "scope" {
			k = "w"
		}
		out = append(out, polParam{p.Name, k})
	}
	return
}

var freeParams = []polParam{
	{"x_list", "l"}, {"x_str", "s"}, {"x_bool", "b"}, {"x_num", "i"}, {"x_obj", "o"},
	{"x_mixed", "x"}, {"x_any", "y"}, {"scope", "w"}, {"x_nums", "n"},
}

var abc = []string{"a", "b", "c", "d"}

func genSet(t *rapid.T, label string, lo int) []any {
	out := []any{}
	for _, s := range abc {
		if rapid.Bool().Draw(t, label+" "+s) {
			out = append(out, s)
		}
	}
	if len(out) < lo {
		out = append(out, pick(t, label, abc...))
	}
	if chance(t, label+" more", 15) {
		for _, s := range []string{"e", "f", "g"} {
			if rapid.Bool().Draw(t, label+" "+s) {
				out = append(out, s)
			}
		}
	}
	if len(out) > 1 && chance(t, label+" order", 30) {
		slices.Reverse(out)
	}
	return out
}

// mixedPool has values of different types that look alike.
var mixedPool = []any{"1", 1.0, "true", true, "a", "", 0.0, false, "null", "A", "a ", 1.5, "1.5"}

func genMixedSet(t *rapid.T, label string, lo int) []any {
	out := []any{}
	for k := intn(t, "n "+label, lo, 4); k > 0; k-- {
		if v := pick(t, label, mixedPool...); !inList(v, out) {
			out = append(out, v)
		}
	}
	return out
}

func genNumSet(t *rapid.T, label string) []any {
	out := []any{}
	for _, s := range []float64{1, 2, 3.5, 1e10} {
		if rapid.Bool().Draw(t, fmt.Sprintf("%s %v", label, s)) {
			out = append(out, s)
		}
	}
	return out
}

func genVal(t *rapid.T, kind string) any {
	switch kind {
	case "s":
		return pick(t, "val", "a", "b", "c", "a b")
	case "w":
		ws := []string{}
		for _, x := range genSet(t, "scope", 0) {
			ws = append(ws, x.(string))
		}
		return strings.Join(ws, " ")
	case "l":
		return genSet(t, "list", 0)
	case "n":
		return genNumSet(t, "nums")
	case "x":
		return genMixedSet(t, "mixed", 0)
	case "y":
		return pick(t, "any", mixedPool...)
	case "b":
		return rapid.Bool().Draw(t, "bool")
	case "i":
		return float64(pick(t, "int", 0, 1, 2, 3600))
	case "ml":
		return map[string]any{pick(t, "key", "a", "b"): genSet(t, "list", 0)}
	case "m":
		return map[string]any{pick(t, "key", "a", "b"): pick(t, "val", "x", "y")}
	default:
		return jwkSet(pick(t, "jwks", 1, 2, 3))
	}
}

// genEntry draws an entry that makes sense for the kind of parameter.
func genEntry(t *rapid.T, kind string) polEntry {
	e := polEntry{}
	list := kind == "l" || kind == "w" || kind == "n" || kind == "x"
	set := func(label string, lo int) any {
		if kind == "x" {
			return genMixedSet(t, label, lo)
		}
		if kind == "n" {
			return genNumSet(t, label)
		}
		return genSet(t, label, lo)
	}
	n := intn(t, "nops", 1, 3)
	for ; n > 0; n-- {
		switch {
		case list:
			switch op := pick(t, "op", "subset_of", "add", "superset_of", "default", "essential", "value"); op {
			case "value", "default":
				if op == "value" && chance(t, "null value", 12) {
					e[op] = nil
				} else {
					e[op] = set(op, 0)
				}
			case "subset_of":
				e[op] = set(op, 1)
			case "essential":
				e[op] = chance(t, "essential", 70)
			default:
				e[op] = set(op, 0)
			}
		case kind == "s" || kind == "i" || kind == "y":
			switch op := pick(t, "op", "one_of", "default", "essential", "value"); op {
			case "one_of":
				l := []any{}
				for k := intn(t, "nof", 1, 3); k > 0; k-- {
					if v := genVal(t, kind); !inList(v, l) {
						l = append(l, v)
					}
				}
				e[op] = l
			case "essential":
				e[op] = chance(t, "essential", 70)
			case "value":
				if chance(t, "null value", 12) {
					e[op] = nil
					break
				}
				e[op] = genVal(t, kind)
			default:
				e[op] = genVal(t, kind)
			}
		default:
			switch op := pick(t, "op", "default", "essential", "value"); op {
			case "essential":
				e[op] = chance(t, "essential", 70)
			default:
				e[op] = genVal(t, kind)
			}
		}
	}
	return e
}

// repairEntry makes most entries valid on their own.
func repairEntry(e polEntry) polEntry {
	has := func(op string) bool { _, ok := e[op]; return ok }
	if has("value") && e["value"] == nil {
		delete(e, "default")
		delete(e, "essential")
		delete(e, "add")
	}
	if has("subset_of") {
		for _, op := range []string{"add", "superset_of", "value"} {
			if l, ok := e[op].([]any); ok {
				e[op] = intersectList(l, asList(e["subset_of"]))
			}
		}
	}
	if l, ok := e["value"].([]any); ok {
		for _, op := range []string{"add", "superset_of"} {
			if has(op) {
				e[op] = intersectList(asList(e[op]), l)
			}
		}
	}
	if has("one_of") && has("value") && e["value"] != nil && !inList(e["value"], asList(e["one_of"])) {
		e["one_of"] = append(asList(e["one_of"]), e["value"])
	}
	return e
}

type polTarget struct {
	et string
	polParam
}

// genPolicyCase draws metadata, and n policies that touch it.
func genPolicyCase(t *rapid.T, n int, repair bool) (meta map[string]any, ps []pols) {
	meta = map[string]any{}
	for i := 0; i < n; i++ {
		ps = append(ps, pols{})
	}
	var targets []polTarget
	for k := intn(t, "ntypes", 1, 2); k > 0; k-- {
		var et string
		var cands []polParam
		if chance(t, "unknown type", 25) {
			et = pick(t, "unknown entity type", extraEntityTypes...)
			cands = freeParams
		} else {
			et = pick(t, "entity type", knownTypes()...)
			cands = polParams(et)
			if chance(t, "free params", 30) {
				cands = slices.Clone(freeParams[:7])
				for _, q := range knownParams[et] {
					// JSON is case-sensitive, so this is another parameter
					if chance(t, "field name", 10) && q.Field != q.Name {
						cands = append(cands, polParam{q.Field, pick(t, "kind", "s", "l", "b")})
					}
				}
			}
		}
		if _, known := knownParams[et]; known && chance(t, "scope param", 15) {
			for _, p := range knownParams[et] {
				if p.Name == "scope" {
					targets = append(targets, polTarget{et, polParam{"scope", "w"}})
				}
			}
		}
		for j := intn(t, "nparams", 1, 3); j > 0; j-- {
			targets = append(targets, polTarget{et, cands[intn(t, "param", 0, len(cands)-1)]})
		}
		if chance(t, "has metadata", 90) && meta[et] == nil {
			meta[et] = map[string]any{}
		}
	}
	seen := map[string]bool{}
	for _, tg := range targets {
		key := tg.et + "." + tg.name
		if seen[key] {
			continue
		}
		seen[key] = true
		if mm, ok := meta[tg.et].(map[string]any); ok && chance(t, "given", 60) {
			mm[tg.name] = genVal(t, tg.kind)
		}
		var base polEntry
		for i := 0; i < n; i++ {
			if !chance(t, "has entry", 60) {
				if chance(t, "empty policy", 15) && ps[i][tg.et] == nil {
					ps[i][tg.et] = pol{}
				}
				continue
			}
			var e polEntry
			switch {
			case base != nil && chance(t, "same", 35):
				e = polEntry{}
				for op, v := range base {
					e[op] = v
					if l, ok := v.([]any); ok && len(l) > 1 && chance(t, "reorder", 30) {
						r := append([]any{}, l...)
						slices.Reverse(r)
						e[op] = r
					}
				}
				if chance(t, "drop op", 40) {
					for _, op := range stdOps {
						if _, ok := e[op]; ok {
							delete(e, op)
							break
						}
					}
				}
			default:
				e = genEntry(t, tg.kind)
				if repair || chance(t, "repair", 70) {
					e = repairEntry(e)
				}
			}
			if len(e) == 0 {
				continue
			}
			base = e
			if ps[i][tg.et] == nil {
				ps[i][tg.et] = pol{}
			}
			ps[i][tg.et][tg.name] = e
		}
	}
	// parameters and entity types no policy names
	if chance(t, "bystanders", 50) {
		for et, m := range genMetadata(t, metaOpts{maxTypes: 2, maxParams: 3, extraTypes: true}) {
			mm, ok := m.(map[string]any)
			if meta[et] == nil {
				named := false
				for _, p := range ps {
					named = named || p[et] != nil
				}
				if !ok && named {
					continue // a policy for something that is no object: not specified
				}
				if ok && len(mm) == 0 {
					mm["x_by"] = "stander"
				}
				meta[et] = m
				continue
			}
			old, ok2 := meta[et].(map[string]any)
			if !ok || !ok2 {
				continue
			}
			for k, v := range mm {
				if !seen[et+"."+k] {
					old[k] = v
				}
			}
		}
	}
	return meta, ps
}

func libPolicies(v any) *oidfed.MetadataPolicies {
	var p oidfed.MetadataPolicies
	if err := json.Unmarshal([]byte(js(v)), &p); err != nil {
		panic(skipCase{"policy not decoded"})
	}
	return &p
}

func libMetadata(v any) *oidfed.Metadata {
	var m oidfed.Metadata
	if err := json.Unmarshal([]byte(js(v)), &m); err != nil {
		panic(skipCase{"metadata not decoded"})
	}
	return &m
}

// jsonAny normalises Go values to plain JSON values.
func jsonAny[T any](v T) (out T) {
	must(json.Unmarshal([]byte(js(v)), &out))
	return
}

// chainFed serves a leaf below len(policies)-1 intermediates and an anchor;
// policies[0] is that of the immediate superior.
func chainFed(leaf map[string]any, policies []pols, crit [][]string) (Fed, string, []TA) {
	n := len(policies) + 1
	id := func(i int) string { return fmt.Sprintf("https://p%d.example", i) }
	var f Fed
	for i := 0; i < n; i++ {
		e := Ent{ID: id(i), EC: Stmt{
			Iss: id(i), Sub: id(i), Typ: entityTyp, Sign: i + 1, JWKS: []int{i + 1}, Iat: -10, Exp: 100000,
		}, Fetch: endpointURL(i, "fetch")}
		if i == 0 {
			e.EC.Meta = raw(leaf)
		} else {
			e.EC.Meta = raw(authorityMeta(i, id(i)))
			s := Stmt{
				Iss: id(i), Sub: id(i - 1), Typ: entityTyp, Sign: i + 1, JWKS: []int{i}, Iat: -10, Exp: 100000,
			}
			if policies[i-1] != nil {
				s.Policy = raw(policies[i-1])
			}
			if crit != nil {
				s.PolicyCrit = crit[i-1]
			}
			e.Subs = []SubStmt{{About: id(i - 1), Stmt: s}}
		}
		if i < n-1 {
			e.EC.Hints = []string{id(i + 1)}
		}
		f.Ents = append(f.Ents, e)
	}
	return f, id(0), []TA{{ID: id(n - 1), Pin: []int{n}}}
}

type ApplyPlan struct {
	Meta   map[string]any `json:"meta"`
	Policy []pols         `json:"policy"`
}

func (p *ApplyPlan) norm() { *p = jsonAny(*p) }

func labelOps(c *Ctx, ps ...pols) {
	for _, p := range ps {
		for et, pp := range p {
			_, known := knownParams[et]
			c.LabelIf(!known, "unknown entity type")
			for name, e := range pp {
				c.LabelIf(name == "scope", "scope")
				c.LabelIf(known && strings.HasPrefix(name, "x_"), "unknown parameter")
				for op := range e {
					c.Label("op %s", op)
				}
			}
		}
	}
}

func firstDiff(a, b string) string {
	return fmt.Sprintf("got  %s\nwant %s", a, b)
}

// customOps are registered with the library before any case runs: they are
// only in effect for policies that name them.
var customOps []refOp

func init() {
	reg(
		"C06", "apply", 30000, 800000,
		"metadata of 1-4 known and unknown entity types and a valid policy with random operators on known and unknown "+
			"parameters; ApplyPolicy is compared with the independent evaluator (value, error, untouched rest, untouched "+
			"inputs, earlier results, repeated application). Non-trivial: the policy names a parameter of an entity type that is there",
		func(t *rapid.T) ApplyPlan {
			// the second policy is applied in between
			m, ps := genPolicyCase(t, pick(t, "policies", 1, 2), true)
			return ApplyPlan{m, ps}
		}, func(c *Ctx, p ApplyPlan) *Violation {
			p.norm()
			po := p.Policy[0]
			if _, why := refMerge(po); why != "" {
				c.Label("invalid policy")
				return nil
			}
			for et := range po {
				c.NonTrivialIf(p.Meta[et] != nil && len(po[et]) > 0)
			}
			labelOps(c, po)
			want, why := refApply(p.Meta, po)
			lm, lp := libMetadata(p.Meta), libPolicies(po)
			mBefore, pBefore := observeMetadata(lm), js(lp)
			var first *oidfed.Metadata
			firstSeen := ""
			for round := 0; round < 2; round++ {
				if round > 0 && len(p.Policy) > 1 {
					_, _ = lm.ApplyPolicy(libPolicies(p.Policy[1]))
					if first != nil {
						c.Label("another policy applied")
						if a := observeMetadata(first); a != firstSeen {
							return violf("result-altered", "resolved metadata changed when another policy was applied\nbefore %s\nafter  %s\nmetadata %s\npolicies %s", firstSeen, a, js(p.Meta), js(p.Policy))
						}
					}
				}
				got, err := lm.ApplyPolicy(lp)
				if err == nil && round == 0 {
					first, firstSeen = got, observeMetadata(got)
				}
				if a := observeMetadata(lm); a != mBefore {
					return violf("input-altered", "metadata changed by applying a policy\nbefore %s\nafter  %s", mBefore, a)
				}
				if a := js(lp); a != pBefore {
					return violf("input-altered", "policy changed by applying it\nbefore %s\nafter  %s", pBefore, a)
				}
				if why != "" {
					c.Label("check fails")
					if err == nil {
						return violf("check-ignored", "%s must fail, but resolved to %s\nmetadata %s\npolicy %s", why, js(got), js(p.Meta), js(po))
					}
					continue
				}
				if err != nil {
					return violf("wrong-error", "all checks hold, but: %v\nmetadata %s\npolicy %s", err, js(p.Meta), js(po))
				}
				if g, w := canonMeta(got, po), canonMeta(want, po); g != w {
					return violf("wrong-result", "metadata %s\npolicy %s\n%s", js(p.Meta), js(po), firstDiff(g, w))
				}
			}
			return nil
		},
	)

	reg(
		"C06", "resolve", 8000, 80000,
		"the same metadata behind a chain of 1-3 superiors which each state a part of the policy; the metadata of the "+
			"resolved chain, of the local resolver and of its payload are compared with the evaluator applied to the merged policy; "+
			"an unsatisfiable policy leaves no valid chain. Non-trivial: at least two superiors state a policy for a present entity type",
		func(t *rapid.T) ApplyPlan {
			m, ps := genPolicyCase(t, intn(t, "superiors", 1, 3), false)
			return ApplyPlan{m, ps}
		}, func(c *Ctx, p ApplyPlan) *Violation {
			p.norm()
			merged, bad := refMerge(p.Policy...)
			labelOps(c, p.Policy...)
			np := 0
			for _, po := range p.Policy {
				for et := range po {
					if p.Meta[et] != nil && len(po[et]) > 0 {
						np++
						break
					}
				}
			}
			c.NonTrivialIf(np > 1)
			w := newWorld()
			f, subject, tas := chainFed(p.Meta, p.Policy, nil)
			f.install(w, time.Now())
			_ = libMetadata(p.Meta)
			var want map[string]any
			why := bad
			if bad == "" {
				want, why = refApply(p.Meta, merged)
			}
			r := oidfed.TrustResolver{TrustAnchors: libTAs(tas), StartingEntity: subject}
			all := r.ResolveToValidChainsWithoutVerifyingMetadata()
			if len(all) != 1 {
				return violf("no-chain", "expected one chain, got %d", len(all))
			}
			r2 := oidfed.TrustResolver{TrustAnchors: libTAs(tas), StartingEntity: subject}
			valid := r2.ResolveToValidChains()
			res, err := oidfed.LocalMetadataResolver{}.Resolve(apimodel.ResolveRequest{Subject: subject, TrustAnchor: []string{tas[0].ID}})
			if bad != "" {
				c.Label("unmergeable")
				// the library may defer the error to the application: whatever
				// comes out has to satisfy every policy (C07)
				return nil
			}
			if why != "" {
				c.Label("check fails")
				if len(valid) != 0 || err == nil {
					return violf("check-ignored", "%s must fail, but %d valid chains, resolved to %s\nmetadata %s\npolicies %s",
						why, len(valid), js(res), js(p.Meta), js(p.Policy))
				}
				return nil
			}
			if len(valid) != 1 || err != nil {
				return violf("wrong-error", "%d valid chains, error %v\nmetadata %s\npolicies %s", len(valid), err, js(p.Meta), js(p.Policy))
			}
			m1, err := valid[0].Metadata()
			if err != nil {
				return violf("wrong-error", "metadata of a valid chain: %v", err)
			}
			wt := canonMeta(want, merged)
			for i, m := range []*oidfed.Metadata{m1, res} {
				if g := canonMeta(m, merged); g != wt {
					return violf("wrong-result", "way %d\nmetadata %s\npolicies %s\n%s", i, js(p.Meta), js(p.Policy), firstDiff(g, wt))
				}
			}
			return nil
		},
	).bubble()

	type MergePlan struct {
		Metas  []map[string]any `json:"metas"`
		Policy []pols           `json:"policy"`
		Nil    []bool           `json:"nil,omitempty"`
	}
	reg(
		"C07", "merge", 30000, 600000,
		"2-4 policies with overlapping entity types, parameters and operators, some empty or missing, merged in every order "+
			"and grouping; every outcome on 1-3 metadata documents is checked against each single policy; mergeable policies (by the "+
			"reference) have to merge to the reference result, unmergeable ones to fail by merging or applying. Non-trivial: at least two "+
			"policies name the same parameter",
		func(t *rapid.T) MergePlan {
			n := intn(t, "n", 2, 4)
			m, ps := genPolicyCase(t, n, false)
			p := MergePlan{Policy: ps, Metas: []map[string]any{m}}
			for k := intn(t, "more metas", 0, 2); k > 0; k-- {
				// other values for the parameters in play
				mm := map[string]any{}
				for et := range m {
					mm[et] = map[string]any{}
				}
				for _, po := range ps {
					for et, pp := range po {
						if mm[et] == nil {
							continue
						}
						names := make([]string, 0, len(pp))
						for name := range pp {
							names = append(names, name)
						}
						sort.Strings(names)
						for _, name := range names {
							kind := "l"
							for _, q := range append(polParams(et), freeParams...) {
								if q.name == name {
									kind = q.kind
									break
								}
							}
							if chance(t, "given", 60) {
								mm[et].(map[string]any)[name] = genVal(t, kind)
							}
						}
					}
				}
				p.Metas = append(p.Metas, mm)
			}
			if chance(t, "duplicates", 8) {
				for _, po := range ps {
					for _, et := range sortedKeys(po) {
						for _, name := range sortedKeys(po[et]) {
							for _, op := range sortedKeys(po[et][name]) {
								l, ok := po[et][name][op].([]any)
								if !ok || len(l) == 0 || !chance(t, "duplicate", 50) {
									continue
								}
								l = slices.Clone(l)
								l[intn(t, "to", 0, len(l)-1)] = l[intn(t, "from", 0, len(l)-1)]
								if chance(t, "one more", 40) {
									l = append(l, l[intn(t, "from", 0, len(l)-1)])
								}
								po[et][name][op] = l
							}
						}
					}
				}
			}
			if chance(t, "fan", 5) {
				// one list is merged with several that each have more values
				et, name := pick(t, "fan type", "openid_provider", "x_type"), pick(t, "fan parameter", "scopes_supported", "x_list")
				op := pick(t, "fan operator", "add", "superset_of")
				for i := range ps {
					vals := []any{fmt.Sprint("v", i)}
					if i == 0 {
						vals = []any{"a", "b", "c", "d", "e", "f", "g"}[:intn(t, "fan size", 1, 7)]
					}
					if ps[i][et] == nil {
						ps[i][et] = pol{}
					}
					ps[i][et][name] = polEntry{op: vals}
				}
			}
			for range ps {
				p.Nil = append(p.Nil, chance(t, "nil", 6))
			}
			return p
		}, func(c *Ctx, p MergePlan) *Violation {
			p = jsonAny(p)
			var lps []*oidfed.MetadataPolicies
			var before []string
			var given []pols
			for i, po := range p.Policy {
				if p.Nil[i] {
					lps = append(lps, nil)
				} else {
					lps = append(lps, libPolicies(po))
					given = append(given, po)
				}
				before = append(before, js(lps[i]))
			}
			count := map[string]int{}
			for _, po := range given {
				for et, pp := range po {
					for name := range pp {
						count[et+"."+name]++
						c.NonTrivialIf(count[et+"."+name] > 1)
					}
				}
			}
			labelOps(c, given...)
			ref, bad := refMerge(given...)
			c.LabelIf(bad != "", "unmergeable")
			canon := func(m *oidfed.MetadataPolicies) string { return canonPolicies(js(m)) }
			merged, err := oidfed.MergeMetadataPolicies(lps...)
			unaltered := func(what string) *Violation {
				for i := range lps {
					if a := js(lps[i]); a != before[i] {
						return violf("input-altered", "%s changed a policy\nbefore %s\nafter  %s", what, before[i], a)
					}
				}
				return nil
			}
			if v := unaltered("merging"); v != nil {
				return v
			}
			dups := hasDups(given)
			c.LabelIf(dups, "duplicates in lists")
			if bad == "" && !dups { // what equal means for lists with duplicates is open
				if err != nil {
					return violf("wrong-merge-error", "mergeable, but: %v\npolicies %s", err, js(given))
				}
				if g, w := canon(merged), canonPolicies(js(ref)); g != w {
					return violf("wrong-merge", "policies %s\n%s", js(given), firstDiff(g, w))
				}
			}
			// orders and groupings
			first := ""
			if err == nil {
				first = canon(merged)
			}
			n := len(lps)
			alt := func(name string, f func() (*oidfed.MetadataPolicies, error)) *Violation {
				m, e := f()
				if (e == nil) != (err == nil) {
					return violf("order-matters", "%s: error %v, in the given order: %v\npolicies %s", name, e, err, js(p.Policy))
				}
				if e == nil && canon(m) != first {
					return violf("order-matters", "%s\npolicies %s\n%s", name, js(p.Policy), firstDiff(canon(m), first))
				}
				return nil
			}
			perm := func(order []int) []*oidfed.MetadataPolicies {
				var out []*oidfed.MetadataPolicies
				for _, i := range order {
					out = append(out, lps[i])
				}
				return out
			}
			for _, order := range permutations(n) {
				if v := alt(fmt.Sprintf("order %v", order), func() (*oidfed.MetadataPolicies, error) {
					return oidfed.MergeMetadataPolicies(perm(order)...)
				}); v != nil {
					return v
				}
			}
			for cut := 1; cut < n; cut++ {
				if v := alt(fmt.Sprintf("grouped at %d", cut), func() (*oidfed.MetadataPolicies, error) {
					a, e := oidfed.MergeMetadataPolicies(lps[:cut]...)
					if e != nil {
						return nil, e
					}
					b, e := oidfed.MergeMetadataPolicies(lps[cut:]...)
					if e != nil {
						return nil, e
					}
					return oidfed.MergeMetadataPolicies(a, b)
				}); v != nil {
					return v
				}
			}
			// every pair is merged on its own, none affects what another gave
			type pair struct {
				i, j int
				m    *oidfed.MetadataPolicies
				seen string
			}
			var pairs []pair
			for i := range lps {
				for j := range lps {
					if m, e := oidfed.MergeMetadataPolicies(lps[i], lps[j]); i != j && e == nil {
						pairs = append(pairs, pair{i, j, m, canon(m)})
					}
				}
			}
			for _, x := range pairs {
				if g := canon(x.m); g != x.seen {
					return violf("result-aliased", "the merged policies %d and %d changed when others were merged\nbefore %s\nafter  %s\npolicies %s", x.i, x.j, x.seen, g, js(p.Policy))
				}
			}
			if v := unaltered("merging again"); v != nil {
				return v
			}
			if err != nil {
				c.Label("merge error")
				return nil
			}
			// earlier results are not affected by later merges
			if g := canon(merged); g != first {
				return violf("result-aliased", "a merged policy changed when its parts were merged again\nbefore %s\nafter  %s", first, g)
			}
			// outcomes; those of policies that contradict each other can only be errors
			contradictory, _, _ := strings.Cut(bad, ".")
			applied := 0
			for _, meta := range p.Metas {
				lm := libMetadata(meta)
				out, aerr := lm.ApplyPolicy(merged)
				if v := unaltered("applying the merged policy"); v != nil {
					return v
				}
				if aerr != nil {
					c.Label("apply error")
					continue
				}
				applied++
				if bad != "" && !dups && !strings.HasSuffix(bad, nullNotInOneOf) && isObject(meta[contradictory]) {
					return violf("contradiction", "policies that contradict each other (%s) result in %s\nfor %s\npolicies %s", bad, js(out), js(meta), js(given))
				}
				res := normKeep(out)
				for i, po := range given {
					if v := obeys(po, meta, res); v != "" {
						return violf("loosened", "policy %d (%s) is not satisfied by the outcome: %s\nmetadata %s\nresult %s\npolicies %s",
							i, js(po), v, js(meta), js(res), js(given))
					}
				}
			}
			c.LabelIf(applied > 0, "applied")
			return nil
		},
	)
}

func isObject(v any) bool {
	_, ok := v.(map[string]any)
	return ok
}

func hasDups(ps []pols) bool {
	for _, po := range ps {
		for _, pp := range po {
			for _, e := range pp {
				for _, v := range e {
					l, _ := v.([]any)
					for i, x := range l {
						if inList(x, l[:i]) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// normKeep is the library's metadata as plain JSON with the parameters that are
// present but not encoded.
func normKeep(m *oidfed.Metadata) map[string]any {
	var out map[string]any
	must(json.Unmarshal([]byte(js(m)), &out))
	return out
}

// obeys tells which check of the single policy the resolved metadata violates.
func obeys(p pols, in, res map[string]any) string {
	for et, pp := range p {
		mm, ok := res[et].(map[string]any)
		if !ok {
			continue
		}
		if _, isObj := in[et].(map[string]any); !isObj {
			continue
		}
		_, known := knownParams[et]
		for name, e := range pp {
			v, set := mm[name]
			if name == "scope" {
				if s, ok := v.(string); ok {
					l := []any{}
					for _, w := range strings.Fields(s) {
						l = append(l, w)
					}
					v = l
				}
			}
			empty := !set || isEmptyJSON(v)
			if want, ok := e["value"]; ok {
				if name == "scope" {
					if s, ok := want.(string); ok {
						l := []any{}
						for _, w := range strings.Fields(s) {
							l = append(l, w)
						}
						want = l
					}
				}
				if want == nil && set && !empty {
					return fmt.Sprintf("%s.%s is %s, must be removed", et, name, js(v))
				}
				if want != nil && !sameValue(want, v) && !(known && empty && isEmptyJSON(want)) {
					return fmt.Sprintf("%s.%s is %s, must be %s", et, name, js(v), js(want))
				}
			}
			if empty && known {
				// absent or empty: the encodings do not tell
				continue
			}
			if !set {
				if e["essential"] == true {
					return fmt.Sprintf("%s.%s missing", et, name)
				}
				continue
			}
			if l, ok := e["one_of"]; ok && !inList(v, asList(l)) {
				return fmt.Sprintf("%s.%s is %s, not one of %s", et, name, js(v), js(l))
			}
			if l, ok := e["subset_of"]; ok && !subList(asList(v), asList(l)) {
				return fmt.Sprintf("%s.%s is %s, not a subset of %s", et, name, js(v), js(l))
			}
			if l, ok := e["superset_of"]; ok && !subList(asList(l), asList(v)) {
				return fmt.Sprintf("%s.%s is %s, not a superset of %s", et, name, js(v), js(l))
			}
		}
	}
	return ""
}

func permutations(n int) [][]int {
	if n == 1 {
		return [][]int{{0}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

// canonPolicies sorts lists and drops entity types and parameters without operators.
func canonPolicies(s string) string {
	var m map[string]map[string]map[string]any
	if json.Unmarshal([]byte(s), &m) != nil {
		return s
	}
	for et, p := range m {
		for name, e := range p {
			for op, v := range e {
				if l, ok := v.([]any); ok {
					ss := []string{}
					for _, x := range l {
						ss = append(ss, js(x))
					}
					sort.Strings(ss)
					e[op] = slices.Compact(ss)
				}
				if op == "essential" && v == false {
					delete(e, op)
				}
			}
			if len(e) == 0 {
				delete(p, name)
			}
		}
		if len(p) == 0 {
			delete(m, et)
		}
	}
	return js(m)
}
