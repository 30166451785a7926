package zzverif

// C09: operators that are critical, unknown, or registered by the application.

import (
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/pkg/errors"
	"pgregory.net/rapid"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

// The harness registers three operators, as an application would. Standard
// operators may not be combined with them, except essential.
//
//	vf_put (first)             sets a missing value
//	vf_cut (between add and default)  removes values from a list
//	vf_max (after essential)   limits the number of values
func init() {
	customOps = []refOp{
		{
			name: "vf_put", after: "",
			apply: func(v any, set bool, pv any) (any, bool, string) {
				if !set {
					return pv, true, ""
				}
				return v, set, ""
			},
			merge: func(a, b any) (any, string) {
				if !sameValue(a, b) {
					return nil, "vf_put conflict"
				}
				return a, ""
			},
		},
		{
			name: "vf_cut", after: "add",
			apply: func(v any, set bool, pv any) (any, bool, string) {
				if !set {
					return v, set, ""
				}
				out := []any{}
				for _, x := range asList(v) {
					if !inList(x, asList(pv)) {
						out = append(out, x)
					}
				}
				return out, true, ""
			},
			merge: func(a, b any) (any, string) { return unionList(asList(a), asList(b)), "" },
		},
		{
			name: "vf_max", after: "essential",
			apply: func(v any, set bool, pv any) (any, bool, string) {
				if n, ok := pv.(float64); ok && set && len(asList(v)) > int(n) {
					return nil, false, "vf_max"
				}
				return v, set, ""
			},
			merge: func(a, b any) (any, string) {
				if x, ok := a.(float64); ok {
					if y, ok := b.(float64); ok {
						return min(x, y), ""
					}
				}
				return nil, "vf_max no number"
			},
		},
	}
	for _, c := range customOps {
		plain := func(v any) any { // the library may hand over Go slices
			return jsonAny(map[string]any{"v": v})["v"]
		}
		oidfed.RegisterPolicyOperator(oidfed.NewPolicyOperator(
			oidfed.PolicyOperatorName(c.name),
			func(a, b any, path string) (any, error) {
				v, why := c.merge(plain(a), plain(b))
				if why != "" {
					return nil, errors.Errorf("%s: %s", path, why)
				}
				return v, nil
			},
			func(value any, set bool, pv any, _ bool, path string) (any, bool, error) {
				v, s, why := c.apply(plain(value), set, plain(pv))
				if why != "" {
					return nil, false, errors.Errorf("%s: %s", path, why)
				}
				return v, s, nil
			},
			nil,
		))
		at := 0
		if c.after != "" {
			at = slices.Index(oidfed.OperatorOrder, oidfed.PolicyOperatorName(c.after)) + 1
		}
		oidfed.OperatorOrder = slices.Insert(oidfed.OperatorOrder, at, oidfed.PolicyOperatorName(c.name))
	}
}

func isCustom(op string) bool {
	for _, c := range customOps {
		if c.name == op {
			return true
		}
	}
	return false
}

var unknownOps = []string{"regexp", "intersects", "Value", "subset-of", "", "essential ", "add_", "remove"}

// CritPlan is a chain whose policies also hold unknown and custom operators.
type CritPlan struct {
	Meta   map[string]any `json:"meta"`
	Policy []pols         `json:"policy"`
	Crit   [][]string     `json:"crit"` // one per superior's statement, then leaf's and anchor's configuration
	AtTA   bool           `json:"at_ta,omitempty"`
}

func genUnknownValue(t *rapid.T) any {
	switch intn(t, "unknown value", 0, 5) {
	case 0:
		return nil
	case 1:
		return "a"
	case 2:
		return []any{"a", float64(1), nil}
	case 3:
		return map[string]any{"value": "a"}
	case 4:
		return true
	}
	return genSet(t, "unknown list", 0)
}

func genCritPlan(t *rapid.T) CritPlan {
	n := intn(t, "superiors", 1, 3)
	p := CritPlan{AtTA: chance(t, "anchor itself", 6)}
	p.Meta, p.Policy = genPolicyCase(t, n, true)
	// custom operators on parameters of their own
	if chance(t, "custom", 55) {
		ets := []string{"custom_type", "federation_entity", "openid_relying_party"}
		for k := intn(t, "ncustom", 1, 2); k > 0; k-- {
			et := pick(t, "custom et", ets...)
			name := pick(t, "custom param", "x_custom", "x_other", "contacts")
			if et == "custom_type" && name == "contacts" {
				name = "x_list"
			}
			if p.Meta[et] == nil && chance(t, "present", 90) {
				p.Meta[et] = map[string]any{}
			}
			if mm, ok := p.Meta[et].(map[string]any); ok && chance(t, "given", 60) {
				mm[name] = genSet(t, "custom value", 0)
			}
			for i := range p.Policy {
				// no other operator on this parameter: combining is not allowed
				if p.Policy[i][et] != nil {
					delete(p.Policy[i][et], name)
				}
				if !chance(t, "has custom", 65) {
					continue
				}
				e := polEntry{}
				if rapid.Bool().Draw(t, "put") {
					e["vf_put"] = []any{"a", "b", "c"}[:pick(t, "nput", 3, 2)]
				}
				if rapid.Bool().Draw(t, "cut") {
					e["vf_cut"] = genSet(t, "cut list", 0)
				}
				if rapid.Bool().Draw(t, "max") {
					e["vf_max"] = float64(intn(t, "max n", 0, 4))
				}
				if chance(t, "essential", 40) {
					e["essential"] = chance(t, "essential v", 70)
				}
				if len(e) == 0 {
					continue
				}
				if p.Policy[i][et] == nil {
					p.Policy[i][et] = pol{}
				}
				p.Policy[i][et][name] = e
			}
		}
	}
	// unknown operators
	if chance(t, "unknown ops", 75) {
		op := pick(t, "unknown op", unknownOps...)
		for k := intn(t, "nunknown", 1, 4); k > 0; k-- {
			if chance(t, "other op", 30) {
				op = pick(t, "unknown op", unknownOps...)
			}
			i := intn(t, "at", 0, n-1)
			var keys []string
			for _, po := range p.Policy {
				for et, pp := range po {
					for name := range pp {
						keys = append(keys, et+"\x00"+name)
					}
				}
			}
			slices.Sort(keys)
			keys = append(slices.Compact(keys), "federation_entity\x00x_new", "custom_type\x00x_new")
			et, name, _ := strings.Cut(keys[intn(t, "param", 0, len(keys)-1)], "\x00")
			if p.Policy[i][et] == nil {
				p.Policy[i][et] = pol{}
			}
			e := polEntry{}
			for k, v := range p.Policy[i][et][name] {
				e[k] = v
			}
			e[op] = genUnknownValue(t)
			p.Policy[i][et][name] = e
		}
	}
	for et, m := range p.Meta {
		if _, ok := m.(map[string]any); !ok {
			delete(p.Meta, et) // a policy for something that is no object: not specified
		}
	}
	for range n + 2 {
		var c []string
		if chance(t, "crit", 35) {
			c = genStrings(t, "crit ops", 3, append([]string{"vf_cut", "vf_max"}, stdOps...))
			if chance(t, "unknown crit", 30) {
				c = append(c, pick(t, "crit op", unknownOps...))
			}
			slices.Sort(c)
			c = slices.Compact(c)
		}
		p.Crit = append(p.Crit, c)
	}
	return p
}

// knownOnly leaves out the operators that are not understood.
func knownOnly(p pols) pols {
	out := pols{}
	for et, pp := range p {
		out[et] = pol{}
		for name, e := range pp {
			ee := polEntry{}
			for op, v := range e {
				if isStd(op) || isCustom(op) {
					ee[op] = v
				}
			}
			out[et][name] = ee
		}
	}
	return out
}

func init() {
	reg(
		"C09", "chain", 8000, 100000,
		"a chain of 1-3 superiors with policies into which operators that are not understood are mixed, on parameters with and "+
			"without other operators, and operators registered by the application; any statement may list understood and other "+
			"operators as critical. Metadata of the chain, the valid chains and the local resolver are compared with the evaluator on the "+
			"policies without what is not understood, and with the library on these. Non-trivial: an operator that is not understood, a "+
			"custom operator, or a non-empty critical list",
		genCritPlan, func(c *Ctx, p CritPlan) *Violation {
			p = jsonAny(p)
			n := len(p.Policy)
			critBad := false
			for i, l := range p.Crit {
				if p.AtTA && i != n+1 {
					continue
				}
				for _, op := range l {
					if !isStd(op) && !isCustom(op) {
						critBad = true
					}
				}
				c.LabelIf(len(l) > 0, "critical list")
				c.NonTrivialIf(len(l) > 0)
			}
			c.LabelIf(critBad, "critical unknown operator")
			c.LabelIf(p.AtTA, "chain of the anchor alone")
			var known []pols
			for _, po := range p.Policy {
				known = append(known, knownOnly(po))
				for _, pp := range po {
					for _, e := range pp {
						u := 0
						for op := range e {
							if isCustom(op) {
								c.Label("custom operator")
								c.NonTrivial()
							} else if !isStd(op) {
								u++
							}
						}
						if u > 0 {
							c.NonTrivial()
							c.Label("unknown operator")
							c.LabelIf(u < len(e), "unknown next to known operator")
						}
					}
				}
			}
			w := newWorld()
			f, subject, tas := chainFed(p.Meta, p.Policy, p.Crit[:n])
			f.Ents[0].EC.PolicyCrit = p.Crit[n]
			f.Ents[n].EC.PolicyCrit = p.Crit[n+1]
			if p.AtTA {
				subject = tas[0].ID
			}
			f.install(w, time.Now())
			_ = libMetadata(p.Meta)
			merged, bad := refMerge(known...)
			why := bad
			var want map[string]any
			if bad == "" {
				want, why = refApply(p.Meta, merged)
			}
			resolver := func() oidfed.TrustResolver {
				return oidfed.TrustResolver{TrustAnchors: libTAs(tas), StartingEntity: subject}
			}
			r := resolver()
			all := r.ResolveToValidChainsWithoutVerifyingMetadata()
			if len(all) != 1 {
				return violf("no-chain", "expected one chain, got %d", len(all))
			}
			meta, merr := all[0].Metadata()
			r = resolver()
			valid := r.ResolveToValidChains()
			res, rerr := oidfed.LocalMetadataResolver{}.Resolve(apimodel.ResolveRequest{Subject: subject, TrustAnchor: []string{tas[0].ID}})
			if critBad {
				if merr == nil || len(valid) > 0 || rerr == nil {
					return violf("critical-ignored", "critical operators %v of which one is not understood, but metadata %s (error %v), %d valid chains, resolver: %v",
						p.Crit, js(meta), merr, len(valid), rerr)
				}
				return nil
			}
			if p.AtTA {
				if merr != nil || len(valid) != 1 || rerr != nil {
					return violf("disturbed", "anchor's own chain: error %v, %d valid chains, resolver: %v", merr, len(valid), rerr)
				}
				return nil
			}
			if (merr == nil) != (len(valid) == 1) || (merr == nil) != (rerr == nil) {
				return violf("inconsistent", "error %v, %d valid chains, resolver: %v", merr, len(valid), rerr)
			}
			describe := func() string {
				return fmt.Sprintf("metadata %s\npolicies %s\ncritical %v", js(p.Meta), js(p.Policy), p.Crit)
			}
			named := pols{}
			for _, po := range p.Policy {
				for et, pp := range po {
					if named[et] == nil {
						named[et] = pol{}
					}
					for name, e := range pp {
						named[et][name] = e
					}
				}
			}
			// the library without what is not understood
			var lps, raws []*oidfed.MetadataPolicies
			for i := range known {
				lps = append(lps, libPolicies(known[i]))
				raws = append(raws, libPolicies(p.Policy[i]))
			}
			evaluate := func(ps []*oidfed.MetadataPolicies) (string, error) {
				lm, err := oidfed.MergeMetadataPolicies(ps...)
				if err != nil {
					return "", err
				}
				m, err := libMetadata(p.Meta).ApplyPolicy(lm)
				if err != nil {
					return "", err
				}
				return canonMeta(m, named), nil
			}
			plain, perr := evaluate(lps)
			mixed, xerr := evaluate(raws)
			if (perr == nil) != (xerr == nil) || plain != mixed {
				return violf("disturbed", "merging and applying: without unknown operators %s (error %v)\nwith %s (error %v)\n%s", plain, perr, mixed, xerr, describe())
			}
			if (perr == nil) != (merr == nil) || (perr == nil && canonMeta(meta, named) != plain) {
				return violf("disturbed", "the chain: without unknown operators %s (error %v)\nwith %s (error %v)\n%s", plain, perr, js(meta), merr, describe())
			}
			if bad != "" {
				c.Label("unmergeable")
				return nil
			}
			if why != "" {
				c.Label("check fails")
				if merr == nil {
					return violf("check-ignored", "%s must fail, but resolved to %s\n%s", why, js(meta), describe())
				}
				return nil
			}
			if merr != nil {
				return violf("wrong-error", "all checks hold, but: %v\n%s", merr, describe())
			}
			for i, m := range []*oidfed.Metadata{meta, res} {
				if g, w := canonMeta(m, named), canonMeta(want, named); g != w {
					return violf("wrong-result", "way %d\n%s\n%s", i, describe(), firstDiff(g, w))
				}
			}
			return nil
		},
	).bubble()
}
