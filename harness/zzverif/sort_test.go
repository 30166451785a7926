package zzverif

// C20: sorting and filtering of chains.

import (
	"fmt"
	"math"
	"slices"
	"time"

	"pgregory.net/rapid"

	oidfed "github.com/go-oidfed/lib"
)

// SortChain is one chain: what is at its ends and in its policies.
type SortChain struct {
	Len    int   `json:"len"`
	Anchor int   `json:"anchor"`
	Leaf   int   `json:"leaf"`
	Pols   []int `json:"pols,omitempty"` // per statement between
	Via    []int `json:"via,omitempty"`  // per statement between: issued by the anchor of that number-1
	Score  int   `json:"score"`
	Mark   bool  `json:"mark,omitempty"`
}

type SortOp struct {
	Op string `json:"op"` // asc, desc, asc-len, desc-len, ta, max, min, valid, check, and
	N  int    `json:"n,omitempty"`
	M  int    `json:"m,omitempty"`
}

type SortPlan struct {
	Chains []SortChain `json:"chains"`
	Ops    []SortOp    `json:"ops"`
	Nil    bool        `json:"nil,omitempty"`
}

var sortLeafs = []map[string]any{
	{"openid_relying_party": map[string]any{"contacts": []any{"a"}, "client_name": "x"}},
	{"openid_relying_party": map[string]any{"contacts": []any{"a", "b"}}},
	{"openid_relying_party": map[string]any{}},
	{"openid_provider": map[string]any{"issuer": "https://op.example"}},
}

var sortPolicies = []pols{
	nil,
	{"openid_relying_party": {"contacts": {"subset_of": []any{"a"}}}},
	{"openid_relying_party": {"contacts": {"superset_of": []any{"b"}}}},
	{"openid_relying_party": {"contacts": {"essential": true}}},
	{"openid_relying_party": {"client_name": {"value": "y"}}},
	{"openid_relying_party": {"client_name": {"value": "z"}}},
	{"openid_relying_party": {"client_name": {"one_of": []any{"x", "y"}}}},
	{"openid_relying_party": {"contacts": {"add": []any{"b"}}}},
}

func genSortPlan(t *rapid.T) SortPlan {
	var p SortPlan
	n := intn(t, "nchains", 0, 6)
	if chance(t, "many", 40) {
		n = intn(t, "nchains", 7, 40)
	}
	p.Nil = n == 0 && rapid.Bool().Draw(t, "nil")
	wide := chance(t, "wide scores", 30)
	for i := 0; i < n; i++ {
		c := SortChain{
			Len: pick(t, "len", 3, 3, 4, 5, 1, 6, 2, 7), Anchor: intn(t, "anchor", 0, 2), Leaf: intn(t, "leaf", 0, len(sortLeafs)-1),
			Score: intn(t, "score", -3, 3), Mark: rapid.Bool().Draw(t, "mark"),
		}
		if wide {
			c.Score = pick(t, "wide score", 0, 1, -1, math.MaxInt, math.MinInt, 1<<40, -1<<40, i)
		}
		if chance(t, "empty chain", 3) {
			c.Len = 0
		}
		for j := 0; j < c.Len-2; j++ {
			k := 0
			if chance(t, "policy", 50) {
				k = intn(t, "which", 1, len(sortPolicies)-1)
			}
			c.Pols = append(c.Pols, k)
			k = 0
			if chance(t, "below another anchor", 12) {
				k = intn(t, "via", 1, 3)
			}
			c.Via = append(c.Via, k)
		}
		p.Chains = append(p.Chains, c)
	}
	for k := intn(t, "nops", 1, 4); k > 0; k-- {
		p.Ops = append(p.Ops, SortOp{
			Op: pick(t, "op", "asc", "desc", "asc-len", "desc-len", "ta", "max", "min", "valid", "check", "and"),
			N:  intn(t, "n", 0, 4), M: intn(t, "m", 0, 4),
		})
	}
	return p
}

// anchorID names the anchors; most look alike.
func anchorID(i int) string {
	ids := []string{"https://ta0.example", "https://ta0.example/", "https://ta0.example/t", "https://ta3.example", "https://ta0.example/T"}
	return ids[i%len(ids)]
}

func execSort(c *Ctx, p SortPlan) *Violation {
	newWorld()
	now := time.Now()
	made := map[string]*oidfed.EntityStatement{}
	stmt := func(s Stmt) *oidfed.EntityStatement {
		k := js(s)
		if made[k] == nil {
			made[k] = must1(oidfed.ParseEntityStatement([]byte(s.token(now))))
		}
		return made[k]
	}
	var chains oidfed.TrustChains
	if !p.Nil {
		chains = oidfed.TrustChains{}
	}
	valid := make([]bool, len(p.Chains))
	pathLen := make([]int, len(p.Chains))
	for i, sc := range p.Chains {
		var ch oidfed.TrustChain
		leaf := fmt.Sprintf("https://leaf%d.example", sc.Leaf)
		if sc.Leaf == 1 {
			leaf = anchorID(3)
		}
		ta := anchorID(sc.Anchor)
		mk := func(iss, sub string) Stmt {
			return Stmt{Iss: iss, Sub: sub, Typ: entityTyp, Sign: 1, JWKS: []int{1}, Exp: 1000}
		}
		switch {
		case sc.Len == 1:
			s := mk(ta, ta)
			s.Meta = raw(sortLeafs[sc.Leaf])
			ch = append(ch, stmt(s))
		case sc.Len > 1:
			s := mk(leaf, leaf)
			s.Meta = raw(sortLeafs[sc.Leaf])
			ch = append(ch, stmt(s))
			for j := 0; j < sc.Len-2; j++ {
				iss := fmt.Sprintf("https://i%d.example", j)
				if j < len(sc.Via) && sc.Via[j] > 0 {
					iss = anchorID(sc.Via[j] - 1)
				}
				if j == sc.Len-3 {
					iss = ta
				}
				s := mk(iss, "https://below.example")
				if sc.Pols[j] > 0 {
					s.Policy = raw(sortPolicies[sc.Pols[j]])
				}
				ch = append(ch, stmt(s))
			}
			ch = append(ch, stmt(mk(ta, ta)))
		}
		if ch == nil {
			ch = oidfed.TrustChain{}
		}
		chains = append(chains, ch)
		pathLen[i] = max(0, sc.Len-3)
		// whether that is right is decided elsewhere
		_, err := ch.Metadata()
		valid[i] = err == nil
	}
	// chains are told apart by their backing arrays
	orig := append(oidfed.TrustChains{}, chains...)
	ident := func(ch oidfed.TrustChain) int {
		for i := range orig {
			if len(ch) != len(orig[i]) {
				continue
			}
			if len(ch) == 0 || &ch[0] == &orig[i][0] {
				return i
			}
		}
		return -1
	}
	content := js(chainsTokens(orig))
	score := func(ch oidfed.TrustChain) int { return p.Chains[ident(ch)].Score }
	cur := slices.Clone(chains)
	var want []int
	for i := range orig {
		want = append(want, ident(orig[i]))
	}
	for oi, o := range p.Ops {
		in := slices.Clone(cur)
		if cur == nil {
			in = nil
		}
		var out oidfed.TrustChains
		sorted := 0
		sc := score
		var keep func(i int) bool
		minLen := math.MaxInt
		for _, i := range want {
			minLen = min(minLen, pathLen[i])
		}
		isTA := func(i, n int) bool { return p.Chains[i].Len > 0 && p.Chains[i].Anchor == n }
		check := oidfed.NewTrustChainsFilterFromCheckerFnc(func(ch oidfed.TrustChain) bool { return p.Chains[ident(ch)].Mark })
		switch o.Op {
		case "asc":
			sorted, out = 1, in.SortAsc(score)
		case "desc":
			sorted, out = -1, in.SortDesc(score)
		case "asc-len", "desc-len":
			sc = func(ch oidfed.TrustChain) int { return pathLen[ident(ch)] }
			if o.Op == "asc-len" {
				sorted, out = 1, in.SortAsc(oidfed.TrustChainScoringPathLen)
			} else {
				sorted, out = -1, in.SortDesc(oidfed.TrustChainScoringPathLen)
			}
		case "ta":
			keep = func(i int) bool { return isTA(i, o.N) }
			out = in.Filter(oidfed.TrustChainsFilterTrustAnchor(anchorID(o.N)))
		case "max":
			keep = func(i int) bool { return pathLen[i] <= o.N }
			out = in.Filter(oidfed.TrustChainsFilterMaxPathLength(o.N))
		case "min":
			keep = func(i int) bool { return pathLen[i] == minLen }
			out = oidfed.TrustChainsFilterMinPathLength.Filter(in)
		case "valid":
			keep = func(i int) bool { return valid[i] }
			out = in.Filter(oidfed.TrustChainsFilterValidMetadata)
		case "check":
			keep = func(i int) bool { return p.Chains[i].Mark }
			out = in.Filter(check)
		case "and":
			keep = func(i int) bool { return isTA(i, o.N) && p.Chains[i].Mark && pathLen[i] <= o.M && valid[i] }
			out = in.Filter(
				oidfed.TrustChainsFilterTrustAnchor(anchorID(o.N)), check, oidfed.TrustChainsFilterMaxPathLength(o.M),
				oidfed.TrustChainsFilterValidMetadata,
			)
		}
		var got []int
		for _, ch := range out {
			i := ident(ch)
			if i < 0 {
				return violf("invented", "op %d %s returns a chain that was not given", oi, js(o))
			}
			got = append(got, i)
		}
		if sorted != 0 {
			a, b := slices.Clone(got), slices.Clone(want)
			slices.Sort(a)
			slices.Sort(b)
			if !slices.Equal(a, b) {
				return violf("no-permutation", "op %d %s of %v returns %v", oi, js(o), want, got)
			}
			for k := 1; k < len(out); k++ {
				x, y := sc(out[k-1]), sc(out[k])
				if sorted > 0 && x > y || sorted < 0 && x < y {
					return violf("not-sorted", "op %d %s: scores %d, %d at %d of %d chains", oi, js(o), x, y, k, len(out))
				}
			}
			c.NonTrivialIf(len(got) > 2)
			want = got
		} else {
			var w []int
			for _, i := range want {
				if keep(i) {
					w = append(w, i)
				}
			}
			if !slices.Equal(w, got) {
				return violf("filter:"+o.Op, "op %d %s of chains %v returns %v, expected %v: %s", oi, js(o), want, got, w, js(p.Chains))
			}
			c.NonTrivialIf(len(w) > 0 && len(w) < len(want))
			// the chains given stay
			for k := range in {
				if ident(in[k]) != want[k] {
					return violf("input-changed", "op %d %s changes the list it is given", oi, js(o))
				}
			}
			want = w
		}
		cur = out
		c.Label("%s", o.Op)
	}
	if js(chainsTokens(orig)) != content {
		return violf("chains-changed", "the chains were changed")
	}
	return nil
}

func init() {
	reg(
		"C20", "sort", 12000, 500000,
		"sequences of sorting and filtering over up to 40 generated chains (lengths, anchors, scores, policies), compared with a "+
			"reference. Non-trivial: more than two chains sorted, or a filter keeps some and drops some",
		genSortPlan, execSort,
	).bubble()
}
