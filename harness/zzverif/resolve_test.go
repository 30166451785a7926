package zzverif

import (
	"strings"
	"time"

	oidfed "github.com/go-oidfed/lib"
)

func (p *FedPlan) resolver() oidfed.TrustResolver {
	return oidfed.TrustResolver{TrustAnchors: libTAs(p.TAs), StartingEntity: p.Subject, Types: p.Types}
}

func (p *FedPlan) resolve() oidfed.TrustChains {
	r := p.resolver()
	if p.Metadata {
		return r.ResolveToValidChains()
	}
	return r.ResolveToValidChainsWithoutVerifyingMetadata()
}

func init() {
	reg(
		"C01", "genuine", 6000, 120000,
		"a generated federation of 2-8 entities with 0-4 injected attacks or faults is served and resolved; every returned "+
			"chain is validated from its raw JWTs by an independent verifier. Non-trivial: a path along authority hints to a "+
			"trust anchor exists and at least one such path is broken by a fault, or a chain is returned",
		genFedPlan(fedOpts{maxEnts: 7, constraints: 0, faultMax: 4, extraTypes: true}), func(c *Ctx, p FedPlan) *Violation {
			w := newWorld()
			t0 := time.Now()
			sv := p.Fed.install(w, t0)
			chains := p.resolve()
			paths := p.Fed.refResolve(sv, p.Subject, p.TAs, 0)
			broken := 0
			for _, pa := range paths {
				if len(pa.Reasons) > 0 {
					broken++
				}
			}
			c.NonTrivialIf(broken > 0 || len(chains) > 0)
			c.Label("chains %d", min(len(chains), 4))
			c.LabelIf(broken > 0, "broken path")
			for _, f := range p.Faults {
				c.Label("fault %s", f)
			}
			all := sv.all()
			for _, ch := range chains {
				toks := chainTokens(ch)
				c.Label("chain length %d", len(toks))
				if why := checkChainGenuine(toks, ch, p.Subject, p.TAs, all); why != "" {
					return violf("not-genuine", "chain [%s] returned for %s: %s (faults %v)", describeToks(toks), p.Subject, why, p.Faults)
				}
			}
			return nil
		},
	).bubble()

	complete := func(c *Ctx, p FedPlan) *Violation {
		w := newWorld()
		t0 := time.Now()
		sv := p.Fed.install(w, t0)
		chains := p.resolve()
		if w.Over {
			return violf("unbounded", "resolution of %s made more than 20000 requests", p.Subject)
		}
		got := chainsTokens(chains)
		paths := p.Fed.refResolve(sv, p.Subject, p.TAs, 0)
		var want [][]string
		broken := 0
		for _, pa := range paths {
			if len(pa.Reasons) == 0 {
				want = append(want, pa.Tokens)
			} else {
				broken++
			}
		}
		c.NonTrivialIf(len(want) > 0 && (broken > 0 || len(want) > 1))
		c.Label("valid %d", min(len(want), 6))
		c.LabelIf(broken > 0, "broken path")
		for _, f := range p.Faults {
			c.Label("fault %s", f)
		}
		if m := missingFrom(want, got); m != nil {
			return violf("chain-missing", "valid chain [%s] of %s not returned; got %d chains, expected %d (faults %v)",
				describeToks(m), p.Subject, len(got), len(want), p.Faults)
		}
		seen := map[string]bool{}
		for _, g := range got {
			k := strings.Join(g, "|")
			if seen[k] {
				return violf("chain-twice", "chain [%s] returned twice", describeToks(g))
			}
			seen[k] = true
		}
		return nil
	}
	reg(
		"C02", "complete", 6000, 120000,
		"a generated federation (2-8 entities, cycles, several paths, 0-4 faults) is resolved; every chain the reference "+
			"resolver finds has to be returned, none twice, within a request budget. Non-trivial: at least one valid chain "+
			"exists together with another valid or broken path",
		genFedPlan(fedOpts{maxEnts: 7, constraints: 0, faultMax: 4, extraTypes: true}), complete,
	).bubble()
	reg(
		"C02", "complete-constrained", 3000, 60000,
		"as complete, with constraints in subordinate statements",
		genFedPlan(fedOpts{maxEnts: 7, constraints: 30, faultMax: 2, extraTypes: true}), complete,
	).bubble()

	reg(
		"C03", "constraints", 9000, 200000,
		"a generated fault-free federation whose subordinate statements carry random constraints (path length, naming with "+
			"look-alike hosts, entity types) is resolved and compared in both directions with an independent evaluation. "+
			"Non-trivial: some path has constraints, and constraints decide it (rejected by one) or a constrained path is valid",
		genFedPlan(fedOpts{maxEnts: 7, constraints: 55, faultMax: 0, extraTypes: true}), func(c *Ctx, p FedPlan) *Violation {
			w := newWorld()
			t0 := time.Now()
			sv := p.Fed.install(w, t0)
			chains := p.resolve()
			got := chainsTokens(chains)
			paths := p.Fed.refResolve(sv, p.Subject, p.TAs, 0)
			var want [][]string
			constrained := false
			for _, e := range p.Fed.Ents {
				for _, s := range e.Subs {
					constrained = constrained || len(s.Stmt.Constraints) > 0
				}
			}
			for _, pa := range paths {
				if len(pa.Reasons) == 0 {
					want = append(want, pa.Tokens)
				}
				for _, r := range pa.Reasons {
					c.Label("%s", strings.SplitN(r, " of ", 2)[0])
				}
			}
			c.NonTrivialIf(constrained && len(paths) > 0)
			c.LabelIf(len(want) > 0, "valid chain")
			if m := missingFrom(want, got); m != nil {
				return violf("wrongly-rejected", "chain [%s] satisfies all constraints but is not returned", describeToks(m))
			}
			if m := missingFrom(got, want); m != nil {
				why := ""
				for _, pa := range paths {
					if strings.Join(pa.Tokens, "|") == strings.Join(m, "|") {
						why = strings.Join(pa.Reasons, "; ")
					}
				}
				return violf("constraint-ignored", "chain [%s] returned although: %s", describeToks(m), why)
			}
			return nil
		},
	).bubble()
}
