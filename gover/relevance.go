package main

import (
	"strings"
	"sync"
	"time"
)

// Premise selection. Before an obligation goes to the whole portfolio it is tried with the quantified
// hypotheses that speak only about the heap components the goal speaks about (dropping hypotheses is sound).

var famCache sync.Map // *Term -> map[string]bool

// families of heap components that t reads.
func families(t *Term) map[string]bool {
	if r, ok := famCache.Load(t); ok {
		return r.(map[string]bool)
	}
	out := map[string]bool{}
	syms := map[string]bool{}
	collectSyms([]*Term{t}, map[int]bool{}, syms)
	for s := range syms {
		if !strings.HasPrefix(s, "H0|") && !strings.HasPrefix(s, "H|") && !strings.HasPrefix(s, "hv|") {
			continue
		}
		f := s[strings.IndexByte(s, '|')+1:]
		if i := strings.LastIndexByte(f, '!'); i > 0 {
			f = f[:i]
		}
		out[f] = true
	}
	famCache.Store(t, out)
	return out
}

// splitHyp breaks conjunctions up, also below one quantifier and implication.
func splitHyp(t *Term, out []*Term) []*Term {
	switch {
	case t.Op == "and":
		for _, a := range t.Args {
			out = splitHyp(a, out)
		}
		return out
	case t.Op == "ite" && hasQuant(t):
		return splitHyp(Implies(Not(t.Args[0]), t.Args[2]), splitHyp(Implies(t.Args[0], t.Args[1]), out))
	case t.Op == "=>" && t.Args[1].Op == "ite" && hasQuant(t.Args[1]):
		i := t.Args[1]
		return splitHyp(Implies(And(t.Args[0], Not(i.Args[0])), i.Args[2]), splitHyp(Implies(And(t.Args[0], i.Args[0]), i.Args[1]), out))
	case t.Op == "=>" && t.Args[1].Op == "and" && hasQuant(t):
		for _, a := range t.Args[1].Args {
			out = splitHyp(Implies(t.Args[0], a), out)
		}
		return out
	case t.Op == "forall" && len(t.Pats) == 0:
		b := t.Args[0]
		if b.Op == "and" {
			for _, a := range b.Args {
				out = splitHyp(Forall(t.Vars, a), out)
			}
			return out
		}
		if b.Op == "=>" && b.Args[1].Op == "and" {
			for _, a := range b.Args[1].Args {
				out = splitHyp(Forall(t.Vars, Implies(b.Args[0], a)), out)
			}
			return out
		}
	}
	return append(out, t)
}

var splitCache sync.Map // *Term -> []*Term

func relevant(assms []*Term, goal *Term) ([]*Term, bool) {
	g := families(goal)
	var out []*Term
	dropped := 0
	for _, a := range assms {
		if !hasQuant(a) {
			out = append(out, a)
			continue
		}
		var parts []*Term
		if p, ok := splitCache.Load(a); ok {
			parts = p.([]*Term)
		} else {
			parts = splitHyp(a, nil)
			splitCache.Store(a, parts)
		}
		for _, p := range parts {
			if hasQuant(p) {
				ok := true
				for f := range families(p) {
					if !g[f] {
						ok = false
						break
					}
				}
				if !ok {
					dropped++
					continue
				}
			}
			out = append(out, p)
		}
	}
	return out, dropped > 0
}

// tryRelevant: the goal from the relevant hypotheses only.
func tryRelevant(assms []*Term, goal *Term, tmo time.Duration) (SolveRes, bool, string) {
	as, less := relevant(assms, goal)
	if !less {
		return SolveRes{}, false, ""
	}
	ts := append(append([]*Term{}, as...), Not(goal))
	for _, t := range ts {
		if t == False {
			return SolveRes{Status: "unsat", Solver: "simplifier"}, true, ""
		}
	}
	text := smtTextOpt(ts, needsNative(ts), false, false)
	r := runSolver("z3-nomb", text, tmo)
	return r, r.Status == "unsat", text
}
