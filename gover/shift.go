package main

import "sync"

// Index shifting. A quantified hypothesis such as
//
//	forall i. ... select(A, off+i) ...
//
// has no usable trigger (the index is an arithmetic term). Over the integers it is equivalent to
// forall k. ...[i := k-off] ... select(A, k) ..., whose trigger is select(A, k); one copy is asserted for each
// distinct offset that occurs.

var shiftCache sync.Map // *Term -> *Term

func shiftHyp(t *Term) *Term {
	switch t.Op {
	case "and":
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = shiftHyp(a)
			ch = ch || as[i] != a
		}
		if ch {
			return And(as...)
		}
		return t
	case "=>":
		if r := shiftHyp(t.Args[1]); r != t.Args[1] {
			return Implies(t.Args[0], r)
		}
		return t
	case "forall":
		if len(t.Pats) > 0 {
			return t
		}
		if r, ok := shiftCache.Load(t); ok {
			return r.(*Term)
		}
		r := shiftForall(t)
		shiftCache.Store(t, r)
		return r
	}
	return t
}

func shiftForall(t *Term) *Term {
	cur := []*Term{t}
	for vi, v := range t.Vars {
		if v.Sort != "Int" {
			continue
		}
		var next []*Term
		for _, f := range cur {
			next = append(next, shiftVar(f, vi)...)
			if len(next) > 4 {
				break
			}
		}
		cur = next
	}
	if len(cur) == 1 && cur[0] == t {
		return t
	}
	return And(cur...)
}

// shiftVar returns the copies of f for its vi-th variable.
func shiftVar(f *Term, vi int) []*Term {
	v := f.Vars[vi]
	offs := map[*Term]bool{}
	var order []*Term
	plain := false
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if len(t.fb) == 0 {
			return
		}
		if t.Op == "select" && t.Args[1].Sort == "Int" {
			ix := t.Args[1]
			if ix == v {
				plain = true
			} else {
				l := toLin(ix)
				if k, ok := l.m[v.ID]; ok && k.IsInt64() && k.Int64() == 1 {
					rest := Sub(ix, v)
					if len(rest.fb) == 0 && !offs[rest] {
						offs[rest] = true
						order = append(order, rest)
					}
				}
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(f.Args[0])
	if len(order) == 0 || len(order) > 2 {
		return []*Term{f}
	}
	var out []*Term
	if plain {
		out = append(out, f)
	}
	for _, r := range order {
		nv := BVar("s", "Int")
		vars := append([]*Term{}, f.Vars...)
		vars[vi] = nv
		out = append(out, Forall(vars, Subst(f.Args[0], map[*Term]*Term{v: Sub(nv, r)})))
	}
	return out
}
