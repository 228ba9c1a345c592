package main

// Loops: concrete unrolling when the header decides itself, otherwise inductive invariants.
// Candidate invariants come from the contract (invariant and requires clauses) and from the
// generator (index bounds, iterated keys, frames); candidates that are not inductive are
// dropped, the survivors are proof obligations.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type LoopReport struct {
	Func       string   `json:"func"`
	Pos        string   `json:"pos"`
	Candidates int      `json:"candidates"`
	Kept       []string `json:"kept"`
}

// concreteHeader: does the header's condition evaluate to a constant?
func (ex *Exec) concreteHeader(st *State, fr *Frame, lp *loopInfo, prev *ssa.BasicBlock) bool {
	h := lp.head
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if !lp.body[h.Succs[0]] && !lp.body[h.Succs[1]] {
		return false
	}
	f2 := fr.clone()
	s2 := st.clone()
	for _, in := range h.Instrs[firstNonPhi(h) : len(h.Instrs)-1] {
		switch in := in.(type) {
		case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.Extract, *ssa.DebugRef, *ssa.Convert, *ssa.ChangeType, *ssa.Phi:
			if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "<-" {
				return false
			}
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		default:
			return false
		}
	}
	ex.quiet++
	defer func() { ex.quiet-- }()
	ex.evalPhis(s2, f2, h, prev)
	for _, in := range h.Instrs[firstNonPhi(h) : len(h.Instrs)-1] {
		if c, ok := in.(*ssa.Call); ok {
			outs := ex.execCall(s2, f2, c.Common(), c, c.Pos())
			ex.bindCall(f2, c, outs[0].vals)
			continue
		}
		if _, ok := in.(*ssa.DebugRef); ok {
			continue
		}
		ex.execSimple(s2, f2, in)
	}
	c := ex.val(s2, f2, ifi.Cond)
	if c == True && fr.unroll[h] == 0 && ex.con != nil && ex.con.NoUnroll && loopBranches(lp) > 0 {
		return false
	}
	return c == True || c == False
}

// specEffort: how hard to try on contract invariants; full effort in the recorded pass only.
func (ex *Exec) specEffort() (time.Duration, bool) {
	if ex.quiet > 0 {
		return 4 * time.Second, false
	}
	return proveTimeout, true
}

// loopBranches counts the conditional branches in the loop besides its header.
func loopBranches(lp *loopInfo) int {
	n := 0
	for b := range lp.body {
		if b != lp.head && len(b.Succs) > 1 {
			n++
		}
	}
	return n
}

type phiEnv map[*ssa.Phi]*Term

type tokenPos = token.Pos

var bigM1 = big.NewInt(-1)

type candidate struct {
	label string
	spec  bool
	eval  func(st *State, ph phiEnv) *Term
	bad   bool // cannot be evaluated here
	multi bool // one of several instances: most of them are expected to fail
}

type loopMods struct {
	targets map[string]map[*Term]bool // loop-invariant targets
	fresh   map[string]bool
	variant map[string]map[*Term]bool // variant targets (as first seen)
	preds   map[string][]*wrec
	any     map[string]bool
	iters   map[string]bool
	events  bool
	allocs  bool
}

func newMods() *loopMods {
	return &loopMods{targets: map[string]map[*Term]bool{}, fresh: map[string]bool{}, variant: map[string]map[*Term]bool{}, preds: map[string][]*wrec{}, any: map[string]bool{}, iters: map[string]bool{}}
}

func (m *loopMods) sig() string {
	var out []string
	for c, ts := range m.targets {
		for t := range ts {
			out = append(out, fmt.Sprintf("t%s:%d", c, t.ID))
		}
	}
	for c := range m.fresh {
		out = append(out, "f"+c)
	}
	for c := range m.variant {
		out = append(out, "v"+c)
	}
	for c := range m.preds {
		out = append(out, fmt.Sprintf("p%s", c))
	}
	for c := range m.any {
		out = append(out, "a"+c)
	}
	for c := range m.iters {
		out = append(out, "i"+c)
	}
	out = append(out, fmt.Sprint(m.events, m.allocs))
	sort.Strings(out)
	return strings.Join(out, ";")
}

func snapFresh() map[string]int {
	freshMu.Lock()
	defer freshMu.Unlock()
	m := make(map[string]int, len(freshCnt))
	for k, v := range freshCnt {
		m[k] = v
	}
	return m
}

func restoreFresh(m map[string]int) {
	freshMu.Lock()
	defer freshMu.Unlock()
	n := make(map[string]int, len(m))
	for k, v := range m {
		n[k] = v
	}
	freshCnt = n
}

func variantSince(snap map[string]int) func(*Term) bool {
	memo := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if v, ok := memo[t.ID]; ok {
			return v
		}
		r := false
		if t.Op == "const" {
			if i := strings.LastIndexByte(t.Sym, '!'); i > 0 {
				var n int
				if _, err := fmt.Sscanf(t.Sym[i+1:], "%d", &n); err == nil && n > snap[t.Sym[:i]] {
					r = true
				}
			}
		}
		for _, a := range t.Args {
			if r {
				break
			}
			r = rec(a)
		}
		memo[t.ID] = r
		return r
	}
	return rec
}

func (ex *Exec) execLoop(st *State, fr *Frame, lp *loopInfo, prev *ssa.BasicBlock) []Outcome {
	head := lp.head
	var phis []*ssa.Phi
	for _, in := range head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	edge := func(o *State, f *Frame, from *ssa.BasicBlock) phiEnv {
		pe := phiEnv{}
		for i, p := range head.Preds {
			if p == from {
				for _, ph := range phis {
					pe[ph] = ex.val(o, f, ph.Edges[i])
				}
				break
			}
		}
		return pe
	}
	entryPhi := edge(st, fr, prev)
	snap := snapFresh()
	outer := fr.region
	nobls := len(ex.obls)
	_ = nobls

	// one abstract iteration from a havocked header
	mkHeader := func(m *loopMods) (*State, *Frame, phiEnv) {
		restoreFresh(snap)
		s := st.clone()
		f := fr.clone()
		f.region = lp
		f.inv[head] = true
		if m.allocs {
			s.havocAlloc()
		}
		ph := phiEnv{}
		for _, p := range phis {
			v := Fresh("phi", sortOf(p.Type()))
			s.assume(valWF(v, p.Type(), s.alloc))
			ph[p] = v
			f.env[p] = v
		}
		comps := map[string]bool{}
		for c := range m.targets {
			comps[c] = true
		}
		for c := range m.fresh {
			comps[c] = true
		}
		for c := range m.variant {
			comps[c] = true
		}
		for c := range m.preds {
			comps[c] = true
		}
		for c := range m.any {
			comps[c] = true
		}
		for _, c := range orderComps(keysOf(comps)) {
			if c == "OBS" || c == "OBSN" {
				continue
			}
			if c == "CLK" {
				s.advanceClock()
				continue
			}
			switch {
			case len(m.variant[c]) > 0 || len(m.preds[c]) > 0 || m.any[c]:
				s.havocComp(c, nil)
				s.logWrite(c, nil)
			case m.fresh[c]:
				pre := st.alloc
				s.havocComp(c, func(r *Term) *Term { return Lt(Rid(r), pre) })
				s.logWrite(c, freshMark)
				for _, t := range sortedTerms(m.targets[c]) {
					s.havocAt(c, t)
					s.logWrite(c, t)
				}
			default:
				for _, t := range sortedTerms(m.targets[c]) {
					s.havocAt(c, t)
					s.logWrite(c, t)
				}
			}
		}
		s.flushPairs()
		if m.events {
			ex.havocEvents(s)
		}
		for _, id := range keysOf(m.iters) {
			it := *st.iters[id]
			if it.isStr {
				it.pos = Fresh("pos", "Int")
				it.cnt = Fresh("cnt", "Int")
				s.assume(And(Le(Num(0), it.pos), Le(it.pos, Slen(it.m)), Le(Num(0), it.cnt), Le(it.cnt, it.pos)))
				s.assume(Eq(App("runepos", "Int", it.m, it.cnt), it.pos))
			} else {
				it.visited = Fresh("visited", it.visited.Sort)
				it.pos = Fresh("pos", "Int")
				s.assume(Le(Num(0), it.pos))
			}
			s.iters[id] = &it
		}
		return s, f, ph
	}
	iterate := func(s *State, f *Frame) []Outcome {
		outs, next := ex.runInstrs(s, f, head, firstNonPhi(head))
		if next != nil {
			outs = ex.runBlock(s, f, next, head)
		}
		return outs
	}

	// 1. discover what the body modifies
	mods := newMods()
	var phiAtoms []boundAtom
	for round := 0; ; round++ {
		if round > 8 {
			unsupported("loop modification analysis does not converge in %s", fr.fn)
		}
		s, f, ph := mkHeader(mods)
		s.writes = nil
		base := s.alloc
		pcMark := s.pc
		ex.quiet++
		ex.discover++
		outs := iterate(s, f)
		ex.discover--
		ex.quiet--
		variant := variantSince(snap)
		next := newMods()
		*next = *mods
		next = mods.copy()
		for _, o := range outs {
			if o.kind != oBack {
				continue
			}
			for w := o.st.writes; w != nil; w = w.prev {
				if w.comp == "OBS" || w.comp == "OBSN" {
					next.events = true
					continue
				}
				if w.pred != nil {
					next.preds[w.comp] = append(next.preds[w.comp], w)
					continue
				}
				if w.target == freshMark {
					next.fresh[w.comp] = true
					continue
				}
				if w.target == nil {
					next.any[w.comp] = true
					continue
				}
				if freshSince(w.target, base) {
					next.fresh[w.comp] = true
					continue
				}
				if variant(w.target) {
					if next.variant[w.comp] == nil {
						next.variant[w.comp] = map[*Term]bool{}
					}
					if len(next.variant[w.comp]) < 8 {
						next.variant[w.comp][w.target] = true
					}
					continue
				}
				if next.targets[w.comp] == nil {
					next.targets[w.comp] = map[*Term]bool{}
				}
				next.targets[w.comp][w.target] = true
			}
			if o.st.alloc != base {
				next.allocs = true
			}
			for id, it := range o.st.iters {
				if old := s0iter(st, id); old != nil && it != old {
					if it.visited != old.visited || it.pos != old.pos {
						next.iters[id] = true
					}
				}
			}
			// bounds from the path condition
			for n := o.st.pc; n != nil && n != pcMark; n = n.prev {
				phiAtoms = append(phiAtoms, boundAtoms(n.t, ph, variant)...)
			}
		}
		if next.sig() == mods.sig() {
			mods = next
			break
		}
		mods = next
	}
	variant := variantSince(snap)

	// 2. candidates
	var cands []*candidate
	if ex.discover == 0 {
		cands = ex.loopCandidates(st, fr, lp, phis, entryPhi, mods, phiAtoms, variant)
	}
	total := len(cands)
	// 2a. hold on entry
	cands = ex.filterCands(st, entryPhi, cands)
	// 3. Houdini
	for round := 0; len(cands) > 0; round++ {
		if round > 12 {
			unsupported("loop invariants do not stabilise in %s", fr.fn)
		}
		s, f, ph := mkHeader(mods)
		for _, c := range cands {
			s.assume(c.eval(s, ph))
		}
		ex.quiet++
		outs := iterate(s, f)
		ex.quiet--
		keep := map[int]bool{}
		for i := range cands {
			keep[i] = true
		}
		type job struct {
			i    int
			st   *State
			goal *Term
		}
		var jobs []job
		for _, o := range outs {
			if o.kind != oBack {
				continue
			}
			pe := edge(o.st, o.fr, o.from)
			var all []*Term
			var js []job
			for i, c := range cands {
				g := c.eval(o.st, pe)
				if g == True {
					continue
				}
				all = append(all, g)
				js = append(js, job{i, o.st, g})
			}
			if len(all) == 0 {
				continue
			}
			jobs = append(jobs, js...)
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		for _, j := range jobs {
			wg.Add(1)
			go func(j job) {
				defer wg.Done()
				mu.Lock()
				dead := !keep[j.i]
				mu.Unlock()
				if dead {
					return
				}
				tmo := 1200 * time.Millisecond
				full := false
				if cands[j.i].spec {
					tmo, full = ex.specEffort()
					if cands[j.i].multi {
						tmo, full = 1500*time.Millisecond, false
					}
				}
				t0 := time.Now()
				r := prove(j.st.assms(), j.goal, tmo, full)
				if debugOn && time.Since(t0) > 4*time.Second {
					debugf("  slow candidate %s (%s %.1fs)", cands[j.i].label, r.Status, time.Since(t0).Seconds())
				}
				if r.Status != "unsat" {
					if debugOn && keep[j.i] {
						debugf("  drop %s (%s) in %s", cands[j.i].label, r.Status, fr.fn)
						if cands[j.i].spec || strings.Contains(cands[j.i].label, "own") {
							dumpGoal(j.st.assms(), j.goal, "drop-"+cands[j.i].label)
						}
					}
					mu.Lock()
					keep[j.i] = false
					mu.Unlock()
				}
			}(j)
		}
		wg.Wait()
		var nc []*candidate
		for i, c := range cands {
			if keep[i] && !c.bad {
				nc = append(nc, c)
			}
		}
		done := len(nc) == len(cands)
		cands = nc
		if done {
			break
		}
	}
	// 4. the recorded iteration
	s, f, ph := mkHeader(mods)
	var kept []string
	for _, c := range cands {
		s.assume(c.eval(s, ph))
		kept = append(kept, c.label)
	}
	if ex.quiet == 0 {
		ex.loops = append(ex.loops, &LoopReport{Func: ex.prog.fnKey(fr.fn), Pos: ex.posOf(loopPos(lp)), Candidates: total, Kept: kept})
	}
	hdr := s.clone()
	outs := iterate(s, f)
	var all []Outcome
	iters := ex.iterClauses(fr)
	iterMetas := func(t types.Type) []metaInst {
		ms := ex.metaValues(hdr, fr, phis, ph, t)
		for i := range ms { // the value at the start of the iteration
			v := ms[i].get(hdr, ph)
			ms[i].get = func(*State, phiEnv) *Term { return v }
		}
		return ms
	}
	for _, o := range outs {
		switch o.kind {
		case oBack:
			pe := edge(o.st, o.fr, o.from)
			if ex.quiet == 0 {
				for _, c := range cands {
					if c.spec {
						ex.oblige(o.st.clone(), "loop-invariant", c.label, c.eval(o.st, pe), loopPos(lp))
					}
				}
				for _, c := range cands {
					if !c.spec {
						ex.oblige(o.st.clone(), "loop-invariant", "inferred:"+c.label, c.eval(o.st, pe), loopPos(lp))
					}
				}
				ex.checkIter(iters, o.st, hdr, false, lp, iterMetas)
			}
		case oExit:
			if ex.quiet == 0 {
				ex.checkIter(iters, o.st, hdr, true, lp, iterMetas)
			}
			o.fr.region = outer
			delete(o.fr.inv, head)
			all = append(all, ex.runBlock(o.st, o.fr, o.back, o.from)...)
		default:
			all = append(all, o)
		}
	}
	return all
}

// canonBV stands for the bound variable of a havoc predicate when predicates are compared.
var canonBV = BVar("canon", "Ref")

func dumpGoal(assms []*Term, goal *Term, tag string) {
	ts := append(append([]*Term{}, assms...), Not(goal))
	dumpQuery(smtText(ts, needsNative(ts), false), strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, tag))
}

func loopPos(lp *loopInfo) (p tokenPos) {
	for _, in := range lp.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range lp.body {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() && (!p.IsValid() || in.Pos() < p) {
				p = in.Pos()
			}
		}
	}
	return p
}

func (m *loopMods) copy() *loopMods {
	n := newMods()
	for c, ts := range m.targets {
		n.targets[c] = map[*Term]bool{}
		for t := range ts {
			n.targets[c][t] = true
		}
	}
	for c, ts := range m.variant {
		n.variant[c] = map[*Term]bool{}
		for t := range ts {
			n.variant[c][t] = true
		}
	}
	for c := range m.fresh {
		n.fresh[c] = true
	}
	for c := range m.preds {
		n.preds[c] = append([]*wrec{}, m.preds[c]...)
	}
	for c := range m.any {
		n.any[c] = true
	}
	for c := range m.iters {
		n.iters[c] = true
	}
	n.events, n.allocs = m.events, m.allocs
	return n
}

func s0iter(st *State, id string) *iterInfo { return st.iters[id] }

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// iterClauses: per-iteration postconditions of the outermost loops of the function under contract (iter), or of
// the loops inside them and in inlined callees (inneriter).
func (ex *Exec) iterClauses(fr *Frame) []Clause {
	if ex.con == nil {
		return nil
	}
	cs := ex.con.Iters
	if fr.region != nil || fr.fn != ex.root {
		cs = ex.con.Inners
	}
	var out []Clause
	for _, q := range cs {
		if iterApplies(q) {
			out = append(out, q)
		}
	}
	return out
}

// iterApplies: nobody relies on these clauses, so those of other properties need not be proved.
func iterApplies(q Clause) bool {
	return checkedProp == "" || len(q.Props) == 0 || hasStr(q.Props, checkedProp)
}

func (ex *Exec) checkIter(cs []Clause, st, hdr *State, exiting bool, lp *loopInfo, metasOf func(types.Type) []metaInst) {
	if len(cs) == 0 || ex.loopEnv == nil {
		return
	}
	for _, q := range cs {
		insts := []map[string]metaInst{{}}
		for _, w := range q.With {
			var next []map[string]metaInst
			for _, mi := range metasOf(ex.prog.resolveType(w.typ)) {
				for _, b := range insts {
					n := map[string]metaInst{w.name: mi}
					for k, v := range b {
						n[k] = v
					}
					next = append(next, n)
				}
			}
			insts = next
		}
		if len(insts) == 0 {
			unsupported("no value for the iteration clause " + labelOf(q))
		}
		for _, in := range insts {
			env := ex.loopEnv(st)
			env.old = hdr
			env.vars["exiting"] = sv(Bool(exiting), tBool)
			for k, v := range in {
				env.vars[k] = sv(v.get(nil, nil), v.ty)
			}
			for _, part := range splitGoal(env.evalBool(q.Body)) {
				ex.oblige(st.clone(), "iteration", labelOf(q), part, loopPos(lp))
			}
		}
	}
}

func (ex *Exec) filterCands(st *State, ph phiEnv, cands []*candidate) []*candidate {
	keep := make([]bool, len(cands))
	var wg sync.WaitGroup
	var rest []int
	var goals []*Term
	for i, c := range cands {
		g := c.eval(st, ph)
		if g == True {
			keep[i] = true
			continue
		}
		if g == False {
			continue
		}
		rest = append(rest, i)
		goals = append(goals, g)
	}
	for k, i := range rest {
		wg.Add(1)
		go func(i int, g *Term) {
			defer wg.Done()
			tmo, full := 1200*time.Millisecond, false
			if cands[i].spec {
				tmo, full = ex.specEffort()
				if cands[i].multi {
					tmo, full = 1500*time.Millisecond, false
				}
			}
			r := prove(st.assms(), g, tmo, full)
			keep[i] = r.Status == "unsat"
			if !keep[i] {
				debugf("  entry-drop %s (%s)", cands[i].label, r.Status)
				if cands[i].spec {
					dumpGoal(st.assms(), g, "entry-"+cands[i].label)
				}
			}
		}(i, goals[k])
	}
	wg.Wait()
	var out []*candidate
	for i, c := range cands {
		if keep[i] && !c.bad {
			out = append(out, c)
		}
	}
	return out
}

// ---- bounds

type boundAtom struct {
	phi   *ssa.Phi
	upper bool // phi <= e  / phi >= e
	e     *Term
}

func boundAtoms(t *Term, ph phiEnv, variant func(*Term) bool) []boundAtom {
	var out []boundAtom
	switch t.Op {
	case "and", "or":
		for _, a := range t.Args {
			out = append(out, boundAtoms(a, ph, variant)...)
		}
		return out
	case "=>":
		return boundAtoms(t.Args[1], ph, variant)
	}
	neg := false
	if t.Op == "not" {
		neg = true
		t = t.Args[0]
	}
	if t.Op != "<=" && !(t.Op == "=" && t.Args[0].Sort == "Int") {
		return nil
	}
	l, r := t.Args[0], t.Args[1]
	for p, c := range ph {
		if c.Sort != "Int" {
			continue
		}
		d := toLin(r)
		d.add(l, bigM1)
		k, ok := d.m[c.ID]
		if !ok || !k.IsInt64() || (k.Int64() != 1 && k.Int64() != -1) {
			continue
		}
		up := k.Int64() == -1
		delete(d.m, c.ID)
		delete(d.t, c.ID)
		rest := d.term()
		if variant(rest) {
			continue
		}
		if t.Op == "=" {
			e := rest
			if !up {
				e = Neg(rest)
			}
			out = append(out, boundAtom{p, true, e}, boundAtom{p, false, e})
			continue
		}
		// r - l >= 0 : up => phi <= rest ; else phi >= -rest
		if neg {
			up = !up
		}
		e := rest
		if (up && neg) || (!up && !neg) {
			e = Neg(rest)
		}
		out = append(out, boundAtom{p, up, e})
	}
	return out
}

// ---- candidates

func (ex *Exec) loopCandidates(st *State, fr *Frame, lp *loopInfo, phis []*ssa.Phi, entryPhi phiEnv, mods *loopMods, atoms []boundAtom, variant func(*Term) bool) []*candidate {
	var out []*candidate
	add := func(label string, spec bool, f func(*State, phiEnv) *Term) {
		c := &candidate{label: label, spec: spec}
		out = append(out, c)
		c.eval = func(s *State, ph phiEnv) (r *Term) {
			defer func() {
				if e := recover(); e != nil {
					if se, ok := e.(specErr); ok {
						if !c.bad {
							debugf("  candidate %s: %s", label, se.msg)
						}
						c.bad = true // dropped; True claims nothing
						r = True
						return
					}
					panic(e)
				}
			}()
			return f(s, ph)
		}
	}
	// contract invariants of the function being verified and of the loop's own function
	type src struct {
		c   *Contract
		env func(*State) *Env
	}
	var srcs []src
	if ex.con != nil && ex.loopEnv != nil {
		srcs = append(srcs, src{ex.con, ex.loopEnv})
	}
	if c := ex.prog.contracts[ex.prog.fnKey(fr.fn)]; c != nil && c != ex.con && fr.entry != nil && len(c.Params) == len(fr.fn.Params) {
		srcs = append(srcs, src{c, func(s *State) *Env {
			var args []*Term
			for _, p := range fr.fn.Params {
				args = append(args, fr.env[p])
			}
			return ex.conEnv(c, fr.fn, args, nil, s, fr.entry)
		}})
	}
	for _, sc := range srcs {
		sc := sc
		for _, q := range sc.c.Invs {
			q := q
			ms := metas(q.Body)
			withT := map[string]string{}
			for _, w := range q.With {
				withT[w.name] = w.typ
			}
			insts := []map[string]metaInst{{}}
			for _, m := range ms {
				var next []map[string]metaInst
				var opts []metaInst
				if ty, ok := withT[m]; ok {
					opts = ex.metaValues(st, fr, phis, entryPhi, ex.prog.resolveType(ty))
				} else {
					for _, p := range phis {
						opts = append(opts, metaFor(m, p)...)
					}
				}
				for _, mi := range opts {
					for _, base := range insts {
						n := map[string]metaInst{}
						for k, v := range base {
							n[k] = v
						}
						n[m] = mi
						next = append(next, n)
					}
				}
				insts = next
				if len(insts) > 64 {
					insts = insts[:64]
				}
			}
			for _, in := range insts {
				in := in
				lab := q.Label
				if lab == "" {
					lab = q.Src
					if len(lab) > 60 {
						lab = lab[:60]
					}
				}
				for _, k := range ms {
					lab += fmt.Sprintf("{%s=%s}", k, in[k].label)
				}
				add(lab, true, func(s *State, ph phiEnv) *Term {
					env := sc.env(s)
					for k, v := range in {
						env.vars[k] = sv(v.get(s, ph), v.ty)
					}
					return env.evalBool(q.Body)
				})
				out[len(out)-1].multi = len(insts) > 1
			}
		}
		for _, q := range sc.c.Requires {
			q := q
			if sc.c.NoReqInv || !heapDependent(q.Body) {
				continue
			}
			add("requires:"+q.Label, true, func(s *State, ph phiEnv) *Term { return sc.env(s).evalBool(q.Body) })
			out[len(out)-1].multi = true
		}
	}
	// index bounds
	seen := map[string]bool{}
	for _, p := range phis {
		p := p
		e0 := entryPhi[p]
		switch sortOf(p.Type()) {
		case "Int":
			add("lower", false, func(s *State, ph phiEnv) *Term { return Ge(ph[p], e0) })
			add("upper0", false, func(s *State, ph phiEnv) *Term { return Le(ph[p], e0) })
		case "Slice":
			add("slice-fresh", false, func(s *State, ph phiEnv) *Term {
				b := Sel("sbase", ph[p])
				return Or(Eq(b, Nil), Le(Alloc0, Rid(b)))
			})
			add("slice-own", false, func(s *State, ph phiEnv) *Term {
				b := Sel("sbase", ph[p])
				return Or(Eq(b, Sel("sbase", e0)), Le(st.alloc, Rid(b)))
			})
			add("slice-base", false, func(s *State, ph phiEnv) *Term { return Eq(Sel("sbase", ph[p]), Sel("sbase", e0)) })
			add("slice-off", false, func(s *State, ph phiEnv) *Term { return Eq(Sel("soff", ph[p]), Sel("soff", e0)) })
			add("slice-cap", false, func(s *State, ph phiEnv) *Term { return Eq(Sel("scap", ph[p]), Sel("scap", e0)) })
			add("slice-isobj", false, func(s *State, ph phiEnv) *Term {
				b := Sel("sbase", ph[p])
				return Or(Eq(b, Nil), Is("obj", b))
			})
			for _, q := range phis {
				q := q
				if sortOf(q.Type()) == "Int" {
					d := Sub(Sel("slen_", e0), entryPhi[q])
					add("len-index", false, func(s *State, ph phiEnv) *Term { return Eq(Sub(Sel("slen_", ph[p]), ph[q]), d) })
				}
			}
		default:
			add("const", false, func(s *State, ph phiEnv) *Term { return Eq(ph[p], e0) })
		}
	}
	for _, a := range atoms {
		a := a
		for off := int64(0); off <= 1; off++ {
			off := off
			k := fmt.Sprint(a.phi.Name(), a.upper, a.e.ID, off)
			if seen[k] || len(seen) > 60 {
				continue
			}
			seen[k] = true
			if a.upper {
				add("bound", false, func(s *State, ph phiEnv) *Term { return Le(ph[a.phi], Add(a.e, Num(off))) })
			} else {
				add("bound", false, func(s *State, ph phiEnv) *Term { return Ge(ph[a.phi], Sub(a.e, Num(off))) })
			}
		}
	}
	// iterated keys
	for _, id := range keysOf(mods.iters) {
		id := id
		it := st.iters[id]
		if it.isStr {
			continue
		}
		ks := sortOf(it.mt.Key())
		add("visited-in-domain", false, func(s *State, ph phiEnv) *Term {
			i := s.iters[id]
			k := BVar("k", ks)
			v := mk("select", "Bool", "", i.visited, k)
			if i.visited.Op != "const" {
				return Forall([]*Term{k}, Implies(Select(i.visited, k), Select(s.mapDom(it.mt, it.m), k)))
			}
			return Forall([]*Term{k}, Implies(v, Select(s.mapDom(it.mt, it.m), k)), []*Term{v})
		})
		add("domain-fixed", false, func(s *State, ph phiEnv) *Term {
			return Eq(s.mapDom(it.mt, it.m), it.dom0)
		})
	}
	// frames of fully havocked components
	frames := map[string]bool{}
	for c := range mods.variant {
		frames[c] = true
	}
	for c := range mods.preds {
		frames[c] = true
	}
	for c := range mods.any {
		frames[c] = true
	}
	// components of one type written at the same places share their frames
	groups := map[string][]string{}
	for _, c := range keysOf(frames) {
		if c == "OBS" || c == "OBSN" || c == "CLK" {
			continue
		}
		k := c
		if strings.HasPrefix(c, "F|") {
			k = c[:strings.LastIndexByte(c, '|')]
		} else if strings.HasPrefix(c, "MD|") || strings.HasPrefix(c, "MV|") {
			k = "M" + c[2:]
		}
		for _, t := range sortedTerms(mods.targets[c]) {
			k += fmt.Sprint(";t", t.ID)
		}
		for _, t := range sortedTerms(mods.variant[c]) {
			k += fmt.Sprint(";v", t.ID)
		}
		seenP := map[*Term]bool{}
		for _, w := range mods.preds[c] {
			if p := Subst(w.pred, map[*Term]*Term{w.bv: canonBV}); !seenP[p] {
				seenP[p] = true
				k += fmt.Sprint(";p", p.ID)
			}
		}
		k += fmt.Sprint(mods.any[c])
		groups[k] = append(groups[k], c)
	}
	var gks []string
	for k := range groups {
		gks = append(gks, k)
	}
	sort.Strings(gks)
	if ex.con != nil && ex.con.NoFrame && fr.fn == ex.root {
		gks = nil // nothing is said about the effects of this function: its loop keeps only what its invariants say
	}
	for _, gk := range gks {
		cs := groups[gk]
		c := cs[0]
		tg := sortedTerms(mods.targets[c])
		notTargets := func(r *Term) *Term {
			var ns []*Term
			for _, t := range tg {
				ns = append(ns, Ne(r, t))
			}
			return And(ns...)
		}
		mkFrame := func(label string, keep func(s *State, r *Term) *Term) {
			name := compName(c)
			if len(cs) > 1 {
				name += fmt.Sprintf("+%d", len(cs)-1)
			}
			add("frame:"+label+":"+name, false, func(s *State, ph phiEnv) *Term {
				var out []*Term
				for _, c := range cs {
					cur, pre := s.get(c), st.get(c)
					if cur == pre {
						continue
					}
					r := BVar("r", "Ref")
					v := Select(cur, r)
					k := And(notTargets(r), keep(s, r))
					var pats [][]*Term
					if cur.Op == "const" {
						pats = append(pats, []*Term{v})
					}
					out = append(out, Forall([]*Term{r}, Implies(k, Eq(v, Select(pre, r))), pats...))
				}
				return And(out...)
			})
		}
		preAlloc := st.alloc
		mkFrame("pre", func(s *State, r *Term) *Term { return Lt(Rid(r), preAlloc) })
		// everything but the slices that the loop appends to
		var bases []*Term
		for _, p := range phis {
			if sl, ok := p.Type().Underlying().(*types.Slice); ok && elemComp(sl.Elem()) == c {
				bases = append(bases, Sel("sbase", entryPhi[p]))
			}
		}
		if len(bases) > 0 {
			mkFrame("slices", func(s *State, r *Term) *Term {
				k := []*Term{Lt(Rid(r), preAlloc)}
				for _, b := range bases {
					k = append(k, Ne(r, b))
				}
				return And(k...)
			})
		}
		if preAlloc != Alloc0 {
			mkFrame("entry", func(s *State, r *Term) *Term { return Lt(Rid(r), Alloc0) })
		}
		// ownership frames
		modes := []string{"", "obj", "strict"}
		for _, id := range keysOf(mods.iters) {
			if !st.iters[id].isStr {
				modes = append(modes, "strict"+id)
			}
		}
		seenM := map[*Term]bool{}
		for _, vis := range modes {
			vis := vis
			ok := true
			build := func(s *State, r *Term) *Term {
				var al []*Term
				for _, t := range sortedTerms(mods.variant[c]) {
					p, good := ex.invPred(st, s, t, r, variant, vis)
					if !good {
						ok = false
					}
					al = append(al, p)
				}
				seenP := map[*Term]bool{}
				for _, w := range mods.preds[c] {
					if q := Subst(w.pred, map[*Term]*Term{w.bv: canonBV}); seenP[q] {
						continue
					} else {
						seenP[q] = true
					}
					p, good := ex.invFormula(st, s, Subst(w.pred, map[*Term]*Term{w.bv: r}), r, variant, vis)
					if !good {
						ok = false
					}
					al = append(al, p)
				}
				if mods.any[c] {
					ok = false
				}
				return And(Lt(Rid(r), preAlloc), Not(Or(al...)))
			}
			probe := build(st, BVar("probe", "Ref"))
			if !ok || seenM[probe] {
				continue
			}
			seenM[probe] = true
			lab := "own"
			if vis != "" {
				lab = "own-strict"
				if vis == "obj" {
					lab = "own-obj"
				} else if len(vis) > 6 {
					lab = "own-visited"
				}
			}
			mkFrame(lab, build)
		}
	}
	return out
}

// invPred over-approximates "r is what t denotes in some iteration" using the ownership ghosts.
func (ex *Exec) invPred(pre, cur *State, t, r *Term, variant func(*Term) bool, vis string) (*Term, bool) {
	if !variant(t) {
		return Eq(r, t), true
	}
	switch {
	case t.Op == "ctor" && t.Sym == "sub":
		p, ok := ex.invPred(pre, cur, t.Args[0], Sel("spar", r), variant, vis)
		return And(Is("sub", r), Eq(Sel("sfid", r), t.Args[1]), p), ok
	case t.Op == "ite":
		a, ok1 := ex.invPred(pre, cur, t.Args[1], r, variant, vis)
		b, ok2 := ex.invPred(pre, cur, t.Args[2], r, variant, vis)
		return Or(a, b), ok1 && ok2
	case t.Op == "ctor" && t.Sym == "obj":
		return Le(pre.alloc, Rid(r)), freshSince(t, pre.alloc)
	case t.Op == "select":
		a := t.Args[0]
		if comp, mref, ok := readOf(a); ok && strings.HasPrefix(comp, "MV|") { // map value
			vt := compType[comp]
			if _, ok := vt.Underlying().(*types.Pointer); !ok {
				return True, false
			}
			ks, _ := arrElem(a.Sort)
			om := Select(pre.get(ownMapComp(vt)), r)
			okk := Select(pre.get(ownKeyComp(vt, ks)), r)
			pm, ok := ex.invPred(pre, cur, mref, om, variant, vis)
			if !ok {
				return True, false
			}
			kc := True
			if vis == "obj" {
				kc = Is("obj", r)
				vis = ""
			} else if strings.HasPrefix(vis, "strict") {
				vis = strings.TrimPrefix(vis, "strict")
				// r sits in that map under its own key
				kc = Eq(Select(Select(pre.get(comp), om), okk), r)
			}
			kc0 := kc
			if !variant(t.Args[1]) {
				kc = Eq(okk, t.Args[1])
			} else if vis != "" && cur.iters[vis] != nil {
				v := cur.iters[vis].visited
				if k, _ := arrElem(v.Sort); k == ks {
					kc = Select(v, okk)
				}
			}
			return And(pm, kc0, kc), true
		}
		comp := compOfArr(a)
		if strings.HasPrefix(comp, "F|") {
			if ft := compType[comp]; ft != nil {
				if _, ok := ft.Underlying().(*types.Map); ok {
					return ex.invPred(pre, cur, t.Args[1], Select(pre.get(ownFieldComp()), r), variant, vis)
				}
			}
		}
	}
	return True, false
}

func (ex *Exec) invFormula(pre, cur *State, f, r *Term, variant func(*Term) bool, vis string) (*Term, bool) {
	if !variant(f) {
		return f, true
	}
	switch f.Op {
	case "and", "or":
		ok := true
		var as []*Term
		for _, a := range f.Args {
			x, g := ex.invFormula(pre, cur, a, r, variant, vis)
			if !g {
				if f.Op == "and" {
					continue // dropping a conjunct over-approximates
				}
				ok = false
			}
			as = append(as, x)
		}
		if f.Op == "and" {
			if len(as) == 0 {
				return True, false
			}
			return And(as...), true
		}
		return Or(as...), ok
	case "=":
		hasR := func(t *Term) bool { return contains(t, func(x *Term) bool { return x == r }) }
		for i := 0; i < 2; i++ {
			x, v := f.Args[i], f.Args[1-i]
			if hasR(x) && !hasR(v) && v.Sort == "Ref" {
				// x may mention havocked ghosts; use the pre-loop ones
				x2 := preGhosts(pre, x)
				if variant(x2) {
					return True, false
				}
				return ex.invPred(pre, cur, v, x2, variant, vis)
			}
		}
	case "is":
		return f, true
	}
	return True, false
}

// preGhosts replaces ownership ghost components in t by their pre-loop versions.
func preGhosts(pre *State, t *Term) *Term {
	m := map[*Term]*Term{}
	contains(t, func(x *Term) bool {
		if x.Op == "const" {
			c := compOfArr(x)
			if strings.HasPrefix(c, "OM|") || strings.HasPrefix(c, "OK|") || c == "OF" {
				m[x] = pre.get(c)
			}
		}
		return false
	})
	if len(m) == 0 {
		return t
	}
	return Subst(t, m)
}

// compOfArr names the heap component an array term is a version of.
func compOfArr(a *Term) string {
	for a.Op == "store" {
		a = a.Args[0]
	}
	if a.Op != "const" {
		return ""
	}
	n := a.Sym
	switch {
	case strings.HasPrefix(n, "H0|"):
		return n[3:]
	case strings.HasPrefix(n, "H|"):
		if i := strings.LastIndexByte(n, '!'); i > 0 {
			return n[2:i]
		}
	}
	return ""
}

// ---- meta variables

type metaInst struct {
	label string
	ty    types.Type
	get   func(s *State, ph phiEnv) *Term
}

func phiMeta(p *ssa.Phi, off int64) metaInst {
	l := p.Name()
	if off != 0 {
		l += fmt.Sprintf("%+d", off)
	}
	return metaInst{l, p.Type(), func(s *State, ph phiEnv) *Term {
		if off != 0 {
			return Add(ph[p], Num(off))
		}
		return ph[p]
	}}
}

// metaValues: the local values of type t in scope at the loop: header phis, values computed
// before the loop, and fields (and cells) of local pointers.
func (ex *Exec) metaValues(st *State, fr *Frame, phis []*ssa.Phi, entry phiEnv, t types.Type) []metaInst {
	var out []metaInst
	seen := map[*Term]bool{}
	add := func(label string, get func(s *State, ph phiEnv) *Term) {
		v := get(st, entry)
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		out = append(out, metaInst{label, t, get})
	}
	inPhis := map[ssa.Value]bool{}
	for _, p := range phis {
		p := p
		inPhis[p] = true
		if types.Identical(p.Type(), t) {
			add(p.Name(), func(s *State, ph phiEnv) *Term { return ph[p] })
		}
	}
	var vals []ssa.Value
	for v := range fr.env {
		if !inPhis[v] {
			vals = append(vals, v)
		}
	}
	sort.Slice(vals, func(i, j int) bool {
		a, b := vals[i].Name(), vals[j].Name()
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		return a < b
	})
	for _, v := range vals {
		if tm := fr.env[v]; tm != nil && types.Identical(v.Type(), t) {
			add(v.Name(), func(s *State, ph phiEnv) *Term { return tm })
		}
	}
	var fields func(label string, addr *Term, ty types.Type)
	fields = func(label string, addr *Term, ty types.Type) {
		u, ok := ty.Underlying().(*types.Struct)
		if !ok {
			if types.Identical(ty, t) {
				add("*"+label, func(s *State, ph phiEnv) *Term { return s.load(addr, t) })
			}
			return
		}
		if n, ok := types.Unalias(ty).(*types.Named); ok && (n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath)) {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			f := fieldOf(ty, i)
			a := subRef(addr, f)
			l := label + "." + u.Field(i).Name()
			if isStruct(f.typ) {
				if types.Identical(types.NewPointer(f.typ), t) {
					add("&"+l, func(s *State, ph phiEnv) *Term { return a })
				}
				fields(l, a, f.typ)
			} else if types.Identical(f.typ, t) {
				add(l, func(s *State, ph phiEnv) *Term { return s.load(a, t) })
			}
		}
	}
	for _, v := range vals {
		tm := fr.env[v]
		if tm == nil || tm.Sort != "Ref" {
			continue
		}
		if p, ok := v.Type().Underlying().(*types.Pointer); ok {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(Unsupported); !ok {
							panic(r)
						}
					}
				}()
				fields(v.Name(), tm, p.Elem())
			}()
		}
	}
	if len(out) > 16 {
		out = out[:16]
	}
	return out
}

func metas(x *Expr) []string {
	seen := map[string]bool{}
	var rec func(x *Expr)
	rec = func(x *Expr) {
		if x.op == "id" && strings.HasPrefix(x.name, "$") {
			seen[x.name] = true
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	rec(x)
	return keysOf(seen)
}

func metaFor(m string, p *ssa.Phi) []metaInst {
	s := sortOf(p.Type())
	k := strings.TrimRight(strings.TrimPrefix(m, "$"), "0123456789")
	switch k {
	case "i":
		if s == "Int" {
			return []metaInst{phiMeta(p, 0), phiMeta(p, 1)}
		}
	case "n":
		if s == "Int" {
			return []metaInst{phiMeta(p, 0)}
		}
	case "s":
		if s == "Slice" {
			return []metaInst{phiMeta(p, 0)}
		}
	case "str":
		if s == "Str" {
			return []metaInst{phiMeta(p, 0)}
		}
	case "b":
		if s == "Bool" {
			return []metaInst{phiMeta(p, 0)}
		}
	case "f":
		if s == "Flt" {
			return []metaInst{phiMeta(p, 0)}
		}
	case "r":
		if s == "Ref" {
			return []metaInst{phiMeta(p, 0)}
		}
	case "e":
		if s == "Iface" {
			return []metaInst{phiMeta(p, 0)}
		}
	}
	return nil
}

// heapDependent: could the clause's value change when memory changes?
func heapDependent(x *Expr) bool {
	switch x.op {
	case "field", "index", "call":
		return true
	}
	for _, a := range x.args {
		if heapDependent(a) {
			return true
		}
	}
	return false
}
