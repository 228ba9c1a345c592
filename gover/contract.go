package main

// Verification of one function against its contract, and use of contracts at call sites.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnResult struct {
	Key      string
	OK       bool
	Err      string // unsupported construct or unbindable contract
	Obls     []*Obligation
	Failed   []*Obligation
	Inlined  []string
	Used     []string
	Ext      []string
	Assumed  []string
	Paths    int
	Vacuous  bool
	Secs     float64
	Loops    []*LoopReport
	mods     map[string]*modSum
	allocs   bool
	events   bool
	NoCon    []string
	Contract *Contract
}

type modSum struct {
	fresh bool // writes to objects the function allocated
	other bool // writes to pre-existing objects
}

var (
	fnResults  = map[string]*FnResult{}
	inProgress = map[string]bool{}
)

// ---- environment of a contract

func (ex *Exec) conEnv(c *Contract, fn *ssa.Function, args, free []*Term, st, old *State) *Env {
	env := &Env{ex: ex, st: st, old: old, vars: map[string]SVal{}}
	if fn != nil {
		if len(c.Params) != len(fn.Params) {
			serr("contract %s: %d parameters, function has %d", c.Key, len(c.Params), len(fn.Params))
		}
		for i, p := range c.Params {
			env.vars[p] = sv(args[i], fn.Params[i].Type())
		}
		for i, p := range fn.FreeVars {
			if i < len(free) {
				env.vars[p.Name()] = sv(free[i], p.Type())
			}
		}
	}
	return env
}

func (env *Env) bindResults(c *Contract, sig *types.Signature, vals []*Term) {
	rs := sig.Results()
	for i := 0; i < rs.Len() && i < len(vals); i++ {
		v := sv(vals[i], rs.At(i).Type())
		env.vars[fmt.Sprintf("result%d", i)] = v
		if rs.Len() == 1 {
			env.vars["result"] = v
		}
		if i < len(c.Results) {
			env.vars[c.Results[i]] = v
		}
	}
}

// ---- assigns clauses

type assignLoc struct {
	comp string
	ref  *Term // single location
	bv   *Term // or all bv with pred
	pred *Term
}

func (env *Env) assignLocs(items []AssignItem) (locs []assignLoc, events bool) {
	var leaf func(p *Term, t types.Type)
	leaf = func(p *Term, t types.Type) {
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			serr("assigns: not a struct")
		}
		for i := 0; i < u.NumFields(); i++ {
			f := fieldOf(t, i)
			if isStruct(f.typ) {
				leaf(subRef(p, f), f.typ)
			} else {
				locs = append(locs, assignLoc{comp: fieldComp(f), ref: p})
			}
		}
	}
	addField := func(v SVal) {
		// v.addr = sub(p, f)
		if v.addr == nil || v.addr.Op != "ctor" || v.addr.Sym != "sub" {
			serr("assigns: not a field")
		}
		if isStruct(v.ty) {
			leaf(v.addr, v.ty)
			return
		}
		f := fieldByID[v.addr.Args[1].Int.Int64()]
		locs = append(locs, assignLoc{comp: fieldComp(f), ref: v.addr.Args[0]})
	}
	for _, a := range items {
		switch a.kind {
		case "events":
			events = true
		case "nothing":
		case "field":
			addField(env.eval(a.e))
		case "fields":
			v := env.eval(a.e)
			if p, ok := v.ty.Underlying().(*types.Pointer); ok {
				leaf(env.val(v), p.Elem())
			} else {
				leaf(v.addr, v.ty)
			}
		case "map":
			v := env.eval(a.e)
			k, mt := mapKey(v.ty)
			m := env.val(v)
			locs = append(locs, assignLoc{comp: "MD|" + k, ref: m}, assignLoc{comp: "MV|" + k, ref: m})
			_ = mt
		case "elems":
			v := env.eval(a.e)
			s := env.val(v)
			if isByteSlice(v.ty) {
				locs = append(locs, assignLoc{comp: bytesComp(), ref: Sel("sbase", s)})
			} else {
				locs = append(locs, assignLoc{comp: elemComp(v.ty.Underlying().(*types.Slice).Elem()), ref: Sel("sbase", s)})
			}
		case "content":
			v := env.eval(a.e)
			p := env.val(v)
			if p.Op == "ctor" && p.Sym == "sub" && p.Args[1].isInt() {
				f := fieldByID[p.Args[1].Int.Int64()]
				locs = append(locs, assignLoc{comp: fieldComp(f), ref: p.Args[0]})
			} else {
				locs = append(locs, assignLoc{comp: cellComp(derefT(v.ty)), ref: p})
			}
		case "all":
			t := env.ex.prog.resolveType(a.typ)
			if _, ok := leafSort(t); ok {
				bv := BVar(a.v, "Ref")
				locs = append(locs, assignLoc{comp: cellComp(t), bv: bv, pred: env.bind(a.v, sv(bv, types.NewPointer(t))).evalBool(a.e)})
				continue
			}
			u := t.Underlying().(*types.Struct)
			var rec func(t types.Type, u *types.Struct, wrap func(*Term) (*Term, *Term))
			bv := BVar(a.v, "Ref")
			pred := env.bind(a.v, sv(bv, types.NewPointer(t))).evalBool(a.e)
			rec = func(t types.Type, u *types.Struct, wrap func(*Term) (*Term, *Term)) {
				for i := 0; i < u.NumFields(); i++ {
					if a.fld != "*" && u.Field(i).Name() != a.fld {
						continue
					}
					f := fieldOf(t, i)
					if isStruct(f.typ) {
						w2 := func(r *Term) (*Term, *Term) { // r is the address of the inner struct
							b, c := wrap(Sel("spar", r))
							return b, And(Is("sub", r), Eq(Sel("sfid", r), Num(f.id)), c)
						}
						rec(f.typ, f.typ.Underlying().(*types.Struct), w2)
						continue
					}
					b := BVar(a.v, "Ref")
					o, c := wrap(b)
					locs = append(locs, assignLoc{comp: fieldComp(f), bv: b, pred: And(c, Subst(pred, map[*Term]*Term{bv: o}))})
				}
			}
			rec(t, u, func(r *Term) (*Term, *Term) { return r, True })
		case "allmap":
			t := env.ex.prog.resolveType(a.typ)
			k, _ := mapKey(t)
			bv := BVar(a.v, "Ref")
			pred := env.bind(a.v, sv(bv, t)).evalBool(a.e)
			locs = append(locs, assignLoc{comp: "MD|" + k, bv: bv, pred: pred}, assignLoc{comp: "MV|" + k, bv: bv, pred: pred})
		}
	}
	return
}

// ---- verification

var verifyMu sync.Mutex

// ensureVerified verifies the contract of key once per run; it reports success.
func ensureVerified(P *Program, key string) *FnResult {
	if r, ok := fnResults[key]; ok {
		return r
	}
	if inProgress[key] {
		return &FnResult{Key: key, Err: "recursive contract use", OK: false}
	}
	c := P.contracts[key]
	if c.Trusted {
		r := &FnResult{Key: key, OK: true, Contract: c, mods: map[string]*modSum{}, Assumed: []string{"trusted contract " + key}}
		fnResults[key] = r
		return r
	}
	if pastDeadline() {
		r := &FnResult{Key: key, Contract: c, mods: map[string]*modSum{}, Err: "time budget exhausted"}
		fnResults[key] = r
		return r
	}
	inProgress[key] = true
	r := verify(P, key, c)
	r.discharge()
	delete(inProgress, key)
	fnResults[key] = r
	return r
}

func (r *FnResult) discharge() {
	t0 := time.Now()
	var wg sync.WaitGroup
	var nfail int32
	sem := make(chan struct{}, 8)
	for _, o := range r.Obls {
		if o.Res.Status != "" {
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(o *Obligation) {
			defer wg.Done()
			defer func() { <-sem }()
			if pastDeadline() {
				o.Late = true
				o.Res = SolveRes{Status: "unknown", Solver: "none", Out: "time budget exhausted"}
				return
			}
			tmo := proveTimeout
			if atomic.LoadInt32(&nfail) >= 4 && tmo > 4*time.Second {
				tmo = 4 * time.Second // the function fails anyway
			}
			if atomic.LoadInt32(&driverFailed) != 0 && tmo > 10*time.Second {
				tmo = 10 * time.Second // the verdict is known
			}
			o.Res = prove(o.assms, o.goal, tmo, true)
			if o.Res.Status != "unsat" && pastDeadline() {
				o.Late = true
			}
			if o.Res.Status != "unsat" {
				atomic.AddInt32(&nfail, 1)
				debugf("  undischarged %s:%s at %s (%s)", o.Kind, o.Label, o.Pos, o.Res.Status)
				if !o.Late && checkedProp != "" && atomic.LoadInt32(&driverFailed) != 0 && o.counts(r.Contract, checkedProp) {
					atomic.StoreInt32(&verdictIn, 1)
				}
			}
		}(o)
	}
	wg.Wait()
	r.Failed = nil
	for _, o := range r.Obls {
		if o.Res.Status != "unsat" {
			r.Failed = append(r.Failed, o)
		}
	}
	if len(r.Failed) > 0 || r.Err != "" || r.Vacuous {
		r.OK = false
	} else {
		r.OK = true
	}
	r.Secs += time.Since(t0).Seconds()
}

func verify(P *Program, key string, c *Contract) (res *FnResult) {
	t0 := time.Now()
	res = &FnResult{Key: key, Contract: c, mods: map[string]*modSum{}}
	defer func() {
		res.Secs += time.Since(t0).Seconds()
		if r := recover(); r != nil {
			switch e := r.(type) {
			case Unsupported:
				res.Err = "unsupported: " + e.msg
			case specErr:
				res.Err = "contract: " + e.msg
			default:
				if debugOn {
					panic(r)
				}
				res.Err = fmt.Sprintf("internal: %v", r)
			}
		}
	}()
	fn := P.fns[key]
	if fn == nil {
		res.Err = "no such function in the tree"
		return
	}
	ex := newExec(P, fn, key)
	ex.con = c
	st := &State{heap: map[string]*Term{}, iters: map[string]*iterInfo{}, snaps: map[string]*State{}, alloc: Alloc0}
	st.assume(Le(Num(1), Alloc0))
	st.assume(Le(Num(0), st.get("OBSN")))
	var args, free []*Term
	for i, p := range fn.Params {
		n := fmt.Sprintf("p|%s|%d", key, i)
		v := Const(n, sortOf(p.Type()))
		st.assume(valWF(v, p.Type(), Alloc0))
		args = append(args, v)
	}
	for i, p := range fn.FreeVars {
		v := Const(fmt.Sprintf("fv|%s|%d", key, i), sortOf(p.Type()))
		st.assume(valWF(v, p.Type(), Alloc0))
		st.assume(Ne(v, Nil))
		free = append(free, v)
	}
	if fn.Signature.Recv() != nil && args[0].Sort == "Ref" {
		st.assume(Ne(args[0], Nil))
	}
	env := ex.conEnv(c, fn, args, free, st, nil)
	for _, q := range c.Requires {
		st.assume(env.evalBool(q.Body))
	}
	if st.infeasible() {
		res.Vacuous = true
		return
	}
	ex.entry = st.clone()
	ex.params = args
	ex.loopEnv = func(s *State) *Env { return ex.conEnv(c, fn, args, free, s, ex.entry) }
	if len(c.Requires) > 0 {
		// reachability of the precondition
		if r := checkSat(st.assms(), quickTimeout*4, false); r.Status == "unsat" {
			res.Vacuous = true
			return
		}
	}
	outs := ex.callFunction(st.clone(), nil, fn, args, free, false)
	locs, evs := env.with(ex.entry).assignLocs(c.Assigns)
	res.events = evs
	nret := 0
	for _, o := range outs {
		switch o.kind {
		case oPanic:
			if !c.MayPanic {
				ex.oblige(o.st, "safety", "no-panic", False, fn.Pos())
				continue
			}
			env := ex.conEnv(c, fn, args, free, o.st, ex.entry)
			for _, q := range c.PanicEns {
				ex.oblige(o.st.clone(), "ensures", labelOf(q), env.evalBool(q.Body), fn.Pos())
			}
		case oReturn:
			nret++
			env := ex.conEnv(c, fn, args, free, o.st, ex.entry)
			env.bindResults(c, fn.Signature, o.vals)
			for _, q := range c.Ensures {
				g := env.evalBool(q.Body)
				for _, part := range splitGoal(g) {
					ex.oblige(o.st.clone(), "ensures", labelOf(q), part, fn.Pos())
				}
			}
			if !c.NoFrame {
				ex.frameObls(o.st, locs, evs, fn)
			}
		case oStop:
		default:
			panic("verify: outcome")
		}
		if o.st.alloc != Alloc0 {
			res.allocs = true
		}
		for w := o.st.writes; w != nil; w = w.prev {
			m := res.mods[w.comp]
			if m == nil {
				m = &modSum{}
				res.mods[w.comp] = m
			}
			if w.target != nil && (w.target == freshMark || isFresh(w.target)) {
				m.fresh = true
			} else if w.pred != nil || w.target != nil {
				m.other = true
			} else {
				m.fresh, m.other = true, true
			}
		}
	}
	res.Paths = len(outs)
	// some path must be reachable (an infinite loop has its iterations checked instead)
	if nret > 0 {
		reach := false
		for i, o := range outs {
			if o.kind != oReturn {
				continue
			}
			if i > 12 {
				reach = true
				break
			}
			if r := checkSat(o.st.assms(), quickTimeout, false); r.Status != "unsat" {
				reach = true
				break
			}
		}
		if !reach {
			res.Vacuous = true
		}
	}
	res.Obls = ex.obls
	if nret == 0 && !c.MayPanic && len(c.Iters) == 0 {
		res.Vacuous = true // never returns, and nothing is said about its iterations
	}
	for _, inner := range []bool{false, true} {
		// the clauses that had to be checked must have bound to some loop
		n, want := 0, 0
		cs := c.Iters
		if inner {
			cs = c.Inners
		}
		for _, q := range cs {
			if iterApplies(q) {
				want++
			}
		}
		for _, o := range ex.obls {
			if o.Kind == "iteration" && strings.HasPrefix(o.Label, "inner:") == inner {
				n++
			}
		}
		if want > 0 && n == 0 {
			res.Vacuous = true
		}
	}
	if len(ex.obls) == 0 {
		res.Vacuous = true
	}
	res.Inlined = keysOf(ex.inlined)
	res.Used = keysOf(ex.used)
	res.Ext = keysOf(ex.extUsed)
	res.Assumed = keysOf(ex.assumed)
	res.NoCon = keysOf(ex.noCon)
	res.Loops = ex.loops
	return
}

func labelOf(q Clause) string {
	if len(q.Props) > 0 {
		return q.Label + "[" + strings.Join(q.Props, ",") + "]"
	}
	return q.Label
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// splitGoal breaks a conjunction into separate obligations.
func splitGoal(g *Term) []*Term {
	if g.Op == "and" {
		var out []*Term
		for _, a := range g.Args {
			out = append(out, splitGoal(a)...)
		}
		return out
	}
	if g.Op == "ite" && hasQuant(g) {
		return append(splitGoal(Implies(g.Args[0], g.Args[1])), splitGoal(Implies(Not(g.Args[0]), g.Args[2]))...)
	}
	if g.Op == "=>" && g.Args[1].Op == "ite" && hasQuant(g.Args[1]) {
		i := g.Args[1]
		return append(splitGoal(Implies(And(g.Args[0], i.Args[0]), i.Args[1])), splitGoal(Implies(And(g.Args[0], Not(i.Args[0])), i.Args[2]))...)
	}
	if g.Op == "=>" && g.Args[1].Op == "and" {
		var out []*Term
		for _, a := range g.Args[1].Args {
			out = append(out, splitGoal(Implies(g.Args[0], a))...)
		}
		return out
	}
	if g.Op == "forall" && g.Args[0].Op == "=>" && g.Args[0].Args[1].Op == "and" {
		var out []*Term
		for _, a := range g.Args[0].Args[1].Args {
			out = append(out, splitGoal(Forall(g.Vars, Implies(g.Args[0].Args[0], a), g.Pats...))...)
		}
		return out
	}
	return []*Term{g}
}

func isAllocConst(t *Term) bool {
	return t.Op == "const" && (t.Sym == "alloc0" || strings.HasPrefix(t.Sym, "alloc!"))
}

// isFresh: the object was certainly allocated after function entry.
func isFresh(target *Term) bool { return freshSince(target, Alloc0) }

func splitAlloc(t *Term) (base *Term, off int64, ok bool) {
	l := toLin(t)
	if len(l.m) != 1 || !l.c.IsInt64() {
		return nil, 0, false
	}
	for id, k := range l.m {
		if k.IsInt64() && k.Int64() == 1 && isAllocConst(l.t[id]) {
			return l.t[id], l.c.Int64(), true
		}
	}
	return nil, 0, false
}

func freshSince(target, since *Term) bool {
	b, o, ok := splitAlloc(Rid(target))
	if !ok {
		return false
	}
	sb, so, ok := splitAlloc(since)
	if !ok {
		return false
	}
	if b == sb {
		return o >= so
	}
	if sb == Alloc0 {
		// every later frontier is at least the one at entry, but only offsets from later
		// frontiers are known to exceed alloc0+so when so is covered; frontiers grow along a path
		return true
	}
	if b == Alloc0 {
		return false
	}
	return allocIdx(b) > allocIdx(sb)
}

func allocIdx(t *Term) int {
	var n int
	fmt.Sscanf(t.Sym, "alloc!%d", &n)
	return n
}

func (ex *Exec) frameObls(st *State, locs []assignLoc, events bool, fn *ssa.Function) {
	comps := map[string]bool{}
	for w := st.writes; w != nil; w = w.prev {
		if w.comp == "CLK" {
			continue // time passes
		}
		if strings.HasPrefix(w.comp, "CTR|") {
			continue // counts go with the events
		}
		if w.comp == "OBS" || w.comp == "OBSN" {
			if !events {
				comps["OBSN"] = true
			}
			continue
		}
		if w.target != nil && (w.target == freshMark || isFresh(w.target)) {
			continue
		}
		comps[w.comp] = true
	}
	for _, c := range keysOf(comps) {
		if c == "OBSN" {
			ex.oblige(st.clone(), "frame", "no-other-effects", Eq(st.get("OBSN"), ex.entry.get("OBSN")), fn.Pos())
			continue
		}
		cur, old := st.get(c), ex.entry.get(c)
		if cur == old {
			continue
		}
		r := Fresh("fr", "Ref")
		var allowed []*Term
		for _, l := range locs {
			if l.comp != c {
				continue
			}
			if l.ref != nil {
				allowed = append(allowed, Eq(r, l.ref))
			} else {
				allowed = append(allowed, Subst(l.pred, map[*Term]*Term{l.bv: r}))
			}
		}
		g := Implies(And(Lt(Rid(r), Alloc0), Not(Or(allowed...))), Eq(Select(cur, r), Select(old, r)))
		ex.oblige(st.clone(), "frame", "unchanged:"+compName(c), g, fn.Pos())
	}
}

func compName(c string) string {
	return strings.ReplaceAll(c, "|", ":")
}

// ---- use of contracts at call sites

// havocAlloc moves the allocation frontier to an arbitrary later point.
func (st *State) havocAlloc() {
	old := st.alloc
	st.alloc = Fresh("alloc", "Int")
	st.assume(Le(old, st.alloc))
}

// havocFresh replaces comp by an arbitrary version that agrees on refs satisfying keep(r).
func (st *State) havocComp(comp string, keep func(r *Term) *Term) *Term {
	old := st.get(comp)
	nx := Fresh("H|"+comp, old.Sort)
	setCompAxiom(comp, nx, st.alloc)
	st.set(comp, nx)
	if strings.HasPrefix(comp, "MV|") {
		md := st.get("MD|" + comp[3:])
		_ = md
		st.pairLater = append(st.pairLater, comp[3:])
	}
	if keep != nil {
		r := BVar("r", "Ref")
		k := keep(r)
		if k != False {
			v := mk("select", mustVal(nx.Sort), "", nx, r)
			st.assume(Forall([]*Term{r}, Implies(k, Eq(v, Select(old, r))), []*Term{v}))
		}
	}
	return nx
}

// flushPairs attaches the "absent keys hold zero values" axiom to havocked map components.
func (st *State) flushPairs() {
	for _, k := range st.pairLater {
		mv, md := st.get("MV|"+k), st.get("MD|"+k)
		for mv.Op == "store" {
			mv = mv.Args[0]
		}
		for md.Op == "store" {
			md = md.Args[0]
		}
		if mv.Op == "const" && md.Op == "const" {
			setMapPairAxiom(k, mv, md)
		}
	}
	st.pairLater = nil
}

type hvSrc struct {
	comp string
	ref  *Term
}

var (
	hvMu  sync.Mutex
	hvRef = map[*Term]hvSrc{} // constants standing for the havocked value of comp at ref
)

// readOf recognises "component comp read at ref".
func readOf(a *Term) (comp string, ref *Term, ok bool) {
	for a.Op == "store" {
		a = a.Args[0]
	}
	if a.Op == "const" {
		hvMu.Lock()
		h, ok := hvRef[a]
		hvMu.Unlock()
		return h.comp, h.ref, ok
	}
	if a.Op == "select" {
		if c := compOfArr(a.Args[0]); c != "" {
			return c, a.Args[1], true
		}
	}
	return "", nil, false
}

// havocAt gives comp an arbitrary value at ref.
func (st *State) havocAt(comp string, ref *Term) {
	old := st.get(comp)
	_, vs := arrElem(old.Sort)
	v := Fresh("hv|"+comp, vs)
	hvMu.Lock()
	hvRef[v] = hvSrc{comp, ref}
	hvMu.Unlock()
	switch {
	case strings.HasPrefix(comp, "F|"), strings.HasPrefix(comp, "C|"):
		st.assume(valWF(v, compType[comp], st.alloc))
	case strings.HasPrefix(comp, "A|"), strings.HasPrefix(comp, "MV|"):
		ks, es := arrElem(vs)
		i := BVar("i", ks)
		e := mk("select", es, "", v, i)
		w := valWF(e, compType[comp], st.alloc)
		if w != True {
			st.assume(Forall([]*Term{i}, w, []*Term{e}))
		}
		if strings.HasPrefix(comp, "MV|") {
			d := Select(st.get("MD|"+comp[3:]), ref)
			st.assume(Forall([]*Term{i}, Or(Select(d, i), Eq(e, zeroOfSort(es))), []*Term{e}))
		}
	}
	st.set(comp, Store(old, ref, v))
}

func orderComps(cs []string) []string {
	// MD before MV so that the pair axiom sees the new domain
	sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
	return cs
}

func (ex *Exec) applyContract(st *State, fr *Frame, fn *ssa.Function, c *Contract, args []*Term, pos token.Pos) []Outcome {
	key := c.Key
	fail := func(why string) []Outcome {
		debugf("contract of %s not usable (%s): inlining", key, why)
		ex.noCon[key] = true
		delete(ex.used, key)
		if len(fn.Blocks) == 0 {
			unsupported("no body for %s", key)
		}
		for f := fr; f != nil; f = f.caller {
			if f.fn == fn {
				unsupported("recursive call of %s", key)
			}
		}
		ex.inlined[key] = true
		return ex.mergeOuts(ex.callFunction(st, fr, fn, args, nil, false))
	}
	res := ensureVerified(ex.prog, key)
	if !res.OK {
		return fail("not verified")
	}
	if len(c.Params) != len(fn.Params) {
		return fail("arity")
	}
	env := ex.conEnv(c, fn, args, nil, st, nil)
	if fn.Signature.Recv() != nil && args[0].Sort == "Ref" {
		ex.nilCheck(st, args[0], pos, "receiver of "+fn.Name())
	}
	for _, q := range c.Requires {
		for _, part := range splitGoal(env.evalBool(q.Body)) {
			ex.oblige(st, "precondition", key+":"+q.Label, part, pos)
		}
	}
	old := st.clone()
	oenv := ex.conEnv(c, fn, args, nil, old, nil)
	locs, evs := oenv.assignLocs(c.Assigns)
	if res.allocs {
		st.havocAlloc()
	}
	// components written at fresh objects, or by set
	comps := map[string]bool{}
	for k, m := range res.mods {
		if k == "OBS" || k == "OBSN" {
			continue
		}
		if k == "CLK" {
			st.advanceClock()
			continue
		}
		if strings.HasPrefix(k, "CTR|") {
			st.havocComp(k, nil)
			st.logWrite(k, nil)
			continue
		}
		if m.fresh {
			comps[k] = true
		}
	}
	sets := map[string][]assignLoc{}
	for _, l := range locs {
		if l.bv != nil {
			comps[l.comp] = true
			sets[l.comp] = append(sets[l.comp], l)
		}
	}
	for _, k := range orderComps(keysOf(comps)) {
		if _, ok := compSort[k]; !ok {
			continue
		}
		st.havocComp(k, func(r *Term) *Term {
			var al []*Term
			for _, l := range sets[k] {
				al = append(al, Subst(l.pred, map[*Term]*Term{l.bv: r}))
			}
			return And(Lt(Rid(r), old.alloc), Not(Or(al...)))
		})
		if m := res.mods[k]; m != nil && m.fresh {
			st.logWrite(k, freshMark)
		}
		for _, l := range sets[k] {
			st.writes = &wrec{comp: k, bv: l.bv, pred: l.pred, prev: st.writes}
		}
	}
	st.flushPairs()
	// MD before MV
	sort.SliceStable(locs, func(i, j int) bool { return locs[i].comp < locs[j].comp })
	for _, l := range locs {
		if l.ref != nil {
			st.havocAt(l.comp, l.ref)
			st.logWrite(l.comp, l.ref)
		}
	}
	if evs {
		ex.havocEvents(st)
	}
	var vals []*Term
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		vals = append(vals, ex.freshVal(st, "r|"+fn.Name(), rs.At(i).Type()))
	}
	env2 := ex.conEnv(c, fn, args, nil, st, old)
	env2.bindResults(c, fn.Signature, vals)
	for _, q := range c.Ensures {
		st.assume(env2.evalBool(q.Body))
	}
	outs := ret(st, vals...)
	if c.MayPanic {
		ps := st.clone()
		pv := Fresh("panic", "Iface")
		ps.assume(Ne(pv, INil))
		outs = append(outs, Outcome{st: ps, kind: oPanic, pv: pv})
	}
	return outs
}

func (ex *Exec) havocEvents(st *State) {
	on, oo := st.get("OBSN"), st.get("OBS")
	nn := Fresh("OBSN", "Int")
	no := Fresh("OBS", oo.Sort)
	st.assume(Le(on, nn))
	i := BVar("i", "Int")
	v := mk("select", "Ev", "", no, i)
	st.assume(Forall([]*Term{i}, Implies(And(Le(Num(0), i), Lt(i, on)), Eq(v, Select(oo, i))), []*Term{v}))
	st.set("OBSN", nn)
	st.set("OBS", no)
	st.logWrite("OBS", nil)
	st.logWrite("OBSN", nil)
}

// applyFnTypeContract: calls of caller-supplied function values.
func (ex *Exec) applyFnTypeContract(st *State, fr *Frame, c *Contract, fnv *Term, args []*Term, sig *types.Signature, pos token.Pos) []Outcome {
	if len(c.Ensures) > 0 || len(c.Assigns) > 0 {
		return ex.applyFnTypeSpec(st, c, fnv, args, sig)
	}
	ex.note("caller-supplied functions of type " + strings.TrimPrefix(c.Key, "functype:") + " change only: " + strings.Join(c.Havoc, ", "))
	for _, h := range c.Havoc {
		if h == "events" {
			continue
		}
		if _, ok := compSort[h]; !ok {
			if !ex.prog.regByName(h) {
				continue
			}
		}
		// locals of the function under verification are out of the callback's reach
		pre := st.get(h)
		st.havocComp(h, func(r *Term) *Term { return And(Le(Alloc0, Rid(r)), Lt(Rid(r), st.alloc)) })
		_ = pre
		st.logWrite(h, nil)
	}
	st.flushPairs()
	a0 := st.alloc
	st.havocAlloc()
	_ = a0
	ex.eventT(st, "callback", []evArg{{fnv, nil}})
	for _, h := range c.Havoc {
		if h == "events" {
			ex.havocEvents(st)
			for _, q := range ex.prog.spec.counters {
				k := counterComp(q.name)
				st.havocComp(k, nil)
				st.logWrite(k, nil)
			}
		}
	}
	outs := []Outcome{}
	if c.MayPanic {
		ps := st.clone()
		pv := Fresh("panic", "Iface")
		ps.assume(Ne(pv, INil))
		ps.assume(Lt(Rid(Sel("iref", pv)), ps.alloc))
		ps.snaps["callback"] = ps.clone()
		ps.snaps["callback"].snaps = map[string]*State{}
		ps.ghost("panicked", True)
		ps.ghost("panicval", pv)
		outs = append(outs, Outcome{st: ps, kind: oPanic, pv: pv})
	}
	var vals []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		vals = append(vals, ex.freshVal(st, "cb", sig.Results().At(i).Type()))
	}
	st.snaps["callback"] = st.clone()
	if c.MayPanic {
		st.ghost("panicked", False)
	}
	for i, v := range vals {
		st.ghost(fmt.Sprintf("cbresult%d", i), v)
	}
	outs = append(outs, Outcome{st: st, kind: oReturn, vals: vals})
	return outs
}

// applyFnTypeSpec: the contract assumed of every function value of a type, over callee, arg0, arg1, ... and result.
func (ex *Exec) applyFnTypeSpec(st *State, c *Contract, fnv *Term, args []*Term, sig *types.Signature) []Outcome {
	var src []string
	for _, q := range c.Ensures {
		src = append(src, q.Src)
	}
	ex.note("caller-supplied functions of type " + strings.TrimPrefix(c.Key, "functype:") + " change only what their contract assigns, and satisfy: " + strings.Join(src, "; "))
	mkEnv := func(s, old *State) *Env {
		env := &Env{ex: ex, st: s, old: old, vars: map[string]SVal{"callee": sv(fnv, sig)}}
		for i, a := range args {
			env.vars[fmt.Sprintf("arg%d", i)] = sv(a, sig.Params().At(i).Type())
		}
		return env
	}
	old := st.clone()
	locs, evs := mkEnv(old, nil).assignLocs(c.Assigns)
	if evs {
		unsupported("function type contract with events")
	}
	st.havocAlloc()
	for _, l := range locs {
		if l.ref == nil {
			unsupported("function type contract assigning a set")
		}
		st.havocAt(l.comp, l.ref)
		st.logWrite(l.comp, l.ref)
	}
	env := mkEnv(st, old)
	var vals []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		v := ex.freshVal(st, "cb", sig.Results().At(i).Type())
		vals = append(vals, v)
		env.vars[fmt.Sprintf("result%d", i)] = sv(v, sig.Results().At(i).Type())
		env.vars["result"] = sv(v, sig.Results().At(i).Type())
	}
	for _, q := range c.Ensures {
		st.assume(env.evalBool(q.Body))
	}
	return ret(st, vals...)
}

// ghost scalars visible in contracts through ghost("name").
func (st *State) ghost(n string, v *Term) { st.ghosts = &ghostNode{n, v, st.ghosts} }

type ghostNode struct {
	n    string
	v    *Term
	prev *ghostNode
}

func (st *State) ghostVal(n string) *Term {
	for g := st.ghosts; g != nil; g = g.prev {
		if g.n == n {
			return g.v
		}
	}
	return nil
}

// regByName registers a component from its name, e.g. "F|health.Job|KeyValues" or "MV|map[string]string".
func (P *Program) regByName(h string) bool {
	switch {
	case strings.HasPrefix(h, "F|"):
		ps := strings.Split(h, "|")
		t := P.resolveType(ps[1])
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == ps[2] {
				fieldComp(fieldOf(t, i))
				return true
			}
		}
	case strings.HasPrefix(h, "MV|"), strings.HasPrefix(h, "MD|"):
		mapKey(P.resolveType(h[3:]))
		return true
	}
	return false
}
