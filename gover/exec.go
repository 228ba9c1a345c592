package main

// Symbolic execution of go/ssa functions.

import (
	"time"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	call *ssa.CallCommon
	fnv  *Term // function value for dynamic calls
	recv *Term
	args []*Term
	pos  token.Pos
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	tup    map[ssa.Value][]*Term
	defers []*deferred
	unroll map[*ssa.BasicBlock]int
	inv    map[*ssa.BasicBlock]bool // loops being executed in invariant mode
	region *loopInfo                // stop when control leaves this loop
	depth  int
	viaDef bool // running as a deferred call
	caller *Frame
	entry  *State // state at call, kept when the function has a contract
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]*Term, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.tup = make(map[ssa.Value][]*Term, len(f.tup))
	for k, v := range f.tup {
		n.tup[k] = v
	}
	n.defers = append([]*deferred{}, f.defers...)
	n.unroll = map[*ssa.BasicBlock]int{}
	for k, v := range f.unroll {
		n.unroll[k] = v
	}
	n.inv = map[*ssa.BasicBlock]bool{}
	for k, v := range f.inv {
		n.inv[k] = v
	}
	return &n
}

const (
	oReturn = iota
	oPanic
	oBack
	oStop // path abandoned (infeasible, diverges)
	oExit // control leaves the frame's region: next block in back, predecessor in from
)

type Outcome struct {
	st   *State
	kind int
	vals []*Term
	pv   *Term
	fr   *Frame
	back *ssa.BasicBlock // header reached
	from *ssa.BasicBlock
}

type Obligation struct {
	Func   string // function under verification
	Label  string
	Kind   string
	Pos    string
	assms  []*Term
	goal   *Term
	Res    SolveRes
	iter   string
	Late   bool // not tried: the time budget was used up
	Prunes int
}

type Unsupported struct{ msg string }

type Exec struct {
	noSolve bool
	discover int
	prog    *Program
	root    *ssa.Function
	rootKey string
	con     *Contract
	obls    []*Obligation
	quiet   int
	entry   *State // state at root entry (after requires)
	params  []*Term
	inlined map[string]bool
	used    map[string]bool // contracts used at call sites
	extUsed map[string]bool // external models used
	assumed map[string]bool // assumption notes
	noCon   map[string]bool // contracts disabled
	paths   int
	loops   []*LoopReport
	obsOld  *Term
	nsteps  int
	forks   int
	log     []string
	loopEnv func(*State) *Env
}

func (ex *Exec) note(s string) { ex.assumed[s] = true }

func unsupported(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

var debugOn = os.Getenv("GOVER_DEBUG") != ""

func debugf(f string, a ...interface{}) {
	if debugOn {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func (ex *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := ex.prog.fset.Position(p)
	fn := strings.TrimPrefix(ps.Filename, ex.prog.repo+"/")
	return fmt.Sprintf("%s:%d", fn, ps.Line)
}

// oblige records a proof obligation in state st.
func (ex *Exec) oblige(st *State, kind, label string, goal *Term, pos token.Pos) {
	if goal == True {
		if ex.quiet == 0 {
			ex.obls = append(ex.obls, &Obligation{Func: ex.rootKey, Label: label, Kind: kind, Pos: ex.posOf(pos), goal: True,
				Res: SolveRes{Status: "unsat", Solver: "simplifier"}})
		}
		return
	}
	if ex.quiet == 0 {
		ex.obls = append(ex.obls, &Obligation{Func: ex.rootKey, Label: label, Kind: kind, Pos: ex.posOf(pos), assms: st.assms(), goal: goal})
	}
	st.assume(goal)
}

// ---- values

func constVal(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return zeroOf(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Lit(constant.StringVal(c.Value))
	}
	if sortOf(t) == "Int" {
		v := constant.ToInt(c.Value)
		bi, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			unsupported("const %v", c)
		}
		return BigInt(bi)
	}
	return FltLit(fltName(c.Value))
}

func fltName(v constant.Value) string {
	f, _ := constant.Float64Val(v)
	return fmt.Sprintf("%g", f)
}

func (ex *Exec) val(st *State, fr *Frame, v ssa.Value) *Term {
	if t, ok := fr.env[v]; ok {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Global:
		return ex.prog.globalRef(v)
	case *ssa.Function:
		return ex.prog.fnTerm(v, nil)
	case *ssa.Builtin:
		return Const("builtin:"+v.Name(), "Fn")
	case *ssa.FreeVar, *ssa.Parameter:
		panic(fmt.Sprintf("unbound %s in %s", v.Name(), fr.fn))
	}
	panic(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, fr.fn))
}

// freshVal: an arbitrary value of type t in state st.
func (ex *Exec) freshVal(st *State, prefix string, t types.Type) *Term {
	if tp, ok := t.(*types.Tuple); ok {
		_ = tp
		panic("freshVal tuple")
	}
	v := Fresh(prefix, sortOf(t))
	st.assume(valWF(v, t, st.alloc))
	return v
}

// ---- feasibility

var (
	feasSecs    float64
	feasN       int
	feasTimeout = 1 * time.Second
)

func hasQuant(t *Term) bool {
	return contains(t, func(x *Term) bool { return x.Op == "forall" })
}

func (ex *Exec) feasible(st *State, c *Term) bool {
	if c == False {
		return false
	}
	if c == True {
		return true
	}
	for n := st.pc; n != nil; n = n.prev {
		if n.t == c {
			return true
		}
		if n.t == Not(c) {
			return false
		}
	}
	if ex.noSolve {
		return true
	}
	t0 := time.Now()
	defer func() { feasSecs += time.Since(t0).Seconds(); feasN++ }()
	// quantified facts rarely decide a branch: use the ground ones
	var g []*Term
	for _, a := range append(st.assms(), c) {
		if !hasQuant(a) {
			g = append(g, a)
		}
	}
	groundOnly := true
	r := checkSatOpt(g, feasTimeout, false, groundOnly, "")
	return r.Status != "unsat"
}

// ---- running

func (ex *Exec) callFunction(st *State, caller *Frame, fn *ssa.Function, args []*Term, free []*Term, viaDefer bool) []Outcome {
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, tup: map[ssa.Value][]*Term{}, unroll: map[*ssa.BasicBlock]int{}, inv: map[*ssa.BasicBlock]bool{}, viaDef: viaDefer, caller: caller}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fr.depth > 40 {
		unsupported("call depth at %s", fn)
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	if ex.prog.contracts[ex.prog.fnKey(fn)] != nil {
		fr.entry = st.clone()
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = free[i]
	}
	if len(fn.Blocks) == 0 {
		unsupported("no body for %s", fn)
	}
	return ex.runBlock(st, fr, fn.Blocks[0], nil)
}

func (ex *Exec) runBlock(st *State, fr *Frame, b, prev *ssa.BasicBlock) []Outcome {
	for {
		if fr.region != nil && !fr.region.body[b] {
			return []Outcome{{st: st, kind: oExit, fr: fr, back: b, from: prev}}
		}
		li := ex.prog.loopsOf(fr.fn)
		if lp := li.header[b]; lp != nil && prev != nil {
			inside := lp.body[prev]
			if inside && fr.inv[b] {
				return []Outcome{{st: st, kind: oBack, fr: fr, back: b, from: prev}}
			}
			if !inside {
				fr.unroll[b] = 0
			}
			if !(fr.unroll[b] < 70 && ex.concreteHeader(st, fr, lp, prev)) {
				return ex.execLoop(st, fr, lp, prev)
			}
			fr.unroll[b]++
		}
		ex.evalPhis(st, fr, b, prev)
		outs, next := ex.runInstrs(st, fr, b, firstNonPhi(b))
		if next == nil {
			return outs
		}
		prev, b = b, next
	}
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (ex *Exec) evalPhis(st *State, fr *Frame, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	var ps []*ssa.Phi
	var vs []*Term
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, ph)
		vs = append(vs, ex.val(st, fr, ph.Edges[pi]))
	}
	for i := range ps {
		fr.env[ps[i]] = vs[i]
	}
}

// runInstrs executes b.Instrs[i:]; it returns a next block when execution continues
// deterministically, or outcomes.
func (ex *Exec) runInstrs(st *State, fr *Frame, b *ssa.BasicBlock, i int) ([]Outcome, *ssa.BasicBlock) {
	for ; i < len(b.Instrs); i++ {
		ex.nsteps++
		if ex.nsteps%256 == 0 && pastDeadline() {
			unsupported("time budget exhausted")
		}
		if ex.nsteps > 400000 {
			unsupported("step limit")
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.If:
			c := ex.val(st, fr, in.Cond)
			return ex.branch(st, fr, b, c)
		case *ssa.Jump:
			return nil, b.Succs[0]
		case *ssa.Return:
			var vs []*Term
			for _, r := range in.Results {
				vs = append(vs, ex.val(st, fr, r))
			}
			return []Outcome{{st: st, kind: oReturn, vals: vs, fr: fr}}, nil
		case *ssa.Panic:
			return ex.panicking(st, fr, ex.val(st, fr, in.X)), nil
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				continue
			}
			outs := ex.runDefers(st, fr)
			return ex.contAll(outs, fr, b, i+1, nil)
		case *ssa.Defer:
			d := &deferred{call: in.Common(), pos: in.Pos()}
			cc := in.Common()
			if cc.IsInvoke() {
				d.recv = ex.val(st, fr, cc.Value)
			} else {
				d.fnv = ex.val(st, fr, cc.Value)
			}
			for _, a := range cc.Args {
				d.args = append(d.args, ex.val(st, fr, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Go:
			ex.execGo(st, fr, in)
		case *ssa.Call:
			outs := ex.execCall(st, fr, in.Common(), in, in.Pos())
			if len(outs) == 1 && outs[0].kind == oReturn {
				st = outs[0].st
				ex.bindCall(fr, in, outs[0].vals)
				continue
			}
			return ex.contAll(outs, fr, b, i+1, in)
		case *ssa.Select:
			outs := ex.execSelect(st, fr, in)
			return ex.contAll(outs, fr, b, i+1, in)
		case *ssa.Next:
			outs := ex.execNext(st, fr, in)
			return ex.contAll(outs, fr, b, i+1, in)
		case *ssa.Slice:
			ex.execSlice(st, fr, in)
		case *ssa.TypeAssert:
			outs := ex.execTypeAssert(st, fr, in)
			if len(outs) == 1 && outs[0].kind == oReturn {
				st = outs[0].st
				ex.bindCall(fr, in, outs[0].vals)
				continue
			}
			return ex.contAll(outs, fr, b, i+1, in)
		default:
			ex.execSimple(st, fr, in)
		}
		if st.infeasible() {
			return []Outcome{{st: st, kind: oStop, fr: fr}}, nil
		}
	}
	panic("block without terminator")
}

func (ex *Exec) bindCall(fr *Frame, in ssa.Value, vals []*Term) {
	if in == nil {
		return
	}
	if _, ok := in.Type().(*types.Tuple); ok {
		fr.tup[in] = vals
		return
	}
	if len(vals) == 1 {
		fr.env[in] = vals[0]
		return
	}
	if len(vals) == 0 {
		return
	}
	fr.tup[in] = vals
}

// contAll continues the frame after a multi-outcome instruction.
func (ex *Exec) contAll(outs []Outcome, fr *Frame, b *ssa.BasicBlock, i int, in ssa.Value) ([]Outcome, *ssa.BasicBlock) {
	var all []Outcome
	for n, o := range outs {
		f2 := fr
		if n < len(outs)-1 {
			f2 = fr.clone()
		}
		switch o.kind {
		case oStop:
			continue
		case oPanic:
			all = append(all, ex.panicking(o.st, f2, o.pv)...)
		case oReturn:
			if in != nil {
				ex.bindCall(f2, in, o.vals)
			}
			if len(outs) > 1 {
				ex.countFork()
			}
			os, next := ex.runInstrs(o.st, f2, b, i)
			if next != nil {
				os = ex.runBlock(o.st, f2, next, b)
			}
			all = append(all, os...)
		default:
			panic("contAll: unexpected outcome")
		}
	}
	return all, nil
}

func (ex *Exec) countFork() {
	ex.forks++
	if ex.forks > 6000 {
		unsupported("path limit")
	}
}

func (ex *Exec) branch(st *State, fr *Frame, b *ssa.BasicBlock, c *Term) ([]Outcome, *ssa.BasicBlock) {
	if c == True {
		return nil, b.Succs[0]
	}
	if c == False {
		return nil, b.Succs[1]
	}
	var ft, ff bool
	done := make(chan bool)
	go func() { ft = ex.feasible(st, c); done <- true }()
	ff = ex.feasible(st, Not(c))
	<-done
	if !ft && !ff {
		return []Outcome{{st: st, kind: oStop, fr: fr}}, nil
	}
	if !ft {
		st.assume(Not(c))
		return nil, b.Succs[1]
	}
	if !ff {
		st.assume(c)
		return nil, b.Succs[0]
	}
	ex.countFork()
	st2, fr2 := st.clone(), fr.clone()
	st.assume(c)
	st2.assume(Not(c))
	outs := ex.runBlock(st, fr, b.Succs[0], b)
	outs = append(outs, ex.runBlock(st2, fr2, b.Succs[1], b)...)
	return outs, nil
}

// ---- panics and defers

func (ex *Exec) panicking(st *State, fr *Frame, pv *Term) []Outcome {
	if len(fr.defers) == 0 {
		return []Outcome{{st: st, kind: oPanic, pv: pv, fr: fr}}
	}
	saved := st.panicV
	st.panicV = pv
	var all []Outcome
	for _, o := range ex.runDefers(st, fr) {
		switch o.kind {
		case oPanic:
			all = append(all, o)
		case oReturn:
			if o.st.panicV == nil {
				// recovered
				o.st.panicV = saved
				if fr.fn.Recover != nil {
					f2 := fr.clone()
					f2.region = nil
					f2.inv = map[*ssa.BasicBlock]bool{}
					all = append(all, ex.runBlock(o.st, f2, fr.fn.Recover, nil)...)
				} else {
					var vs []*Term
					rs := fr.fn.Signature.Results()
					for i := 0; i < rs.Len(); i++ {
						vs = append(vs, zeroOf(rs.At(i).Type()))
					}
					all = append(all, Outcome{st: o.st, kind: oReturn, vals: vs, fr: fr})
				}
			} else {
				p := o.st.panicV
				o.st.panicV = saved
				all = append(all, Outcome{st: o.st, kind: oPanic, pv: p, fr: fr})
			}
		}
	}
	return all
}

// runDefers runs the frame's deferred calls in LIFO order.
func (ex *Exec) runDefers(st *State, fr *Frame) []Outcome {
	if len(fr.defers) == 0 {
		return []Outcome{{st: st, kind: oReturn, fr: fr}}
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	outs := ex.dispatch(st, fr, d.call, d.fnv, d.recv, d.args, d.pos, true)
	var all []Outcome
	for n, o := range outs {
		f2 := fr
		if n < len(outs)-1 {
			f2 = fr.clone()
		}
		switch o.kind {
		case oPanic:
			// a panic in a deferred call replaces the current one
			o.st.panicV = o.pv
			if len(f2.defers) == 0 {
				all = append(all, Outcome{st: o.st, kind: oPanic, pv: o.pv, fr: f2})
			} else {
				all = append(all, ex.runDefers(o.st, f2)...)
			}
		case oReturn:
			all = append(all, ex.runDefers(o.st, f2)...)
		}
	}
	return all
}

// ---- calls

func (ex *Exec) execCall(st *State, fr *Frame, cc *ssa.CallCommon, in ssa.Value, pos token.Pos) []Outcome {
	var fnv, recv *Term
	if cc.IsInvoke() {
		recv = ex.val(st, fr, cc.Value)
	} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fnv = ex.val(st, fr, cc.Value)
	}
	var args []*Term
	for _, a := range cc.Args {
		args = append(args, ex.val(st, fr, a))
	}
	return ex.dispatch(st, fr, cc, fnv, recv, args, pos, false)
}

func ret(st *State, vals ...*Term) []Outcome { return []Outcome{{st: st, kind: oReturn, vals: vals}} }

func (ex *Exec) dispatch(st *State, fr *Frame, cc *ssa.CallCommon, fnv, recv *Term, args []*Term, pos token.Pos, viaDefer bool) []Outcome {
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return ex.builtin(st, fr, b, cc, args, pos)
	}
	if cc.IsInvoke() {
		return ex.invoke(st, fr, cc, recv, args, pos)
	}
	return ex.callValue(st, fr, fnv, args, cc.Signature(), pos, viaDefer)
}

// callValue calls a function value.
func (ex *Exec) callValue(st *State, fr *Frame, fnv *Term, args []*Term, sig *types.Signature, pos token.Pos, viaDefer bool) []Outcome {
	if fnv.Op == "ite" {
		st2 := st.clone()
		st.assume(fnv.Args[0])
		st2.assume(Not(fnv.Args[0]))
		o := ex.callValue(st, fr, fnv.Args[1], args, sig, pos, viaDefer)
		return append(o, ex.callValue(st2, fr, fnv.Args[2], args, sig, pos, viaDefer)...)
	}
	if fn := ex.prog.fnOf(fnv); fn != nil {
		return ex.callStatic(st, fr, fn, args, fnv.Args, pos, viaDefer)
	}
	return ex.callUnknown(st, fr, fnv, args, sig, pos)
}

func (ex *Exec) callStatic(st *State, fr *Frame, fn *ssa.Function, args, free []*Term, pos token.Pos, viaDefer bool) []Outcome {
	key := ex.prog.fnKey(fn)
	if h := extModels[key]; h != nil {
		ex.extUsed[key] = true
		return h(&ExtCall{ex: ex, st: st, fr: fr, fn: fn, args: args, pos: pos, key: key})
	}
	if ex.prog.inRepo(fn) || len(fn.Blocks) > 0 {
		if c := ex.prog.contractFor(key); c != nil && !ex.noCon[key] && !c.Inline && !c.NoFrame && !(fn == ex.root && fr == nil) {
			ex.used[key] = true
			return ex.applyContract(st, fr, fn, c, args, pos)
		}
		if len(fn.Blocks) > 0 {
			for f := fr; f != nil; f = f.caller {
				if f.fn == fn {
					unsupported("recursive call of %s without contract", key)
				}
			}
			if ex.prog.inRepo(fn) {
				ex.inlined[key] = true
			}
			return ex.mergeOuts(ex.callFunction(st, fr, fn, args, free, viaDefer))
		}
	}
	return ex.extDefault(st, fr, fn, key, args, pos)
}

func (ex *Exec) mergeOuts(outs []Outcome) []Outcome {
	var keep []Outcome
	for _, o := range outs {
		if o.kind == oStop {
			continue
		}
		keep = append(keep, o)
	}
	return keep
}

func (ex *Exec) execGo(st *State, fr *Frame, in *ssa.Go) {
	cc := in.Common()
	var args []*Term
	name := "?"
	if cc.IsInvoke() {
		name = "invoke:" + cc.Method.Name()
		args = append(args, ex.val(st, fr, cc.Value))
	} else {
		fnv := ex.val(st, fr, cc.Value)
		if fn := ex.prog.fnOf(fnv); fn != nil {
			name = ex.prog.fnKey(fn)
			args = append(args, fnv.Args...)
		}
	}
	for _, a := range cc.Args {
		args = append(args, ex.val(st, fr, a))
	}
	ex.event(st, "go:"+name, args)
}

// ---- simple instructions

func (ex *Exec) nilCheck(st *State, p *Term, pos token.Pos, what string) {
	if p.Op == "ctor" {
		if p.Sym == "nil" {
			ex.oblige(st, "safety", "nil-deref:"+what, False, pos)
		}
		return
	}
	g := Ne(p, Nil)
	for n, i := st.pc, 0; n != nil && i < 400; n, i = n.prev, i+1 {
		if n.t == g {
			return
		}
	}
	ex.oblige(st, "safety", "nil-deref:"+what, g, pos)
}

func (ex *Exec) execSimple(st *State, fr *Frame, in ssa.Instruction) {
	set := func(v ssa.Value, t *Term) { fr.env[v] = t }
	switch in := in.(type) {
	case *ssa.Alloc:
		t := derefT(in.Type())
		p := st.newObj()
		if _, ok := t.Underlying().(*types.Array); ok {
			p = arrAlloc(p, t)
		}
		st.zeroInit(p, t)
		set(in, p)
	case *ssa.UnOp:
		x := ex.val(st, fr, in.X)
		switch in.Op {
		case token.MUL:
			ex.nilCheck(st, x, in.Pos(), "load")
			v := st.load(x, derefT(in.X.Type()))
			if g, ok := in.X.(*ssa.Global); ok {
				if iv := ex.prog.globalInit(ex, g); iv != nil {
					v = iv
				}
			}
			ex.loadFacts(st, v, derefT(in.X.Type()))
			set(in, v)
		case token.NOT:
			set(in, Not(x))
		case token.SUB:
			if x.Sort == "Flt" {
				set(in, App("fneg", "Flt", x))
			} else {
				set(in, Neg(x))
			}
		case token.ARROW:
			t := in.X.Type().Underlying().(*types.Chan).Elem()
			v := ex.recvVal(st, x, t)
			if in.CommaOk {
				ok := Fresh("recvok", "Bool")
				if ex.prog.neverClosed(t) {
					ok = True
					ex.note("channels of " + typeKey(t) + " are never closed (no close in this repository)")
				}
				fr.tup[in] = []*Term{Ite(ok, v, zeroOf(t)), ok}
			} else {
				set(in, v)
			}
		case token.XOR:
			set(in, App("bitnot", "Int", x))
		default:
			unsupported("unop %s", in.Op)
		}
	case *ssa.BinOp:
		set(in, ex.binop(st, in.Op, ex.val(st, fr, in.X), ex.val(st, fr, in.Y), in.X.Type(), in.Pos()))
	case *ssa.FieldAddr:
		p := ex.val(st, fr, in.X)
		ex.nilCheck(st, p, in.Pos(), "field "+in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(in.Field).Name())
		set(in, subRef(p, fieldOf(derefT(in.X.Type()), in.Field)))
	case *ssa.Field:
		set(in, Sel(structSel(in.X.Type(), in.Field), ex.val(st, fr, in.X)))
	case *ssa.IndexAddr:
		x := ex.val(st, fr, in.X)
		i := ex.val(st, fr, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			ex.oblige(st, "safety", "index-in-range", And(Le(Num(0), i), Lt(i, Sel("slen_", x))), in.Pos())
			set(in, Ctor("elem", Sel("sbase", x), Add(Sel("soff", x), i)))
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			ex.nilCheck(st, x, in.Pos(), "index")
			ex.oblige(st, "safety", "index-in-range", And(Le(Num(0), i), Lt(i, Num(at.Len()))), in.Pos())
			set(in, Ctor("elem", x, i))
		}
	case *ssa.Index:
		x := ex.val(st, fr, in.X)
		i := ex.val(st, fr, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			ex.oblige(st, "safety", "index-in-range", And(Le(Num(0), i), Lt(i, Num(u.Len()))), in.Pos())
			v := Select(x, i)
			ex.loadFacts(st, v, u.Elem())
			set(in, v)
		case *types.Basic: // string index
			ex.oblige(st, "safety", "index-in-range", And(Le(Num(0), i), Lt(i, Slen(x))), in.Pos())
			v := Sat(x, i)
			if !v.isInt() {
				st.assume(And(Le(Num(0), v), Lt(v, Num(256))))
			}
			set(in, v)
		default:
			unsupported("index on %s", in.X.Type())
		}
	case *ssa.Lookup:
		x := ex.val(st, fr, in.X)
		i := ex.val(st, fr, in.Index)
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok {
			_ = b
			ex.oblige(st, "safety", "index-in-range", And(Le(Num(0), i), Lt(i, Slen(x))), in.Pos())
			v := Sat(x, i)
			if !v.isInt() {
				st.assume(And(Le(Num(0), v), Lt(v, Num(256))))
			}
			set(in, v)
			return
		}
		v, d := st.mapGet(in.X.Type(), x, i)
		ex.loadFacts(st, v, in.X.Type().Underlying().(*types.Map).Elem())
		if in.CommaOk {
			fr.tup[in] = []*Term{v, d}
		} else {
			set(in, v)
		}
	case *ssa.MapUpdate:
		m := ex.val(st, fr, in.Map)
		k := ex.val(st, fr, in.Key)
		v := ex.val(st, fr, in.Value)
		if m.Op != "ctor" {
			ex.oblige(st, "safety", "nil-map-write", Ne(m, Nil), in.Pos())
		} else if m == Nil {
			ex.oblige(st, "safety", "nil-map-write", False, in.Pos())
		}
		st.mapSet(in.Map.Type(), m, k, v)
	case *ssa.Store:
		p := ex.val(st, fr, in.Addr)
		ex.nilCheck(st, p, in.Pos(), "store")
		st.store(p, derefT(in.Addr.Type()), ex.val(st, fr, in.Val))
	case *ssa.MakeMap:
		set(in, st.newMap(in.Type()))
	case *ssa.MakeChan:
		p := st.newObj()
		set(in, p)
	case *ssa.MakeSlice:
		l := ex.val(st, fr, in.Len)
		c := ex.val(st, fr, in.Cap)
		ex.oblige(st, "safety", "makeslice-range", And(Le(Num(0), l), Le(l, c)), in.Pos())
		r := st.newObj()
		if isByteSlice(in.Type()) {
			z := App("zeros", "Str", c)
			st.assume(Eq(Slen(z), c))
			st.setBytes(r, z)
		} else {
			et := in.Type().Underlying().(*types.Slice).Elem()
			cn := elemComp(et)
			st.wr(cn, r, ConstArr(ArrSort("Int", sortOf(et)), zeroOf(et)))
		}
		set(in, mkSlice(r, Num(0), l, c))
	case *ssa.MakeInterface:
		set(in, makeIface(ex.val(st, fr, in.X), in.X.Type()))
	case *ssa.ChangeInterface:
		set(in, ex.val(st, fr, in.X))
	case *ssa.ChangeType:
		set(in, ex.convStruct(ex.val(st, fr, in.X), in.X.Type(), in.Type()))
	case *ssa.Convert:
		set(in, ex.convert(st, ex.val(st, fr, in.X), in.X.Type(), in.Type()))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, ex.val(st, fr, b))
		}
		set(in, ex.prog.fnTerm(in.Fn.(*ssa.Function), bs))
	case *ssa.Extract:
		tp, ok := fr.tup[in.Tuple]
		if !ok {
			panic("extract from unbound tuple")
		}
		set(in, tp[in.Index])
	case *ssa.Range:
		x := ex.val(st, fr, in.X)
		id := Fresh("iter", "Int")
		it := &iterInfo{m: x}
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			it.mt = mt
			it.dom0 = st.mapDom(in.X.Type(), x)
			it.visited = ConstArr(ArrSort(sortOf(mt.Key()), "Bool"), False)
		} else {
			it.isStr = true
		}
		it.pos = Num(0)
		st.iters[id.Sym] = it
		set(in, id)
	case *ssa.Send:
		ch := ex.val(st, fr, in.Chan)
		v := ex.val(st, fr, in.X)
		ex.sendVal(st, ch, v, in.X.Type(), in.Pos())
	default:
		unsupported("instruction %T in %s", in, fr.fn)
	}
}

func (ex *Exec) convStruct(v *Term, from, to types.Type) *Term {
	if isStruct(from) && v.Sort != sortOf(to) {
		u := from.Underlying().(*types.Struct)
		var vs []*Term
		for i := 0; i < u.NumFields(); i++ {
			vs = append(vs, Sel(structSel(from, i), v))
		}
		return structMk(to, vs)
	}
	return v
}

// loadFacts assumes the well-formedness of a value read from the heap.
func (ex *Exec) loadFacts(st *State, v *Term, t types.Type) {
	switch v.Op {
	case "ctor", "int", "str", "fltlit", "true", "false":
		return
	}
	w := valWF(v, t, st.alloc)
	st.assume(w)
}

func (ex *Exec) binop(st *State, op token.Token, x, y *Term, t types.Type, pos token.Pos) *Term {
	switch x.Sort {
	case "Int":
		switch op {
		case token.ADD:
			return Add(x, y)
		case token.SUB:
			return Sub(x, y)
		case token.MUL:
			return Mul(x, y)
		case token.QUO:
			ex.oblige(st, "safety", "div-by-zero", Ne(y, Num(0)), pos)
			return Quo(x, y)
		case token.REM:
			ex.oblige(st, "safety", "div-by-zero", Ne(y, Num(0)), pos)
			return Rem(x, y)
		case token.EQL:
			return Eq(x, y)
		case token.NEQ:
			return Ne(x, y)
		case token.LSS:
			return Lt(x, y)
		case token.LEQ:
			return Le(x, y)
		case token.GTR:
			return Gt(x, y)
		case token.GEQ:
			return Ge(x, y)
		case token.SHL:
			if y.isInt() && y.Int.IsInt64() && y.Int.Int64() < 63 && y.Int.Sign() >= 0 {
				return Mul(x, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(y.Int.Int64()))))
			}
		}
		return App("intop:"+op.String(), "Int", x, y)
	case "Flt":
		switch op {
		case token.ADD, token.MUL:
			if x.ID > y.ID {
				x, y = y, x
			}
			return App("f"+op.String(), "Flt", x, y)
		case token.SUB, token.QUO:
			return App("f"+op.String(), "Flt", x, y)
		case token.EQL:
			return App("feq", "Bool", x, y)
		case token.NEQ:
			return Not(App("feq", "Bool", x, y))
		case token.LSS:
			return App("flt", "Bool", x, y)
		case token.GTR:
			return App("flt", "Bool", y, x)
		case token.LEQ:
			return App("fle", "Bool", x, y)
		case token.GEQ:
			return App("fle", "Bool", y, x)
		}
	case "Str":
		switch op {
		case token.ADD:
			return Cat(x, y)
		case token.EQL:
			return Eq(x, y)
		case token.NEQ:
			return Ne(x, y)
		case token.LSS:
			return strLess(x, y)
		case token.GTR:
			return strLess(y, x)
		case token.LEQ:
			return Not(strLess(y, x))
		case token.GEQ:
			return Not(strLess(x, y))
		}
	case "Bool":
		switch op {
		case token.EQL:
			return Eq(x, y)
		case token.NEQ:
			return Ne(x, y)
		case token.AND:
			return And(x, y)
		case token.OR:
			return Or(x, y)
		}
	case "Iface":
		if y.Sort != "Iface" {
			y = makeIface(y, t)
		}
		switch op {
		case token.EQL:
			return Eq(x, y)
		case token.NEQ:
			return Ne(x, y)
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		if y.Sort == "Iface" {
			x = makeIface(x, t)
		}
		var r *Term
		if x.Sort == "Slice" { // only comparison with nil is legal
			o := x
			if x == NilSlice {
				o = y
			}
			r = Eq(Sel("sbase", o), Nil)
		} else {
			r = Eq(x, y)
		}
		if op == token.NEQ {
			return Not(r)
		}
		return r
	}
	unsupported("binop %s on %s", op, x.Sort)
	return nil
}

func strLess(x, y *Term) *Term {
	if x.isLit() && y.isLit() {
		return Bool(x.Sym < y.Sym)
	}
	if x == y {
		return False
	}
	return App("strless", "Bool", x, y)
}

func intBits(b *types.Basic) (bits int, signed bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int64, types.Int:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

func (ex *Exec) convert(st *State, x *Term, from, to types.Type) *Term {
	fs, ts := sortOf(from), sortOf(to)
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case fs == "Int" && ts == "Int":
		n1, s1 := intBits(fb)
		n2, s2 := intBits(tb)
		if n2 > n1 && (s2 || !s1) || n1 == n2 && s1 == s2 {
			return x
		}
		mod := new(big.Int).Lsh(big.NewInt(1), uint(n2))
		if x.isInt() {
			v := new(big.Int).Mod(x.Int, mod)
			if s2 && v.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(n2-1))) >= 0 {
				v.Sub(v, mod)
			}
			return BigInt(v)
		}
		if n1 == n2 && !s2 { // int64 -> uint64
			return Ite(Le(Num(0), x), x, Add(x, BigInt(mod)))
		}
		if n1 == n2 && s2 {
			half := new(big.Int).Lsh(big.NewInt(1), uint(n2-1))
			return Ite(Lt(x, BigInt(half)), x, Sub(x, BigInt(mod)))
		}
		m := modE(x, BigInt(mod))
		if !s2 {
			return m
		}
		half := new(big.Int).Lsh(big.NewInt(1), uint(n2-1))
		return Ite(Lt(m, BigInt(half)), m, Sub(m, BigInt(mod)))
	case fs == "Int" && ts == "Flt":
		if x.isInt() {
			return FltLit(fltName(constant.Make(x.Int)))
		}
		return App("i2f", "Flt", x)
	case fs == "Flt" && ts == "Int":
		return App("f2i", "Int", x)
	case fs == "Flt" && ts == "Flt":
		return x
	case fs == "Str" && ts == "Str":
		return x
	case fs == "Int" && ts == "Str":
		return runeStr(x)
	case fs == "Str" && ts == "Slice":
		if isByteSlice(to) {
			return st.newBytes(x)
		}
		r := st.newObj()
		n := App("runelen", "Int", x)
		st.assume(Le(Num(0), n))
		et := to.Underlying().(*types.Slice).Elem()
		st.wr(elemComp(et), r, App("runes", ArrSort("Int", "Int"), x))
		return mkSlice(r, Num(0), n, n)
	case fs == "Slice" && ts == "Str":
		if isByteSlice(from) {
			return st.byteSlice(x)
		}
		et := from.Underlying().(*types.Slice).Elem()
		return App("runes2str", "Str", st.sliceArr(Sel("sbase", x), et), Sel("soff", x), Sel("slen_", x))
	case fs == ts:
		return x
	}
	unsupported("convert %s -> %s", from, to)
	return nil
}

// runeStr is string(rune).
func runeStr(r *Term) *Term {
	if r.isInt() && r.Int.IsInt64() {
		return Lit(string(rune(r.Int.Int64())))
	}
	return App("runestr", "Str", r)
}

func (ex *Exec) execSlice(st *State, fr *Frame, in *ssa.Slice) {
	x := ex.val(st, fr, in.X)
	lo, hi := Num(0), (*Term)(nil)
	if in.Low != nil {
		lo = ex.val(st, fr, in.Low)
	}
	if in.High != nil {
		hi = ex.val(st, fr, in.High)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		if hi == nil {
			hi = Slen(x)
		}
		ex.oblige(st, "safety", "slice-range", And(Le(Num(0), lo), Le(lo, hi), Le(hi, Slen(x))), in.Pos())
		fr.env[in] = Substr(x, lo, Sub(hi, lo))
	case *types.Slice:
		cp := Sel("scap", x)
		if hi == nil {
			hi = Sel("slen_", x)
		}
		if in.Max != nil {
			cp = ex.val(st, fr, in.Max)
		}
		ex.oblige(st, "safety", "slice-range", And(Le(Num(0), lo), Le(lo, hi), Le(hi, cp)), in.Pos())
		fr.env[in] = mkSlice(Sel("sbase", x), Add(Sel("soff", x), lo), Sub(hi, lo), Sub(cp, lo))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		if hi == nil {
			hi = Num(at.Len())
		}
		ex.nilCheck(st, x, in.Pos(), "slice")
		ex.oblige(st, "safety", "slice-range", And(Le(Num(0), lo), Le(lo, hi), Le(hi, Num(at.Len()))), in.Pos())
		if bt, ok := at.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
			// byte array: move to a byte backing store
			r := st.newObj()
			z := App("zeros", "Str", Num(at.Len()))
			st.assume(Eq(Slen(z), Num(at.Len())))
			st.setBytes(r, z)
			fr.env[in] = mkSlice(r, lo, Sub(hi, lo), Sub(Num(at.Len()), lo))
			return
		}
		fr.env[in] = mkSlice(x, lo, Sub(hi, lo), Sub(Num(at.Len()), lo))
	default:
		unsupported("slice of %s", in.X.Type())
	}
}

func (ex *Exec) execTypeAssert(st *State, fr *Frame, in *ssa.TypeAssert) []Outcome {
	x := ex.val(st, fr, in.X)
	t := in.AssertedType
	if _, ok := t.Underlying().(*types.Interface); ok {
		// interface-to-interface
		okT := ex.implements(st, x, t)
		if in.CommaOk {
			return ret(st, Ite(okT, x, INil), okT)
		}
		ex.oblige(st, "safety", "type-assert", okT, in.Pos())
		return ret(st, x)
	}
	c := ifaceHasType(x, t)
	v := unIface(x, t)
	if in.CommaOk {
		if c == True {
			return ret(st, v, True)
		}
		if c == False {
			return ret(st, zeroOf(t), False)
		}
		ex.ifaceFacts(st, x)
		return ret(st, Ite(c, v, zeroOf(t)), c)
	}
	ex.oblige(st, "safety", "type-assert", c, in.Pos())
	return ret(st, v)
}

func (ex *Exec) ifaceFacts(st *State, x *Term) {
	if x.Op != "ctor" {
		st.assume(Lt(Rid(Sel("iref", x)), st.alloc))
	}
}

func (ex *Exec) implements(st *State, x *Term, t types.Type) *Term {
	if x.Op == "ctor" && x.Sym != "inil" && x.Args[0].isInt() {
		if dt := tagType[x.Args[0].Int.Int64()]; dt != nil {
			return Bool(types.Implements(dt, t.Underlying().(*types.Interface)))
		}
	}
	if x == INil {
		return False
	}
	if it := t.Underlying().(*types.Interface); it.NumMethods() == 0 {
		return Ne(x, INil)
	}
	return And(Ne(x, INil), App("implements:"+typeKey(t), "Bool", Ite(Is("iptr", x), Sel("itag", x), Sel("btag", x))))
}

// ---- iteration

func (ex *Exec) execNext(st *State, fr *Frame, in *ssa.Next) []Outcome {
	id := ex.val(st, fr, in.Iter)
	it := *st.iters[id.Sym]
	if in.IsString {
		n := Slen(it.m)
		okc := Lt(it.pos, n)
		mkOK := func(s *State) Outcome {
			i2 := it
			r := App("runeat", "Int", it.m, it.pos)
			w := App("runew", "Int", it.m, it.pos)
			s.assume(And(Le(Num(1), w), Le(w, Num(4)), Le(Add(it.pos, w), n), Le(Num(0), r)))
			// an ASCII byte is its own rune, and nothing else decodes to one
			b := Sat(it.m, it.pos)
			s.assume(Eq(Lt(r, Num(128)), Lt(b, Num(128))))
			s.assume(Implies(Lt(b, Num(128)), And(Eq(r, b), Eq(w, Num(1)))))
			s.assume(Implies(Lt(b, Num(128)), Eq(App("runestr", "Str", r), Chr(b))))
			i2.pos = Add(it.pos, w)
			i2.cnt = Add(it.count(), Num(1))
			s.assume(Eq(App("runepos", "Int", it.m, it.count()), it.pos))
			s.assume(Eq(App("runepos", "Int", it.m, i2.cnt), i2.pos))
			s.assume(Lt(it.count(), App("runecount", "Int", it.m)))
			s.iters[id.Sym] = &i2
			return Outcome{st: s, kind: oReturn, vals: []*Term{True, it.pos, r}}
		}
		mkEnd := func(s *State) Outcome {
			i2 := it
			i2.done = true
			s.assume(Eq(it.count(), App("runecount", "Int", it.m)))
			s.iters[id.Sym] = &i2
			return Outcome{st: s, kind: oReturn, vals: []*Term{False, Num(0), Num(0)}}
		}
		if okc == True {
			return []Outcome{mkOK(st)}
		}
		if okc == False {
			return []Outcome{mkEnd(st)}
		}
		s2 := st.clone()
		st.assume(okc)
		s2.assume(Not(okc))
		return []Outcome{mkOK(st), mkEnd(s2)}
	}
	dom := st.mapDom(it.mt, it.m)
	val := func(k *Term) *Term { v, _ := st.mapGet(it.mt, it.m, k); return v }
	ks := sortOf(it.mt.Key())
	var outs []Outcome
	// concrete small domain? (e.g. a literal map) — handled by the general case
	// end of iteration
	se := st.clone()
	kk := BVar("k", ks)
	done := Forall([]*Term{kk}, Implies(And(Select(dom, kk), Select(it.dom0, kk)), Select(it.visited, kk)))
	if dom == it.dom0 {
		done = Forall([]*Term{kk}, Implies(Select(dom, kk), Select(it.visited, kk)))
	}
	se.assume(done)
	ie := it
	ie.done = true
	se.iters[id.Sym] = &ie
	// next element
	k := Fresh("key", ks)
	sn := st.clone()
	sn.assume(And(Select(dom, k), Not(Select(it.visited, k))))
	sn.assume(valWF(k, it.mt.Key(), sn.alloc))
	sn.assume(Lt(Num(0), Card(dom)))
	in2 := it
	in2.visited = Store(it.visited, k, True)
	in2.pos = Add(it.pos, Num(1))
	in2.key = k
	sn.iters[id.Sym] = &in2
	v := val(k)
	ex.loadFacts(sn, v, it.mt.Elem())
	tp := in.Type().(*types.Tuple)
	kz, vz := Num(0), Num(0)
	if tp.At(1).Type() != types.Typ[types.Invalid] {
		kz = zeroOf(it.mt.Key())
	}
	if tp.At(2).Type() != types.Typ[types.Invalid] {
		vz = zeroOf(it.mt.Elem())
	}
	// feasibility of a next element
	if ex.feasible(sn, True) && !(dom.Op == "constarr" && dom.Args[0] == False) {
		outs = append(outs, Outcome{st: sn, kind: oReturn, vals: []*Term{True, k, v}})
	}
	outs = append(outs, Outcome{st: se, kind: oReturn, vals: []*Term{False, kz, vz}})
	return outs
}

// ---- builtins

func (ex *Exec) builtin(st *State, fr *Frame, b *ssa.Builtin, cc *ssa.CallCommon, args []*Term, pos token.Pos) []Outcome {
	switch b.Name() {
	case "len", "cap":
		t := cc.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Basic:
			n := Slen(args[0])
			return ret(st, n)
		case *types.Slice:
			if b.Name() == "cap" {
				return ret(st, Sel("scap", args[0]))
			}
			return ret(st, Sel("slen_", args[0]))
		case *types.Map:
			d := st.mapDom(t, args[0])
			n := Card(d)
			st.assume(Le(Num(0), n))
			return ret(st, n)
		case *types.Array:
			return ret(st, Num(u.Len()))
		case *types.Pointer:
			return ret(st, Num(u.Elem().Underlying().(*types.Array).Len()))
		case *types.Chan:
			v := Fresh("chanlen", "Int")
			st.assume(Le(Num(0), v))
			return ret(st, v)
		}
	case "append":
		return ex.appendSlice(st, cc, args, pos)
	case "copy":
		return ex.copySlice(st, cc, args)
	case "delete":
		st2 := st
		if args[0] != Nil {
			st2.mapDelete(cc.Args[0].Type(), args[0], args[1])
		}
		return ret(st2)
	case "recover":
		if fr.viaDef && st.panicV != nil {
			v := st.panicV
			st.panicV = nil
			return ret(st, v)
		}
		return ret(st, INil)
	case "print", "println":
		ex.event(st, "print", nil)
		return ret(st)
	case "close":
		ex.event(st, "close", []*Term{args[0]})
		return ret(st)
	case "ssa:wrapnilchk":
		ex.nilCheck(st, args[0], pos, "receiver")
		return ret(st, args[0])
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if r.Sort != "Int" {
				unsupported("min/max on %s", r.Sort)
			}
			if b.Name() == "min" {
				r = Ite(Le(r, a), r, a)
			} else {
				r = Ite(Le(a, r), r, a)
			}
		}
		return ret(st, r)
	case "clear":
		if key, mt := mapKeyOK(cc.Args[0].Type()); key != "" {
			ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
			st.wr("MD|"+key, args[0], ConstArr(ArrSort(ks, "Bool"), False))
			st.wr("MV|"+key, args[0], ConstArr(ArrSort(ks, vs), zeroOf(mt.Elem())))
			return ret(st)
		}
	}
	unsupported("builtin %s", b.Name())
	return nil
}

func mapKeyOK(t types.Type) (string, *types.Map) {
	if _, ok := t.Underlying().(*types.Map); !ok {
		return "", nil
	}
	return mapKey(t)
}

// appendSlice models append(s, t...).
func (ex *Exec) appendSlice(st *State, cc *ssa.CallCommon, args []*Term, pos token.Pos) []Outcome {
	s, t := args[0], args[1]
	typ := cc.Args[0].Type()
	if isByteSlice(typ) {
		var add *Term
		if t.Sort == "Str" {
			add = t
		} else {
			add = st.byteSlice(t)
		}
		return ex.appendBytes(st, s, add)
	}
	et := typ.Underlying().(*types.Slice).Elem()
	n := Sel("slen_", t)
	if n.isInt() && n.Int.Sign() == 0 {
		return ret(st, s)
	}
	sl, sc, so, sb := Sel("slen_", s), Sel("scap", s), Sel("soff", s), Sel("sbase", s)
	write := func(st *State, arr *Term, at *Term) *Term {
		tb, to := Sel("sbase", t), Sel("soff", t)
		src := st.sliceArr(tb, et)
		if n.isInt() {
			for i := int64(0); i < n.Int.Int64(); i++ {
				arr = Store(arr, Add(at, Num(i)), Select(src, Add(to, Num(i))))
			}
			return arr
		}
		na := Fresh("app", arr.Sort)
		i := BVar("i", "Int")
		st.assume(Forall([]*Term{i}, Eq(Select(na, i), Ite(And(Le(at, i), Lt(i, Add(at, n))), Select(src, Add(Sub(i, at), to)), Select(arr, i))), []*Term{mk("select", mustVal(na.Sort), "", na, i)}))
		return na
	}
	fits := Le(Add(sl, n), sc)
	var outs []Outcome
	mkIn := func(st *State) {
		c := elemComp(et)
		_ = c
		arr := st.sliceArr(sb, et)
		arr = write(st, arr, Add(so, sl))
		if at := arrBase(sb); at != nil {
			st.store(sb, at, arr)
		} else {
			st.wr(elemComp(et), sb, arr)
		}
		outs = append(outs, Outcome{st: st, kind: oReturn, vals: []*Term{mkSlice(sb, so, Add(sl, n), sc)}})
	}
	mkNew := func(st *State) {
		r := st.newObj()
		var arr *Term
		if sl.isInt() && sl.Int.Sign() == 0 {
			arr = ConstArr(ArrSort("Int", sortOf(et)), zeroOf(et))
		} else if so.isInt() && so.Int.Sign() == 0 {
			arr = st.sliceArr(sb, et)
		} else {
			old := st.sliceArr(sb, et)
			na := Fresh("grow", old.Sort)
			i := BVar("i", "Int")
			st.assume(Forall([]*Term{i}, Eq(Select(na, i), Select(old, Add(so, i))), []*Term{mk("select", mustVal(na.Sort), "", na, i)}))
			arr = na
		}
		arr = write(st, arr, sl)
		st.wr(elemComp(et), r, arr)
		nc := Fresh("cap", "Int")
		st.assume(Ge(nc, Add(sl, n)))
		outs = append(outs, Outcome{st: st, kind: oReturn, vals: []*Term{mkSlice(r, Num(0), Add(sl, n), nc)}})
	}
	if fits == False || sb == Nil {
		mkNew(st)
		return outs
	}
	if fits == True {
		mkIn(st)
		return outs
	}
	f1 := ex.feasible(st, fits)
	f2 := ex.feasible(st, Not(fits))
	if f1 && f2 {
		s2 := st.clone()
		st.assume(fits)
		s2.assume(Not(fits))
		mkIn(st)
		mkNew(s2)
	} else if f1 {
		mkIn(st)
	} else if f2 {
		mkNew(st)
	}
	return outs
}

func (ex *Exec) appendBytes(st *State, s, add *Term) []Outcome {
	sl, sc, so, sb := Sel("slen_", s), Sel("scap", s), Sel("soff", s), Sel("sbase", s)
	old := st.byteSlice(s)
	n := Slen(add)
	fits := Le(Add(sl, n), sc)
	var outs []Outcome
	mkNew := func(st *State) {
		r := st.newObj()
		nc := Fresh("cap", "Int")
		tail := Fresh("tail", "Str")
		st.setBytes(r, Cat(old, add, tail))
		st.assume(And(Ge(nc, Add(sl, n)), Eq(Slen(tail), Sub(nc, Add(sl, n)))))
		outs = append(outs, Outcome{st: st, kind: oReturn, vals: []*Term{mkSlice(r, Num(0), Add(sl, n), nc)}})
	}
	mkIn := func(st *State) {
		b := st.bytesAt(sb)
		tail := Substr(b, Add(so, sl, n), Sub(Slen(b), Add(so, sl, n)))
		st.setBytes(sb, Cat(Substr(b, Num(0), Add(so, sl)), add, tail))
		outs = append(outs, Outcome{st: st, kind: oReturn, vals: []*Term{mkSlice(sb, so, Add(sl, n), sc)}})
	}
	if fits == False || sb == Nil {
		mkNew(st)
		return outs
	}
	if fits == True {
		mkIn(st)
		return outs
	}
	f1 := ex.feasible(st, fits)
	f2 := ex.feasible(st, Not(fits))
	if f1 && f2 {
		s2 := st.clone()
		st.assume(fits)
		s2.assume(Not(fits))
		mkIn(st)
		mkNew(s2)
	} else if f1 {
		mkIn(st)
	} else {
		mkNew(st)
	}
	return outs
}

func (ex *Exec) copySlice(st *State, cc *ssa.CallCommon, args []*Term) []Outcome {
	d, s := args[0], args[1]
	dl := Sel("slen_", d)
	if s.Sort == "Str" || isByteSlice(cc.Args[1].Type()) {
		var src *Term
		if s.Sort == "Str" {
			src = s
		} else {
			src = st.byteSlice(s)
		}
		n := Ite(Le(dl, Slen(src)), dl, Slen(src))
		db, do := Sel("sbase", d), Sel("soff", d)
		b := st.bytesAt(db)
		st.setBytes(db, Cat(Substr(b, Num(0), do), Substr(src, Num(0), n), Substr(b, Add(do, n), Sub(Slen(b), Add(do, n)))))
		return ret(st, n)
	}
	sl := Sel("slen_", s)
	n := Ite(Le(dl, sl), dl, sl)
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	src := st.sliceArr(Sel("sbase", s), et)
	dst := st.sliceArr(Sel("sbase", d), et)
	so, do := Sel("soff", s), Sel("soff", d)
	na := Fresh("copy", dst.Sort)
	i := BVar("i", "Int")
	st.assume(Forall([]*Term{i}, Eq(Select(na, i), Ite(And(Le(do, i), Lt(i, Add(do, n))), Select(src, Add(Sub(i, do), so)), Select(dst, i))), []*Term{mk("select", mustVal(na.Sort), "", na, i)}))
	if at := arrBase(Sel("sbase", d)); at != nil {
		st.store(Sel("sbase", d), at, na)
	} else {
		st.wr(elemComp(et), Sel("sbase", d), na)
	}
	return ret(st, n)
}
