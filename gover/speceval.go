package main

// Evaluation of contract expressions over symbolic states.

import (
	"reflect"
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// SVal is a value of the contract language.
type SVal struct {
	t     *Term
	ty    types.Type // may be nil for ghost values
	addr  *Term      // address of a struct (t then loaded on demand)
	undef bool
	isNil bool
}

type Env struct {
	ex   *Exec
	st   *State
	old  *State
	vars map[string]SVal
	dep  int
}

func (e *Env) with(st *State) *Env {
	n := *e
	n.st = st
	return &n
}

func (e *Env) bind(n string, v SVal) *Env {
	c := *e
	c.vars = make(map[string]SVal, len(e.vars)+1)
	for k, x := range e.vars {
		c.vars[k] = x
	}
	c.vars[n] = v
	return &c
}

// ---- types

var (
	rtMu    sync.Mutex
	rtCache = map[string]types.Type{}
)

// rawSort: ghost sorts usable in quantifiers.
func rawSort(s string) (Sort, bool) {
	switch s {
	case "Ref", "Slice", "Iface", "Flt", "Time", "Fn", "Ev":
		return s, true
	case "intarr": // the elements of an integer slice's backing array
		return ArrSort("Int", "Int"), true
	case "strset": // the keys of a map[string]T
		return ArrSort("Str", "Bool"), true
	case "strmap": // the values of a map[string]string
		return ArrSort("Str", "Str"), true
	}
	if strings.HasPrefix(s, "set[") {
		return "", true
	}
	return "", false
}

func (P *Program) resolveType(s string) types.Type {
	s = strings.ReplaceAll(strings.TrimSpace(s), " ", "")
	rtMu.Lock()
	if t, ok := rtCache[s]; ok {
		rtMu.Unlock()
		return t
	}
	rtMu.Unlock()
	t := P.resolveType1(s)
	rtMu.Lock()
	rtCache[s] = t
	rtMu.Unlock()
	return t
}

func (P *Program) resolveType1(s string) types.Type {
	switch s {
	case "int":
		return types.Typ[types.Int]
	case "int64":
		return types.Typ[types.Int64]
	case "string":
		return types.Typ[types.String]
	case "bool":
		return types.Typ[types.Bool]
	case "float64":
		return types.Typ[types.Float64]
	case "byte", "uint8":
		return types.Typ[types.Uint8]
	case "uint64":
		return types.Typ[types.Uint64]
	case "uint32":
		return types.Typ[types.Uint32]
	case "uint16":
		return types.Typ[types.Uint16]
	case "uintptr":
		return types.Typ[types.Uintptr]
	case "rune", "int32":
		return types.Typ[types.Int32]
	case "error":
		return types.Universe.Lookup("error").Type()
	case "any", "interface{}":
		return types.NewInterfaceType(nil, nil)
	}
	switch {
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(P.resolveType(s[1:]))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(P.resolveType(s[2:]))
	case strings.HasPrefix(s, "map["):
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					return types.NewMap(P.resolveType(s[4:i]), P.resolveType(s[i+1:]))
				}
			}
		}
	case strings.HasPrefix(s, "["):
		i := strings.Index(s, "]")
		var n int64
		fmt.Sscanf(s[1:i], "%d", &n)
		return types.NewArray(P.resolveType(s[i+1:]), n)
	case strings.HasPrefix(s, "chan"):
		return types.NewChan(types.SendRecv, P.resolveType(s[4:]))
	}
	if i := strings.LastIndex(s, "."); i > 0 {
		if p := P.tpkgs[s[:i]]; p != nil {
			if o := p.Scope().Lookup(s[i+1:]); o != nil {
				return o.Type()
			}
		}
	}
	serr("unknown type %q", s)
	return nil
}

func (P *Program) specSort(s string) (Sort, types.Type) {
	s = strings.ReplaceAll(strings.TrimSpace(s), " ", "")
	if strings.HasPrefix(s, "set[") {
		ks, _ := P.specSort(s[4 : len(s)-1])
		return ArrSort(ks, "Bool"), nil
	}
	if strings.HasPrefix(s, "arr[") {
		i := strings.Index(s, "]")
		ks, _ := P.specSort(s[4:i])
		vs, _ := P.specSort(s[i+1:])
		return ArrSort(ks, vs), nil
	}
	if so, ok := rawSort(s); ok {
		return so, nil
	}
	t := P.resolveType(s)
	return sortOf(t), t
}

// ---- evaluation

// undefErr: a subterm has no value on this path (a snapshot or ghost that was never set).
type undefErr struct{}

func (e *Env) val(v SVal) *Term {
	if v.t == nil {
		if v.undef {
			panic(undefErr{})
		}
		if v.addr != nil {
			return e.st.load(v.addr, v.ty)
		}
		if v.isNil {
			return Nil
		}
		serr("no value")
	}
	return v.t
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tStr = types.Typ[types.String]

func sv(t *Term, ty types.Type) SVal { return SVal{t: t, ty: ty} }

// evalBool evaluates a formula.
func (e *Env) evalBool(x *Expr) (r *Term) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(undefErr); ok {
				r = Fresh("undef", "Bool")
				return
			}
			panic(p)
		}
	}()
	v := e.eval(x)
	if v.undef {
		return Fresh("undef", "Bool")
	}
	t := e.val(v)
	if t.Sort != "Bool" {
		serr("not a formula: %s", exprStr(x))
	}
	return t
}

func exprStr(x *Expr) string {
	if x == nil {
		return "<nil>"
	}
	if x.src != "" {
		return x.src
	}
	var as []string
	for _, a := range x.args {
		as = append(as, exprStr(a))
	}
	switch x.op {
	case "id", "str":
		return x.name
	case "int":
		return x.ival
	}
	return x.op + ":" + x.name + "(" + strings.Join(as, ", ") + ")"
}

func (e *Env) eval(x *Expr) SVal {
	switch x.op {
	case "int":
		b, _ := new(big.Int).SetString(x.ival, 10)
		return sv(BigInt(b), tInt)
	case "str":
		return sv(Lit(x.name), tStr)
	case "id":
		return e.ident(x.name)
	case "un":
		v := e.eval(x.args[0])
		if v.undef {
			return v
		}
		t := e.val(v)
		if x.name == "!" {
			return sv(Not(t), tBool)
		}
		if t.Sort == "Flt" {
			return sv(App("fneg", "Flt", t), v.ty)
		}
		return sv(Neg(t), v.ty)
	case "bin":
		return e.bin(x)
	case "ite":
		c := e.evalBool(x.args[0])
		if c == True {
			return e.eval(x.args[1])
		}
		if c == False {
			return e.eval(x.args[2])
		}
		a, b := e.eval(x.args[1]), e.eval(x.args[2])
		if a.undef || b.undef {
			return SVal{undef: true}
		}
		if a.isNil {
			a = nilLike(b)
		}
		if b.isNil {
			b = nilLike(a)
		}
		return sv(Ite(c, e.val(a), e.val(b)), a.ty)
	case "let":
		return e.bind(x.name, e.eval(x.args[0])).eval(x.args[1])
	case "quant":
		n := e
		var bs []*Term
		var wf []*Term
		for _, q := range x.vars {
			so, ty := e.ex.prog.specSort(q.typ)
			b := BVar(q.name, so)
			bs = append(bs, b)
			n = n.bind(q.name, sv(b, ty))
		}
		body := n.evalBool(x.args[0])
		if x.name == "forall" {
			body = Implies(And(wf...), body)
			return sv(mkForall(bs, body), tBool)
		}
		return sv(Not(mkForall(bs, Not(And(append(wf, body)...)))), tBool)
	case "field":
		return e.field(x)
	case "index":
		b := e.eval(x.args[0])
		i := e.eval(x.args[1])
		if b.undef || i.undef {
			return SVal{undef: true}
		}
		return e.index(b, e.val(i))
	case "call":
		return e.call(x)
	}
	serr("eval %s", x.op)
	return SVal{}
}

// mkForall builds a quantifier with a pattern chosen from the body when possible.
func mkForall(bs []*Term, body *Term) *Term {
	return Forall(bs, body)
}

func nilLike(o SVal) SVal {
	if o.isNil {
		return sv(Nil, nil)
	}
	s := ""
	if o.t != nil {
		s = o.t.Sort
	} else if o.ty != nil {
		s = sortOf(o.ty)
	}
	return sv(zeroOfSort(s), o.ty)
}

func (e *Env) ident(n string) SVal {
	if v, ok := e.vars[n]; ok {
		return v
	}
	switch n {
	case "nil":
		return SVal{isNil: true}
	case "true":
		return sv(True, tBool)
	case "false":
		return sv(False, tBool)
	}
	if p := e.ex.prog.spec.preds[n]; p != nil && len(p.params) == 0 {
		return e.applyPred(p, nil)
	}
	serr("unknown identifier %s", n)
	return SVal{}
}

func (e *Env) pkgMember(pkg, name string) (SVal, bool) {
	p := e.ex.prog.tpkgs[pkg]
	if p == nil {
		return SVal{}, false
	}
	switch o := p.Scope().Lookup(name).(type) {
	case *types.Const:
		return sv(constVal(ssa.NewConst(o.Val(), o.Type())), o.Type()), true
	case *types.Func:
		if f := e.ex.prog.prog.FuncValue(o); f != nil {
			return sv(e.ex.prog.fnTerm(f, nil), o.Type()), true
		}
	case *types.Var:
		g := e.ex.prog.globalByName(pkg, name)
		if g != nil {
			r := e.ex.prog.globalRef(g)
			if iv := e.ex.prog.globalInit(e.ex, g); iv != nil {
				return sv(iv, o.Type()), true
			}
			if isStruct(o.Type()) {
				return SVal{addr: r, ty: o.Type()}, true
			}
			return sv(e.st.load(r, o.Type()), o.Type()), true
		}
	}
	return SVal{}, false
}

func (P *Program) globalByName(pkg, name string) *ssa.Global {
	for _, p := range P.prog.AllPackages() {
		if shortPkg(p.Pkg.Path()) == pkg {
			if g, ok := p.Members[name].(*ssa.Global); ok {
				return g
			}
		}
	}
	return nil
}

func pkgOfType(t types.Type) *types.Package {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (e *Env) field(x *Expr) SVal {
	if x.args[0].op == "id" {
		if _, ok := e.vars[x.args[0].name]; !ok {
			if v, ok := e.pkgMember(x.args[0].name, x.name); ok {
				return v
			}
		}
	}
	b := e.eval(x.args[0])
	if b.undef {
		return b
	}
	return e.fieldOf(b, x.name)
}

func (e *Env) fieldOf(b SVal, name string) SVal {
	if b.ty == nil {
		serr("field %s of untyped value", name)
	}
	o, idx, _ := types.LookupFieldOrMethod(b.ty, true, pkgOfType(b.ty), name)
	if _, ok := o.(*types.Var); !ok || o == nil {
		serr("no field %s in %s", name, b.ty)
	}
	cur := b
	for _, i := range idx {
		cur = e.step(cur, i)
	}
	return cur
}

func (e *Env) step(b SVal, i int) SVal {
	t := b.ty
	var addr *Term
	if p, ok := t.Underlying().(*types.Pointer); ok {
		addr = e.val(b)
		t = p.Elem()
	} else if b.addr != nil {
		addr = b.addr
	}
	ft := t.Underlying().(*types.Struct).Field(i).Type()
	if addr != nil {
		f := fieldOf(t, i)
		a := subRef(addr, f)
		if isStruct(ft) {
			return SVal{addr: a, ty: ft}
		}
		return SVal{t: e.st.load(a, ft), ty: ft, addr: a}
	}
	return sv(Sel(structSel(t, i), b.t), ft)
}

func (e *Env) index(b SVal, i *Term) SVal {
	if b.ty != nil {
		switch u := b.ty.Underlying().(type) {
		case *types.Map:
			v, _ := e.st.mapGet(b.ty, e.val(b), i)
			return sv(v, u.Elem())
		case *types.Slice:
			s := e.val(b)
			if isByteSlice(b.ty) {
				return sv(Sat(e.st.bytesAt(Sel("sbase", s)), Add(Sel("soff", s), i)), u.Elem())
			}
			return sv(Select(e.st.sliceArr(Sel("sbase", s), u.Elem()), Add(Sel("soff", s), i)), u.Elem())
		case *types.Array:
			return sv(Select(e.val(b), i), u.Elem())
		case *types.Basic:
			return sv(Sat(e.val(b), i), tInt)
		}
	}
	t := e.val(b)
	if strings.HasPrefix(t.Sort, "(Array ") {
		return sv(Select(t, i), nil)
	}
	if t.Sort == "Str" {
		return sv(Sat(t, i), tInt)
	}
	serr("cannot index %s", t.Sort)
	return SVal{}
}

func (e *Env) bin(x *Expr) SVal {
	op := x.name
	switch op {
	case "&&":
		a := e.evalBool(x.args[0])
		if a == False {
			return sv(False, tBool)
		}
		return sv(And(a, e.evalBool(x.args[1])), tBool)
	case "||":
		a := e.evalBool(x.args[0])
		if a == True {
			return sv(True, tBool)
		}
		return sv(Or(a, e.evalBool(x.args[1])), tBool)
	case "==>":
		a := e.evalBool(x.args[0])
		if a == False {
			return sv(True, tBool)
		}
		return sv(Implies(a, e.evalBool(x.args[1])), tBool)
	case "<==>":
		return sv(Eq(e.evalBool(x.args[0]), e.evalBool(x.args[1])), tBool)
	}
	a, b := e.eval(x.args[0]), e.eval(x.args[1])
	if a.undef || b.undef {
		return SVal{undef: true}
	}
	if a.isNil && b.isNil {
		return sv(Bool(op == "=="), tBool)
	}
	if a.isNil {
		a = nilLike(b)
	}
	if b.isNil {
		b = nilLike(a)
	}
	if op == "in" {
		if b.ty != nil {
			if _, ok := b.ty.Underlying().(*types.Map); ok {
				_, d := e.st.mapGet(b.ty, e.val(b), e.val(a))
				return sv(d, tBool)
			}
		}
		return sv(Select(e.val(b), e.val(a)), tBool)
	}
	l, r := e.val(a), e.val(b)
	if l.Sort == "Flt" && r.isInt() {
		r = i2f(r)
	}
	if r.Sort == "Flt" && l.isInt() {
		l = i2f(l)
	}
	if l.Sort != r.Sort {
		serr("sort mismatch %s vs %s in %s", l.Sort, r.Sort, exprStr(x))
	}
	isF := l.Sort == "Flt"
	f2 := func(n string) SVal {
		x, y := l, r
		if (n == "f+" || n == "f*") && x.ID > y.ID {
			x, y = y, x
		}
		return sv(App(n, "Flt", x, y), a.ty)
	}
	switch op {
	case "==":
		return sv(Eq(l, r), tBool)
	case "!=":
		return sv(Ne(l, r), tBool)
	case "<":
		if isF {
			return sv(App("flt", "Bool", l, r), tBool)
		}
		if l.Sort == "Str" {
			return sv(strLess(l, r), tBool)
		}
		return sv(Lt(l, r), tBool)
	case "<=":
		if isF {
			return sv(App("fle", "Bool", l, r), tBool)
		}
		return sv(Le(l, r), tBool)
	case ">":
		if isF {
			return sv(App("flt", "Bool", r, l), tBool)
		}
		return sv(Gt(l, r), tBool)
	case ">=":
		if isF {
			return sv(App("fle", "Bool", r, l), tBool)
		}
		return sv(Ge(l, r), tBool)
	case "+":
		if isF {
			return f2("f+")
		}
		if l.Sort == "Str" {
			return sv(Cat(l, r), tStr)
		}
		return sv(Add(l, r), a.ty)
	case "++":
		return sv(Cat(l, r), tStr)
	case "-":
		if isF {
			return f2("f-")
		}
		return sv(Sub(l, r), a.ty)
	case "*":
		if isF {
			return f2("f*")
		}
		return sv(Mul(l, r), a.ty)
	case "/":
		if isF {
			return f2("f/")
		}
		return sv(Quo(l, r), a.ty)
	case "%":
		return sv(Rem(l, r), a.ty)
	}
	serr("operator %s", op)
	return SVal{}
}

func (e *Env) oldEnv() *Env {
	n := *e
	n.st = e.old
	if n.st == nil {
		n.st = e.st
	}
	return &n
}

func (e *Env) applyPred(p *PredDef, args []SVal) SVal {
	if len(args) != len(p.params) {
		serr("%s: %d arguments, want %d", p.name, len(args), len(p.params))
	}
	if p.body == nil || p.rec {
		var ts []*Term
		for i, a := range args {
			if a.undef {
				return a
			}
			so, _ := e.ex.prog.specSort(p.params[i].typ)
			if a.isNil {
				a = sv(zeroOfSort(so), nil)
			}
			t := e.val(a)
			if t.Sort != so {
				serr("%s: argument %d has sort %s, want %s", p.name, i, t.Sort, so)
			}
			ts = append(ts, t)
		}
		so, ty := e.ex.prog.specSort(p.ret)
		if p.rec {
			return sv(recApp(e.ex.prog, p, so, ts), ty)
		}
		return sv(ufApp(p.uf, so, ts...), ty)
	}
	n := &Env{ex: e.ex, st: e.st, old: e.old, vars: map[string]SVal{}, dep: e.dep + 1}
	if n.dep > 60 {
		serr("predicate recursion: %s", p.name)
	}
	for i, a := range args {
		if a.isNil {
			so, ty := e.ex.prog.specSort(p.params[i].typ)
			a = sv(zeroOfSort(so), ty)
		}
		// the declared type refines untyped ghost values
		if a.ty == nil {
			if _, ty := e.ex.prog.specSort(p.params[i].typ); ty != nil {
				a.ty = ty
			}
		}
		n.vars[p.params[i].name] = a
	}
	if p.ret == "bool" {
		return sv(n.evalBool(p.body), tBool)
	}
	return n.eval(p.body)
}

// ---- recursive ghost functions: uninterpreted, unfolded on ground occurrences.

var (
	recMu   sync.Mutex
	recDefs = map[string]func(args []*Term) *Term{}
)

func recApp(P *Program, p *PredDef, so Sort, args []*Term) *Term {
	n := "rec|" + p.name
	recMu.Lock()
	if recDefs[n] == nil {
		recDefs[n] = func(args []*Term) *Term {
			env := &Env{ex: newExec(P, nil, "rec"), st: &State{heap: map[string]*Term{}, iters: map[string]*iterInfo{}}, vars: map[string]SVal{}}
			for i, q := range p.params {
				_, ty := P.specSort(q.typ)
				env.vars[q.name] = sv(args[i], ty)
			}
			return env.val(env.eval(p.body))
		}
	}
	recMu.Unlock()
	return App(n, so, args...)
}

// unfoldRecs returns definitional equations for the ground occurrences of recursive functions.
func unfoldRecs(ts []*Term) []*Term {
	var out []*Term
	done := map[int]bool{}
	cur := ts
	for round := 0; round < 2; round++ {
		var found []*Term
		seen := map[int]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t.ID] {
				return
			}
			seen[t.ID] = true
			if t.Op == "app" && strings.HasPrefix(t.Sym, "rec|") && len(t.fb) == 0 && !done[t.ID] {
				done[t.ID] = true
				found = append(found, t)
			}
			for _, a := range t.Args {
				rec(a)
			}
		}
		for _, t := range cur {
			rec(t)
		}
		if len(found) == 0 {
			break
		}
		cur = nil
		for _, t := range found {
			recMu.Lock()
			d := recDefs[t.Sym]
			recMu.Unlock()
			if d == nil {
				continue
			}
			eq := Eq(t, d(t.Args))
			out = append(out, eq)
			cur = append(cur, eq)
		}
	}
	return out
}

// ---- builtin functions

func (e *Env) call(x *Expr) SVal {
	n := x.name
	switch n {
	case "old":
		return e.oldEnv().evalAt(x.args[0])
	case "at":
		s := e.st.snaps[x.args[0].name]
		if s == nil {
			return SVal{undef: true}
		}
		return e.with(s).evalAt(x.args[1])
	case "typeis":
		v := e.eval(x.args[0])
		if v.undef {
			return v
		}
		return sv(ifaceHasType(e.val(v), e.ex.prog.resolveType(x.ival)), tBool)
	case "dyn":
		v := e.eval(x.args[0])
		if v.undef {
			return v
		}
		t := e.ex.prog.resolveType(x.ival)
		return sv(unIface(e.val(v), t), t)
	case "cnt": // cnt(counter, x): events counted so far for x
		for _, c := range e.ex.prog.spec.counters {
			if c.name == x.args[0].name {
				return sv(e.st.rd(counterComp(c.name), e.val(e.eval(x.args[1]))), tInt)
			}
		}
		serr("no counter %s", x.args[0].name)
	case "zero":
		t := e.ex.prog.resolveType(x.ival)
		return sv(zeroOf(t), t)
	case "global":
		i := strings.LastIndex(x.ival, ".")
		if v, ok := e.pkgMember(x.ival[:i], x.ival[i+1:]); ok {
			return v
		}
		serr("no global %s", x.ival)
	case "event":
		return e.eventMatch(x)
	case "ghost":
		g := e.st.ghostVal(x.args[0].name)
		if g == nil {
			return SVal{undef: true}
		}
		var ty types.Type
		if g.Sort == "Iface" {
			ty = types.Universe.Lookup("error").Type()
		}
		return sv(g, ty)
	case "jsonname": // jsonname("pkg.T", "Field"): the name of a struct field in JSON
		t := e.ex.prog.resolveType(x.args[0].name)
		if t == nil {
			serr("jsonname: no type %s", x.args[0].name)
		}
		return sv(Lit(jsonFieldName(t, x.args[1].name)), tStr)
	case "emptyset":
		so, _ := e.ex.prog.specSort(x.args[0].name)
		return sv(ConstArr(ArrSort(so, "Bool"), False), nil)
	}
	var as []SVal
	for i, a := range x.args {
		if i == 1 && (n == "evis" || n == "evarg" || n == "evcap") {
			as = append(as, SVal{}) // an event name
			continue
		}
		v := e.eval(a)
		if v.undef {
			return v
		}
		as = append(as, v)
	}
	arg := func(i int) *Term { return e.val(as[i]) }
	need := func(k int) {
		if len(as) != k {
			serr("%s: wants %d arguments", n, k)
		}
	}
	switch n {
	case "len":
		need(1)
		if as[0].ty != nil {
			switch u := as[0].ty.Underlying().(type) {
			case *types.Map:
				return sv(Card(e.st.mapDom(as[0].ty, arg(0))), tInt)
			case *types.Array:
				return sv(Num(u.Len()), tInt)
			}
		}
		t := arg(0)
		if t.Sort == "Slice" {
			return sv(Sel("slen_", t), tInt)
		}
		return sv(Slen(t), tInt)
	case "cap":
		return sv(Sel("scap", arg(0)), tInt)
	case "off":
		return sv(Sel("soff", arg(0)), tInt)
	case "datareg": // the memory of a bytes.Buffer's bytes
		return sv(Ctor("sub", arg(0), Num(dataFID)), nil)
	case "base":
		return sv(Sel("sbase", arg(0)), nil)
	case "card":
		return sv(Card(arg(0)), tInt)
	case "finite": // a float that JSON can hold
		return sv(App("ffinite", "Bool", arg(0)), tBool)
	case "jsonobj": // jsonobj("Name", value, ...): the JSON object of these fields
		out, sep := Lit("{"), ""
		for i := 0; i+1 < len(x.args); i += 2 {
			r, _, ok := e.ex.jsonField(e.st, arg(i+1), as[i+1].ty)
			if !ok {
				serr("jsonobj: %s", exprStr(x.args[i+1]))
			}
			out = Cat(Cat(out, Lit(sep+strconv.Quote(x.args[i].name)+":")), r)
			sep = ","
		}
		return sv(Cat(out, Lit("}")), tStr)
	case "skey": // the i-th smallest element of a set of strings
		return sv(App("skey", "Str", arg(0), arg(1)), tStr)
	case "dom":
		return sv(e.st.mapDom(as[0].ty, arg(0)), nil)
	case "vals":
		k, _ := mapKey(as[0].ty)
		return sv(e.st.rd("MV|"+k, arg(0)), nil)
	case "arr": // backing array of a slice
		et := as[0].ty.Underlying().(*types.Slice).Elem()
		return sv(e.st.sliceArr(Sel("sbase", arg(0)), et), nil)
	case "flt": // a float64 literal, flt("0.1")
		f, err := strconv.ParseFloat(x.args[0].name, 64)
		if err != nil {
			serr("flt: %v", err)
		}
		return sv(FltLit(fltName(constant.MakeFloat64(f))), types.Typ[types.Float64])
	case "str", "content":
		if as[0].ty != nil && isByteSlice(as[0].ty) {
			return sv(e.st.byteSlice(arg(0)), tStr)
		}
		if as[0].ty != nil {
			if p, ok := as[0].ty.Underlying().(*types.Pointer); ok {
				return sv(e.st.load(arg(0), p.Elem()), tStr)
			}
		}
		return sv(arg(0), tStr)
	case "addr":
		if as[0].addr == nil {
			serr("addr of non-addressable")
		}
		return sv(as[0].addr, types.NewPointer(as[0].ty))
	case "deref":
		t := as[0].ty.Underlying().(*types.Pointer).Elem()
		return sv(e.st.load(arg(0), t), t)
	case "fresh":
		o := e.old
		if o == nil {
			o = e.st
		}
		r := arg(0)
		if r.Sort == "Slice" {
			r = Sel("sbase", r)
		}
		return sv(And(Le(o.alloc, Rid(r)), Lt(Rid(r), e.st.alloc)), tBool)
	case "allocd":
		r := arg(0)
		if r.Sort == "Slice" {
			r = Sel("sbase", r)
		}
		return sv(Lt(Rid(r), e.st.alloc), tBool)
	case "rid":
		return sv(Rid(arg(0)), tInt)
	case "isobj":
		return sv(Is("obj", arg(0)), tBool)
	case "par":
		return sv(Sel("spar", arg(0)), nil)
	case "issub":
		return sv(Is("sub", arg(0)), tBool)
	case "clock":
		return sv(e.st.get("CLK"), tInt)
	case "jsonof": // the JSON rendering of x
		return sv(e.ex.jsonTerm(e.st, makeIfaceOf(arg(0), as[0].ty), ""), tStr)
	case "jsonerr": // the error of encoding x as JSON
		j := makeIfaceOf(arg(0), as[0].ty)
		return sv(App("jsonerr", "Iface", e.ex.jsonTerm(e.st, j, "")), types.Universe.Lookup("error").Type())
	case "nev":
		return sv(e.st.get("OBSN"), tInt)
	case "ev":
		return sv(Select(e.st.get("OBS"), arg(0)), nil)
	case "evis":
		nm := x.args[1].name
		var cs []*Term
		for _, c := range evCtors(nm) {
			cs = append(cs, Is(c.ctor, arg(0)))
		}
		return sv(Or(cs...), tBool)
	case "evarg", "evcap":
		nm := x.args[1].name
		i := int(mustInt(arg(2)))
		cs := evCtors(nm)
		var r *Term
		var ty types.Type
		for k := len(cs) - 1; k >= 0; k-- {
			c := cs[k]
			if i >= len(c.orig) {
				continue
			}
			si := c.orig[i]
			cty := c.types[i]
			if n == "evcap" {
				j := int(mustInt(arg(3)))
				if j >= len(c.caps[i]) {
					continue
				}
				si = c.caps[i][j]
				cty = nil
			}
			v := Sel(c.sels[si], arg(0))
			if r == nil || r.Sort != v.Sort {
				r, ty = v, cty
			} else {
				r = Ite(Is(c.ctor, arg(0)), v, r)
			}
		}
		if r == nil {
			return SVal{undef: true}
		}
		return sv(r, ty)
	case "ownmap":
		return sv(Select(e.st.get(ownMapComp(as[0].ty)), arg(0)), nil)
	case "ownkey":
		return sv(Select(e.st.get(ownKeyComp(as[0].ty, "Str")), arg(0)), tStr)
	case "ownfield":
		return sv(Select(e.st.get(ownFieldComp()), arg(0)), nil)
	case "visited":
		return sv(e.visited(as[0]), nil)
	case "strpos":
		return sv(e.strpos(as[0], false), tInt)
	case "strcount":
		return sv(e.strpos(as[0], true), tInt)
	case "errmsg":
		return sv(errMsg(arg(0)), tStr)
	case "substr":
		return sv(Substr(arg(0), arg(1), arg(2)), tStr)
	case "chr":
		return sv(Chr(arg(0)), tStr)
	case "contains":
		return sv(App("strcontains", "Bool", arg(0), arg(1)), tBool)
	case "prefix":
		return sv(App("strprefix", "Bool", arg(0), arg(1)), tBool)
	case "indexof":
		return sv(App("strindex", "Int", arg(0), arg(1)), tInt)
	case "store":
		return sv(Store(arg(0), arg(1), arg(2)), nil)
	case "select":
		return sv(Select(arg(0), arg(1)), nil)
	case "union":
		return sv(App("union|"+arg(0).Sort, arg(0).Sort, arg(0), arg(1)), nil)
	case "i2f":
		return sv(i2f(arg(0)), types.Typ[types.Float64])
	case "ite":
		if as[1].isNil {
			as[1] = nilLike(as[2])
		}
		return sv(Ite(arg(0), e.val(as[1]), e.val(as[2])), as[1].ty)
	case "tns":
		return sv(Sel("tns", arg(0)), tInt)
	case "tloc":
		return sv(Sel("tloc", arg(0)), tInt)
	case "tmono":
		return sv(Sel("tmono", arg(0)), tInt)
	case "utag":
		return sv(Ite(Is("iptr", arg(0)), Sel("itag", arg(0)), Sel("btag", arg(0))), tInt)
	case "mk":
		t := e.ex.prog.resolveType(x.ival)
		u := t.Underlying().(*types.Struct)
		if u.NumFields() != len(as) {
			return SVal{undef: true}
		}
		var vs []*Term
		for i := range as {
			if as[i].isNil {
				as[i] = sv(zeroOf(u.Field(i).Type()), nil)
			}
			v := arg(i)
			if v.Sort != sortOf(u.Field(i).Type()) {
				return SVal{undef: true}
			}
			vs = append(vs, v)
		}
		return sv(structMk(t, vs), t)
	case "box": // interface value holding x
		return sv(makeIface(arg(0), as[0].ty), types.NewInterfaceType(nil, nil))
	case "sym": // sym("name", args...): uninterpreted Str-valued symbol
		serr("sym")
	}
	if p := e.ex.prog.spec.preds[n]; p != nil {
		return e.applyPred(p, as)
	}
	serr("unknown function %s", n)
	return SVal{}
}

// evalAt evaluates and, for struct lvalues, forces the load in this environment's state.
func (e *Env) evalAt(x *Expr) SVal {
	v := e.eval(x)
	if v.t == nil && v.addr != nil && !v.undef {
		return sv(e.st.load(v.addr, v.ty), v.ty)
	}
	return v
}

func i2f(x *Term) *Term {
	if x.isInt() {
		return FltLit(fltName(constant.Make(x.Int)))
	}
	return App("i2f", "Flt", x)
}

func mustInt(t *Term) int64 {
	if !t.isInt() {
		serr("constant integer expected")
	}
	return t.Int.Int64()
}

func evCtors(n string) []*evCtor {
	evMu.Lock()
	defer evMu.Unlock()
	return evName[n]
}

// event(i, "Name", a0, a1, ...): the trace holds such an event at index i ("_" matches anything).
func (e *Env) eventMatch(x *Expr) SVal {
	i := e.val(e.eval(x.args[0]))
	ev := Select(e.st.get("OBS"), i)
	nm := x.args[1].name
	var alts []*Term
	for _, c := range evCtors(nm) {
		cs := []*Term{Is(c.ctor, ev)}
		ok := len(x.args)-2 <= len(c.orig)
		for k, a := range x.args[2:] {
			if !ok {
				break
			}
			if a.op == "id" && a.name == "_" {
				continue
			}
			v := e.eval(a)
			if v.undef {
				ok = false
				break
			}
			got := Sel(c.sels[c.orig[k]], ev)
			if v.isNil {
				v = sv(zeroOfSort(got.Sort), nil)
			}
			w := e.val(v)
			if w.Sort != got.Sort {
				ok = false
				break
			}
			cs = append(cs, Eq(got, w))
		}
		if ok {
			alts = append(alts, And(cs...))
		}
	}
	return sv(Or(alts...), tBool)
}

// visited keys of the iteration over map m: empty before it starts, everything after it ends.
func (e *Env) visited(m SVal) *Term {
	mt := e.val(m)
	var best *iterInfo
	var bestN string
	for n, it := range e.st.iters {
		if !it.isStr && it.m == mt && (best == nil || later(n, bestN)) {
			best, bestN = it, n
		}
	}
	d := e.st.mapDom(m.ty, mt)
	if best == nil {
		ks, _ := arrElem(d.Sort)
		return ConstArr(ArrSort(ks, "Bool"), False)
	}
	if best.done {
		return best.dom0
	}
	return best.visited
}

// strpos is the byte position of the latest iteration over the string m (0 before it starts, its length when it has ended), or the number of runes seen.
func (e *Env) strpos(m SVal, count bool) *Term {
	mt := e.val(m)
	var best *iterInfo
	var bestN string
	for n, it := range e.st.iters {
		if it.isStr && it.m == mt && (best == nil || later(n, bestN)) {
			best, bestN = it, n
		}
	}
	if best == nil {
		return Num(0)
	}
	if count {
		return best.count()
	}
	if best.done {
		return Slen(mt)
	}
	return best.pos
}

func later(a, b string) bool {
	var x, y int
	fmt.Sscanf(a[strings.IndexByte(a, '!')+1:], "%d", &x)
	fmt.Sscanf(b[strings.IndexByte(b, '!')+1:], "%d", &y)
	return x > y
}

// evalWith evaluates body with positional parameters in state st.
func (ex *Exec) evalWith(st, old *State, params []string, vals []*Term, tys []types.Type, body *Expr) *Term {
	env := &Env{ex: ex, st: st, old: old, vars: map[string]SVal{}}
	for i, p := range params {
		if i < len(vals) {
			env.vars[p] = sv(vals[i], tys[i])
		}
	}
	return env.evalBool(body)
}

func (P *Program) chanInvs(t types.Type) []*ChanInv {
	var out []*ChanInv
	k := typeKey(t)
	for _, c := range P.spec.chans {
		if c.typ == k {
			out = append(out, c)
		}
	}
	return out
}

// errMsg is err.Error(); it descends through the library's own wrappers.
func errMsg(i *Term) *Term { return App("errmsg", "Str", i) }

func makeIfaceOf(v *Term, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return makeIface(v, t)
}

func ufApp(sym string, so Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return Const(sym, so)
	}
	return App(sym, so, args...)
}

// jsonFieldName is the JSON name and options of the field at path ("A.B") of struct type t, "-" if there is none.
func jsonFieldName(t types.Type, path string) string {
	var r string
	for _, fn := range strings.Split(path, ".") {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if p, ok := t.Underlying().(*types.Slice); ok {
			t = p.Elem()
		}
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return "-"
		}
		found := false
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == fn {
				tg := reflect.StructTag(u.Tag(i)).Get("json")
				n, opt := tg, ""
				if k := strings.IndexByte(tg, ','); k >= 0 {
					n, opt = tg[:k], tg[k:]
				}
				if n == "" {
					n = fn
				}
				r, t, found = n+opt, u.Field(i).Type(), true
			}
		}
		if !found {
			return "-"
		}
	}
	return r
}
