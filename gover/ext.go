package main

// Contracts assumed for functions outside the repository (standard library and dependencies).
// Every model used in a proof is listed in the evidence.

import (
	"reflect"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ExtCall struct {
	ex   *Exec
	st   *State
	fr   *Frame
	fn   *ssa.Function
	args []*Term
	pos  token.Pos
	key  string
}

type ifaceModel func(ex *Exec, st *State, fr *Frame, recv *Term, it types.Type, sig *types.Signature, args []*Term, pos token.Pos) []Outcome

var extModels map[string]func(*ExtCall) []Outcome
var ifaceModels map[string]ifaceModel

var valueSorts = map[Sort]bool{"Int": true, "Bool": true, "Str": true, "Flt": true, "Time": true}

func (ex *Exec) extDefault(st *State, fr *Frame, fn *ssa.Function, key string, args []*Term, pos token.Pos) []Outcome {
	if fn.Name() == "init" && fn.Signature.Recv() == nil {
		return ret(st)
	}
	ex.extUsed[key] = true
	rs := fn.Signature.Results()
	pure := rs.Len() > 0
	for _, a := range args {
		if !valueSorts[a.Sort] {
			pure = false
		}
	}
	for i := 0; i < rs.Len(); i++ {
		if !valueSorts[sortOf(rs.At(i).Type())] {
			pure = false
		}
	}
	var vs []*Term
	if pure {
		ex.note("external function " + key + " is a function of its arguments")
		for i := 0; i < rs.Len(); i++ {
			v := App(fmt.Sprintf("ext|%s|%d", key, i), sortOf(rs.At(i).Type()), args...)
			st.assume(valWF(v, rs.At(i).Type(), st.alloc))
			vs = append(vs, v)
		}
		return ret(st, vs...)
	}
	ex.note("external function " + key + " returns arbitrary results and does not write this library's memory")
	var ea []evArg
	ps := fn.Signature.Params()
	off := len(args) - ps.Len()
	for i, a := range args {
		if i < off {
			ea = append(ea, evArg{a, nil})
		} else {
			ea = append(ea, evArg{a, ps.At(i - off).Type()})
		}
	}
	ex.eventT(st, "call:"+key, ea)
	st.havocAllocQuiet()
	for i := 0; i < rs.Len(); i++ {
		vs = append(vs, ex.freshVal(st, "x|"+fn.Name(), rs.At(i).Type()))
	}
	return ret(st, vs...)
}

// havocAllocQuiet: the callee may have allocated.
func (st *State) havocAllocQuiet() { st.havocAlloc() }

func itoa(i *Term) *Term {
	if i.isInt() {
		return Lit(i.Int.String())
	}
	return App("itoa", "Str", i)
}

func fmtFloat(v *Term, f byte, prec, bits int64) *Term {
	return App(fmt.Sprintf("fmtfloat:%c:%d:%d", f, prec, bits), "Str", v)
}

const unixNS = 62135596800 // seconds from year 1 to 1970

func truncAxioms() []*Term {
	t, d, u := BVar("t", "Int"), BVar("d", "Int"), BVar("u", "Int")
	tt := mk("app", "Int", "ttrunc", t, d)
	return []*Term{
		Forall([]*Term{t, d}, Implies(Lt(Num(0), d), And(Le(tt, t), Lt(t, Add(tt, d)))), []*Term{tt}),
		Forall([]*Term{t, d, u}, Implies(And(Lt(Num(0), d), Le(tt, u), Lt(u, Add(tt, d))), Eq(mk("app", "Int", "ttrunc", u, d), tt)), []*Term{tt, mk("app", "Int", "ttrunc", u, d)}),
		Forall([]*Term{t, d}, Implies(Lt(Num(0), d), Eq(mk("app", "Int", "ttrunc", tt, d), tt)), []*Term{tt}),
	}
}

// goquoAxioms bound Go's truncated division by a positive divisor; quo(0≤a<b)=0, and b*q ≤ a < b*q+b
// in the linear consequences the solvers can use.
func goquoAxioms() []*Term {
	a, b := BVar("a", "Int"), BVar("b", "Int")
	q := mk("app", "Int", "goquo", a, b)
	na := Sub(Num(0), a)
	return []*Term{Forall([]*Term{a, b}, Implies(Lt(Num(0), b), And(
		Implies(Le(b, a), And(Le(Num(1), q), Le(q, a))),
		Implies(And(Lt(a, b), Lt(na, b)), Eq(q, Num(0))),
		Implies(Le(b, na), And(Le(q, Num(-1)), Le(a, q))),
		Implies(And(Le(Num(0), a), Le(Add(b, b), a)), Le(Num(2), q)),
		Implies(And(Le(b, a), Lt(a, Add(b, b))), Eq(q, Num(1))),
	)), []*Term{q})}
}

// now returns the current time: the clock never runs backwards.
func (ex *Exec) now(st *State) *Term {
	old := st.get("CLK")
	c := Fresh("clk", "Int")
	st.assume(And(Le(old, c), Lt(Num(0), c)))
	st.set("CLK", c)
	st.logWrite("CLK", nil)
	m := Fresh("mono", "Int")
	st.assume(Ne(m, Num(0)))
	ex.note("time.Now never runs backwards; differences of times are exact")
	return Ctor("mktime", c, Const("loc:Local", "Int"), m)
}

func (c *ExtCall) cell(i int) types.Type { return derefT(c.fn.Signature.Params().At(i).Type()) }

// variadic returns the elements of a variadic ...interface{} argument of known length.
func (c *ExtCall) variadic(s *Term) ([]*Term, bool) {
	n := Sel("slen_", s)
	if !n.isInt() {
		return nil, false
	}
	if n.Int.Sign() == 0 {
		return nil, true
	}
	et := c.fn.Signature.Params().At(c.fn.Signature.Params().Len() - 1).Type().Underlying().(*types.Slice).Elem()
	arr := c.st.sliceArr(Sel("sbase", s), et)
	var out []*Term
	for i := int64(0); i < n.Int.Int64(); i++ {
		out = append(out, Select(arr, Add(Sel("soff", s), Num(i))))
	}
	return out, true
}

// fmtVal renders one operand.
func (c *ExtCall) fmtVal(verb string, v *Term) *Term {
	st := c.st
	if v.Op == "ctor" && v.Sym == "ibox" && v.Args[0].isInt() {
		t := tagType[v.Args[0].Int.Int64()]
		if t != nil {
			x := unIface(v, t)
			hasMethod := false
			ms := types.NewMethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				if n := ms.At(i).Obj().Name(); n == "String" || n == "Error" || n == "Format" {
					hasMethod = true
				}
			}
			if !hasMethod {
				switch {
				case x.Sort == "Str" && (verb == "%s" || verb == "%v"):
					return x
				case x.Sort == "Int" && (verb == "%d" || verb == "%v"):
					return itoa(x)
				case x.Sort == "Flt" && (verb == "%g" || verb == "%v"):
					return fmtFloat(x, 'g', -1, 64)
				case x.Sort == "Flt" && verb == "%f":
					return fmtFloat(x, 'f', 6, 64)
				case x.Sort == "Flt" && strings.HasPrefix(verb, "%.") && strings.HasSuffix(verb, "f"):
					if n, err := strconv.Atoi(verb[2 : len(verb)-1]); err == nil {
						return fmtFloat(x, 'f', int64(n), 64)
					}
				case x.Sort == "Bool" && (verb == "%v" || verb == "%t"):
					return Ite(x, Lit("true"), Lit("false"))
				case x.Sort == "Slice" && isByteSlice(t) && verb == "%s":
					return st.byteSlice(x)
				}
			}
		}
	}
	if verb == "%v" || verb == "%s" {
		// fmt uses the Error method of error values
		return App("fmtv", "Str", v)
	}
	return App("fmt:"+verb, "Str", v)
}

func (c *ExtCall) sprintf(f *Term, args *Term) *Term {
	vs, ok := c.variadic(args)
	if !f.isLit() || !ok {
		if ok && len(vs) == 0 {
			// a format without operands: '%' directives are still interpreted
			return App("fmtnoargs", "Str", f)
		}
		arr := Sel("sbase", args)
		_ = arr
		return App("sprintf", "Str", f, Fresh("fmtargs", "Int"))
	}
	out := Lit("")
	s := f.Sym
	k := 0
	for len(s) > 0 {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			out = Cat(out, Lit(s))
			break
		}
		out = Cat(out, Lit(s[:i]))
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.*[]", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			return App("sprintf", "Str", f, Fresh("fmtargs", "Int"))
		}
		verb := s[i : j+1]
		s = s[j+1:]
		if verb == "%%" {
			out = Cat(out, Lit("%"))
			continue
		}
		if k >= len(vs) {
			out = Cat(out, Lit("%!"+verb[len(verb)-1:]+"(MISSING)"))
			continue
		}
		out = Cat(out, c.fmtVal(verb, vs[k]))
		k++
	}
	if k < len(vs) {
		out = Cat(out, Fresh("fmtextra", "Str"))
	}
	return out
}

// writeTo models w.Write(p) for an io.Writer value.
func (c *ExtCall) writeTo(w *Term, content *Term) []Outcome {
	ex, st := c.ex, c.st
	bp := types.NewPointer(bufferType)
	if w.Op == "ctor" && w.Sym == "iptr" && w.Args[0] == tagOf(bp) {
		st.store(w.Args[1], bufferType, Cat(st.load(w.Args[1], bufferType), content))
		return ret(st, Slen(content), INil)
	}
	it := ex.prog.ioWriter()
	if it == nil {
		unsupported("io.Writer")
	}
	m, _, _ := types.LookupFieldOrMethod(it, true, nil, "Write")
	return ex.invokeMethod(st, c.fr, w, it, m.(*types.Func), []*Term{st.newBytes(content)}, c.pos)
}

func (P *Program) ioWriter() types.Type {
	if p := P.tpkgs["io"]; p != nil {
		if o := p.Scope().Lookup("Writer"); o != nil {
			return o.Type()
		}
	}
	return nil
}

func (ex *Exec) freshErr(st *State) *Term {
	e := Fresh("err", "Iface")
	st.assume(And(Ne(e, INil), Lt(Rid(Sel("iref", e)), st.alloc)))
	// the library's own error types are not returned by other packages
	for _, n := range []string{"UnmutedError", "MutedError"} {
		if p := ex.prog.tpkgs["health"]; p != nil {
			if o := p.Scope().Lookup(n); o != nil {
				st.assume(Not(ifaceHasType(e, types.NewPointer(o.Type()))))
			}
		}
	}
	return e
}

// jsonTerm is the JSON text of the value in iface v in state st.
func (ex *Exec) jsonTerm(st *State, v *Term, variant string) *Term {
	args := []*Term{v}
	if v.Op == "ctor" && len(v.Args) > 0 && v.Args[0].isInt() {
		if t := tagType[v.Args[0].Int.Int64()]; t != nil {
			x := unIface(v, t)
			args = []*Term{tagOf(t), x}
			if p, ok := t.Underlying().(*types.Pointer); ok && isStruct(p.Elem()) {
				args = []*Term{tagOf(p.Elem()), st.load(x, p.Elem())}
				t = p.Elem()
				x = args[1]
			}
			// contents of maps and slices one level down
			var caps func(x *Term, t types.Type, d int)
			caps = func(x *Term, t types.Type, d int) {
				switch u := t.Underlying().(type) {
				case *types.Map:
					k, _ := mapKey(t)
					args = append(args, st.rd("MD|"+k, x), st.rd("MV|"+k, x))
				case *types.Slice:
					if !isByteSlice(t) {
						args = append(args, st.sliceArr(Sel("sbase", x), u.Elem()))
					}
				case *types.Struct:
					if d > 0 && isStruct(t) {
						for i := 0; i < u.NumFields(); i++ {
							caps(Sel(structSel(t, i), x), u.Field(i).Type(), d-1)
						}
					}
				}
			}
			caps(x, t, 3)
		}
	}
	var ss []string
	for _, a := range args {
		ss = append(ss, a.Sort)
	}
	return App("json"+variant+"|"+strings.Join(ss, ","), "Str", args...)
}

// jsonField is the JSON text of a value of a simple type.
func (ex *Exec) jsonField(st *State, x *Term, t types.Type) (r *Term, flt *Term, ok bool) {
	if n, named := t.(*types.Named); named && n.NumMethods() > 0 {
		return nil, nil, false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Sort == "Str":
			return App("jsonstr", "Str", x), nil, true
		case x.Sort == "Flt" && u.Kind() == types.Float64:
			return App("jsonflt", "Str", x), x, true
		case x.Sort == "Int":
			return itoa(x), nil, true
		case x.Sort == "Bool":
			return Ite(x, Lit("true"), Lit("false")), nil, true
		}
	case *types.Map:
		kb, ok1 := u.Key().(*types.Basic)
		eb, ok2 := u.Elem().(*types.Basic)
		if ok1 && ok2 && kb.Kind() == types.String && eb.Kind() == types.String {
			k, _ := mapKey(t)
			return Ite(Eq(x, Nil), Lit("null"), App("jsonmap", "Str", st.rd("MD|"+k, x), st.rd("MV|"+k, x))), nil, true
		}
	}
	return nil, nil, false
}

// jsonSimple is the JSON text of a struct of simple fields, and the floats in it.
func (ex *Exec) jsonSimple(st *State, v *Term) (*Term, []*Term, bool) {
	if v.Op != "ctor" || len(v.Args) == 0 || !v.Args[0].isInt() {
		return nil, nil, false
	}
	t := tagType[v.Args[0].Int.Int64()]
	if t == nil || !isStruct(t) {
		return nil, nil, false
	}
	if n, ok := t.(*types.Named); ok && (n.NumMethods() > 0 || types.NewMethodSet(types.NewPointer(n)).Len() > 0) {
		return nil, nil, false
	}
	x := unIface(v, t)
	u := t.Underlying().(*types.Struct)
	out, sep := Lit("{"), ""
	var fs []*Term
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		name := f.Name()
		if f.Embedded() {
			return nil, nil, false
		}
		if tg := reflect.StructTag(u.Tag(i)).Get("json"); tg != "" {
			if strings.Contains(tg, ",") {
				return nil, nil, false
			}
			name = tg
		}
		if !f.Exported() || name == "-" {
			continue
		}
		r, fl, ok := ex.jsonField(st, Sel(structSel(t, i), x), f.Type())
		if !ok {
			return nil, nil, false
		}
		if fl != nil {
			fs = append(fs, fl)
		}
		out = Cat(Cat(out, Lit(sep+strconv.Quote(name)+":")), r)
		sep = ","
	}
	return Cat(out, Lit("}")), fs, true
}

// decodeInto gives the object at p (type t) an arbitrary freshly decoded value.
func (ex *Exec) decodeInto(st *State, p *Term, t types.Type) {
	ex.note("json.Unmarshal builds a tree of new objects below its target (each reached by one path); missing or null entries stay nil")
	comps := map[string]bool{}
	seen := map[string]bool{}
	type mp struct{ t types.Type }
	var maps []types.Type
	var walk func(t types.Type)
	walk = func(t types.Type) {
		k := typeKey(t)
		if seen[k] {
			return
		}
		seen[k] = true
		if _, ok := leafSort(t); ok {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if isStruct(u.Elem()) {
				walk(u.Elem())
			} else {
				comps[cellComp(u.Elem())] = true
				walk(u.Elem())
			}
		case *types.Map:
			mk, _ := mapKey(t)
			comps["MD|"+mk] = true
			comps["MV|"+mk] = true
			if _, ok := u.Elem().Underlying().(*types.Pointer); ok {
				maps = append(maps, t)
				comps[ownMapComp(u.Elem())] = true
				comps[ownKeyComp(u.Elem(), sortOf(u.Key()))] = true
			}
			walk(u.Elem())
		case *types.Slice:
			comps[elemComp(u.Elem())] = true
			walk(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := fieldOf(t, i)
				if !isStruct(f.typ) {
					comps[fieldComp(f)] = true
				}
				walk(f.typ)
			}
		}
	}
	walk(t)
	comps[ownFieldComp()] = true
	a0 := st.alloc
	st.havocAlloc()
	for _, k := range orderComps(keysOf(comps)) {
		old := st.get(k)
		_ = old
		nx := st.havocComp(k, func(r *Term) *Term { return Lt(Rid(r), a0) })
		st.logWrite(k, freshMark)
		_, vs := arrElem(nx.Sort)
		r := BVar("r", "Ref")
		sel := mk("select", vs, "", nx, r)
		newer := func(x *Term) *Term { return Or(Eq(x, Nil), Le(a0, Rid(x))) }
		switch {
		case strings.HasPrefix(k, "F|") || strings.HasPrefix(k, "C|"):
			if vs == "Ref" {
				st.assume(Forall([]*Term{r}, Implies(Le(a0, Rid(r)), newer(sel)), []*Term{sel}))
			}
			if vs == "Slice" {
				st.assume(Forall([]*Term{r}, Implies(Le(a0, Rid(r)), newer(Sel("sbase", sel))), []*Term{sel}))
			}
		case strings.HasPrefix(k, "A|"), strings.HasPrefix(k, "MV|"):
			ks, es := arrElem(vs)
			i := BVar("i", ks)
			e := mk("select", es, "", sel, i)
			if es == "Ref" {
				st.assume(Forall([]*Term{r, i}, Implies(Le(a0, Rid(r)), newer(e)), []*Term{e}))
			}
		}
	}
	st.flushPairs()
	for _, mt := range maps {
		u := mt.Underlying().(*types.Map)
		k, _ := mapKey(mt)
		m, key := BVar("m", "Ref"), BVar("k", sortOf(u.Key()))
		v := Select(Select(st.get("MV|"+k), m), key)
		d := Select(Select(st.get("MD|"+k), m), key)
		st.assume(Forall([]*Term{m, key}, Implies(And(Le(a0, Rid(m)), d, Ne(v, Nil)),
			And(Is("obj", v), Eq(Select(st.get(ownMapComp(u.Elem())), v), m), Eq(Select(st.get(ownKeyComp(u.Elem(), sortOf(u.Key()))), v), key))), []*Term{v}))
	}
	// the target itself
	v := Fresh("decoded", sortOf(t))
	st.assume(valWF(v, t, st.alloc))
	st.assume(freshParts(v, t, a0))
	st.store(p, t, v)
	// owner of maps held in fields of new objects
	of := st.get(ownFieldComp())
	for k := range seen {
		_ = k
	}
	for _, fi := range structMapFields(seen, t, map[string]bool{}) {
		r := BVar("r", "Ref")
		m := Select(st.get(fieldComp(fi)), r)
		if m.Op != "select" {
			continue
		}
		st.assume(Forall([]*Term{r}, Implies(And(Le(a0, Rid(r)), Ne(m, Nil), Le(a0, Rid(m))), Eq(Select(of, m), r)), []*Term{m}))
	}
}

func structMapFields(seen map[string]bool, t types.Type, done map[string]bool) []*fieldInfo {
	var out []*fieldInfo
	var walk func(t types.Type)
	walk = func(t types.Type) {
		k := typeKey(t)
		if done[k] {
			return
		}
		done[k] = true
		if _, ok := leafSort(t); ok {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			walk(u.Elem())
		case *types.Map:
			walk(u.Elem())
		case *types.Slice:
			walk(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := fieldOf(t, i)
				if _, ok := f.typ.Underlying().(*types.Map); ok {
					out = append(out, f)
				}
				walk(f.typ)
			}
		}
	}
	walk(t)
	return out
}

func freshParts(v *Term, t types.Type, a0 *Term) *Term {
	switch v.Sort {
	case "Ref":
		return Or(Eq(v, Nil), Le(a0, Rid(v)))
	case "Slice":
		return Or(Eq(Sel("sbase", v), Nil), Le(a0, Rid(Sel("sbase", v))))
	}
	if isStruct(t) {
		u := t.Underlying().(*types.Struct)
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, freshParts(Sel(structSel(t, i), v), u.Field(i).Type(), a0))
		}
		return And(cs...)
	}
	return True
}

// forkErr: the call succeeds with vals, or fails with zero values and a non-nil error.
func (c *ExtCall) forkErr(ok func(st *State) []*Term, bad func(st *State) []*Term) []Outcome {
	s2 := c.st.clone()
	v1 := ok(c.st)
	o := ret(c.st, append(v1, INil)...)
	v2 := bad(s2)
	e := c.ex.freshErr(s2)
	return append(o, Outcome{st: s2, kind: oReturn, vals: append(v2, e)})
}

func (c *ExtCall) nilRecv() { c.ex.nilCheck(c.st, c.args[0], c.pos, "receiver of "+c.fn.Name()) }

// sortModel: the slice in arr becomes an ordered permutation of itself.
func (ex *Exec) sortModel(st *State, s *Term, et types.Type, less func(st *State, i, j *Term) *Term) {
	b, off, n := Sel("sbase", s), Sel("soff", s), Sel("slen_", s)
	old := st.sliceArr(b, et)
	na := Fresh("sorted", old.Sort)
	pn, qn := freshName("perm"), freshName("perminv")
	P := func(i *Term) *Term { return App(pn, "Int", i) }
	Q := func(i *Term) *Term { return App(qn, "Int", i) }
	i := BVar("i", "Int")
	in := func(x *Term) *Term { return And(Le(off, x), Lt(x, Add(off, n))) }
	nai := mk("select", mustVal(na.Sort), "", na, i)
	oli := mk("select", mustVal(old.Sort), "", old, i)
	st.assume(Forall([]*Term{i}, Implies(in(i), And(in(P(i)), Eq(nai, Select(old, P(i))), Eq(Q(P(i)), i))), []*Term{nai}))
	st.assume(Forall([]*Term{i}, Implies(in(i), And(in(Q(i)), Eq(Select(na, Q(i)), Select(old, i)), Eq(P(Q(i)), i))), []*Term{oli}))
	st.assume(Forall([]*Term{i}, Implies(Not(in(i)), Eq(nai, Select(old, i))), []*Term{nai}))
	if at := arrBase(b); at != nil {
		st.store(b, at, na)
	} else {
		st.wr(elemComp(et), b, na)
	}
	i2, j2 := BVar("i", "Int"), BVar("j", "Int")
	l := less(st, j2, i2)
	if l != nil {
		st.assume(Forall([]*Term{i2, j2}, Implies(And(Le(Num(0), i2), Lt(i2, j2), Lt(j2, n)), Not(l)),
			[]*Term{Select(na, Add(off, i2)), Select(na, Add(off, j2))}))
	}
	if et.Underlying() == tStr {
		// an ordered enumeration of a set is the set's only one
		ex.note("skey(d, i), the i-th smallest element of a finite set d of strings, is what sorting an enumeration of d puts at i")
		d := BVar("d", ArrSort("Str", "Bool"))
		a, b2 := BVar("a", "Int"), BVar("b", "Int")
		cd := Card(d)
		ola, olb := Select(old, Add(off, a)), Select(old, Add(off, b2))
		ordered := True
		if l == nil {
			return
		}
		if !isStrOrder(l, na, off, i2, j2) {
			ordered = Forall([]*Term{i2, j2}, Implies(And(Le(Num(0), i2), Lt(i2, j2), Lt(j2, n)), Not(strLess(Select(na, Add(off, j2)), Select(na, Add(off, i2))))))
		}
		skn := App("skey", "Str", d, i2)
		st.assume(Forall([]*Term{d}, Implies(And(Eq(cd, n), ordered,
			Forall([]*Term{a}, Implies(And(Le(Num(0), a), Lt(a, n)), Select(d, ola)), []*Term{ola}),
			Forall([]*Term{a, b2}, Implies(And(Le(Num(0), a), Lt(a, b2), Lt(b2, n)), Ne(ola, olb)), []*Term{ola, olb})),
			Forall([]*Term{i2}, Implies(And(Le(Num(0), i2), Lt(i2, n)), Eq(Select(na, Add(off, i2)), skn)), []*Term{Select(na, Add(off, i2))}, []*Term{skn})), []*Term{cd}))
	}
}

// isStrOrder: l says that element j2 of na comes before element i2 as strings.
func isStrOrder(l, na, off, i2, j2 *Term) bool {
	return l == strLess(Select(na, Add(off, j2)), Select(na, Add(off, i2)))
}

func init() {
	compSort["CLK"] = "Int"
	axiomFor["ttrunc"] = truncAxioms
	axiomFor["goquo"] = goquoAxioms
	axiomFor["itoa"] = func() []*Term {
		i, j := BVar("i", "Int"), BVar("j", "Int")
		a, b := mk("app", "Str", "itoa", i), mk("app", "Str", "itoa", j)
		return []*Term{Forall([]*Term{i, j}, Implies(Eq(a, b), Eq(i, j)), []*Term{a, b})}
	}
	extModels = map[string]func(*ExtCall) []Outcome{}
	ifaceModels = map[string]ifaceModel{}
	M := extModels
	alias := func(names []string, f func(*ExtCall) []Outcome) {
		for _, n := range names {
			M[n] = f
		}
	}
	buf := func(f func(c *ExtCall, p, content *Term) []Outcome) func(*ExtCall) []Outcome {
		return func(c *ExtCall) []Outcome {
			c.nilRecv()
			t := derefT(c.fn.Signature.Recv().Type())
			return f(c, c.args[0], c.st.load(c.args[0], t))
		}
	}
	bt := func(c *ExtCall) types.Type { return derefT(c.fn.Signature.Recv().Type()) }
	for _, T := range []string{"(*bytes.Buffer).", "(*strings.Builder)."} {
		M[T+"WriteString"] = buf(func(c *ExtCall, p, s *Term) []Outcome {
			c.st.store(p, bt(c), Cat(s, c.args[1]))
			return ret(c.st, Slen(c.args[1]), INil)
		})
		M[T+"WriteByte"] = buf(func(c *ExtCall, p, s *Term) []Outcome {
			c.st.store(p, bt(c), Cat(s, Chr(c.args[1])))
			return ret(c.st, INil)
		})
		M[T+"WriteRune"] = buf(func(c *ExtCall, p, s *Term) []Outcome {
			x := runeStr(c.args[1])
			c.st.store(p, bt(c), Cat(s, x))
			return ret(c.st, Slen(x), INil)
		})
		M[T+"Write"] = buf(func(c *ExtCall, p, s *Term) []Outcome {
			x := c.st.byteSlice(c.args[1])
			c.st.store(p, bt(c), Cat(s, x))
			return ret(c.st, Slen(x), INil)
		})
		M[T+"String"] = buf(func(c *ExtCall, p, s *Term) []Outcome { return ret(c.st, s) })
		M[T+"Len"] = buf(func(c *ExtCall, p, s *Term) []Outcome { return ret(c.st, Slen(s)) })
		M[T+"Grow"] = buf(func(c *ExtCall, p, s *Term) []Outcome {
			c.ex.oblige(c.st, "safety", "grow-nonnegative", Le(Num(0), c.args[1]), c.pos)
			return ret(c.st)
		})
		M[T+"Reset"] = buf(func(c *ExtCall, p, s *Term) []Outcome { c.st.store(p, bt(c), Lit("")); return ret(c.st) })
		M[T+"Truncate"] = buf(func(c *ExtCall, p, s *Term) []Outcome {
			c.ex.oblige(c.st, "safety", "truncate-range", And(Le(Num(0), c.args[1]), Le(c.args[1], Slen(s))), c.pos)
			c.st.store(p, bt(c), Substr(s, Num(0), c.args[1]))
			return ret(c.st)
		})
		M[T+"Bytes"] = buf(func(c *ExtCall, p, s *Term) []Outcome {
			n := Slen(s)
			return ret(c.st, mkSlice(Ctor("sub", p, Num(dataFID)), Num(0), n, n))
		})
	}
	M["bytes.NewBuffer"] = func(c *ExtCall) []Outcome {
		p := c.st.newObj()
		c.st.store(p, bufferType, c.st.byteSlice(c.args[0]))
		return ret(c.st, p)
	}
	M["bytes.NewBufferString"] = func(c *ExtCall) []Outcome {
		p := c.st.newObj()
		c.st.store(p, bufferType, c.args[0])
		return ret(c.st, p)
	}
	// sync: no effect on a single goroutine's memory
	for _, n := range []string{"(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock"} {
		M[n] = func(c *ExtCall) []Outcome { c.nilRecv(); return ret(c.st) }
	}
	for _, n := range []string{"Add", "Done", "Wait"} {
		n := n
		M["(*sync.WaitGroup)."+n] = func(c *ExtCall) []Outcome {
			c.nilRecv()
			c.ex.event(c.st, "wg."+n, c.args)
			return ret(c.st)
		}
	}
	M["sync/atomic.LoadInt64"] = func(c *ExtCall) []Outcome {
		c.ex.nilCheck(c.st, c.args[0], c.pos, "load")
		return ret(c.st, c.st.load(c.args[0], types.Typ[types.Int64]))
	}
	M["sync/atomic.StoreInt64"] = func(c *ExtCall) []Outcome {
		c.ex.nilCheck(c.st, c.args[0], c.pos, "store")
		c.st.store(c.args[0], types.Typ[types.Int64], c.args[1])
		return ret(c.st)
	}
	// time
	M["time.Now"] = func(c *ExtCall) []Outcome { return ret(c.st, c.ex.now(c.st)) }
	M["time.Since"] = func(c *ExtCall) []Outcome {
		n := c.ex.now(c.st)
		return ret(c.st, Sub(Sel("tns", n), Sel("tns", c.args[0])))
	}
	M["time.Until"] = func(c *ExtCall) []Outcome {
		n := c.ex.now(c.st)
		return ret(c.st, Sub(Sel("tns", c.args[0]), Sel("tns", n)))
	}
	M["(time.Time).Sub"] = func(c *ExtCall) []Outcome { return ret(c.st, Sub(Sel("tns", c.args[0]), Sel("tns", c.args[1]))) }
	M["(time.Time).Add"] = func(c *ExtCall) []Outcome {
		t, d := c.args[0], c.args[1]
		m := Sel("tmono", t)
		return ret(c.st, Ctor("mktime", Add(Sel("tns", t), d), Sel("tloc", t), Ite(Eq(m, Num(0)), Num(0), Add(m, d))))
	}
	M["(time.Time).After"] = func(c *ExtCall) []Outcome { return ret(c.st, Gt(Sel("tns", c.args[0]), Sel("tns", c.args[1]))) }
	M["(time.Time).Before"] = func(c *ExtCall) []Outcome { return ret(c.st, Lt(Sel("tns", c.args[0]), Sel("tns", c.args[1]))) }
	M["(time.Time).Equal"] = func(c *ExtCall) []Outcome { return ret(c.st, Eq(Sel("tns", c.args[0]), Sel("tns", c.args[1]))) }
	M["(time.Time).IsZero"] = func(c *ExtCall) []Outcome { return ret(c.st, Eq(Sel("tns", c.args[0]), Num(0))) }
	M["(time.Time).UTC"] = func(c *ExtCall) []Outcome {
		t := c.args[0]
		return ret(c.st, Ctor("mktime", Sel("tns", t), Num(0), Sel("tmono", t)))
	}
	M["(time.Time).Round"] = nil
	delete(M, "(time.Time).Round")
	M["(time.Time).Truncate"] = func(c *ExtCall) []Outcome {
		t, d := c.args[0], c.args[1]
		ns := Sel("tns", t)
		var tr *Term
		if d.isInt() && d.Int.Sign() <= 0 {
			tr = ns
		} else {
			tr = Ite(Le(d, Num(0)), ns, App("ttrunc", "Int", ns, d))
		}
		return ret(c.st, Ctor("mktime", tr, Sel("tloc", t), Num(0)))
	}
	M["(time.Time).Unix"] = func(c *ExtCall) []Outcome {
		return ret(c.st, Sub(divE(Sel("tns", c.args[0]), Num(1000000000)), Num(unixNS)))
	}
	M["(time.Time).UnixNano"] = func(c *ExtCall) []Outcome {
		return ret(c.st, Sub(Sel("tns", c.args[0]), BigInt(new(big.Int).Mul(big.NewInt(unixNS), big.NewInt(1000000000)))))
	}
	M["(time.Time).Format"] = func(c *ExtCall) []Outcome {
		t := c.args[0]
		return ret(c.st, App("timefmt", "Str", Sel("tns", t), Sel("tloc", t), c.args[1]))
	}
	M["time.Parse"] = func(c *ExtCall) []Outcome {
		return c.forkErr(func(st *State) []*Term {
			v := Ctor("mktime", App("timeparse", "Int", c.args[0], c.args[1]), App("timeparseloc", "Int", c.args[0], c.args[1]), Num(0))
			return []*Term{v}
		}, func(st *State) []*Term { return []*Term{ZeroTime} })
	}
	M["(time.Duration).Nanoseconds"] = func(c *ExtCall) []Outcome { return ret(c.st, c.args[0]) }
	M["time.Sleep"] = func(c *ExtCall) []Outcome {
		old := c.st.get("CLK")
		n := Fresh("clk", "Int")
		c.st.assume(And(Le(old, n), Le(Add(old, c.args[0]), n)))
		c.st.set("CLK", n)
		c.st.logWrite("CLK", nil)
		c.ex.event(c.st, "sleep", c.args)
		return ret(c.st)
	}
	for _, n := range []string{"time.Tick", "time.NewTicker"} {
		n := n
		M[n] = func(c *ExtCall) []Outcome {
			if n == "time.NewTicker" {
				c.ex.oblige(c.st, "safety", "ticker-positive", Lt(Num(0), c.args[0]), c.pos)
			}
			p := c.st.newObj()
			if n == "time.NewTicker" {
				ch := c.st.newObj()
				tt := derefT(c.fn.Signature.Results().At(0).Type())
				c.st.zeroInit(p, tt)
				c.st.storeField(p, fieldOf(tt, 0), ch)
			}
			c.ex.event(c.st, n, []*Term{p, c.args[0]})
			return ret(c.st, p)
		}
	}
	M["(*time.Ticker).Stop"] = func(c *ExtCall) []Outcome {
		c.nilRecv()
		c.ex.event(c.st, "ticker.Stop", c.args)
		return ret(c.st)
	}
	// strconv
	app := func(f func(c *ExtCall) *Term) func(*ExtCall) []Outcome {
		return func(c *ExtCall) []Outcome { return c.ex.appendBytes(c.st, c.args[0], f(c)) }
	}
	ci := func(t *Term) int64 {
		if !t.isInt() {
			unsupported("non-constant format argument")
		}
		return t.Int.Int64()
	}
	fl := func(c *ExtCall, v, f, p, b *Term) *Term {
		if !f.isInt() || !b.isInt() {
			unsupported("non-constant float format")
		}
		if p.Op == "ite" && p.Args[1].isInt() && p.Args[2].isInt() {
			return Ite(p.Args[0], fmtFloat(v, byte(ci(f)), ci(p.Args[1]), ci(b)), fmtFloat(v, byte(ci(f)), ci(p.Args[2]), ci(b)))
		}
		return fmtFloat(v, byte(ci(f)), ci(p), ci(b))
	}
	M["strconv.AppendInt"] = app(func(c *ExtCall) *Term {
		if ci(c.args[2]) != 10 {
			return App("itoab", "Str", c.args[1], c.args[2])
		}
		return itoa(c.args[1])
	})
	M["strconv.AppendFloat"] = app(func(c *ExtCall) *Term { return fl(c, c.args[1], c.args[2], c.args[3], c.args[4]) })
	M["strconv.FormatFloat"] = func(c *ExtCall) []Outcome { return ret(c.st, fl(c, c.args[0], c.args[1], c.args[2], c.args[3])) }
	M["strconv.Itoa"] = func(c *ExtCall) []Outcome { return ret(c.st, itoa(c.args[0])) }
	M["strconv.FormatInt"] = func(c *ExtCall) []Outcome {
		if ci(c.args[1]) != 10 {
			return ret(c.st, App("itoab", "Str", c.args[0], c.args[1]))
		}
		return ret(c.st, itoa(c.args[0]))
	}
	parse := func(c *ExtCall) []Outcome {
		s := c.args[0]
		ok := App("intsyntax", "Bool", s)
		e := c.ex.freshErr(c.st)
		v := Fresh("parsed", "Int")
		c.st.assume(Implies(ok, Eq(v, App("parseint", "Int", s))))
		return ret(c.st, v, Ite(ok, INil, e))
	}
	M["strconv.ParseInt"] = parse
	M["strconv.Atoi"] = parse
	// strings
	M["strings.Contains"] = func(c *ExtCall) []Outcome { return ret(c.st, App("strcontains", "Bool", c.args...)) }
	M["strings.HasPrefix"] = func(c *ExtCall) []Outcome { return ret(c.st, App("strprefix", "Bool", c.args...)) }
	M["strings.HasSuffix"] = func(c *ExtCall) []Outcome { return ret(c.st, App("strsuffix", "Bool", c.args...)) }
	M["strings.Index"] = func(c *ExtCall) []Outcome {
		i := App("strindex", "Int", c.args...)
		c.st.assume(Or(Eq(i, Num(-1)), And(Le(Num(0), i), Le(Add(i, Slen(c.args[1])), Slen(c.args[0])))))
		return ret(c.st, i)
	}
	M["strings.IndexByte"] = func(c *ExtCall) []Outcome {
		i := App("strindex", "Int", c.args[0], Chr(c.args[1]))
		c.st.assume(Or(Eq(i, Num(-1)), And(Le(Num(0), i), Lt(i, Slen(c.args[0])))))
		return ret(c.st, i)
	}
	lastIdx := func(c *ExtCall, s, sub *Term) []Outcome {
		i := App("strlastindex", "Int", s, sub)
		c.st.assume(Or(And(Eq(i, Num(-1)), Not(App("strcontains", "Bool", s, sub))), And(Le(Num(0), i), Le(Add(i, Slen(sub)), Slen(s)),
			Eq(Substr(s, i, Slen(sub)), sub), Not(App("strcontains", "Bool", Substr(s, Add(i, Num(1)), Sub(Slen(s), Add(i, Num(1)))), sub)))))
		return ret(c.st, i)
	}
	M["strings.LastIndex"] = func(c *ExtCall) []Outcome { return lastIdx(c, c.args[0], c.args[1]) }
	M["strings.LastIndexByte"] = func(c *ExtCall) []Outcome { return lastIdx(c, c.args[0], Chr(c.args[1])) }
	M["strings.Join"] = func(c *ExtCall) []Outcome {
		s := c.args[0]
		return ret(c.st, App("strjoin", "Str", c.st.sliceArr(Sel("sbase", s), tStr), Sel("soff", s), Sel("slen_", s), c.args[1]))
	}
	M["strings.Split"] = func(c *ExtCall) []Outcome {
		r := c.st.newObj()
		n := App("splitlen", "Int", c.args...)
		c.st.assume(Le(Num(1), n))
		c.st.wr(elemComp(tStr), r, App("split", ArrSort("Int", "Str"), c.args...))
		return ret(c.st, mkSlice(r, Num(0), n, n))
	}
	// sort
	M["sort.Strings"] = func(c *ExtCall) []Outcome {
		s := c.args[0]
		c.ex.sortModel(c.st, s, tStr, func(st *State, i, j *Term) *Term {
			arr := st.sliceArr(Sel("sbase", s), tStr)
			return strLess(Select(arr, Add(Sel("soff", s), i)), Select(arr, Add(Sel("soff", s), j)))
		})
		return ret(c.st)
	}
	for _, n := range []string{"sort.Sort", "sort.Stable"} {
		M[n] = sortSort
	}
	for _, n := range []string{"sort.Slice", "sort.SliceStable"} {
		M[n] = sortSlice
	}
	// errors, fmt
	M["errors.New"] = func(c *ExtCall) []Outcome {
		p := c.st.newObj()
		e := Ctor("iptr", c.ex.prog.extTag("*errors.errorString"), p)
		c.st.assume(Eq(errMsg(e), c.args[0]))
		return ret(c.st, e)
	}
	M["fmt.Errorf"] = func(c *ExtCall) []Outcome {
		s := c.sprintf(c.args[0], c.args[1])
		p := c.st.newObj()
		e := Ctor("iptr", c.ex.prog.extTag("*fmt.wrapError"), p)
		c.st.assume(Eq(errMsg(e), s))
		return ret(c.st, e)
	}
	M["fmt.Sprintf"] = func(c *ExtCall) []Outcome { return ret(c.st, c.sprintf(c.args[0], c.args[1])) }
	M["fmt.Sprint"] = func(c *ExtCall) []Outcome {
		vs, ok := c.variadic(c.args[0])
		if ok && len(vs) == 1 {
			return ret(c.st, c.fmtVal("%v", vs[0]))
		}
		return ret(c.st, Fresh("sprint", "Str"))
	}
	M["fmt.Fprintf"] = func(c *ExtCall) []Outcome { return c.writeTo(c.args[0], c.sprintf(c.args[1], c.args[2])) }
	M["fmt.Fprint"] = func(c *ExtCall) []Outcome {
		vs, ok := c.variadic(c.args[1])
		if ok && len(vs) == 1 {
			return c.writeTo(c.args[0], c.fmtVal("%v", vs[0]))
		}
		return c.writeTo(c.args[0], Fresh("sprint", "Str"))
	}
	M["io.WriteString"] = func(c *ExtCall) []Outcome { return c.writeTo(c.args[0], c.args[1]) }
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "log.Println", "log.Printf"} {
		M[n] = func(c *ExtCall) []Outcome {
			c.ex.note("printing to standard output is not an observed effect")
			var vs []*Term
			rs := c.fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				vs = append(vs, c.ex.freshVal(c.st, "print", rs.At(i).Type()))
			}
			return ret(c.st, vs...)
		}
	}
	// json
	marshal := func(variant string) func(*ExtCall) []Outcome {
		return func(c *ExtCall) []Outcome {
			c.ex.note("encoding/json output is a function of the encoded value; any Marshal may fail")
			c.st.ghost("marshaled", c.args[0])
			c.st.snaps["marshaled"] = c.st.clone()
			if js, fs, ok := c.ex.jsonSimple(c.st, c.args[0]); ok && variant == "" {
				c.ex.note("JSON of a struct of strings, integers, floats and string maps is the object of its fields in order; encoding it fails exactly for a float that is not finite")
				var fin []*Term
				for _, f := range fs {
					fin = append(fin, App("ffinite", "Bool", f))
				}
				s2 := c.st.clone()
				c.st.assume(And(fin...))
				o := ret(c.st, c.st.newBytes(js), INil)
				if len(fs) == 0 {
					return o
				}
				s2.assume(Not(And(fin...)))
				return append(o, Outcome{st: s2, kind: oReturn, vals: []*Term{NilSlice, c.ex.freshErr(s2)}})
			}
			js := c.ex.jsonTerm(c.st, c.args[0], variant)
			je := App("jsonerr", "Iface", js)
			c.st.ghost("marshaltext", js)
			s2 := c.st.clone()
			c.st.ghost("marshalok", True)
			s2.ghost("marshalok", False)
			c.st.assume(And(Lt(Num(0), Slen(js)), Eq(je, INil)))
			o := ret(c.st, c.st.newBytes(js), INil)
			s2.assume(Eq(je, c.ex.freshErr(s2)))
			return append(o, Outcome{st: s2, kind: oReturn, vals: []*Term{NilSlice, je}})
		}
	}
	M["encoding/json.Marshal"] = marshal("")
	M["encoding/json.MarshalIndent"] = marshal("")
	M["encoding/json.Unmarshal"] = func(c *ExtCall) []Outcome {
		v := c.args[1]
		if v.Op != "ctor" || !v.Args[0].isInt() {
			unsupported("json.Unmarshal into unknown type")
		}
		t := tagType[v.Args[0].Int.Int64()]
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			unsupported("json.Unmarshal into %s", t)
		}
		p := v.Args[1]
		c.ex.event(c.st, "json.Unmarshal", []*Term{c.st.byteSlice(c.args[0]), p})
		s2 := c.st.clone()
		c.ex.decodeInto(c.st, p, pt.Elem())
		c.st.snaps["decoded"] = c.st.clone()
		c.ex.decodeInto(s2, p, pt.Elem())
		e := c.ex.freshErr(s2)
		return append(ret(c.st, INil), Outcome{st: s2, kind: oReturn, vals: []*Term{e}})
	}
	// math
	M["math.Sqrt"] = func(c *ExtCall) []Outcome { return ret(c.st, App("fsqrt", "Flt", c.args[0])) }
	M["math.Pow"] = func(c *ExtCall) []Outcome {
		if c.args[1].Op == "fltlit" && c.args[1].Sym == "2" {
			return ret(c.st, App("f*", "Flt", c.args[0], c.args[0]))
		}
		return ret(c.st, App("fpow", "Flt", c.args...))
	}
	M["math.IsNaN"] = func(c *ExtCall) []Outcome { return ret(c.st, Not(App("feq", "Bool", c.args[0], c.args[0]))) }
	// reflect
	M["reflect.DeepEqual"] = func(c *ExtCall) []Outcome {
		a, b := c.args[0], c.args[1]
		if a == b {
			c.ex.note("reflect.DeepEqual is reflexive")
			return ret(c.st, True)
		}
		d := App("deepequal", "Bool", a, b)
		c.st.assume(Implies(Eq(a, b), d))
		c.st.assume(Implies(Ne(Eq(a, INil), Eq(b, INil)), Not(d)))
		return ret(c.st, d)
	}
	// runtime, os
	M["runtime.Stack"] = func(c *ExtCall) []Outcome {
		s := c.args[0]
		n := Fresh("stackn", "Int")
		c.st.assume(And(Le(Num(0), n), Le(n, Sel("slen_", s))))
		b := Sel("sbase", s)
		nb := Fresh("stackbytes", "Str")
		c.st.assume(Eq(Slen(nb), Slen(c.st.bytesAt(b))))
		c.st.setBytes(b, nb)
		return ret(c.st, n)
	}
	M["runtime.Callers"] = func(c *ExtCall) []Outcome {
		s := c.args[1]
		n := Fresh("ncallers", "Int")
		c.st.assume(And(Le(Num(0), n), Le(n, Sel("slen_", s))))
		et := types.Typ[types.Uintptr]
		na := Fresh("pcs", ArrSort("Int", "Int"))
		i := BVar("i", "Int")
		v := mk("select", "Int", "", na, i)
		c.st.assume(Forall([]*Term{i}, Le(Num(0), v), []*Term{v}))
		c.st.setSliceArr(Sel("sbase", s), et, na)
		// the skip count is relative to the caller: count it from the function being verified
		c.ex.event(c.st, "runtime.Callers", []*Term{Sub(c.args[0], Num(int64(c.fr.depth))), Sel("slen_", s), n, na})
		return ret(c.st, n)
	}
	M["runtime.FuncForPC"] = func(c *ExtCall) []Outcome {
		f := App("funcforpc", "Ref", c.args[0])
		c.st.assume(Lt(Rid(f), Num(1)))
		return ret(c.st, f)
	}
	M["(*runtime.Func).Name"] = func(c *ExtCall) []Outcome { return ret(c.st, App("funcname", "Str", c.args[0])) }
	M["(*runtime.Func).FileLine"] = func(c *ExtCall) []Outcome {
		c.nilRecv()
		return ret(c.st, App("funcfile", "Str", c.args...), App("funcline", "Int", c.args...))
	}
	M["runtime.GOROOT"] = func(c *ExtCall) []Outcome { return ret(c.st, Const("GOROOT", "Str")) }
	M["runtime.NumGoroutine"] = func(c *ExtCall) []Outcome { return ret(c.st, Const("NumGoroutine", "Int")) }
	M["runtime.NumCgoCall"] = func(c *ExtCall) []Outcome { return ret(c.st, Const("NumCgoCall", "Int")) }
	M["runtime.ReadMemStats"] = func(c *ExtCall) []Outcome {
		t := c.cell(0)
		c.st.store(c.args[0], t, Const("MemStats", sortOf(t)))
		c.st.assume(valWF(Const("MemStats", sortOf(t)), t, Alloc0))
		return ret(c.st)
	}
	M["runtime/debug.ReadGCStats"] = func(c *ExtCall) []Outcome {
		t := c.cell(0)
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			f := fieldOf(t, i)
			switch u.Field(i).Name() {
			case "PauseQuantiles":
				s := c.st.rd(fieldComp(f), c.args[0])
				// element i of n is the quantile i/(n-1)
				na := Fresh("gcq", ArrSort("Int", "Int"))
				qi := BVar("i", "Int")
				c.st.assume(Forall([]*Term{qi}, And(Le(Num(0), Select(na, Add(Sel("soff", s), qi))), Eq(Select(na, Add(Sel("soff", s), qi)), App("gcquantile", "Int", qi, Sel("slen_", s)))), []*Term{Select(na, Add(Sel("soff", s), qi))}))
				et := f.typ.Underlying().(*types.Slice).Elem()
				c.st.setSliceArr(Sel("sbase", s), et, na)
			default:
				v := Const("GCStats:"+u.Field(i).Name(), sortOf(f.typ))
				c.st.assume(valWF(v, f.typ, Alloc0))
				c.st.store(subRef(c.args[0], f), f.typ, v)
			}
		}
		return ret(c.st)
	}
	M["os.Getpid"] = func(c *ExtCall) []Outcome { return ret(c.st, Const("Getpid", "Int")) }
	hostname := func(c *ExtCall) []Outcome {
		e := Const("HostnameErr", "Iface")
		h := Const("Hostname", "Str")
		c.st.assume(Implies(Ne(e, INil), Eq(h, Lit(""))))
		return ret(c.st, h, e)
	}
	M["os.Hostname"] = hostname
	readDir := func(c *ExtCall) []Outcome {
		e := c.ex.freshErr(c.st)
		ok := Const("ReadDirOK", "Bool")
		n := Const("ReadDirLen", "Int")
		c.st.assume(Le(Num(0), n))
		r := c.st.newObj()
		c.ex.event(c.st, "ReadDir", []*Term{c.args[0]})
		return ret(c.st, Ite(ok, mkSlice(r, Num(0), n, n), NilSlice), Ite(ok, INil, e))
	}
	M["io/ioutil.ReadDir"] = readDir
	M["os.ReadDir"] = readDir
	readAll := func(c *ExtCall) []Outcome {
		ok := Fresh("readok", "Bool")
		e := c.ex.freshErr(c.st)
		body := Fresh("body", "Str")
		b := c.st.newBytes(body)
		c.ex.event(c.st, "ReadAll", []*Term{c.args[0], ok, body})
		return ret(c.st, b, Ite(ok, INil, e))
	}
	M["io/ioutil.ReadAll"] = readAll
	M["io.ReadAll"] = readAll
	// network
	M["(*net.UDPConn).WriteToUDP"] = func(c *ExtCall) []Outcome {
		c.nilRecv()
		c.ex.event(c.st, "udp", []*Term{c.args[0], c.st.byteSlice(c.args[1]), c.args[2]})
		return ret(c.st, c.ex.freshVal(c.st, "udpn", types.Typ[types.Int]), c.ex.freshVal(c.st, "udperr", types.Universe.Lookup("error").Type()))
	}
	resolved := func(name string, f func(c *ExtCall, st *State) *Term) func(*ExtCall) []Outcome {
		return func(c *ExtCall) []Outcome {
			c.ex.event(c.st, name, c.args)
			return c.forkErr(func(st *State) []*Term { return []*Term{f(c, st)} },
				func(st *State) []*Term { return []*Term{zeroOf(c.fn.Signature.Results().At(0).Type())} })
		}
	}
	M["net.ListenPacket"] = resolved("net.ListenPacket", func(c *ExtCall, st *State) *Term {
		c.ex.note("net.ListenPacket(\"udp\", …) returns a *net.UDPConn")
		p := c.ex.prog.tpkgs["net"].Scope().Lookup("UDPConn").Type()
		return Ctor("iptr", tagOf(types.NewPointer(p)), st.newObj())
	})
	M["net.ResolveUDPAddr"] = resolved("net.ResolveUDPAddr", func(c *ExtCall, st *State) *Term { return st.newObj() })
	httpResp := func(name string) func(*ExtCall) []Outcome {
		return func(c *ExtCall) []Outcome {
			sig := c.fn.Signature
			var ea []evArg
			off := len(c.args) - sig.Params().Len()
			for i, a := range c.args {
				if i < off {
					continue
				}
				x := a
				// a body reader over a bytes.Buffer: record its content
				if x.Op == "ctor" && x.Sym == "iptr" && x.Args[0] == tagOf(types.NewPointer(bufferType)) {
					ea = append(ea, evArg{c.st.load(x.Args[1], bufferType), nil})
					continue
				}
				ea = append(ea, evArg{x, nil})
			}
			c.ex.eventT(c.st, name, ea)
			return c.forkErr(func(st *State) []*Term {
				r := st.newObj()
				rt := derefT(sig.Results().At(0).Type())
				u := rt.Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					f := fieldOf(rt, i)
					switch u.Field(i).Name() {
					case "StatusCode":
						v := Fresh("code", "Int")
						st.wr(fieldComp(f), r, v)
						st.ghost("respcode", v)
					case "Body":
						b := Fresh("respbody", "Iface")
						st.assume(Ne(b, INil))
						st.wr(fieldComp(f), r, b)
					case "Status":
						st.wr(fieldComp(f), r, Fresh("status", "Str"))
					}
				}
				return []*Term{r}
			}, func(st *State) []*Term { return []*Term{Nil} })
		}
	}
	M["(*net/http.Client).Get"] = httpResp("http.Get")
	M["net/http.Get"] = httpResp("http.Get")
	M["(*net/http.Client).Post"] = httpResp("http.Post")
	M["net/http.Post"] = httpResp("http.Post")
	M["(*net/http.Client).Do"] = func(c *ExtCall) []Outcome {
		c.nilRecv()
		return httpResp("http.Do")(c)
	}
	M["net/http.NewRequest"] = func(c *ExtCall) []Outcome {
		return c.forkErr(func(st *State) []*Term {
			r := st.newObj()
			body := c.args[2]
			if body.Op == "ctor" && body.Sym == "iptr" && body.Args[0] == tagOf(types.NewPointer(bufferType)) {
				st.assume(Eq(App("reqbody", "Str", r), st.load(body.Args[1], bufferType)))
			}
			st.assume(And(Eq(App("reqmethod", "Str", r), c.args[0]), Eq(App("requrl", "Str", r), c.args[1])))
			rt := derefT(c.fn.Signature.Results().At(0).Type())
			u := rt.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if n := u.Field(i).Name(); n == "Header" {
					f := fieldOf(rt, i)
					h := st.newMap(f.typ)
					st.wr(fieldComp(f), r, h)
					st.assume(Eq(App("reqheader", "Ref", r), h))
				}
			}
			return []*Term{r}
		}, func(st *State) []*Term { return []*Term{Nil} })
	}
	M["(*net/http.Request).SetBasicAuth"] = func(c *ExtCall) []Outcome {
		c.nilRecv()
		c.ex.event(c.st, "SetBasicAuth", c.args)
		return ret(c.st)
	}
	for _, n := range []string{"Set", "Add"} {
		n := n
		M["(net/http.Header)."+n] = func(c *ExtCall) []Outcome {
			c.ex.oblige(c.st, "safety", "nil-map-write", Ne(c.args[0], Nil), c.pos)
			c.ex.event(c.st, "Header."+n, c.args)
			return ret(c.st)
		}
	}
	M["(*net/url.URL).Query"] = func(c *ExtCall) []Outcome {
		c.nilRecv()
		q := c.st.newMap(c.fn.Signature.Results().At(0).Type())
		c.st.assume(Eq(App("queryof", "Ref", q), c.args[0]))
		return ret(c.st, q)
	}
	M["(net/url.Values).Get"] = func(c *ExtCall) []Outcome {
		return ret(c.st, App("queryget", "Str", App("queryof", "Ref", c.args[0]), c.args[1]))
	}
	M["(*github.com/gocraft/web.Request).RoutePath"] = func(c *ExtCall) []Outcome { return ret(c.st, App("routepath", "Str", c.args[0])) }
	M["(*web.Request).RoutePath"] = M["(*github.com/gocraft/web.Request).RoutePath"]
	alias([]string{"os.Exit"}, func(c *ExtCall) []Outcome { return []Outcome{{st: c.st, kind: oStop}} })

	// interface methods
	ifaceModels["Error"] = func(ex *Exec, st *State, fr *Frame, recv *Term, it types.Type, sig *types.Signature, args []*Term, pos token.Pos) []Outcome {
		if sig.Params().Len() != 0 {
			return nil
		}
		ex.note("Error() of an error value is a pure function of the value")
		return ret(st, errMsg(recv))
	}
	ifaceModels["StatusCode"] = func(ex *Exec, st *State, fr *Frame, recv *Term, it types.Type, sig *types.Signature, args []*Term, pos token.Pos) []Outcome {
		v := Fresh("statuscode", "Int")
		st.ghost("statuscode", v)
		return ret(st, v)
	}
	ifaceModels["Header"] = func(ex *Exec, st *State, fr *Frame, recv *Term, it types.Type, sig *types.Signature, args []*Term, pos token.Pos) []Outcome {
		h := App("headerof", "Ref", recv)
		st.assume(And(Ne(h, Nil), Lt(Rid(h), st.alloc)))
		return ret(st, h)
	}
	ifaceModels["Close"] = func(ex *Exec, st *State, fr *Frame, recv *Term, it types.Type, sig *types.Signature, args []*Term, pos token.Pos) []Outcome {
		ex.note("closing a response body has no observed effect")
		var vs []*Term
		for i := 0; i < sig.Results().Len(); i++ {
			vs = append(vs, ex.freshVal(st, "closeerr", sig.Results().At(i).Type()))
		}
		return ret(st, vs...)
	}
	ifaceModels["Write"] = func(ex *Exec, st *State, fr *Frame, recv *Term, it types.Type, sig *types.Signature, args []*Term, pos token.Pos) []Outcome {
		if sig.Params().Len() != 1 || !isByteSlice(sig.Params().At(0).Type()) {
			return nil
		}
		ex.event(st, "Write", []*Term{recv, st.byteSlice(args[0])})
		var vs []*Term
		for i := 0; i < sig.Results().Len(); i++ {
			vs = append(vs, ex.freshVal(st, "werr", sig.Results().At(i).Type()))
		}
		return ret(st, vs...)
	}
	_ = strconv.Itoa
}

// extTag: the tag of a dynamic type that exists only outside the repository.
func (P *Program) extTag(name string) *Term {
	tagMu.Lock()
	defer tagMu.Unlock()
	id, ok := typeTag["ext:"+name]
	if !ok {
		id = int64(len(typeTag) + 1)
		typeTag["ext:"+name] = id
	}
	return Num(id)
}

// sortSort models sort.Sort by the Less, Len and Swap methods of the dynamic type: the
// standard implementation leaves an ordered permutation of the elements.
func sortSort(c *ExtCall) []Outcome {
	v := c.args[0]
	ex, st := c.ex, c.st
	if v.Op != "ctor" || !v.Args[0].isInt() {
		unsupported("sort.Sort of unknown type")
	}
	t := tagType[v.Args[0].Int.Int64()]
	recv := unIface(v, t)
	// locate the slice: the receiver itself or its only slice field
	var s *Term
	var et types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s, et = recv, u.Elem()
	case *types.Pointer:
		if isStruct(u.Elem()) {
			su := u.Elem().Underlying().(*types.Struct)
			for i := 0; i < su.NumFields(); i++ {
				if sl, ok := su.Field(i).Type().Underlying().(*types.Slice); ok {
					s, et = st.rd(fieldComp(fieldOf(u.Elem(), i)), recv), sl.Elem()
				}
			}
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if sl, ok := u.Field(i).Type().Underlying().(*types.Slice); ok {
				s, et = Sel(structSel(t, i), recv), sl.Elem()
			}
		}
	}
	if s == nil {
		unsupported("sort.Sort of %s", t)
	}
	lessFn := ex.prog.method(t, "Less")
	swapFn := ex.prog.method(t, "Swap")
	lenFn := ex.prog.method(t, "Len")
	if lessFn == nil || swapFn == nil || lenFn == nil {
		unsupported("sort.Sort: methods of %s", t)
	}
	// Len must be the slice length, Swap must exchange two elements
	for _, o := range ex.callStatic(st.clone(), c.fr, lenFn, []*Term{recv}, nil, c.pos, false) {
		if o.kind == oReturn {
			ex.oblige(o.st.clone(), "sort-interface", "Len", Eq(o.vals[0], Sel("slen_", s)), c.pos)
		}
	}
	n := Sel("slen_", s)
	off := Sel("soff", s)
	{
		i, j := Fresh("i", "Int"), Fresh("j", "Int")
		q := st.clone()
		q.assume(And(Le(Num(0), i), Lt(i, n), Le(Num(0), j), Lt(j, n)))
		pre := q.sliceArr(Sel("sbase", s), et)
		for _, o := range ex.callStatic(q, c.fr, swapFn, []*Term{recv, i, j}, nil, c.pos, false) {
			if o.kind == oReturn {
				want := Store(Store(pre, Add(off, i), Select(pre, Add(off, j))), Add(off, j), Select(pre, Add(off, i)))
				k := Fresh("k", "Int")
				ex.oblige(o.st.clone(), "sort-interface", "Swap", Eq(Select(o.st.sliceArr(Sel("sbase", s), et), k), Select(want, k)), c.pos)
			}
		}
	}
	ex.note("sort.Sort leaves an ordered permutation when Less is a strict weak order")
	ex.sortModel(st, s, et, func(st *State, i, j *Term) *Term { return ex.pureCall(st, c.fr, lessFn, nil, []*Term{recv, i, j}, n) })
	return ret(st)
}

func (P *Program) method(t types.Type, name string) *ssa.Function {
	ms := P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return P.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// pureCall evaluates a boolean function of two indices symbolically; i and j are bound variables.
func (ex *Exec) pureCall(st *State, fr *Frame, fn *ssa.Function, free []*Term, args []*Term, n *Term) *Term {
	bi, bj := args[len(args)-2], args[len(args)-1]
	fi, fj := Fresh("li", "Int"), Fresh("lj", "Int")
	a2 := append(append([]*Term{}, args[:len(args)-2]...), fi, fj)
	q := st.clone()
	q.assume(And(Le(Num(0), fi), Lt(fi, n), Le(Num(0), fj), Lt(fj, n)))
	base := len(q.assms())
	outs := ex.callStatic(q, fr, fn, a2, free, fn.Pos(), false)
	var res *Term
	for _, o := range outs {
		if o.kind != oReturn {
			continue
		}
		as := o.st.assms()
		var conds []*Term
		if len(as) > base {
			conds = as[base:]
		}
		// the path condition distinguishes the outcomes
		if res == nil {
			res = o.vals[0]
		} else {
			res = Ite(And(conds...), o.vals[0], res)
		}
	}
	if res == nil {
		return nil
	}
	return Subst(res, map[*Term]*Term{fi: bi, fj: bj})
}

func sortSlice(c *ExtCall) []Outcome {
	v := c.args[0]
	ex, st := c.ex, c.st
	if v.Op != "ctor" || !v.Args[0].isInt() {
		unsupported("sort.Slice of unknown type")
	}
	t := tagType[v.Args[0].Int.Int64()]
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		unsupported("sort.Slice of %s", t)
	}
	s := unIface(v, t)
	fn := ex.prog.fnOf(c.args[1])
	if fn == nil {
		unsupported("sort.Slice: unknown less")
	}
	ex.note("sort.Slice leaves an ordered permutation when less is a strict weak order")
	ex.sortModel(st, s, sl.Elem(), func(st *State, i, j *Term) *Term {
		return ex.pureCall(st, c.fr, fn, c.args[1].Args, []*Term{i, j}, Sel("slen_", s))
	})
	return ret(st)
}

func init() {
	for _, op := range []string{"f+", "f*"} {
		op := op
		axiomFor[op] = func() []*Term {
			x, y := BVar("x", "Flt"), BVar("y", "Flt")
			a := mk("app", "Flt", op, x, y)
			return []*Term{Forall([]*Term{x, y}, Eq(a, mk("app", "Flt", op, y, x)), []*Term{a})}
		}
	}
}

// setSliceArr replaces the elements of the backing array b.
func (s *State) setSliceArr(b *Term, et types.Type, na *Term) {
	if at := arrBase(b); at != nil {
		s.store(b, at, na)
	} else {
		s.wr(elemComp(et), b, na)
	}
}
