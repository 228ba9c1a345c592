package main

// Ghost trace of observable effects, interface calls, channels, unknown callbacks.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type evCtor struct {
	name  string // user-visible event name
	ctor  string
	types []types.Type
	orig  []int   // selector index of each argument
	caps  [][]int // selector indexes of each argument's captures
	sels  []string
}

var (
	evMu   sync.Mutex
	evTab  = map[string]*evCtor{} // by ctor
	evName = map[string][]*evCtor{}
	evDT   *dtype
)

func init() {
	evDT = &dtype{name: "Ev", ctors: []dctor{{name: "ev0", sels: nil, srts: nil}}}
	declDT(evDT)
	regComp("OBS", ArrSort("Int", "Ev"), nil)
	compSort["OBSN"] = "Int"
}

type evArg struct {
	t   *Term
	typ types.Type
}

// capture lists ghost values recorded with an event argument.
func (ex *Exec) capture(st *State, a evArg) []*Term {
	if a.typ == nil {
		return nil
	}
	switch u := a.typ.Underlying().(type) {
	case *types.Map:
		k, _ := mapKey(a.typ)
		return []*Term{st.rd("MD|"+k, a.t), st.rd("MV|"+k, a.t)}
	case *types.Slice:
		if isByteSlice(a.typ) {
			return []*Term{st.byteSlice(a.t)}
		}
		return []*Term{st.sliceArr(Sel("sbase", a.t), u.Elem())}
	case *types.Pointer:
		if isStruct(u.Elem()) && inRepoType(u.Elem()) {
			return []*Term{st.load(a.t, u.Elem())}
		}
	case *types.Interface:
		if a.typ.String() == "error" {
			// the Emitted flag of an unmuted error at this moment
			if em := ex.prog.emittedField(); em != nil {
				return []*Term{And(ifaceHasType(a.t, types.NewPointer(em.owner)), st.rd(fieldComp(em), Sel("iref", a.t)))}
			}
		}
	}
	return nil
}

func inRepoType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == modPath || strings.HasPrefix(n.Obj().Pkg().Path(), modPath+"/"))
}

func (P *Program) emittedField() *fieldInfo {
	hp := P.pkgs[modPath]
	if hp == nil {
		return nil
	}
	o := hp.Pkg.Scope().Lookup("UnmutedError")
	if o == nil {
		return nil
	}
	u, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "Emitted" {
			return fieldOf(o.Type(), i)
		}
	}
	return nil
}

func counterComp(n string) string {
	k := "CTR|" + n
	regComp(k, ArrSort("Ref", "Int"), types.Typ[types.Int])
	return k
}

// event appends to the ghost trace. args are plain terms or evArg values.
func (ex *Exec) event(st *State, name string, args []*Term) {
	var ea []evArg
	for _, a := range args {
		ea = append(ea, evArg{a, nil})
	}
	ex.eventT(st, name, ea)
}

func (ex *Exec) eventT(st *State, name string, args []evArg) {
	var vals []*Term
	var sorts []string
	ec := &evCtor{name: name}
	for _, a := range args {
		ec.types = append(ec.types, a.typ)
		ec.orig = append(ec.orig, len(vals))
		vals = append(vals, a.t)
		var cs []int
		for _, c := range ex.capture(st, a) {
			cs = append(cs, len(vals))
			vals = append(vals, c)
		}
		ec.caps = append(ec.caps, cs)
	}
	for _, v := range vals {
		sorts = append(sorts, v.Sort)
	}
	ec.ctor = "ev|" + name + "|" + strings.Join(sorts, ",")
	evMu.Lock()
	if o, ok := evTab[ec.ctor]; ok {
		ec = o
	} else {
		d := dctor{name: ec.ctor}
		for i, s := range sorts {
			sel := fmt.Sprintf("%s|%d", ec.ctor, i)
			d.sels = append(d.sels, sel)
			d.srts = append(d.srts, s)
		}
		ec.sels = d.sels
		dtMu.Lock()
		evDT.ctors = append(evDT.ctors, d)
		ctorDT[d.name] = "Ev"
		for i, s := range d.sels {
			selCtor[s] = d.name
			selIdx[s] = i
		}
		dtMu.Unlock()
		evTab[ec.ctor] = ec
		evName[name] = append(evName[name], ec)
	}
	evMu.Unlock()
	if ex.prog != nil && ex.prog.spec != nil {
		for _, c := range ex.prog.spec.counters {
			if c.event != name || len(args) == 0 || args[0].t.Sort != "Ref" {
				continue
			}
			var ts []*Term
			var tys []types.Type
			for _, a := range args {
				ts, tys = append(ts, a.t), append(tys, a.typ)
			}
			g := ex.evalWith(st, nil, c.params, ts, tys, c.body)
			k := counterComp(c.name)
			st.wr(k, args[0].t, Add(st.rd(k, args[0].t), Ite(g, Num(1), Num(0))))
		}
	}
	e := Ctor(ec.ctor, vals...)
	n := st.get("OBSN")
	st.set("OBS", Store(st.get("OBS"), n, e))
	st.set("OBSN", Add(n, Num(1)))
	st.logWrite("OBS", nil)
	st.logWrite("OBSN", nil)
}

// ---- interface method calls

func (ex *Exec) invoke(st *State, fr *Frame, cc *ssa.CallCommon, recv *Term, args []*Term, pos token.Pos) []Outcome {
	return ex.invokeMethod(st, fr, recv, cc.Value.Type(), cc.Method, args, pos)
}

func (ex *Exec) invokeMethod(st *State, fr *Frame, recv *Term, it types.Type, m *types.Func, args []*Term, pos token.Pos) []Outcome {
	name := m.Name()
	if recv.Op == "ite" {
		s2 := st.clone()
		st.assume(recv.Args[0])
		s2.assume(Not(recv.Args[0]))
		o := ex.invokeMethod(st, fr, recv.Args[1], it, m, args, pos)
		return append(o, ex.invokeMethod(s2, fr, recv.Args[2], it, m, args, pos)...)
	}
	if recv == INil {
		ex.oblige(st, "safety", "nil-interface-call:"+name, False, pos)
		return []Outcome{{st: st, kind: oStop}}
	}
	if recv.Op == "ctor" && recv.Args[0].isInt() {
		if dt := tagType[recv.Args[0].Int.Int64()]; dt != nil {
			fn := ex.prog.prog.LookupMethod(dt, m.Pkg(), name)
			if fn != nil {
				return ex.callStatic(st, fr, fn, append([]*Term{unIface(recv, dt)}, args...), nil, pos, false)
			}
		}
	}
	if recv.Op != "ctor" {
		ex.oblige(st, "safety", "nil-interface-call:"+name, Ne(recv, INil), pos)
	}
	sig := m.Type().(*types.Signature)
	if h := ifaceModels[name]; h != nil {
		if o := h(ex, st, fr, recv, it, sig, args, pos); o != nil {
			ex.extUsed["interface method "+name] = true
			return o
		}
	}
	ea := []evArg{{recv, nil}}
	for i, a := range args {
		ea = append(ea, evArg{a, sig.Params().At(i).Type()})
	}
	ex.note("calls of interface method " + name + " have no effect on the memory of this library; each is recorded in the ghost trace")
	ex.eventT(st, name, ea)
	var vs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		vs = append(vs, ex.freshVal(st, "r:"+name, sig.Results().At(i).Type()))
	}
	return ret(st, vs...)
}

// ---- channels

func chanName(t types.Type) string { return typeKey(t) }

func (ex *Exec) sendVal(st *State, ch, v *Term, t types.Type, pos token.Pos) {
	for _, ci := range ex.prog.chanInvs(t) {
		g := ex.evalWith(st, nil, ci.params, []*Term{v}, []types.Type{t}, ci.body)
		ex.oblige(st, "chan-invariant", "send:"+chanName(t)+":"+ci.label, g, pos)
	}
	ex.eventT(st, "send:"+chanName(t), []evArg{{ch, nil}, {v, t}})
}

func (ex *Exec) recvVal(st *State, ch *Term, t types.Type) *Term {
	v := ex.freshVal(st, "recv", t)
	for _, ci := range ex.prog.chanInvs(t) {
		st.assume(ex.evalWith(st, nil, ci.params, []*Term{v}, []types.Type{t}, ci.body))
	}
	ex.eventT(st, "recv:"+chanName(t), []evArg{{ch, nil}, {v, t}})
	return v
}

func (ex *Exec) execSelect(st *State, fr *Frame, in *ssa.Select) []Outcome {
	var outs []Outcome
	nrecv := 0
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	mkVals := func(idx int64, ok *Term, ri int, rv *Term) []*Term {
		vs := []*Term{Num(idx), ok}
		k := 0
		for _, s := range in.States {
			if s.Dir == types.RecvOnly {
				et := s.Chan.Type().Underlying().(*types.Chan).Elem()
				if k == ri {
					vs = append(vs, rv)
				} else {
					vs = append(vs, zeroOf(et))
				}
				k++
			}
		}
		return vs
	}
	ri := 0
	for i, s := range in.States {
		s2 := st.clone()
		ch := ex.val(s2, fr, s.Chan)
		et := s.Chan.Type().Underlying().(*types.Chan).Elem()
		if ch == Nil {
			if s.Dir == types.RecvOnly {
				ri++
			}
			continue
		}
		if s.Dir == types.RecvOnly {
			v := ex.recvVal(s2, ch, et)
			outs = append(outs, Outcome{st: s2, kind: oReturn, vals: mkVals(int64(i), True, ri, v)})
			ri++
		} else {
			ex.sendVal(s2, ch, ex.val(s2, fr, s.Send), et, in.Pos())
			outs = append(outs, Outcome{st: s2, kind: oReturn, vals: mkVals(int64(i), False, -1, nil)})
		}
	}
	if !in.Blocking {
		ex.event(st, "default", nil)
		outs = append(outs, Outcome{st: st, kind: oReturn, vals: mkVals(-1, False, -1, nil)})
	}
	return outs
}

// ---- unknown function values (callbacks)

func (ex *Exec) callUnknown(st *State, fr *Frame, fnv *Term, args []*Term, sig *types.Signature, pos token.Pos) []Outcome {
	key := "functype:" + typeKey(types.NewSignatureType(nil, nil, nil, stripNames(sig.Params()), stripNames(sig.Results()), sig.Variadic()))
	// a function value read from an immutable table: case split over the table
	if fnv.Op == "select" {
		if outs := ex.tableCall(st, fr, fnv, args, sig, pos); outs != nil {
			return outs
		}
	}
	if c := ex.prog.contractFor(key); c != nil {
		ex.used[key] = true
		return ex.applyFnTypeContract(st, fr, c, fnv, args, sig, pos)
	}
	pure := true
	for i := 0; i < sig.Params().Len(); i++ {
		switch sortOf(sig.Params().At(i).Type()) {
		case "Ref", "Slice", "Iface", "Fn":
			pure = false
		}
	}
	ex.note("callback of type " + key + " does not modify this library's memory")
	var vs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		if pure {
			v := App(fmt.Sprintf("apply%d|%s", i, key), sortOf(rt), append([]*Term{fnv}, args...)...)
			st.assume(valWF(v, rt, st.alloc))
			vs = append(vs, v)
		} else {
			vs = append(vs, ex.freshVal(st, "cb", rt))
		}
	}
	if !pure || sig.Results().Len() == 0 {
		var ea []evArg
		ea = append(ea, evArg{fnv, nil})
		for i, a := range args {
			ea = append(ea, evArg{a, sig.Params().At(i).Type()})
		}
		ex.eventT(st, "callback", ea)
	}
	return ret(st, vs...)
}

func stripNames(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewVar(token.NoPos, nil, "", t.At(i).Type()))
	}
	return types.NewTuple(vs...)
}

// tableCall: fnv = select(select(MV0, obj(-n)), key), a lookup in an immutable map of functions.
func (ex *Exec) tableCall(st *State, fr *Frame, fnv *Term, args []*Term, sig *types.Signature, pos token.Pos) []Outcome {
	arr, key := fnv.Args[0], fnv.Args[1]
	// find the init fact for arr
	var val *Term
	for _, f := range ex.prog.initFacts {
		if f.Op == "=" {
			if f.Args[0] == arr {
				val = f.Args[1]
			} else if f.Args[1] == arr {
				val = f.Args[0]
			}
		}
	}
	if val == nil {
		return nil
	}
	var outs []Outcome
	rest := st
	for val.Op == "store" {
		k, v := val.Args[1], val.Args[2]
		c := Eq(key, k)
		if ex.feasible(rest, c) {
			s2 := rest.clone()
			s2.assume(c)
			outs = append(outs, ex.callValue(s2, fr, v, args, sig, pos, false)...)
		}
		rest = rest.clone()
		rest.assume(Not(c))
		val = val.Args[0]
	}
	if ex.feasible(rest, True) {
		ex.oblige(rest, "safety", "nil-func-call", False, pos)
	}
	return outs
}
