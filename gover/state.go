package main

// Symbolic state: heap components, path condition, ghost trace.

import (
	"fmt"
	"go/types"
	"strings"
)

type pcNode struct {
	t    *Term
	prev *pcNode
}

type wrec struct {
	comp   string
	target *Term // nil: arbitrary targets; special freshMark: only objects fresh at that time
	bv     *Term // with pred: the set of refs bv satisfying pred
	pred   *Term
	prev   *wrec
}

var freshMark = Const("<fresh>", "Ref")

type iterInfo struct {
	isStr   bool
	m       *Term // map ref, or string
	mt      *types.Map
	dom0    *Term // domain at range start
	visited *Term // Array K Bool
	pos     *Term // string position / number of steps
	done    bool
	key     *Term // last key
	cnt     *Term // runes seen of a string (nil: none)
}

func (it *iterInfo) count() *Term {
	if it.cnt == nil {
		return Num(0)
	}
	return it.cnt
}

type State struct {
	heap   map[string]*Term
	alloc  *Term
	pc     *pcNode
	iters  map[string]*iterInfo
	writes *wrec
	panicV *Term // current panic value while running defers, nil if none
	snaps  map[string]*State
	nfork  int
	pairLater []string
	ghosts *ghostNode
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[string]*Term, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.iters = make(map[string]*iterInfo, len(s.iters))
	for k, v := range s.iters {
		n.iters[k] = v
	}
	n.snaps = make(map[string]*State, len(s.snaps))
	for k, v := range s.snaps {
		n.snaps[k] = v
	}
	return &n
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	for n, i := s.pc, 0; n != nil && i < 40; n, i = n.prev, i+1 {
		if n.t == t {
			return
		}
	}
	s.pc = &pcNode{t, s.pc}
}

func (s *State) assms() []*Term {
	var out []*Term
	for n := s.pc; n != nil; n = n.prev {
		out = append(out, n.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *State) infeasible() bool {
	for n := s.pc; n != nil; n = n.prev {
		if n.t == False {
			return true
		}
	}
	return false
}

// ---- components

var compSort = map[string]Sort{}

// compElem returns the element Go type information needed for well-formedness.
var compType = map[string]types.Type{}
var compMapT = map[string]*types.Map{}

func regComp(name string, s Sort, t types.Type) {
	sortMu.Lock()
	defer sortMu.Unlock()
	if o, ok := compSort[name]; ok {
		if o != s {
			panic(fmt.Sprintf("component %s: sort %s vs %s", name, o, s))
		}
		return
	}
	compSort[name] = s
	if t != nil {
		compType[name] = t
	}
}

// valWF gives the well-formedness facts of a value of sort s held in the heap when the
// allocation frontier is a.
func valWF(v *Term, t types.Type, a *Term) *Term {
	switch v.Sort {
	case "Ref":
		return Lt(Rid(v), a)
	case "Slice":
		b := Sel("sbase", v)
		l, c, o := Sel("slen_", v), Sel("scap", v), Sel("soff", v)
		return And(Lt(Rid(b), a), Le(Num(0), l), Le(l, c), Le(Num(0), o), Implies(Eq(b, Nil), And(Eq(c, Num(0)), Eq(o, Num(0)))))
	case "Iface":
		return And(Lt(Rid(Sel("iref", v)), a))
	case "Int":
		if t != nil {
			if b, ok := t.Underlying().(*types.Basic); ok {
				switch b.Kind() {
				case types.Uint8:
					return And(Le(Num(0), v), Lt(v, Num(256)))
				case types.Uint, types.Uint64, types.Uint32, types.Uint16, types.Uintptr:
					return Le(Num(0), v)
				}
			}
		}
	}
	if strings.HasPrefix(v.Sort, "S|") && t != nil {
		if u, ok := t.Underlying().(*types.Struct); ok {
			var cs []*Term
			for i := 0; i < u.NumFields(); i++ {
				cs = append(cs, valWF(Sel(structSel(t, i), v), u.Field(i).Type(), a))
			}
			return And(cs...)
		}
	}
	return True
}

// compAxioms: facts true of any heap component x (a constant) when the frontier is a.
func compAxioms(name string, x *Term, a *Term) []*Term {
	var out []*Term
	switch {
	case strings.HasPrefix(name, "F|") || strings.HasPrefix(name, "C|"):
		r := BVar("r", "Ref")
		v := mk("select", mustVal(x.Sort), "", x, r)
		w := valWF(v, compType[name], a)
		if w != True {
			out = append(out, Forall([]*Term{r}, w, []*Term{v}))
		}
	case strings.HasPrefix(name, "A|"):
		r, i := BVar("r", "Ref"), BVar("i", "Int")
		inner := mk("select", mustVal(x.Sort), "", x, r)
		v := mk("select", mustVal(inner.Sort), "", inner, i)
		w := valWF(v, compType[name], a)
		if w != True {
			out = append(out, Forall([]*Term{r, i}, w, []*Term{v}))
		}
	case strings.HasPrefix(name, "MV|"):
		r := BVar("r", "Ref")
		inner := mk("select", mustVal(x.Sort), "", x, r)
		ks, _ := arrElem(inner.Sort)
		k := BVar("k", ks)
		v := mk("select", mustVal(inner.Sort), "", inner, k)
		w := valWF(v, compType[name], a)
		if w != True {
			out = append(out, Forall([]*Term{r, k}, w, []*Term{v}))
		}
	case strings.HasPrefix(name, "MD|"):
		ks, _ := arrElem(mustVal(x.Sort))
		out = append(out, Eq(mk("select", mustVal(x.Sort), "", x, Nil), ConstArr(ArrSort(ks, "Bool"), False)))
	}
	return out
}

func mustVal(s Sort) Sort { _, v := arrElem(s); return v }

// setCompAxiom attaches the well-formedness axioms to constant x.
func setCompAxiom(name string, x *Term, a *Term) {
	sortMu.Lock()
	defer sortMu.Unlock()
	delete(pairDone, x.Sym)
	axiomFor[x.Sym] = func() []*Term { return compAxioms(name, x, a) }
}

func (s *State) get(comp string) *Term {
	if v, ok := s.heap[comp]; ok {
		return v
	}
	sortMu.Lock()
	so, ok := compSort[comp]
	sortMu.Unlock()
	if !ok {
		panic("unregistered component " + comp)
	}
	c := Const("H0|"+comp, so)
	sortMu.Lock()
	have := axiomFor[c.Sym] != nil
	sortMu.Unlock()
	if !have {
		setCompAxiom(comp, c, Alloc0)
		if strings.HasPrefix(comp, "MV|") {
			setMapPairAxiom(comp[3:], c, nil)
		}
	}
	return c
}

var Alloc0 = Const("alloc0", "Int")

// setMapPairAxiom: absent keys hold zero values, for MV constant mv and its MD partner.
func setMapPairAxiom(key string, mv *Term, md *Term) {
	if md == nil {
		sortMu.Lock()
		so := compSort["MD|"+key]
		sortMu.Unlock()
		md = Const("H0|MD|"+key, so)
		sortMu.Lock()
		have := axiomFor[md.Sym] != nil
		sortMu.Unlock()
		if !have {
			setCompAxiom("MD|"+key, md, Alloc0)
		}
	}
	sortMu.Lock()
	old := axiomFor[mv.Sym]
	if old != nil && pairDone[mv.Sym] {
		sortMu.Unlock()
		return
	}
	pairDone[mv.Sym] = true
	axiomFor[mv.Sym] = func() []*Term {
		var out []*Term
		if old != nil {
			out = old()
		}
		r := BVar("r", "Ref")
		inner := mk("select", mustVal(mv.Sort), "", mv, r)
		ks, vs := arrElem(inner.Sort)
		k := BVar("k", ks)
		v := mk("select", vs, "", inner, k)
		d := Select(Select(md, r), k)
		out = append(out, Forall([]*Term{r, k}, Or(d, Eq(v, zeroOfSort(vs))), []*Term{v}))
		return out
	}
	sortMu.Unlock()
}

var pairDone = map[string]bool{}

func (s *State) set(comp string, v *Term) { s.heap[comp] = v }

func (s *State) logWrite(comp string, target *Term) {
	s.writes = &wrec{comp: comp, target: target, prev: s.writes}
}

// rd / wr on a component at ref.
func (s *State) rd(comp string, r *Term) *Term { return Select(s.get(comp), r) }
func (s *State) wr(comp string, r, v *Term) {
	s.set(comp, Store(s.get(comp), r, v))
	s.logWrite(comp, r)
}

func fieldComp(f *fieldInfo) string {
	regComp(f.comp, ArrSort("Ref", sortOf(f.typ)), f.typ)
	return f.comp
}

func cellComp(t types.Type) string {
	n := "C|" + typeKey(t)
	regComp(n, ArrSort("Ref", sortOf(t)), t)
	return n
}

func elemComp(t types.Type) string {
	n := "A|" + typeKey(t)
	regComp(n, ArrSort("Ref", ArrSort("Int", sortOf(t))), t)
	return n
}

func bytesComp() string {
	regComp("B", ArrSort("Ref", "Str"), nil)
	return "B"
}

func mapKey(t types.Type) (string, *types.Map) {
	m := t.Underlying().(*types.Map)
	k := typeKey(m)
	ks, vs := sortOf(m.Key()), sortOf(m.Elem())
	regComp("MD|"+k, ArrSort("Ref", ArrSort(ks, "Bool")), m.Key())
	regComp("MV|"+k, ArrSort("Ref", ArrSort(ks, vs)), m.Elem())
	return k, m
}

func isByteSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// ownership ghosts
func ownMapComp(v types.Type) string {
	n := "OM|" + typeKey(v)
	regComp(n, ArrSort("Ref", "Ref"), nil)
	return n
}
func ownKeyComp(v types.Type, ks Sort) string {
	n := "OK|" + typeKey(v) + "|" + ks
	regComp(n, ArrSort("Ref", ks), nil)
	return n
}
func ownFieldComp() string {
	regComp("OF", ArrSort("Ref", "Ref"), nil)
	return "OF"
}

// ---- typed memory access

func derefT(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

// load reads a value of type t at address p.
func (s *State) load(p *Term, t types.Type) *Term {
	if p.Op == "ite" {
		return Ite(p.Args[0], s.load(p.Args[1], t), s.load(p.Args[2], t))
	}
	if p.Op == "ctor" && p.Sym == "elem" {
		b, i := p.Args[0], p.Args[1]
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
			if arrBase(b) == nil {
				return Sat(s.bytesAt(b), i)
			}
		}
		if at := arrBase(b); at != nil { // pointer into an array value location
			return Select(s.load(b, at), i)
		}
		return Select(s.rd(elemComp(t), b), i)
	}
	if isStruct(t) {
		u := t.Underlying().(*types.Struct)
		if p.Op == "ctor" && p.Sym == "sub" && rootedInElem(p) {
			return s.loadVia(p, t)
		}
		var vs []*Term
		for i := 0; i < u.NumFields(); i++ {
			f := fieldOf(t, i)
			if isStruct(f.typ) {
				vs = append(vs, s.load(subRef(p, f), f.typ))
			} else {
				vs = append(vs, s.rd(fieldComp(f), p))
			}
		}
		return structMk(t, vs)
	}
	if p.Op == "ctor" && p.Sym == "sub" && p.Args[1].isInt() {
		if fid := p.Args[1].Int.Int64(); fid != dataFID {
			f := fieldByID[fid]
			if rootedInElem(p) {
				return s.loadVia(p, t)
			}
			return s.rd(fieldComp(f), p.Args[0])
		}
	}
	return s.rd(cellComp(t), p)
}

func rootedInElem(p *Term) bool {
	for p.Op == "ctor" && p.Sym == "sub" {
		p = p.Args[0]
	}
	return p.Op == "ctor" && p.Sym == "elem"
}

// loadVia reads through a struct value held in a slice element.
func (s *State) loadVia(p *Term, t types.Type) *Term {
	f := fieldByID[p.Args[1].Int.Int64()]
	return Sel(structSel(f.owner, f.idx), s.load(p.Args[0], f.owner))
}

func (s *State) store(p *Term, t types.Type, v *Term) {
	if p.Op == "ctor" && p.Sym == "elem" {
		b, i := p.Args[0], p.Args[1]
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 && arrBase(b) == nil {
			old := s.bytesAt(b)
			s.setBytes(b, Cat(Substr(old, Num(0), i), Chr(v), Substr(old, Add(i, Num(1)), Sub(Slen(old), Add(i, Num(1))))))
			return
		}
		if at := arrBase(b); at != nil {
			s.store(b, at, Store(s.load(b, at), i, v))
			return
		}
		c := elemComp(t)
		s.set(c, Store(s.get(c), b, Store(s.rd(c, b), i, v)))
		s.logWrite(c, b)
		return
	}
	if isStruct(t) {
		u := t.Underlying().(*types.Struct)
		if p.Op == "ctor" && p.Sym == "sub" && rootedInElem(p) {
			s.storeVia(p, v)
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			f := fieldOf(t, i)
			fv := Sel(structSel(t, i), v)
			if isStruct(f.typ) {
				s.store(subRef(p, f), f.typ, fv)
			} else {
				s.storeField(p, f, fv)
			}
		}
		return
	}
	if p.Op == "ctor" && p.Sym == "sub" && p.Args[1].isInt() {
		if fid := p.Args[1].Int.Int64(); fid != dataFID {
			if rootedInElem(p) {
				s.storeVia(p, v)
				return
			}
			s.storeField(p.Args[0], fieldByID[fid], v)
			return
		}
	}
	s.wr(cellComp(t), p, v)
}

func (s *State) storeField(p *Term, f *fieldInfo, v *Term) {
	s.wr(fieldComp(f), p, v)
	if m, ok := f.typ.Underlying().(*types.Map); ok && v != Nil && m.Elem().String() != "string" {
		s.wr(ownFieldComp(), v, p)
	}
}

func (s *State) storeVia(p *Term, v *Term) {
	f := fieldByID[p.Args[1].Int.Int64()]
	par := p.Args[0]
	old := s.load(par, f.owner)
	u := f.owner.Underlying().(*types.Struct)
	var vs []*Term
	for i := 0; i < u.NumFields(); i++ {
		if i == f.idx {
			vs = append(vs, v)
		} else {
			vs = append(vs, Sel(structSel(f.owner, i), old))
		}
	}
	s.store(par, f.owner, structMk(f.owner, vs))
}

// arrBase tells whether b is the address of an array-typed location (not a slice backing).
func arrBase(b *Term) types.Type {
	if b.Op == "ctor" && b.Sym == "sub" && b.Args[1].isInt() {
		fieldMu.Lock()
		f := fieldByID[b.Args[1].Int.Int64()]
		fieldMu.Unlock()
		if f != nil {
			if _, ok := f.typ.Underlying().(*types.Array); ok {
				return f.typ
			}
		}
	}
	return nil
}

// arrAlloc gives an allocated array variable of type t its address.
func arrAlloc(obj *Term, t types.Type) *Term {
	k := "arr|" + typeKey(t)
	fieldMu.Lock()
	f := fieldIDs[k]
	if f == nil {
		f = &fieldInfo{id: int64(len(fieldIDs) + 1), typ: t, comp: "F|" + k}
		fieldIDs[k] = f
		fieldByID[f.id] = f
	}
	fieldMu.Unlock()
	return subRef(obj, f)
}

// sliceArr is the whole backing array value of a slice with base b.
func (s *State) sliceArr(b *Term, et types.Type) *Term {
	if b.Op == "ite" {
		return Ite(b.Args[0], s.sliceArr(b.Args[1], et), s.sliceArr(b.Args[2], et))
	}
	if at := arrBase(b); at != nil {
		return s.load(b, at)
	}
	return s.rd(elemComp(et), b)
}

// bytes of a []byte backing store
func (s *State) bytesAt(b *Term) *Term {
	if b.Op == "ctor" && b.Sym == "sub" && b.Args[1].isInt() && b.Args[1].Int.Int64() == dataFID {
		return s.load(b.Args[0], bufferType)
	}
	if b.Op == "ite" {
		return Ite(b.Args[0], s.bytesAt(b.Args[1]), s.bytesAt(b.Args[2]))
	}
	return s.rd(bytesComp(), b)
}
func (s *State) setBytes(b *Term, v *Term) {
	if b.Op == "ctor" && b.Sym == "sub" && b.Args[1].isInt() && b.Args[1].Int.Int64() == dataFID {
		s.store(b.Args[0], bufferType, v)
		return
	}
	s.wr(bytesComp(), b, v)
}

var bufferType types.Type

func (s *State) byteSlice(v *Term) *Term {
	return Substr(s.bytesAt(Sel("sbase", v)), Sel("soff", v), Sel("slen_", v))
}

// ---- allocation

func (s *State) newObj() *Term {
	r := Ctor("obj", s.alloc)
	s.alloc = Add(s.alloc, Num(1))
	return r
}

func (s *State) newBytes(content *Term) *Term {
	r := s.newObj()
	s.setBytes(r, content)
	return mkSlice(r, Num(0), Slen(content), Slen(content))
}

// zeroInit initialises the memory at fresh object p of type t.
func (s *State) zeroInit(p *Term, t types.Type) { s.store(p, t, zeroOf(t)) }

// ---- maps

func (s *State) mapGet(t types.Type, m, k *Term) (*Term, *Term) {
	key, _ := mapKey(t)
	return Select(s.rd("MV|"+key, m), k), Select(s.rd("MD|"+key, m), k)
}

func (s *State) mapDom(t types.Type, m *Term) *Term { key, _ := mapKey(t); return s.rd("MD|"+key, m) }

func (s *State) mapSet(t types.Type, m, k, v *Term) {
	key, mt := mapKey(t)
	oldD := s.rd("MD|"+key, m)
	newD := Store(oldD, k, True)
	s.wr("MD|"+key, m, newD)
	s.wr("MV|"+key, m, Store(s.rd("MV|"+key, m), k, v))
	if oldD != newD {
		s.assume(Eq(Card(newD), Add(Card(oldD), Ite(Select(oldD, k), Num(0), Num(1)))))
	}
	if _, ok := mt.Elem().Underlying().(*types.Pointer); ok && v != Nil {
		s.wr(ownMapComp(mt.Elem()), v, m)
		s.wr(ownKeyComp(mt.Elem(), sortOf(mt.Key())), v, k)
	}
}

func (s *State) mapDelete(t types.Type, m, k *Term) {
	key, mt := mapKey(t)
	oldD := s.rd("MD|"+key, m)
	newD := Store(oldD, k, False)
	s.wr("MD|"+key, m, newD)
	s.wr("MV|"+key, m, Store(s.rd("MV|"+key, m), k, zeroOf(mt.Elem())))
	s.assume(Eq(Card(newD), Sub(Card(oldD), Ite(Select(oldD, k), Num(1), Num(0)))))
}

func (s *State) newMap(t types.Type) *Term {
	key, mt := mapKey(t)
	r := s.newObj()
	ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
	s.wr("MD|"+key, r, ConstArr(ArrSort(ks, "Bool"), False))
	s.wr("MV|"+key, r, ConstArr(ArrSort(ks, vs), zeroOf(mt.Elem())))
	return r
}

// Card is the cardinality of a finite set.
func Card(d *Term) *Term {
	if d.Op == "constarr" && d.Args[0] == False {
		return Num(0)
	}
	ks, _ := arrElem(d.Sort)
	n := "card|" + ks
	sortMu.Lock()
	if axiomFor[n] == nil {
		axiomFor[n] = func() []*Term {
			x := BVar("d", d.Sort)
			k := BVar("k", ks)
			c := mk("app", "Int", n, x)
			cs := mk("app", "Int", n, mk("store", d.Sort, "", x, k, True))
			return []*Term{
				Forall([]*Term{x, k}, Eq(cs, Ite(mk("select", "Bool", "", x, k), c, Add(c, Num(1)))), []*Term{cs}),
				Forall([]*Term{x}, Le(Num(0), c), []*Term{c}),
				Forall([]*Term{x}, Implies(Eq(c, Num(0)), Forall([]*Term{k}, Not(mk("select", "Bool", "", x, k)), []*Term{mk("select", "Bool", "", x, k)})), []*Term{c}),
				Forall([]*Term{x, k}, Implies(mk("select", "Bool", "", x, k), Lt(Num(0), c)), []*Term{c, mk("select", "Bool", "", x, k)}),
				Forall([]*Term{x}, Or(Eq(c, Num(0)), mk("select", "Bool", "", x, mk("app", ks, "witness|"+ks, x))), []*Term{c}),
			}
		}
	}
	sortMu.Unlock()
	return mk("app", "Int", n, d)
}

// advanceClock moves the clock to an arbitrary later point.
func (s *State) advanceClock() {
	old := s.get("CLK")
	n := Fresh("clk", "Int")
	s.assume(Le(old, n))
	s.set("CLK", n)
	s.logWrite("CLK", nil)
}
