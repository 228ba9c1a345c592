package main

// Mapping Go types to SMT sorts, zero values and memory locations.

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
)

func init() {
	declDT(&dtype{"Ref", []dctor{
		{"nil", nil, nil},
		{"obj", []string{"oid"}, []Sort{"Int"}},
		{"sub", []string{"spar", "sfid"}, []Sort{"Ref", "Int"}},
		{"elem", []string{"epar", "eidx"}, []Sort{"Ref", "Int"}},
	}})
	declDT(&dtype{"Slice", []dctor{{"mkslice", []string{"sbase", "soff", "slen_", "scap"}, []Sort{"Ref", "Int", "Int", "Int"}}}})
	declDT(&dtype{"Iface", []dctor{
		{"inil", nil, nil},
		{"iptr", []string{"itag", "iref"}, []Sort{"Int", "Ref"}},
		{"ibox", []string{"btag", "bid"}, []Sort{"Int", "Int"}},
	}})
	declDT(&dtype{"Time", []dctor{{"mktime", []string{"tns", "tloc", "tmono"}, []Sort{"Int", "Int", "Int"}}}})
	declDT(&dtype{"Unit", []dctor{{"unit", nil, nil}}})
	axiomFor["rid"] = func() []*Term {
		i := BVar("i", "Int")
		p := BVar("p", "Ref")
		f := BVar("f", "Int")
		rid := func(t *Term) *Term { return mk("app", "Int", "rid", t) }
		return []*Term{
			Forall([]*Term{i}, Eq(rid(Ctor("obj", i)), i), []*Term{Ctor("obj", i)}),
			Forall([]*Term{p, f}, Eq(rid(Ctor("sub", p, f)), rid(p)), []*Term{Ctor("sub", p, f)}),
			Forall([]*Term{p, f}, Eq(rid(Ctor("elem", p, f)), rid(p)), []*Term{Ctor("elem", p, f)}),
			Eq(rid(Nil), Num(-1000000000)),
			Forall([]*Term{p}, Implies(Is("obj", p), Eq(rid(p), mk("sel", "Int", "oid", p))), []*Term{rid(p)}),
		}
	}
}

var Nil = Ctor0("nil")

func Ctor0(n string) *Term {
	// usable during package initialisation ordering
	return mk("ctor", ctor0Sort[n], n)
}

var ctor0Sort = map[string]Sort{"nil": "Ref", "inil": "Iface", "unit": "Unit"}

var (
	INil     = Ctor0("inil")
	UnitT    = Ctor0("unit")
	NilSlice = mk("ctor", "Slice", "mkslice", Nil, Num(0), Num(0), Num(0))
	ZeroTime = mk("ctor", "Time", "mktime", Num(0), Num(0), Num(0))
)

func Rid(t *Term) *Term {
	if t.Op == "ctor" {
		switch t.Sym {
		case "nil":
			return Num(-1000000000)
		case "obj":
			return t.Args[0]
		case "sub", "elem":
			return Rid(t.Args[0])
		}
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], Rid(t.Args[1]), Rid(t.Args[2]))
	}
	return mk("app", "Int", "rid", t)
}

func mkSlice(b, o, l, c *Term) *Term { return Ctor("mkslice", b, o, l, c) }

// typeKey is a canonical name for a type.
func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		s := p.Path()
		s = shorten.Replace(s)
		return s
	})
}

func isNamed(t types.Type, full string) bool {
	t = types.Unalias(t)
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Pkg() != nil && o.Pkg().Path()+"."+o.Name() == full
}

// leafSort: struct types treated as opaque leaves.
func leafSort(t types.Type) (Sort, bool) {
	t = types.Unalias(t)
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return "", false
	}
	full := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	switch full {
	case "time.Time":
		return "Time", true
	case "bytes.Buffer", "strings.Builder":
		return "Str", true
	case "sync.WaitGroup", "sync.Mutex", "sync.RWMutex", "sync.Once", "sync.Map":
		return "Unit", true
	}
	return "", false
}

func isStruct(t types.Type) bool {
	if _, ok := leafSort(t); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

var (
	sortMu   sync.Mutex
	structDT = map[string]bool{}
	sortType = map[Sort]types.Type{} // struct sort -> type
)

func sortOf(t types.Type) Sort {
	if s, ok := leafSort(t); ok {
		return s
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Info()&types.IsFloat != 0:
			return "Flt"
		case u.Kind() == types.UnsafePointer:
			return "Ref"
		case u.Kind() == types.UntypedNil:
			return "Ref"
		}
		return "Flt"
	case *types.Pointer, *types.Map, *types.Chan:
		return "Ref"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Signature:
		return "Fn"
	case *types.Array:
		return ArrSort("Int", sortOf(u.Elem()))
	case *types.Struct:
		return structSort(t, u)
	case *types.Tuple:
		return "Tuple"
	}
	panic("sortOf " + t.String())
}

func structSort(t types.Type, u *types.Struct) Sort {
	if u.NumFields() == 0 {
		return "Unit"
	}
	k := typeKey(t)
	name := "S|" + k
	sortMu.Lock()
	done := structDT[name]
	structDT[name] = true
	sortType[name] = t
	sortMu.Unlock()
	if !done {
		c := dctor{name: "mk|" + k}
		for i := 0; i < u.NumFields(); i++ {
			c.sels = append(c.sels, fmt.Sprintf("f|%s|%d", k, i))
			c.srts = append(c.srts, sortOf(u.Field(i).Type()))
		}
		declDT(&dtype{name, []dctor{c}})
	}
	return name
}

func structCtor(t types.Type) string { sortOf(t); return "mk|" + typeKey(t) }
func structSel(t types.Type, i int) string {
	sortOf(t)
	return fmt.Sprintf("f|%s|%d", typeKey(t), i)
}

func structMk(t types.Type, vals []*Term) *Term {
	if len(vals) == 0 {
		return UnitT
	}
	sortOf(t)
	return Ctor(structCtor(t), vals...)
}

func FltLit(s string) *Term { return intern(&Term{Op: "fltlit", Sort: "Flt", Sym: s}) }

var FltZero = FltLit("0")

func zeroOf(t types.Type) *Term {
	if s, ok := leafSort(t); ok {
		switch s {
		case "Time":
			return ZeroTime
		case "Str":
			return Lit("")
		case "Unit":
			return UnitT
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		return ConstArr(sortOf(t), zeroOf(u.Elem()))
	case *types.Struct:
		var vs []*Term
		for i := 0; i < u.NumFields(); i++ {
			vs = append(vs, zeroOf(u.Field(i).Type()))
		}
		return structMk(t, vs)
	}
	return zeroOfSort(sortOf(t))
}

func zeroOfSort(s Sort) *Term {
	switch s {
	case "Bool":
		return False
	case "Int":
		return Num(0)
	case "Str":
		return Lit("")
	case "Flt":
		return FltZero
	case "Ref":
		return Nil
	case "Slice":
		return NilSlice
	case "Iface":
		return INil
	case "Fn":
		return Const("fnnil", "Fn")
	case "Time":
		return ZeroTime
	case "Unit":
		return UnitT
	}
	sortMu.Lock()
	t := sortType[s]
	sortMu.Unlock()
	if t != nil {
		return zeroOf(t)
	}
	if strings.HasPrefix(s, "(Array ") {
		_, v := arrElem(s)
		return ConstArr(s, zeroOfSort(v))
	}
	panic("zeroOfSort " + s)
}

// ---- field ids

type fieldInfo struct {
	id    int64
	owner types.Type
	idx   int
	typ   types.Type
	comp  string // heap component for non-struct fields
}

var (
	fieldMu   sync.Mutex
	fieldIDs  = map[string]*fieldInfo{}
	fieldByID = map[int64]*fieldInfo{}
)

func fieldOf(owner types.Type, idx int) *fieldInfo {
	u := owner.Underlying().(*types.Struct)
	k := fmt.Sprintf("%s|%d|%s", typeKey(owner), idx, u.Field(idx).Name())
	fieldMu.Lock()
	defer fieldMu.Unlock()
	if f, ok := fieldIDs[k]; ok {
		return f
	}
	f := &fieldInfo{id: int64(len(fieldIDs) + 1), owner: owner, idx: idx, typ: u.Field(idx).Type()}
	f.comp = "F|" + typeKey(owner) + "|" + u.Field(idx).Name()
	fieldIDs[k] = f
	fieldByID[f.id] = f
	return f
}

const dataFID = 1000000 // pseudo field: the bytes of a bytes.Buffer

func subRef(p *Term, f *fieldInfo) *Term { return Ctor("sub", p, Num(f.id)) }

// typeTag gives each dynamic type a distinct positive tag.
var (
	tagMu   sync.Mutex
	typeTag = map[string]int64{}
	tagType = map[int64]types.Type{}
)

func tagOf(t types.Type) *Term {
	k := typeKey(t)
	tagMu.Lock()
	defer tagMu.Unlock()
	id, ok := typeTag[k]
	if !ok {
		id = int64(len(typeTag) + 1)
		typeTag[k] = id
		tagType[id] = t
	}
	return Num(id)
}

// box an arbitrary value into an interface value.
func makeIface(v *Term, t types.Type) *Term {
	if v.Sort == "Ref" {
		return Ctor("iptr", tagOf(t), v)
	}
	ensureBoxAxiom(v.Sort)
	return Ctor("ibox", tagOf(t), App("box|"+v.Sort, "Int", v))
}

// unbox the payload of iface i as type t (the caller has checked the tag).
func unIface(i *Term, t types.Type) *Term {
	s := sortOf(t)
	if s == "Ref" {
		return Sel("iref", i)
	}
	b := Sel("bid", i)
	if b.Op == "app" && b.Sym == "box|"+s {
		return b.Args[0]
	}
	return App("unbox|"+s, s, b)
}

func ifaceHasType(i *Term, t types.Type) *Term {
	if sortOf(t) == "Ref" {
		return And(Is("iptr", i), Eq(Sel("itag", i), tagOf(t)))
	}
	return And(Is("ibox", i), Eq(Sel("btag", i), tagOf(t)))
}

func ensureBoxAxiom(s Sort) {
	sortMu.Lock()
	defer sortMu.Unlock()
	if axiomFor["box|"+s] != nil {
		return
	}
	g := func() []*Term {
		v := BVar("v", s)
		bx := mk("app", "Int", "box|"+s, v)
		return []*Term{Forall([]*Term{v}, Eq(mk("app", s, "unbox|"+s, bx), v), []*Term{bx})}
	}
	axiomFor["box|"+s] = g
	axiomFor["unbox|"+s] = func() []*Term { return nil }
}
