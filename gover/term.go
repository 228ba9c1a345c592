package main

// Hash-consed SMT terms with a light simplifier.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Sort is a plain SMT sort name. "Str" is the Go string sort (printed natively or
// as an uninterpreted sort, depending on the query's string mode).
type Sort = string

type Term struct {
	ID   int
	Op   string
	Args []*Term
	Sort Sort
	Sym  string
	Int  *big.Int
	Vars []*Term   // quantifiers
	Pats [][]*Term // quantifiers
	fb   []int     // free bound-variable ids (sorted)
}

var (
	termMu  sync.Mutex
	termTab = map[string]*Term{}
	termSeq int
)

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Sym)
	sb.WriteByte('|')
	sb.WriteString(t.Sort)
	if t.Int != nil {
		sb.WriteByte('#')
		sb.WriteString(t.Int.String())
	}
	for _, a := range t.Args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	for _, a := range t.Vars {
		sb.WriteByte('$')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	for _, p := range t.Pats {
		sb.WriteByte('!')
		for _, a := range p {
			sb.WriteByte(',')
			sb.WriteString(strconv.Itoa(a.ID))
		}
	}
	key := sb.String()
	termMu.Lock()
	defer termMu.Unlock()
	if old, ok := termTab[key]; ok {
		return old
	}
	termSeq++
	t.ID = termSeq
	fb := map[int]bool{}
	for _, a := range t.Args {
		for _, b := range a.fb {
			fb[b] = true
		}
	}
	if t.Op == "bvar" {
		fb[t.ID] = true
	}
	for _, v := range t.Vars {
		delete(fb, v.ID)
	}
	for b := range fb {
		t.fb = append(t.fb, b)
	}
	sort.Ints(t.fb)
	termTab[key] = t
	return t
}

func mk(op string, s Sort, sym string, args ...*Term) *Term {
	for _, a := range args {
		if a == nil {
			panic("nil term arg for " + op + " " + sym)
		}
	}
	return intern(&Term{Op: op, Sort: s, Sym: sym, Args: args})
}

var (
	True  = mk("true", "Bool", "")
	False = mk("false", "Bool", "")
)

func Const(name string, s Sort) *Term { return mk("const", s, name) }

var (
	freshMu  sync.Mutex
	freshCnt = map[string]int{}
)

func freshName(prefix string) string {
	freshMu.Lock()
	defer freshMu.Unlock()
	freshCnt[prefix]++
	return fmt.Sprintf("%s!%d", prefix, freshCnt[prefix])
}

func Fresh(prefix string, s Sort) *Term { return Const(freshName(prefix), s) }
func BVar(prefix string, s Sort) *Term  { return mk("bvar", s, freshName("?"+prefix)) }

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func BigInt(i *big.Int) *Term { return intern(&Term{Op: "int", Sort: "Int", Int: new(big.Int).Set(i)}) }
func Num(i int64) *Term       { return BigInt(big.NewInt(i)) }
func Lit(s string) *Term      { return mk("str", "Str", s) }

func (t *Term) isInt() bool { return t.Op == "int" }
func (t *Term) isLit() bool { return t.Op == "str" }

// ---------- booleans

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	}
	return mk("not", "Bool", "", a)
}

func And(as ...*Term) *Term {
	seen := map[int]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.Op == "true" {
			return true
		}
		if t.Op == "false" {
			return false
		}
		if t.Op == "and" {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[t.ID] {
			return true
		}
		if seen[Not(t).ID] {
			return false
		}
		seen[t.ID] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk("and", "Bool", "", out...)
}

func Or(as ...*Term) *Term {
	seen := map[int]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.Op == "false" {
			return true
		}
		if t.Op == "true" {
			return false
		}
		if t.Op == "or" {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[t.ID] {
			return true
		}
		if seen[Not(t).ID] {
			return false
		}
		seen[t.ID] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return mk("or", "Bool", "", out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return mk("=>", "Bool", "", a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.Sort == "Bool" {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	return mk("ite", a.Sort, "", c, a, b)
}

// ---------- integers: canonical linear form

type lin struct {
	c *big.Int
	m map[int]*big.Int
	t map[int]*Term
}

func toLin(t *Term) *lin {
	l := &lin{c: new(big.Int), m: map[int]*big.Int{}, t: map[int]*Term{}}
	l.add(t, big.NewInt(1))
	return l
}

func (l *lin) add(t *Term, k *big.Int) {
	switch {
	case t.Op == "int":
		l.c.Add(l.c, new(big.Int).Mul(k, t.Int))
	case t.Op == "+":
		for _, a := range t.Args {
			l.add(a, k)
		}
	case t.Op == "*" && len(t.Args) == 2 && t.Args[0].Op == "int":
		l.add(t.Args[1], new(big.Int).Mul(k, t.Args[0].Int))
	default:
		if o, ok := l.m[t.ID]; ok {
			s := new(big.Int).Add(o, k)
			if s.Sign() == 0 {
				delete(l.m, t.ID)
				delete(l.t, t.ID)
			} else {
				l.m[t.ID] = s
			}
		} else {
			l.m[t.ID] = new(big.Int).Set(k)
			l.t[t.ID] = t
		}
	}
}

func (l *lin) term() *Term {
	ids := make([]int, 0, len(l.m))
	for id := range l.m {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var args []*Term
	for _, id := range ids {
		k := l.m[id]
		if k.Cmp(big.NewInt(1)) == 0 {
			args = append(args, l.t[id])
		} else {
			args = append(args, mk("*", "Int", "", BigInt(k), l.t[id]))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, BigInt(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("+", "Int", "", args...)
}

func Add(as ...*Term) *Term {
	l := toLin(as[0])
	for _, a := range as[1:] {
		l.add(a, big.NewInt(1))
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, big.NewInt(-1))
	return l.term()
}
func Neg(a *Term) *Term { return Sub(Num(0), a) }

func Mul(a, b *Term) *Term {
	if a.isInt() {
		l := &lin{c: new(big.Int), m: map[int]*big.Int{}, t: map[int]*Term{}}
		if a.Int.Sign() == 0 {
			return Num(0)
		}
		l.add(b, a.Int)
		return l.term()
	}
	if b.isInt() {
		return Mul(b, a)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("mulnl", "Int", "", a, b)
}

// floor-style (Euclidean) division/modulus by SMT-LIB; use Quo/Rem for Go semantics.
func divE(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.Int.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.Int, b.Int, new(big.Int))
		return BigInt(q)
	}
	if b.isInt() && b.Int.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return mk("div", "Int", "", a, b)
}
func modE(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.Int.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.Int, b.Int, new(big.Int))
		return BigInt(m)
	}
	return mk("mod", "Int", "", a, b)
}

// Go's truncated quotient and remainder.
func Quo(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.Int.Sign() != 0 {
		return BigInt(new(big.Int).Quo(a.Int, b.Int))
	}
	if b.isInt() && b.Int.Sign() > 0 {
		return Ite(Le(Num(0), a), divE(a, b), Neg(divE(Neg(a), b)))
	}
	return mk("app", "Int", "goquo", a, b)
}
func Rem(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.Int.Sign() != 0 {
		return BigInt(new(big.Int).Rem(a.Int, b.Int))
	}
	if b.isInt() && b.Int.Sign() > 0 {
		return Ite(Le(Num(0), a), modE(a, b), Neg(modE(Neg(a), b)))
	}
	return Sub(a, mk("mulnl", "Int", "", b, Quo(a, b)))
}

func cmpConst(a, b *Term) (int, bool) {
	d := toLin(a)
	d.add(b, big.NewInt(-1))
	if len(d.m) == 0 {
		return d.c.Sign(), true
	}
	return 0, false
}

func Le(a, b *Term) *Term {
	if c, ok := cmpConst(a, b); ok {
		return Bool(c <= 0)
	}
	return mk("<=", "Bool", "", a, b)
}
func Lt(a, b *Term) *Term { return Not(Le(b, a)) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Not(Le(a, b)) }

// ---------- equality

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s vs %s (%s | %s)", a.Sort, b.Sort, a, b))
	}
	switch a.Sort {
	case "Bool":
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if Not(a) == b {
			return False
		}
	case "Int":
		if c, ok := cmpConst(a, b); ok {
			return Bool(c == 0)
		}
	case "Str":
		return eqStr(a, b)
	case "Fn":
		// a named function is not nil
		nf := func(x, y *Term) bool { return x.Op == "const" && x.Sym == "fnnil" && strings.HasPrefix(y.Sym, "fn:") }
		if nf(a, b) || nf(b, a) {
			return False
		}
	}
	if a.Op == "ctor" && b.Op == "ctor" {
		if a.Sym != b.Sym {
			return False
		}
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.Op == "fltlit" && b.Op == "fltlit" {
		return False
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("=", "Bool", "", a, b)
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// ---------- strings

func catParts(t *Term) []*Term {
	if t.Op == "cat" {
		return t.Args
	}
	if t.isLit() && t.Sym == "" {
		return nil
	}
	return []*Term{t}
}

func Cat(as ...*Term) *Term {
	var ps []*Term
	for _, a := range as {
		for _, p := range catParts(a) {
			if p.isLit() && len(ps) > 0 && ps[len(ps)-1].isLit() {
				ps[len(ps)-1] = Lit(ps[len(ps)-1].Sym + p.Sym)
				continue
			}
			ps = append(ps, p)
		}
	}
	switch len(ps) {
	case 0:
		return Lit("")
	case 1:
		return ps[0]
	}
	return mk("cat", "Str", "", ps...)
}

func Slen(a *Term) *Term {
	if a.isLit() {
		return Num(int64(len(a.Sym)))
	}
	if a.Op == "cat" {
		s := Num(0)
		for _, p := range a.Args {
			s = Add(s, Slen(p))
		}
		return s
	}
	if a.Op == "ite" {
		return Ite(a.Args[0], Slen(a.Args[1]), Slen(a.Args[2]))
	}
	if a.Op == "app" && a.Sym == "chr" {
		return Num(1)
	}
	// the bytes of a []byte value: slices are well-formed, so all of them exist
	if a.Op == "substr" && a.Args[2].Op == "sel" && a.Args[2].Sym == "slen_" && a.Args[1] == Sel("soff", a.Args[2].Args[0]) {
		return a.Args[2]
	}
	if a.Op == "substr" && a.Args[1].isInt() && a.Args[1].Int.Sign() == 0 && a.Args[2].Op == "sel" && a.Args[2].Sym == "soff" && a.Args[0].Op == "select" && a.Args[0].Args[1] == Sel("sbase", a.Args[2].Args[0]) {
		return a.Args[2]
	}
	return mk("slen", "Int", "", a)
}

// Sat is the byte at index i.
func Sat(a, i *Term) *Term {
	if a.isLit() && i.isInt() && i.Int.IsInt64() {
		k := i.Int.Int64()
		if k >= 0 && k < int64(len(a.Sym)) {
			return Num(int64(a.Sym[k]))
		}
	}
	return mk("sat", "Int", "", a, i)
}

func Chr(c *Term) *Term {
	if c.isInt() && c.Int.IsInt64() && c.Int.Int64() >= 0 && c.Int.Int64() < 256 {
		return Lit(string([]byte{byte(c.Int.Int64())}))
	}
	return mk("app", "Str", "chr", c)
}

// Substr is the n bytes of a starting at off.
func Substr(a, off, n *Term) *Term {
	if n.isInt() && n.Int.Sign() == 0 {
		return Lit("")
	}
	if off.isInt() && off.Int.Sign() == 0 && Eq(n, Slen(a)) == True {
		return a
	}
	if a.isLit() && off.isInt() && n.isInt() && off.Int.IsInt64() && n.Int.IsInt64() {
		o, k := off.Int.Int64(), n.Int.Int64()
		if o >= 0 && k >= 0 && o+k <= int64(len(a.Sym)) {
			return Lit(a.Sym[o : o+k])
		}
	}
	if a.Op == "cat" && off.isInt() && off.Int.Sign() == 0 {
		acc := Num(0)
		for i, p := range a.Args {
			acc = Add(acc, Slen(p))
			if Eq(acc, n) == True {
				return Cat(a.Args[:i+1]...)
			}
		}
	}
	if a.Op == "cat" && !(off.isInt() && off.Int.Sign() == 0) {
		acc := Num(0)
		for i, p := range a.Args {
			if Eq(acc, off) == True {
				return Substr(Cat(a.Args[i:]...), Num(0), n)
			}
			acc = Add(acc, Slen(p))
		}
	}
	if a.Op == "substr" && off.isInt() && off.Int.Sign() == 0 {
		if Eq(a.Args[2], n) == True {
			return a
		}
	}
	return mk("substr", "Str", "", a, off, n)
}

func eqStr(a, b *Term) *Term {
	if a.isLit() && b.isLit() {
		return False
	}
	pa := append([]*Term{}, catParts(a)...)
	pb := append([]*Term{}, catParts(b)...)
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		if x.isLit() && y.isLit() {
			n := len(x.Sym)
			if len(y.Sym) < n {
				n = len(y.Sym)
			}
			if x.Sym[:n] != y.Sym[:n] {
				return False
			}
			pa[0], pb[0] = Lit(x.Sym[n:]), Lit(y.Sym[n:])
			if pa[0].Sym == "" {
				pa = pa[1:]
			}
			if pb[0].Sym == "" {
				pb = pb[1:]
			}
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			continue
		}
		if x.isLit() && y.isLit() {
			n := len(x.Sym)
			if len(y.Sym) < n {
				n = len(y.Sym)
			}
			if x.Sym[len(x.Sym)-n:] != y.Sym[len(y.Sym)-n:] {
				return False
			}
			nx, ny := Lit(x.Sym[:len(x.Sym)-n]), Lit(y.Sym[:len(y.Sym)-n])
			if nx.Sym == "" {
				pa = pa[:len(pa)-1]
			} else {
				pa[len(pa)-1] = nx
			}
			if ny.Sym == "" {
				pb = pb[:len(pb)-1]
			} else {
				pb[len(pb)-1] = ny
			}
			continue
		}
		break
	}
	a, b = Cat(pa...), Cat(pb...)
	if a == b {
		return True
	}
	if a.isLit() && b.isLit() {
		return False
	}
	for _, xy := range [][2]*Term{{a, b}, {b, a}} {
		x, y := xy[0], xy[1]
		if x.isLit() && x.Sym == "" && y.Op == "cat" {
			for _, p := range y.Args {
				if p.isLit() {
					return False
				}
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("=", "Bool", "", a, b)
}

// ---------- arrays

func ArrSort(k, v Sort) Sort { return "(Array " + k + " " + v + ")" }

// arrElem returns the key and value sorts of an array sort.
func arrElem(s Sort) (Sort, Sort) {
	body := strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	d := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func Select(a, i *Term) *Term {
	for {
		if a.Op == "store" {
			e := Eq(a.Args[1], i)
			if e == True {
				return a.Args[2]
			}
			if e == False {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		break
	}
	ks, v := arrElem(a.Sort)
	if ks != i.Sort {
		panic(fmt.Sprintf("select: key sort %s, array %s: %s [%s]", i.Sort, a.Sort, a, i))
	}
	return mk("select", v, "", a, i)
}

func Store(a, i, v *Term) *Term {
	_, vs := arrElem(a.Sort)
	if vs != v.Sort {
		panic(fmt.Sprintf("store: value sort %s into %s", v.Sort, a.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", a.Sort, "", a, i, v)
}

func ConstArr(s Sort, v *Term) *Term { return mk("constarr", s, "", v) }

// ---------- datatypes

type dtype struct {
	name  string
	ctors []dctor
}
type dctor struct {
	name string
	sels []string
	srts []Sort
}

var (
	dtMu    sync.Mutex
	dts     = map[string]*dtype{}
	selCtor = map[string]string{} // selector -> ctor
	selIdx  = map[string]int{}
	ctorDT  = map[string]string{}
)

func declDT(d *dtype) {
	dtMu.Lock()
	defer dtMu.Unlock()
	if _, ok := dts[d.name]; ok {
		return
	}
	dts[d.name] = d
	for _, c := range d.ctors {
		ctorDT[c.name] = d.name
		for i, s := range c.sels {
			selCtor[s] = c.name
			selIdx[s] = i
		}
	}
}

func getCtor(name string) (*dtype, *dctor) {
	dtMu.Lock()
	defer dtMu.Unlock()
	d := dts[ctorDT[name]]
	if d == nil {
		panic("unknown ctor " + name)
	}
	for i := range d.ctors {
		if d.ctors[i].name == name {
			return d, &d.ctors[i]
		}
	}
	panic("unknown ctor " + name)
}

func Ctor(name string, args ...*Term) *Term {
	d, c := getCtor(name)
	if len(args) != len(c.srts) {
		panic("ctor arity " + name)
	}
	// eta: C(sel0 x, sel1 x, ...) = x for single-constructor types
	if len(d.ctors) == 1 && len(args) > 0 && args[0].Op == "sel" {
		x := args[0].Args[0]
		if x.Sort == d.name {
			ok := true
			for i, a := range args {
				if a.Op != "sel" || a.Args[0] != x || a.Sym != c.sels[i] {
					ok = false
					break
				}
			}
			if ok {
				return x
			}
		}
	}
	for i, a := range args {
		if a.Sort != c.srts[i] {
			panic(fmt.Sprintf("ctor %s arg %d: %s, want %s (%s)", name, i, a.Sort, c.srts[i], a))
		}
	}
	return mk("ctor", d.name, name, args...)
}

func Sel(sel string, t *Term) *Term {
	dtMu.Lock()
	cn := selCtor[sel]
	idx := selIdx[sel]
	dtMu.Unlock()
	if cn == "" {
		panic("unknown selector " + sel)
	}
	_, c := getCtor(cn)
	if t.Op == "ctor" && t.Sym == cn {
		return t.Args[idx]
	}
	if t.Op == "ite" && t.Args[1].Op == "ctor" && t.Args[2].Op == "ctor" {
		return Ite(t.Args[0], Sel(sel, t.Args[1]), Sel(sel, t.Args[2]))
	}
	return mk("sel", c.srts[idx], sel, t)
}

func Is(ctor string, t *Term) *Term {
	if t.Op == "ctor" {
		return Bool(t.Sym == ctor)
	}
	return mk("is", "Bool", ctor, t)
}

// App applies an uninterpreted function.
func App(name string, s Sort, args ...*Term) *Term { return mk("app", s, name, args...) }

// ---------- quantifiers

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True || body == False {
		return body
	}
	var used []*Term
	for _, v := range vars {
		for _, f := range body.fb {
			if f == v.ID {
				used = append(used, v)
			}
		}
	}
	if len(used) == 0 {
		return body
	}
	return intern(&Term{Op: "forall", Sort: "Bool", Args: []*Term{body}, Vars: used, Pats: pats})
}

func Exists(vars []*Term, body *Term) *Term {
	return Not(Forall(vars, Not(body)))
}

// Subst replaces terms (by identity) in t, rebuilding through the simplifier.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term, rec func(*Term) *Term) *Term {
	switch t.Op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "+":
		return Add(args...)
	case "*":
		return Mul(args[0], args[1])
	case "mulnl":
		return Mul(args[0], args[1])
	case "div":
		return divE(args[0], args[1])
	case "mod":
		return modE(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "cat":
		return Cat(args...)
	case "slen":
		return Slen(args[0])
	case "sat":
		return Sat(args[0], args[1])
	case "substr":
		return Substr(args[0], args[1], args[2])
	case "sel":
		return Sel(t.Sym, args[0])
	case "is":
		return Is(t.Sym, args[0])
	case "ctor":
		return Ctor(t.Sym, args...)
	case "forall":
		var pats [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, rec(x))
			}
			pats = append(pats, q)
		}
		return Forall(t.Vars, args[0], pats...)
	}
	return intern(&Term{Op: t.Op, Sort: t.Sort, Sym: t.Sym, Int: t.Int, Args: args})
}

// contains reports whether t contains any subterm satisfying f.
func contains(t *Term, f func(*Term) bool) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t.ID] {
			return false
		}
		seen[t.ID] = true
		if f(t) {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (t *Term) String() string {
	var sb strings.Builder
	n := 0
	var rec func(t *Term)
	rec = func(t *Term) {
		n++
		if n > 400 {
			sb.WriteString("…")
			return
		}
		switch t.Op {
		case "true", "false":
			sb.WriteString(t.Op)
			return
		case "const", "bvar":
			sb.WriteString(t.Sym)
			return
		case "int":
			sb.WriteString(t.Int.String())
			return
		case "str":
			sb.WriteString(strconv.Quote(t.Sym))
			return
		}
		sb.WriteByte('(')
		switch t.Op {
		case "app", "ctor", "sel":
			sb.WriteString(t.Sym)
		case "is":
			sb.WriteString("is-" + t.Sym)
		case "forall":
			sb.WriteString("forall (")
			for _, v := range t.Vars {
				sb.WriteString(v.Sym + ":" + v.Sort + " ")
			}
			sb.WriteString(")")
		default:
			sb.WriteString(t.Op)
		}
		for _, a := range t.Args {
			sb.WriteByte(' ')
			rec(a)
		}
		sb.WriteByte(')')
	}
	rec(t)
	return sb.String()
}
