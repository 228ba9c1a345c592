package main

// The contract language: lexer, parser.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Expr struct {
	op   string // int str id call field index bin un quant old ite let
	name string
	args []*Expr
	vars []QVar
	ival string
	src  string
}

type QVar struct{ name, typ string }

type Clause struct {
	Label string
	Props []string
	Body  *Expr
	Src   string
	Snap  string
	With  []QVar // typed meta variables of an invariant
}

type AssignItem struct {
	kind string // path, map, elems, content, all, events, comp
	e    *Expr
	typ  string // for all: type, field
	fld  string
	v    string
	src  string
}

type Contract struct {
	Key      string
	Params   []string
	Results  []string
	Requires []Clause
	Ensures  []Clause
	Assigns  []AssignItem
	Invs     []Clause
	Iters    []Clause
	Inners   []Clause
	PanicEns []Clause // postconditions when the function panics
	Root     []string // properties for which this is a root
	Safety   []string // properties to which only the obligations other than postconditions belong
	Inline   bool
	NoFrame  bool
	NoUnroll bool
	NoReqInv bool // do not try the preconditions as loop invariants
	MayPanic bool
	Trusted  bool
	Havoc    []string
	File     string
	Native   bool
	Split    bool
	OldHint  []string
	Witness  []Clause
}

type PredDef struct {
	name   string
	params []QVar
	ret    string
	body   *Expr // nil: uninterpreted
	rec    bool
	uf     string // SMT symbol
}

type ChanInv struct {
	typ    string
	params []string
	label  string
	body   *Expr
}

// Counter counts the events of a name, per their first argument.
type Counter struct {
	name, event string
	params      []string
	body        *Expr
}

type SpecFile struct {
	counters  []*Counter
	preds     map[string]*PredDef
	contracts map[string]*Contract
	chans     []*ChanInv
	funcs     []string
	order     []string
}

type specErr struct{ msg string }

func serr(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

// ---- lexer

type tok struct{ kind, s string }

func lex(src string) []tok {
	var out []tok
	i := 0
	isId := func(c byte) bool {
		return c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				serr("bad string %s", src[i:j+1])
			}
			out = append(out, tok{"str", s})
			i = j + 1
		case c == '\'':
			j := i + 1
			for src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(src[i+1:j], '\'')
			if err != nil {
				serr("bad char")
			}
			out = append(out, tok{"int", strconv.Itoa(int(r))})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, tok{"int", src[i:j]})
			i = j
		case isId(c):
			j := i
			for j < len(src) && isId(src[j]) {
				j++
			}
			out = append(out, tok{"id", src[i:j]})
			i = j
		default:
			for _, op := range []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "++"} {
				if strings.HasPrefix(src[i:], op) {
					out = append(out, tok{"op", op})
					i += len(op)
					goto next
				}
			}
			out = append(out, tok{"op", string(c)})
			i++
		next:
		}
	}
	return append(out, tok{"eof", ""})
}

type parser struct {
	ts  []tok
	p   int
	src string
}

func (p *parser) peek() tok { return p.ts[p.p] }
func (p *parser) next() tok { t := p.ts[p.p]; p.p++; return t }
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.kind == "op" || t.kind == "id") && t.s == s
}
func (p *parser) eat(s string) {
	if !p.is(s) {
		serr("expected %q, got %q in: %s", s, p.peek().s, p.src)
	}
	p.p++
}

func parseExpr(src string) *Expr {
	p := &parser{ts: lex(src), src: src}
	e := p.expr(0)
	if p.peek().kind != "eof" {
		serr("trailing %q in: %s", p.peek().s, src)
	}
	e.src = src
	return e
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "++": 6, "*": 7, "/": 7, "%": 7}

func (p *parser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := prec[t.s]
		if !ok || t.kind == "str" || pr < min {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		l = &Expr{op: "bin", name: t.s, args: []*Expr{l, r}}
	}
}

func (p *parser) typeStr() string {
	// a type: sequence of tokens until one of , ) :: = at depth 0
	d := 0
	var sb strings.Builder
	for {
		t := p.peek()
		if t.kind == "eof" {
			break
		}
		if d == 0 && (t.s == "," || t.s == ")" || t.s == "::" || t.s == "=") {
			break
		}
		if t.s == "(" || t.s == "[" {
			d++
		}
		if t.s == ")" || t.s == "]" {
			d--
		}
		sb.WriteString(t.s)
		p.next()
	}
	return sb.String()
}

func (p *parser) unary() *Expr {
	t := p.peek()
	if t.kind == "op" && (t.s == "!" || t.s == "-") {
		p.next()
		return &Expr{op: "un", name: t.s, args: []*Expr{p.unary()}}
	}
	if t.kind == "id" && (t.s == "forall" || t.s == "exists") {
		p.next()
		e := &Expr{op: "quant", name: t.s}
		for {
			n := p.next().s
			p.eat(":")
			e.vars = append(e.vars, QVar{n, p.typeStr()})
			if p.is(",") {
				p.next()
				continue
			}
			break
		}
		p.eat("::")
		e.args = []*Expr{p.expr(0)}
		return e
	}
	if t.kind == "id" && t.s == "let" {
		p.next()
		n := p.next().s
		p.eat("=")
		v := p.expr(0)
		p.eat("::")
		b := p.expr(0)
		return &Expr{op: "let", name: n, args: []*Expr{v, b}}
	}
	if t.kind == "id" && t.s == "if" {
		p.next()
		c := p.expr(0)
		p.eat("then")
		a := p.expr(0)
		p.eat("else")
		b := p.expr(0)
		return &Expr{op: "ite", args: []*Expr{c, a, b}}
	}
	return p.postfix(p.primary())
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.is("."):
			p.next()
			n := p.next().s
			e = &Expr{op: "field", name: n, args: []*Expr{e}}
		case p.is("["):
			p.next()
			i := p.expr(0)
			p.eat("]")
			e = &Expr{op: "index", args: []*Expr{e, i}}
		default:
			return e
		}
	}
}

func (p *parser) primary() *Expr {
	t := p.next()
	switch t.kind {
	case "int":
		return &Expr{op: "int", ival: t.s}
	case "str":
		return &Expr{op: "str", name: t.s}
	case "id":
		if p.is("(") {
			p.next()
			e := &Expr{op: "call", name: t.s}
			if t.s == "mk" { // mk(T, fields in order)
				e.ival = p.typeStr()
				for p.is(",") {
					p.next()
					e.args = append(e.args, p.expr(0))
				}
				p.eat(")")
				return e
			}
			if t.s == "typeis" || t.s == "dyn" || t.s == "zero" || t.s == "global" {
				// last argument is a type
				if t.s != "zero" && t.s != "global" {
					e.args = append(e.args, p.expr(0))
					p.eat(",")
				}
				e.ival = p.typeStr()
				p.eat(")")
				return e
			}
			for !p.is(")") {
				e.args = append(e.args, p.expr(0))
				if p.is(",") {
					p.next()
				}
			}
			p.eat(")")
			return e
		}
		return &Expr{op: "id", name: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.eat(")")
			return e
		}
	}
	serr("unexpected %q in: %s", t.s, p.src)
	return nil
}

// ---- file format

func parseSpecs(dir string) (*SpecFile, error) {
	sf := &SpecFile{preds: map[string]*PredDef{}, contracts: map[string]*Contract{}}
	files, _ := filepath.Glob(dir + "/*.spec")
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := sf.parse(f, string(b)); err != nil {
			return nil, err
		}
	}
	return sf, nil
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if strings.TrimSpace(s[st:]) != "" {
		out = append(out, strings.TrimSpace(s[st:]))
	}
	return out
}

func parseSig(s string) (name string, params []string, rest string) {
	// name may start with a receiver in parentheses: (*health.Job).Event(a, b) rest
	i := 0
	if strings.HasPrefix(s, "(") {
		i = strings.Index(s, ")") + 1
	}
	j := strings.Index(s[i:], "(") + i
	name = strings.TrimSpace(s[:j])
	d := 0
	k := j
	for ; k < len(s); k++ {
		if s[k] == '(' {
			d++
		}
		if s[k] == ')' {
			d--
			if d == 0 {
				break
			}
		}
	}
	params = splitTop(s[j+1 : k])
	rest = strings.TrimSpace(s[k+1:])
	return
}

func qvars(ps []string) []QVar {
	var out []QVar
	for _, p := range ps {
		i := strings.IndexAny(p, " \t:")
		if i < 0 {
			serr("param %q needs a type", p)
		}
		out = append(out, QVar{p[:i], strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(p[i:]), ":"))})
	}
	return out
}

// clauseHead parses "[C01 C02 label] expr".
func clauseHead(s string) Clause {
	c := Clause{}
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		j := strings.Index(s, "]")
		for _, w := range strings.Fields(s[1:j]) {
			if len(w) >= 2 && w[0] == 'C' && w[1] >= '0' && w[1] <= '9' {
				c.Props = append(c.Props, w)
			} else {
				c.Label = w
			}
		}
		s = strings.TrimSpace(s[j+1:])
	}
	c.Src = s
	return c
}

func (sf *SpecFile) parse(file, text string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("%s: %s", file, e.msg)
				return
			}
			panic(r)
		}
	}()
	// logical lines: a line starting with whitespace+keyword or column-0 keyword begins an item;
	// other lines continue the previous item.
	kw := map[string]bool{"pred": true, "fun": true, "rec": true, "uf": true, "chan": true, "contract": true,
		"requires": true, "ensures": true, "assigns": true, "invariant": true, "iter": true, "inneriter": true, "counter": true, "root": true, "inline": true, "maypanic": true,
		"trusted": true, "nounroll": true, "noreqinv": true, "noframe": true, "panics": true, "havoc": true, "props": true, "safety": true}
	var items []string
	for _, ln := range strings.Split(text, "\n") {
		if i := strings.Index(ln, "//"); i >= 0 && !strings.Contains(ln[:i], "\"") {
			ln = ln[:i]
		}
		t := strings.TrimSpace(ln)
		if t == "" {
			continue
		}
		w := strings.Fields(t)[0]
		if kw[w] {
			items = append(items, t)
		} else if len(items) > 0 {
			items[len(items)-1] += "\n" + t
		} else {
			serr("stray line %q", t)
		}
	}
	var cur *Contract
	var curProps []string
	for _, it := range items {
		w := strings.Fields(it)[0]
		rest := strings.TrimSpace(it[len(w):])
		switch w {
		case "pred", "fun", "rec", "uf":
			body := ""
			head := rest
			i := strings.Index(rest, " = ")
			if j := strings.Index(rest, " =\n"); j >= 0 && (i < 0 || j < i) {
				i = j
			}
			if i >= 0 {
				head, body = strings.TrimSpace(rest[:i]), rest[i+3:]
			}
			n, ps, r := parseSig(head)
			pd := &PredDef{name: n, params: qvars(ps), rec: w == "rec"}
			pd.ret = strings.TrimSpace(strings.TrimPrefix(r, ":"))
			if w == "pred" {
				pd.ret = "bool"
			}
			pd.uf = n
			if w == "uf" {
				if i := strings.Index(pd.ret, " as "); i >= 0 {
					pd.uf = strings.TrimSpace(pd.ret[i+4:])
					pd.ret = strings.TrimSpace(pd.ret[:i])
				}
			}
			if body != "" {
				pd.body = parseExpr(body)
			}
			if sf.preds[n] != nil {
				serr("duplicate %s", n)
			}
			sf.preds[n] = pd
			cur = nil
		case "counter":
			// counter name event (params): expr   counts, per first argument, the events satisfying expr
			i := strings.Index(rest, " (")
			r := rest[i+1:]
			j := strings.Index(r, ")")
			k := strings.Index(r, ":")
			hd := strings.Fields(rest[:i])
			sf.counters = append(sf.counters, &Counter{name: hd[0], event: hd[1], params: splitTop(r[1:j]), body: parseExpr(r[k+1:])})
			cur = nil
		case "chan":
			// chan *health.emitCmd (c) [label]: expr
			i := strings.Index(rest, " (")
			n := strings.TrimSpace(rest[:i])
			r := rest[i+1:]
			j := strings.Index(r, ")")
			k := strings.Index(r, ":")
			sf.chans = append(sf.chans, &ChanInv{typ: n, params: splitTop(r[1:j]), label: strings.Trim(strings.TrimSpace(r[j+1:k]), "[]"), body: parseExpr(r[k+1:])})
			cur = nil
		case "contract":
			n, ps, r := rest, []string(nil), ""
			if !strings.HasPrefix(rest, "functype:") {
				n, ps, r = parseSig(rest)
			}
			cur = &Contract{Key: n, Params: ps, File: filepath.Base(file)}
			if strings.HasPrefix(r, "returns") {
				r = strings.TrimSpace(strings.TrimPrefix(r, "returns"))
				r = strings.Trim(r, "()")
				cur.Results = splitTop(r)
			}
			if sf.contracts[n] != nil {
				serr("duplicate contract %s", n)
			}
			sf.contracts[n] = cur
			sf.order = append(sf.order, n)
			curProps = nil
		default:
			if cur == nil {
				serr("%s outside contract", w)
			}
			switch w {
			case "props":
				curProps = strings.Fields(rest)
			case "root":
				cur.Root = strings.Fields(rest)
			case "safety":
				cur.Safety = strings.Fields(rest)
			case "inline":
				cur.Inline = true
			case "trusted":
				cur.Trusted = true
			case "noreqinv":
				cur.NoReqInv = true
			case "nounroll":
				cur.NoUnroll = true
			case "noframe":
				cur.NoFrame = true
			case "maypanic":
				cur.MayPanic = true
			case "havoc":
				cur.Havoc = append(cur.Havoc, strings.Fields(rest)...)
			case "assigns":
				for _, a := range splitTop(rest) {
					cur.Assigns = append(cur.Assigns, parseAssign(a))
				}
			default:
				c := clauseHead(rest)
				if len(c.Props) == 0 {
					c.Props = curProps
				}
				if strings.HasPrefix(c.Src, "with ") {
					p := &parser{ts: lex(c.Src[5:]), src: c.Src}
					for {
						n := p.next().s
						p.eat(":")
						c.With = append(c.With, QVar{n, p.typeStr()})
						if p.is(",") {
							p.next()
							continue
						}
						break
					}
					p.eat("::")
					c.Body = p.expr(0)
					if p.peek().kind != "eof" {
						serr("trailing %q in: %s", p.peek().s, c.Src)
					}
				} else {
					c.Body = parseExpr(c.Src)
				}
				switch w {
				case "requires":
					if c.Label == "" {
						c.Label = fmt.Sprintf("req%d", len(cur.Requires))
					}
					cur.Requires = append(cur.Requires, c)
				case "ensures":
					if c.Label == "" {
						c.Label = fmt.Sprintf("ens%d", len(cur.Ensures))
					}
					cur.Ensures = append(cur.Ensures, c)
				case "panics":
					cur.PanicEns = append(cur.PanicEns, c)
				case "invariant":
					cur.Invs = append(cur.Invs, c)
				case "inneriter":
					if c.Label == "" {
						c.Label = fmt.Sprintf("inneriter%d", len(cur.Inners))
					}
					c.Label = "inner:" + c.Label
					cur.Inners = append(cur.Inners, c)
				case "iter":
					if c.Label == "" {
						c.Label = fmt.Sprintf("iter%d", len(cur.Iters))
					}
					cur.Iters = append(cur.Iters, c)
				}
			}
		}
	}
	return nil
}

func parseAssign(s string) AssignItem {
	a := AssignItem{src: s}
	switch {
	case s == "events":
		a.kind = "events"
	case s == "nothing":
		a.kind = "nothing"
	case strings.HasPrefix(s, "all "):
		// all TimerAggregation.* where r: pred
		r := strings.TrimPrefix(s, "all ")
		i := strings.Index(r, " where ")
		tf := strings.TrimSpace(r[:i])
		r = r[i+7:]
		j := strings.Index(r, ":")
		a.kind = "all"
		k := strings.LastIndex(tf, ".")
		a.typ, a.fld = tf[:k], tf[k+1:]
		a.v = strings.TrimSpace(r[:j])
		a.e = parseExpr(r[j+1:])
	case strings.HasPrefix(s, "allmap "):
		r := strings.TrimPrefix(s, "allmap ")
		i := strings.Index(r, " where ")
		a.typ = strings.TrimSpace(r[:i])
		r = r[i+7:]
		j := strings.Index(r, ":")
		a.kind = "allmap"
		a.v = strings.TrimSpace(r[:j])
		a.e = parseExpr(r[j+1:])
	case strings.HasPrefix(s, "map("):
		a.kind = "map"
		a.e = parseExpr(s[4 : len(s)-1])
	case strings.HasPrefix(s, "elems("):
		a.kind = "elems"
		a.e = parseExpr(s[6 : len(s)-1])
	case strings.HasPrefix(s, "content("):
		a.kind = "content"
		a.e = parseExpr(s[8 : len(s)-1])
	case strings.HasSuffix(s, ".*"):
		a.kind = "fields"
		a.e = parseExpr(s[:len(s)-2])
	default:
		a.kind = "field"
		a.e = parseExpr(s)
	}
	return a
}
