package main

// SMT-LIB printing and solver invocation.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// axiomFor maps a function symbol (or "op:<op>") to a generator of axioms about it.
var axiomFor = map[string]func() []*Term{}

// ufSig remembers uninterpreted function signatures.
// initAx: facts established by the package initialisers, by the initial-heap symbol they constrain.
var initAx = map[string][]*Term{}

type ufSig struct {
	args []Sort
	ret  Sort
}

type printer struct {
	native  bool // native strings
	sb      *bytes.Buffer
	names   map[int]string // shared term names
	sorts   map[Sort]bool
	consts  map[string]Sort
	ufs     map[string]ufSig
	dtUsed  map[string]bool
	defs    []string
	defs2   []string
	carrs   map[string]bool
	strLits map[string]string
}

func symq(s string) string {
	ok := s != "" && !(s[0] >= '0' && s[0] <= '9')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '$' || c == '?') {
			ok = false
		}
	}
	if ok {
		return s
	}
	// escaped, so that no quoting is needed (cvc5 takes no quoted symbol as an index)
	var sb strings.Builder
	sb.WriteByte('q')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '$' || c == '?' || c == '*' || c == '-' || c == '/' || c == '@':
			sb.WriteByte(c)
		case c == '|':
			sb.WriteByte('~')
		default:
			fmt.Fprintf(&sb, "%%%02x", c)
		}
	}
	return sb.String()
}

// sortText renders a sort, recording what it uses.
func (p *printer) sortText(s Sort) string {
	if strings.HasPrefix(s, "(Array ") {
		k, v := arrElem(s)
		return "(Array " + p.sortText(k) + " " + p.sortText(v) + ")"
	}
	switch s {
	case "Int", "Bool":
		return s
	case "Str":
		if p.native {
			return "String"
		}
		p.sorts["Str"] = true
		return "Str"
	}
	dtMu.Lock()
	d := dts[s]
	dtMu.Unlock()
	if d != nil {
		if !p.dtUsed[s] {
			p.dtUsed[s] = true
			for _, c := range d.ctors {
				for _, x := range c.srts {
					p.sortText(x)
				}
			}
		}
		return symq(s)
	}
	p.sorts[s] = true
	return symq(s)
}

func smtStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			sb.WriteString(`""`)
		} else if c < 32 || c > 126 || c == '\\' {
			fmt.Fprintf(&sb, "\\u{%x}", c)
		} else {
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func bigText(t *Term) string {
	if t.Int.Sign() < 0 {
		return "(- " + strings.TrimPrefix(t.Int.String(), "-") + ")"
	}
	return t.Int.String()
}

func (p *printer) term(t *Term) string {
	if n, ok := p.names[t.ID]; ok {
		return n
	}
	s := p.raw(t)
	if len(t.fb) == 0 && len(t.Args) > 0 && len(s) > 40 {
		n := fmt.Sprintf("t!%d", t.ID)
		p.defs = append(p.defs, fmt.Sprintf("(define-fun %s () %s %s)", n, p.sortText(t.Sort), s))
		p.names[t.ID] = n
		return n
	}
	return s
}

func (p *printer) uf(name string, ret Sort, args []*Term) string {
	if _, ok := p.ufs[name]; !ok {
		var as []Sort
		for _, a := range args {
			as = append(as, a.Sort)
			p.sortText(a.Sort)
		}
		p.sortText(ret)
		p.ufs[name] = ufSig{as, ret}
	}
	if len(args) == 0 {
		return symq(name)
	}
	return "(" + symq(name) + p.args(args) + ")"
}

func (p *printer) args(as []*Term) string {
	var sb strings.Builder
	for _, a := range as {
		sb.WriteByte(' ')
		sb.WriteString(p.term(a))
	}
	return sb.String()
}

func (p *printer) raw(t *Term) string {
	switch t.Op {
	case "true", "false":
		return t.Op
	case "int":
		return bigText(t)
	case "const":
		p.consts[t.Sym] = t.Sort
		p.sortText(t.Sort)
		return symq(t.Sym)
	case "bvar":
		return symq(t.Sym)
	case "str":
		if p.native {
			return smtStr(t.Sym)
		}
		n, ok := p.strLits[t.Sym]
		if !ok {
			n = fmt.Sprintf("lit!%d", len(p.strLits))
			p.strLits[t.Sym] = n
			p.sorts["Str"] = true
		}
		return n
	case "fltlit":
		return p.uf("flt:"+t.Sym, "Flt", nil)
	case "not", "and", "or", "=>", "=", "ite", "+", "*", "<=", "div", "mod", "select", "store":
		return "(" + t.Op + p.args(t.Args) + ")"
	case "mulnl":
		return "(*" + p.args(t.Args) + ")"
	case "constarr":
		if !p.isValue(t.Args[0]) && len(t.fb) == 0 {
			// cvc5 wants a value here
			n := fmt.Sprintf("carr!%d", t.ID)
			if p.carrs == nil {
				p.carrs = map[string]bool{}
			}
			if !p.carrs[n] {
				p.carrs[n] = true
				p.consts[n] = t.Sort
				idx, _ := arrElem(t.Sort)
				p.defs2 = append(p.defs2, fmt.Sprintf("(assert (forall ((i!c %s)) (! (= (select %s i!c) %s) :pattern ((select %s i!c)))))", p.sortText(idx), n, p.term(t.Args[0]), n))
			}
			return n
		}
		return "((as const " + p.sortText(t.Sort) + ")" + p.args(t.Args) + ")"
	case "cat":
		if p.native {
			return "(str.++" + p.args(t.Args) + ")"
		}
		// right-nested uninterpreted concatenation
		s := p.term(t.Args[len(t.Args)-1])
		p.ufs["cat"] = ufSig{[]Sort{"Str", "Str"}, "Str"}
		for i := len(t.Args) - 2; i >= 0; i-- {
			s = "(cat " + p.term(t.Args[i]) + " " + s + ")"
		}
		return s
	case "slen":
		if p.native {
			return "(str.len" + p.args(t.Args) + ")"
		}
		return p.uf("slen", "Int", t.Args)
	case "sat":
		if p.native {
			return "(str.to_code (str.at" + p.args(t.Args) + "))"
		}
		return p.uf("sat", "Int", t.Args)
	case "substr":
		if p.native {
			return "(str.substr" + p.args(t.Args) + ")"
		}
		return p.uf("substr", "Str", t.Args)
	case "app":
		if p.native {
			switch t.Sym {
			case "chr":
				return "(str.from_code" + p.args(t.Args) + ")"
			case "strless":
				return "(str.<" + p.args(t.Args) + ")"
			case "strcontains":
				return "(str.contains" + p.args(t.Args) + ")"
			case "strprefix": // strprefix(s, p)
				return "(str.prefixof " + p.term(t.Args[1]) + " " + p.term(t.Args[0]) + ")"
			case "strsuffix":
				return "(str.suffixof " + p.term(t.Args[1]) + " " + p.term(t.Args[0]) + ")"
			case "strindex": // index(s, sub)
				return "(str.indexof " + p.term(t.Args[0]) + " " + p.term(t.Args[1]) + " 0)"
			}
		}
		return p.uf(t.Sym, t.Sort, t.Args)
	case "ctor":
		p.sortText(t.Sort)
		if len(t.Args) == 0 {
			return symq(t.Sym)
		}
		return "(" + symq(t.Sym) + p.args(t.Args) + ")"
	case "sel":
		p.sortText(t.Args[0].Sort)
		return "(" + symq(t.Sym) + p.args(t.Args) + ")"
	case "is":
		p.sortText(t.Args[0].Sort)
		return "((_ is " + symq(t.Sym) + ")" + p.args(t.Args) + ")"
	case "forall":
		var sb strings.Builder
		sb.WriteString("(forall (")
		for _, v := range t.Vars {
			sb.WriteString("(" + symq(v.Sym) + " " + p.sortText(v.Sort) + ")")
		}
		sb.WriteString(") ")
		body := p.term(t.Args[0])
		if len(t.Pats) > 0 {
			body = "(! " + body
			for _, pt := range t.Pats {
				body += " :pattern (" + strings.TrimSpace(p.args(pt)) + ")"
			}
			body += ")"
		}
		sb.WriteString(body + ")")
		return sb.String()
	}
	panic("print: op " + t.Op)
}

// collectSyms gathers uf symbols, ops and constants in ts.
func collectSyms(ts []*Term, seen map[int]bool, out map[string]bool) {
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		switch t.Op {
		case "app", "const":
			out[t.Sym] = true
		case "is", "sel", "ctor":
			out["c:"+t.Sym] = true
		default:
			out["op:"+t.Op] = true
		}
		for _, a := range t.Args {
			rec(a)
		}
		for _, ps := range t.Pats {
			for _, a := range ps {
				rec(a)
			}
		}
	}
	for _, t := range ts {
		rec(t)
	}
}

func withAxioms(ts []*Term) []*Term {
	seen := map[int]bool{}
	syms := map[string]bool{}
	done := map[string]bool{}
	collectSyms(ts, seen, syms)
	out := append([]*Term{}, ts...)
	for {
		var names []string
		for s := range syms {
			if !done[s] && (axiomFor[s] != nil || initAx[s] != nil) {
				names = append(names, s)
			}
		}
		if len(names) == 0 {
			return out
		}
		sort.Strings(names)
		for _, s := range names {
			done[s] = true
			var ax []*Term
			if f := axiomFor[s]; f != nil {
				ax = append(ax, f()...)
			}
			ax = append(ax, initAx[s]...)
			out = append(out, ax...)
			collectSyms(ax, seen, syms)
		}
	}
}

// smtText renders a satisfiability query for the conjunction of ts.
// isValue: a syntactic value in SMT-LIB.
func (p *printer) isValue(t *Term) bool {
	switch t.Op {
	case "true", "false", "int":
		return true
	case "str":
		return p.native
	case "ctor", "constarr":
		for _, a := range t.Args {
			if !p.isValue(a) {
				return false
			}
		}
		return true
	}
	return false
}

// skolemRecs replaces the variables of negated universal goals that mention recursive ghost functions
// by constants, so that those functions can be unfolded.
func skolemRecs(ts []*Term) []*Term {
	out := append([]*Term{}, ts...)
	for i, t := range out {
		if t.Op != "not" || t.Args[0].Op != "forall" || !contains(t, func(x *Term) bool { return x.Op == "app" && strings.HasPrefix(x.Sym, "rec|") }) {
			continue
		}
		f := t.Args[0]
		m := map[*Term]*Term{}
		for j, v := range f.Vars {
			m[v] = Const(fmt.Sprintf("sk!%d!%d", t.ID, j), v.Sort)
		}
		out[i] = Not(Subst(f.Args[0], m))
	}
	return out
}

func smtText(ts []*Term, native bool, getModel bool) string {
	return smtTextOpt(ts, native, getModel, false)
}

func smtTextOpt(ts []*Term, native bool, getModel bool, ground bool) string {
	p := &printer{native: native, names: map[int]string{}, sorts: map[Sort]bool{}, consts: map[string]Sort{},
		ufs: map[string]ufSig{}, dtUsed: map[string]bool{}, strLits: map[string]string{}}
	ts = skolemRecs(ts)
	ts = withAxioms(append(append([]*Term{}, ts...), unfoldRecs(ts)...))
	if ground {
		// keep the cheap object-identity axioms only
		var g []*Term
		for _, t := range ts {
			if !hasQuant(t) || isRidAxiom(t) {
				g = append(g, t)
			}
		}
		ts = g
	}
	var asserts []string
	for _, t := range ts {
		if t == True {
			continue
		}
		t = shiftHyp(t)
		asserts = append(asserts, "(assert "+p.term(t)+")")
	}
	var sb strings.Builder
	// declare sorts
	var ss []string
	for s := range p.sorts {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", symq(s))
	}
	// datatypes, one mutually recursive block
	var ds []string
	for s := range p.dtUsed {
		ds = append(ds, s)
	}
	sort.Strings(ds)
	if len(ds) > 0 {
		sb.WriteString("(declare-datatypes (")
		for _, s := range ds {
			fmt.Fprintf(&sb, "(%s 0)", symq(s))
		}
		sb.WriteString(") (\n")
		for _, s := range ds {
			sb.WriteString("(")
			for _, c := range dts[s].ctors {
				fmt.Fprintf(&sb, "(%s", symq(c.name))
				for i, f := range c.sels {
					fmt.Fprintf(&sb, " (%s %s)", symq(f), p.sortText(c.srts[i]))
				}
				sb.WriteString(")")
			}
			sb.WriteString(")\n")
		}
		sb.WriteString("))\n")
	}
	var fs []string
	for f := range p.ufs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		sg := p.ufs[f]
		fmt.Fprintf(&sb, "(declare-fun %s (", symq(f))
		for i, a := range sg.args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(p.sortText(a))
		}
		fmt.Fprintf(&sb, ") %s)\n", p.sortText(sg.ret))
	}
	var cs []string
	for c := range p.consts {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", symq(c), p.sortText(p.consts[c]))
	}
	if !native && len(p.strLits) > 0 {
		var ls []string
		for l := range p.strLits {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			fmt.Fprintf(&sb, "(declare-const %s Str)\n", p.strLits[l])
			if _, ok := p.ufs["slen"]; ok {
				asserts = append(asserts, fmt.Sprintf("(assert (= (slen %s) %d))", p.strLits[l], len(l)))
			}
		}
		if len(ls) > 1 {
			sb.WriteString("(assert (distinct")
			for _, l := range ls {
				sb.WriteString(" " + p.strLits[l])
			}
			sb.WriteString("))\n")
		}
	}
	// distinct float literals
	var fl []string
	for _, f := range fs {
		if strings.HasPrefix(f, "flt:") {
			fl = append(fl, symq(f))
		}
	}
	if len(fl) > 1 {
		sb.WriteString("(assert (distinct " + strings.Join(fl, " ") + "))\n")
	}
	for _, d := range p.defs {
		sb.WriteString(d)
		sb.WriteByte('\n')
	}
	for _, d := range p.defs2 {
		sb.WriteString(d)
		sb.WriteByte('\n')
	}
	for _, a := range asserts {
		sb.WriteString(a)
		sb.WriteByte('\n')
	}
	sb.WriteString("(check-sat)\n")
	if getModel {
		sb.WriteString("(get-model)\n")
	}
	return sb.String()
}

type SolveRes struct {
	Status string // unsat, sat, unknown
	Solver string
	Secs   float64
	Out    string
}

var (
	solverSem  = make(chan struct{}, 8)
	solverMu   sync.Mutex
	solverTime = map[string]float64{}
	solverRuns = map[string]int{}
	queryCache sync.Map
	nQueries   int64
)

func runSolver(name string, text string, tmo time.Duration) SolveRes {
	return runSolverCtx(context.Background(), name, text, tmo)
}

func runSolverCtx(pctx context.Context, name string, text string, tmo time.Duration) SolveRes {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if pctx.Err() != nil || pastDeadline() {
		return SolveRes{Status: "unknown", Solver: name, Out: "cancelled"}
	}
	wall := tmo + 3*time.Second
	if name == "z3-nomb" || name == "z3-old-nomb" || name == "cvc5-r" {
		wall = 10*tmo + 3*time.Second
	}
	ctx, cancel := context.WithTimeout(pctx, wall)
	defer cancel()
	var cmd *exec.Cmd
	switch name {
	case "z3-new", "z3":
		cmd = exec.CommandContext(ctx, name, "-in", "-smt2", fmt.Sprintf("-T:%d", int(tmo.Seconds()+0.999)), "smt.random_seed=1")
	case "z3-nomb":
		// a resource limit (about 2M units per second) keeps the outcome independent of machine load
		cmd = exec.CommandContext(ctx, "z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", int(tmo.Seconds()*10+0.999)), fmt.Sprintf("rlimit=%d", int(tmo.Seconds()*2e6)), "smt.mbqi=false", "auto_config=false")
	case "z3-old-nomb":
		cmd = exec.CommandContext(ctx, "z3", "-in", "-smt2", fmt.Sprintf("-T:%d", int(tmo.Seconds()*10+0.999)), fmt.Sprintf("rlimit=%d", int(tmo.Seconds()*2e6)), "smt.mbqi=false", "auto_config=false")
	case "cvc5-r":
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--rlimit=%d", int(tmo.Seconds()*3e5)), fmt.Sprintf("--tlimit=%d", tmo.Milliseconds()*10), "-q", "-")
		text = "(set-logic ALL)\n" + text
	case "cvc5":
		cmd = exec.CommandContext(ctx, name, "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", tmo.Milliseconds()), "-q", "-")
		text = "(set-logic ALL)\n" + text
	case "cvc5-enum":
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", "--strings-exp", "--enum-inst", fmt.Sprintf("--tlimit=%d", tmo.Milliseconds()), "-q", "-")
		text = "(set-logic ALL)\n" + text
	}
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	el := time.Since(t0).Seconds()
	solverMu.Lock()
	solverTime[name] += el
	solverRuns[name]++
	solverMu.Unlock()
	o := out.String()
	st := "unknown"
	if strings.HasPrefix(o, "unsat") {
		st = "unsat"
	} else if strings.HasPrefix(o, "sat") {
		st = "sat"
	}
	if strings.Contains(o, "(error") && st == "unknown" || strings.HasPrefix(o, "(error") {
		if os.Getenv("GOVER_DEBUG") != "" {
			f, _ := os.CreateTemp("", "gover-err-*.smt2")
			f.WriteString(text)
			f.Close()
			fmt.Fprintf(os.Stderr, "SOLVER ERROR %s %s: %s\n", name, f.Name(), firstLine(o))
		}
		st = "unknown"
	}
	if len(o) > 20000 {
		o = o[:20000]
	}
	return SolveRes{Status: st, Solver: name, Secs: el, Out: o}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func needsNative(ts []*Term) bool {
	seen := map[int]bool{}
	syms := map[string]bool{}
	collectSyms(ts, seen, syms)
	return syms["op:cat"] || syms["op:substr"] || syms["op:sat"] || syms["chr"] || syms["strcontains"] || syms["strprefix"] || syms["strsuffix"] || syms["strindex"] || syms["op:slen"] || syms["strless"]
}

// timeouts (seconds), set from the tier.
var (
	proveTimeout = 20 * time.Second
	quickTimeout = 2 * time.Second
)

func dumpQuery(text, tag string) {
	if d := os.Getenv("GOVER_DUMP"); d != "" {
		h := sha256.Sum256([]byte(text))
		os.WriteFile(fmt.Sprintf("%s/%s-%x.smt2", d, tag, h[:6]), []byte(text), 0644)
	}
}

// checkSat decides satisfiability of the conjunction.
func checkSat(ts []*Term, tmo time.Duration, full bool) SolveRes {
	return checkSatOpt(ts, tmo, full, false, "")
}

// isRidAxiom: a quantified axiom about object identities and nothing else.
func isRidAxiom(t *Term) bool {
	syms := map[string]bool{}
	collectSyms([]*Term{t}, map[int]bool{}, syms)
	for s := range syms {
		switch {
		case s == "rid", s == "c:obj", s == "c:sub", s == "c:elem", s == "c:oid", s == "c:spar", s == "c:epar", s == "c:nil":
		case strings.HasPrefix(s, "op:"):
		default:
			return false
		}
	}
	return syms["rid"]
}

// extra: a weaker set of hypotheses with the same goal, tried beside the whole query.
func checkSatOpt(ts []*Term, tmo time.Duration, full bool, ground bool, extra string) SolveRes {
	for _, t := range ts {
		if t == False {
			return SolveRes{Status: "unsat", Solver: "simplifier"}
		}
	}
	atomic.AddInt64(&nQueries, 1)
	native := needsNative(ts)
	text := smtTextOpt(ts, native, false, ground)
	key := sha256.Sum256([]byte(text))
	type ent struct {
		r   SolveRes
		tmo time.Duration
		f   bool
	}
	if e, ok := queryCache.Load(key); ok {
		en := e.(ent)
		if en.r.Status != "unknown" || (en.tmo >= tmo && (en.f || !full)) {
			return en.r
		}
	}
	dumpQuery(text, "q")
	var r SolveRes
	if !full {
		r = quickPortfolio(text, native, tmo, ground)
	} else {
		first := tmo / 4
		if first > 4*time.Second {
			first = 4 * time.Second
		}
		if first < time.Second {
			first = time.Second
		}
		r = quickPortfolio(text, native, first, ground)
		if r.Status != "unsat" {
			r.Status = "unknown"
			ctx, cancel := context.WithCancel(context.Background())
			type job struct {
				s string
				t string
			}
			jobs := []job{{"z3-new", text}, {"cvc5", text}, {"z3", text}, {"z3-nomb", text}}
			if native {
				jobs = append(jobs, job{"z3-nomb", smtText(ts, false, false)})
			} else {
				jobs = append(jobs, job{"cvc5-enum", text})
			}
			if extra != "" {
				jobs = append([]job{{"cvc5-enum", extra}, {"z3-new", extra}, {"cvc5", extra}}, jobs...)
			}
			ch := make(chan SolveRes, len(jobs))
			for _, j := range jobs {
				go func(j job) {
					r := runSolverCtx(ctx, j.s, j.t, tmo)
					if extra != "" && j.t == extra && r.Status == "sat" {
						r.Status = "unknown"
					}
					ch <- r
				}(j)
			}
			for range jobs {
				x := <-ch
				if x.Status == "sat" && x.Solver == "z3-nomb" {
					x.Status = "unknown"
				}
				if x.Status != "unknown" {
					r = x
					break
				}
				if x.Out != "" && r.Out == "" {
					r = x
				}
			}
			cancel()
		}
	}
	if (r.Solver == "z3-nomb" || r.Solver == "z3-old-nomb") && r.Status == "sat" && !ground {
		r.Status = "unknown" // no model-based instantiation: not a model
	}
	queryCache.Store(key, ent{r, tmo, full})
	return r
}

// quickPortfolio: resource-limited runs, so that the outcome does not depend on the load of the machine.
func quickPortfolio(text string, native bool, tmo time.Duration, ground bool) SolveRes {
	if ground {
		return runSolver("z3-nomb", text, tmo)
	}
	order := []string{"z3-nomb", "z3-old-nomb"}
	var r SolveRes
	if native {
		r = runSolver("z3-nomb", text, tmo/4)
		order = append(order, "cvc5-r")
	} else {
		// z3 without models saturates or fails in a moment on most queries
		short := 300 * time.Millisecond
		if short > tmo {
			short = tmo
		}
		r = runSolver("z3-nomb", text, short)
		if r.Status != "unsat" {
			r = runSolver("cvc5-r", text, tmo)
		}
	}
	if r.Status == "unsat" {
		return r
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan SolveRes, len(order))
	for _, n := range order {
		go func(n string) { ch <- runSolverCtx(ctx, n, text, tmo) }(n)
	}
	for range order {
		x := <-ch
		if x.Status == "unsat" {
			return x
		}
		if x.Out != "cancelled" {
			r = x
		}
	}
	r.Status = "unknown"
	return r
}

// prove tries to show assumptions ⊢ goal.
func prove(assms []*Term, goal *Term, tmo time.Duration, full bool) SolveRes {
	if goal == True {
		return SolveRes{Status: "unsat", Solver: "simplifier"}
	}
	for _, a := range assms {
		if a == goal || a == False {
			return SolveRes{Status: "unsat", Solver: "simplifier"}
		}
	}
	q := append(append([]*Term{}, assms...), Not(goal))
	extra := ""
	if full {
		r, ok, text := tryRelevant(assms, goal, 400*time.Millisecond)
		if ok {
			return r
		}
		extra = text
	}
	return checkSatOpt(q, tmo, full, false, extra)
}
