package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type loopInfo struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}
type loopsInfo struct {
	header map[*ssa.BasicBlock]*loopInfo
}

type Program struct {
	repo      string
	fset      *token.FileSet
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	tpkgs     map[string]*types.Package
	fns       map[string]*ssa.Function // key -> function
	contracts map[string]*Contract
	spec      *SpecFile
	mu        sync.Mutex
	loops     map[*ssa.Function]*loopsInfo
	globals   map[*ssa.Global]*Term
	fnByName  map[string]*ssa.Function
	immut     map[*ssa.Global]bool
	initVals  map[*ssa.Global]*Term
	initFacts []*Term
	modpath   string
}

const modPath = "github.com/gocraft/health"

func loadProgram(repo, modfile string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile | packages.NeedModule,
		Dir:        repo,
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+modfile, "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off"),
		BuildFlags: nil,
	}
	// types of dependencies come from export data: NeedDeps is needed to get Imports filled in.
	cfg.Mode &^= packages.NeedDeps
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pk {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	P := &Program{repo: repo, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, fns: map[string]*ssa.Function{}, contracts: map[string]*Contract{},
		loops: map[*ssa.Function]*loopsInfo{}, globals: map[*ssa.Global]*Term{}, fnByName: map[string]*ssa.Function{}, immut: map[*ssa.Global]bool{}, initVals: map[*ssa.Global]*Term{}}
	prog, sp := ssautil.Packages(pk, ssa.InstantiateGenerics)
	P.prog = prog
	P.fset = prog.Fset
	prog.Build()
	for i, s := range sp {
		if s == nil {
			return nil, fmt.Errorf("no ssa for %s", pk[i].PkgPath)
		}
		P.pkgs[s.Pkg.Path()] = s
		P.tpkgs[shortPkg(s.Pkg.Path())] = s.Pkg
	}
	for _, p := range prog.AllPackages() {
		if _, ok := P.tpkgs[p.Pkg.Path()]; !ok {
			P.tpkgs[p.Pkg.Path()] = p.Pkg
			if p.Pkg.Path() == "net/http" {
				P.tpkgs["http"] = p.Pkg
			}
		}
		if p.Pkg.Path() == "bytes" {
			bufferType = p.Pkg.Scope().Lookup("Buffer").Type()
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if P.inRepo(fn) {
			P.fns[P.fnKey(fn)] = fn
		}
	}
	P.findImmutable()
	return P, nil
}

var shorten = strings.NewReplacer("github.com/gocraft/health/cmd/healthtop", "healthtop", "github.com/gocraft/health/cmd/healthd", "cmdhealthd",
	"github.com/gocraft/health/sinks/", "", "github.com/gocraft/health/", "", "github.com/gocraft/", "")

func shortPkg(p string) string { return shorten.Replace(p) }

func (P *Program) inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return false
	}
	p := fn.Pkg.Pkg.Path()
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

// fnKey: e.g. "health.NewStream", "(*health.Job).Event", "health.foo$1".
func (P *Program) fnKey(fn *ssa.Function) string {
	s := fn.String()
	return shorten.Replace(s)
}

func (P *Program) fnTerm(fn *ssa.Function, free []*Term) *Term {
	k := "fn:" + P.fnKey(fn)
	P.mu.Lock()
	P.fnByName[k] = fn
	P.mu.Unlock()
	return App(k, "Fn", free...)
}

func (P *Program) fnOf(t *Term) *ssa.Function {
	if t == nil || t.Op != "app" {
		return nil
	}
	P.mu.Lock()
	defer P.mu.Unlock()
	return P.fnByName[t.Sym]
}

func (P *Program) contractFor(key string) *Contract {
	return P.contracts[key]
}

func (P *Program) globalRef(g *ssa.Global) *Term {
	P.mu.Lock()
	defer P.mu.Unlock()
	if t, ok := P.globals[g]; ok {
		return t
	}
	// stable ids from the name
	t := Ctor("obj", Num(int64(-1000-len(P.globals))))
	if _, ok := derefT(g.Type()).Underlying().(*types.Array); ok {
		t = arrAlloc(t, derefT(g.Type()))
	}
	P.globals[g] = t
	return t
}

// ---- loops

func (P *Program) loopsOf(fn *ssa.Function) *loopsInfo {
	P.mu.Lock()
	defer P.mu.Unlock()
	if l, ok := P.loops[fn]; ok {
		return l
	}
	li := &loopsInfo{header: map[*ssa.BasicBlock]*loopInfo{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := li.header[s]
				if lp == nil {
					lp = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.header[s] = lp
				}
				// natural loop body
				var stk []*ssa.BasicBlock
				if !lp.body[b] {
					lp.body[b] = true
					stk = append(stk, b)
				}
				for len(stk) > 0 {
					x := stk[len(stk)-1]
					stk = stk[:len(stk)-1]
					for _, p := range x.Preds {
						if !lp.body[p] {
							lp.body[p] = true
							stk = append(stk, p)
						}
					}
				}
			}
		}
	}
	P.loops[fn] = li
	return li
}

// ---- immutable globals

// findImmutable marks package variables that are assigned only in package initialisers.
func (P *Program) findImmutable() {
	bad := map[*ssa.Global]bool{}
	all := map[*ssa.Global]bool{}
	for _, p := range P.pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				all[g] = true
			}
		}
	}
	for _, fn := range P.fns {
		isInit := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if x.Op == token.MUL {
							// a map loaded from the global must not be updated
							for _, r := range *x.Referrers() {
								if mu, ok := r.(*ssa.MapUpdate); ok && mu.Map == x && !isInit {
									bad[g] = true
								}
								if c, ok := r.(*ssa.Call); ok {
									if bi, ok := c.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
										bad[g] = true
									}
								}
							}
							continue
						}
						bad[g] = true
					case *ssa.Store:
						if x.Addr == g && x.Val != *op && isInit {
							continue
						}
						if x.Addr == ssa.Value(g) && isInit {
							continue
						}
						bad[g] = true
					case *ssa.FieldAddr:
						if !isInit {
							// reads of fields only?
							for _, r := range *x.Referrers() {
								if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
									continue
								}
								bad[g] = true
							}
						}
					case *ssa.DebugRef:
					default:
						bad[g] = true
					}
				}
			}
		}
	}
	for g := range all {
		if !bad[g] && g.Name() != "init$guard" {
			P.immut[g] = true
		}
	}
}

// runInits executes the package initialisers and records the values of immutable globals.
func (P *Program) runInits() {
	var paths []string
	for p := range P.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		func() {
			defer func() {
				if r := recover(); r != nil {
					debugf("init of %s: %v", p, r)
				}
			}()
			fn := P.pkgs[p].Func("init")
			if fn == nil {
				return
			}
			ex := newExec(P, fn, "init:"+p)
			ex.quiet = 1
			st := &State{heap: map[string]*Term{}, iters: map[string]*iterInfo{}, snaps: map[string]*State{}}
			st.alloc = Num(int64(-1000000 * (1 + indexOf(paths, p))))
			st.store(P.globalRef(P.pkgs[p].Members["init$guard"].(*ssa.Global)), types.Typ[types.Bool], False)
			base := st.clone()
			ex.noSolve = true
			outs := ex.callFunction(st, nil, fn, nil, nil, false)
			var rets []*State
			for _, o := range outs {
				if o.kind == oReturn {
					rets = append(rets, o.st)
				}
			}
			if len(rets) == 0 {
				return
			}
			same := func(f func(s *State) *Term) *Term {
				v := f(rets[0])
				for _, s := range rets[1:] {
					if f(s) != v {
						return nil
					}
				}
				return v
			}
			for _, m := range P.pkgs[p].Members {
				g, ok := m.(*ssa.Global)
				if !ok || !P.immut[g] {
					continue
				}
				t := derefT(g.Type())
				v := same(func(s *State) *Term { return s.load(P.globalRef(g), t) })
				if v == nil {
					continue
				}
				if isStruct(t) {
					P.initFacts = append(P.initFacts, Eq(base.emptyLoad(P.globalRef(g), t), v))
				}
				P.initVals[g] = v
			}
			// contents of objects made by the initialiser
			seen := map[string]bool{}
			for w := rets[0].writes; w != nil; w = w.prev {
				if w.target == nil || !strings.HasPrefix(w.comp, "M") && !strings.HasPrefix(w.comp, "F|") && !strings.HasPrefix(w.comp, "A|") {
					continue
				}
				rt := Rid(w.target)
				if !rt.isInt() || rt.Int.Int64() > -900000 {
					continue
				}
				k := fmt.Sprint(w.comp, w.target.ID)
				if seen[k] {
					continue
				}
				seen[k] = true
				e := &State{heap: map[string]*Term{}}
				w := w
				if v := same(func(s *State) *Term { return s.rd(w.comp, w.target) }); v != nil {
					P.initFacts = append(P.initFacts, Eq(e.rd(w.comp, w.target), v))
				}
			}
			if len(rets) == 1 {
				for n := rets[0].pc; n != nil; n = n.prev {
					P.initFacts = append(P.initFacts, n.t)
				}
			}
		}()
	}
}

func (P *Program) attachInitFacts() {
	for _, f := range P.initFacts {
		if f == True {
			continue
		}
		syms := map[string]bool{}
		collectSyms([]*Term{f}, map[int]bool{}, syms)
		for s := range syms {
			if strings.HasPrefix(s, "H0|") {
				initAx[s] = append(initAx[s], f)
			}
		}
	}
}

func (s *State) emptyLoad(p *Term, t types.Type) *Term {
	e := &State{heap: map[string]*Term{}}
	return e.load(p, t)
}

func indexOf(ss []string, x string) int {
	for i, s := range ss {
		if s == x {
			return i
		}
	}
	return -1
}

// globalInit returns the known value of an immutable global.
func (P *Program) globalInit(ex *Exec, g *ssa.Global) *Term {
	if v, ok := P.initVals[g]; ok {
		return v
	}
	return nil
}

func newExec(P *Program, fn *ssa.Function, key string) *Exec {
	return &Exec{prog: P, root: fn, rootKey: key, inlined: map[string]bool{}, used: map[string]bool{}, extUsed: map[string]bool{}, assumed: map[string]bool{}, noCon: map[string]bool{}}
}

func repoFiles(repo string) []string {
	var out []string
	filepath.Walk(repo, func(p string, i os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			out = append(out, p)
		}
		return nil
	})
	return out
}

// neverClosed: channels with this element type stay open: tickers, and element types nobody outside the
// package can name, when no code of the repository closes such a channel.
func (P *Program) neverClosed(t types.Type) bool {
	if t.String() == "time.Time" {
		return true
	}
	b := t
	if p, ok := b.Underlying().(*types.Pointer); ok {
		b = p.Elem()
	}
	n, ok := types.Unalias(b).(*types.Named)
	if !ok || n.Obj().Exported() || !inRepoType(n) {
		return false
	}
	for _, fn := range P.fns {
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					if ch, ok := c.Common().Args[0].Type().Underlying().(*types.Chan); ok && types.Identical(ch.Elem(), t) {
						return false
					}
				}
			}
		}
	}
	return true
}
