package main

// The check of one property: every root contract of the property is verified against the current tree; the
// property's driver is run on the real code (it replays failed obligations on concrete inputs, checks the
// assumed models of external functions, and stands in - bounded - for functions out of reach).

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// deadline of the proof effort; zero: none
var deadline time.Time

// Once the driver has a failing input and a counting obligation has failed too, the verdict stands and
// the rest of the effort is spared.
var (
	driverFailed int32 // the driver has a failing input that is no known finding
	verdictIn    int32
	checkedProp  string
	driverGrace  int64 // unix nanoseconds: end of the effort after a driver failure
)

func pastDeadline() bool {
	if atomic.LoadInt32(&verdictIn) != 0 {
		return true
	}
	if g := atomic.LoadInt64(&driverGrace); g != 0 && time.Now().UnixNano() > g {
		return true
	}
	return !deadline.IsZero() && time.Now().After(deadline)
}

type knownFinding struct{ id, text string }

// readKnown reads the findings recorded for a property ("fixed:" entries suppress nothing).
func readKnown(p string) []knownFinding {
	var out []knownFinding
	b, _ := os.ReadFile(filepath.Join(flagVerif, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		fs := strings.Fields(l)
		if len(fs) < 4 || fs[1] != "property="+p || !strings.HasPrefix(fs[2], "case=") {
			continue
		}
		out = append(out, knownFinding{strings.TrimPrefix(fs[2], "case="), strings.Join(fs[3:], " ")})
	}
	return out
}

// ---- drivers

type driverRes struct {
	Ran      bool
	Pkgs     []string
	Problem  string // why it gave no answer
	Fails    []string
	Cases    []string // ids of the failing cases
	Evals    int
	Distinct int
	Rules    []string
	Samples  []string
	Out      string
	Secs     float64
	files    []string
}

var driverPkgs = map[string]string{
	"health": ".", "stack": "stack", "rtm": "runtime_metrics", "bugsnag": "sinks/bugsnag", "librato": "sinks/librato",
	"healthd": "healthd", "healthtop": "cmd/healthtop",
}

func runDriver(p, tier string, deep bool, tmo time.Duration) (res driverRes) {
	t0 := time.Now()
	defer func() { res.Secs = time.Since(t0).Seconds() }()
	dir := filepath.Join(flagVerif, "drivers", p)
	ents, err := os.ReadDir(dir)
	if err != nil {
		res.Problem = "no driver"
		return
	}
	byPkg := map[string][]string{}
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") {
			continue
		}
		i := strings.IndexByte(n, '_')
		if i < 0 || driverPkgs[n[:i]] == "" {
			continue
		}
		byPkg[n[:i]] = append(byPkg[n[:i]], filepath.Join(dir, n))
	}
	var keys []string
	for k := range byPkg {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		com := filepath.Join(flagVerif, "drivers", "common")
		cs, _ := filepath.Glob(filepath.Join(com, k+"_*.go"))
		util := filepath.Join(com, "util.go.txt")
		pkg := driverPkgs[k]
		res.Pkgs = append(res.Pkgs, pkg)
		res.files = append(res.files, byPkg[k]...)
		work, err := os.MkdirTemp("", "gover-drv-")
		if err != nil {
			res.Problem = err.Error()
			return
		}
		ov := map[string]string{}
		for _, f := range append(append([]string{}, cs...), byPkg[k]...) {
			ov[filepath.Join(flagRepo, pkg, "zz_verif_"+filepath.Base(f))] = f
		}
		// the shared helpers, as a file of the package under test
		if b, err := os.ReadFile(util); err == nil {
			name := packageName(filepath.Join(flagRepo, pkg))
			f := filepath.Join(work, "util_test.go")
			os.WriteFile(f, []byte("package "+name+"\n"+string(b)), 0644)
			ov[filepath.Join(flagRepo, pkg, "zz_verif_util_test.go")] = f
		}
		// the repository's own tests are not part of the driver's package
		old, _ := filepath.Glob(filepath.Join(flagRepo, pkg, "*_test.go"))
		for _, f := range old {
			ov[f] = ""
		}
		jb, _ := json.Marshal(map[string]interface{}{"Replace": ov})
		ovf := filepath.Join(work, "overlay.json")
		os.WriteFile(ovf, jb, 0644)
		md, done := scratchMod()
		ctx, cancel := context.WithTimeout(context.Background(), tmo+30*time.Second)
		cmd := exec.CommandContext(ctx, "go", "test", "-vet=off", "-count=1", "-v", "-overlay", ovf, "-modfile", filepath.Join(md, "go.mod"),
			"-timeout", fmt.Sprint(tmo), "-run", "^TestVerif"+p+"($|_)", "./"+pkg)
		cmd.Dir = flagRepo
		seed := os.Getenv("VERIF_SEED")
		if seed == "" {
			seed = "1"
		}
		env := append(goEnv(), "VERIF_SEED="+seed, "VERIF_TIER="+tier, "VERIF_SCRATCH="+work)
		if deep {
			env = append(env, "VERIF_DEEP=1")
		}
		cmd.Env = env
		cmd.WaitDelay = 5 * time.Second
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		err = cmd.Run()
		late := ctx.Err() != nil
		cancel()
		done()
		os.RemoveAll(work)
		o := out.String()
		res.Out += o
		res.parse(o)
		switch {
		case strings.Contains(o, "[build failed]") || strings.Contains(o, "[setup failed]"):
			res.Problem = "the driver does not build against this tree: " + firstErr(o)
		case strings.Contains(o, "panic: test timed out") || late:
			if len(res.Fails) == 0 {
				res.Problem = "the driver ran out of time"
			}
		case strings.Contains(o, "\npanic: ") || strings.Contains(o, "\nfatal error: "):
			i := strings.Index(o, "\npanic: ")
			if i < 0 {
				i = strings.Index(o, "\nfatal error: ")
			}
			res.Fails = append(res.Fails, "crash: "+firstLine(o[i+1:]))
			res.Cases = append(res.Cases, "crash")
		case err != nil && len(res.Fails) == 0:
			res.Problem = "driver: " + err.Error() + ": " + firstErr(o)
		default:
			res.Ran = true
		}
	}
	return
}

func firstErr(o string) string {
	for _, l := range strings.Split(o, "\n") {
		if strings.Contains(l, ".go:") {
			return strings.TrimSpace(l)
		}
	}
	return firstLine(o)
}

func (r *driverRes) parse(o string) {
	sc := bufio.NewScanner(strings.NewReader(o))
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		i := strings.Index(l, "VERIF-")
		if i < 0 {
			continue
		}
		l = l[i:]
		kind, rest := l, ""
		if j := strings.IndexByte(l, ' '); j >= 0 {
			kind, rest = l[:j], l[j+1:]
		}
		switch kind {
		case "VERIF-FAIL":
			c := rest
			if j := strings.IndexByte(rest, ' '); j >= 0 {
				c = rest[:j]
			}
			r.Fails = append(r.Fails, rest)
			r.Cases = append(r.Cases, c)
		case "VERIF-N":
			fs := strings.Fields(rest)
			if len(fs) == 2 {
				a, _ := strconv.Atoi(fs[0])
				b, _ := strconv.Atoi(fs[1])
				r.Evals += a
				r.Distinct += b
			}
		case "VERIF-RULE":
			r.Rules = append(r.Rules, rest)
		case "VERIF-SAMPLE":
			if len(r.Samples) < 8 {
				r.Samples = append(r.Samples, rest)
			}
		}
	}
}

func goEnv() []string {
	var out []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GO111MODULE=") {
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
}

func packageName(dir string) string {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "package ") {
				return strings.Fields(l)[1]
			}
		}
	}
	return "main"
}

// ---- the check

func hasStr(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

// counts says whether an obligation of a root of p belongs to p.
func (o *Obligation) counts(c *Contract, p string) bool {
	if o.Kind == "ensures" || o.Kind == "iteration" {
		if i := strings.IndexByte(o.Label, '['); i >= 0 && strings.HasSuffix(o.Label, "]") {
			return hasStr(strings.Split(o.Label[i+1:len(o.Label)-1], ","), p)
		}
		return hasStr(c.Root, p)
	}
	return hasStr(c.Root, p) || hasStr(c.Safety, p)
}

func runCheck(p, tier string) int {
	t0 := time.Now()
	budget := 560 * time.Second
	drvTime := 150 * time.Second
	if tier == "thorough" {
		budget = 3 * time.Hour
		proveTimeout = 60 * time.Second
		drvTime = 20 * time.Minute
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	replayDir := filepath.Join(flagVerif, "replay", p)
	os.RemoveAll(replayDir)

	drvCh := make(chan driverRes, 1)
	checkedProp = p
	go func() {
		r := runDriver(p, tier, false, drvTime)
		known := map[string]bool{}
		for _, k := range readKnown(p) {
			known[k.id] = true
		}
		for _, c := range r.Cases {
			if !known[c] {
				atomic.StoreInt64(&driverGrace, time.Now().Add(120*time.Second).UnixNano())
				atomic.StoreInt32(&driverFailed, 1)
				break
			}
		}
		drvCh <- r
	}()

	deadline = t0.Add(budget)
	md, done := scratchMod()
	P, err := load(md)
	done()
	if err != nil {
		fmt.Fprintf(os.Stderr, "check %s: cannot load %s: %v\n", p, flagRepo, err)
		<-drvCh
		return 2
	}
	var roots []string
	for k, c := range P.contracts {
		if hasStr(c.Root, p) || hasStr(c.Safety, p) {
			roots = append(roots, k)
		}
	}
	sort.Strings(roots)
	var bounded []string // functions that were not decided by proof
	var failed []*Obligation
	failedIn := map[string]bool{}
	for _, k := range roots {
		if P.contracts[k].Trusted {
			bounded = append(bounded, k+": contract assumed")
			continue
		}
		r := ensureVerified(P, k)
		if r.Err != "" {
			bounded = append(bounded, k+": "+r.Err)
			if debugOn {
				printResult(r)
			}
			if strings.HasPrefix(r.Err, "unsupported") || strings.HasPrefix(r.Err, "contract") || strings.HasPrefix(r.Err, "internal") || strings.HasPrefix(r.Err, "no such") || strings.HasPrefix(r.Err, "time") {
				continue
			}
		}
		if r.Vacuous {
			bounded = append(bounded, k+": vacuous: the precondition, or every path, is contradictory")
			continue
		}
		for _, o := range r.Failed {
			if o.Late {
				bounded = append(bounded, k+": "+o.Kind+":"+o.Label+" not decided within the time budget")
				continue
			}
			if o.counts(r.Contract, p) {
				failed = append(failed, o)
				failedIn[k] = true
			}
		}
		if debugOn {
			printResult(r)
		}
	}
	// contracts relied upon
	all := map[string]*FnResult{}
	var reach func(k string)
	reach = func(k string) {
		if all[k] != nil {
			return
		}
		r := fnResults[k]
		if r == nil {
			return
		}
		all[k] = r
		for _, u := range r.Used {
			reach(u)
		}
	}
	for _, k := range roots {
		reach(k)
	}
	for _, k := range sortedKeys(all) {
		r := all[k]
		if hasStr(roots, k) {
			continue
		}
		if !r.OK {
			why := r.Err
			if why == "" && len(r.Failed) > 0 {
				why = "unproved " + r.Failed[0].Kind + ":" + r.Failed[0].Label
			}
			if r.Contract != nil && r.Contract.Trusted {
				continue
			}
			bounded = append(bounded, k+" (contract relied upon): "+why)
		}
	}
	proofSecs := time.Since(t0).Seconds()
	drv := <-drvCh
	deepRan := false
	if len(failed) > 0 && len(drv.Fails) == 0 && drv.Problem == "" {
		d2 := runDriver(p, tier, true, drvTime)
		deepRan = true
		if len(d2.Fails) > 0 {
			drv = d2
		}
	}
	// known findings
	known := readKnown(p)
	isKnown := func(c string) bool {
		for _, k := range known {
			if k.id == c {
				return true
			}
		}
		return false
	}
	var newFails []string
	knownHit := map[string]bool{}
	for i, f := range drv.Fails {
		if isKnown(drv.Cases[i]) {
			knownHit[drv.Cases[i]] = true
			continue
		}
		newFails = append(newFails, f)
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p, k.text)
	}
	violations := len(failed)
	if violations == 0 && len(newFails) > 0 {
		violations = len(newFails)
	}
	code := 0
	if violations > 0 {
		code = 1
		os.MkdirAll(replayDir, 0755)
		name := fmt.Sprintf("%s-%s.txt", p, tier)
		rp := filepath.Join(replayDir, name)
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s, %s tier, tree %s\n\n", p, tier, flagRepo)
		if len(failed) > 0 {
			sb.WriteString("Obligations the verifier no longer discharges:\n")
			for i, o := range failed {
				fmt.Fprintf(&sb, "  %d. %s: %s:%s at %s [%s, %s %.1fs]\n", i+1, o.Func, o.Kind, o.Label, o.Pos, o.Res.Status, o.Res.Solver, o.Res.Secs)
				q := filepath.Join(replayDir, fmt.Sprintf("obligation-%d.smt2", i+1))
				if i < 10 {
					ts := append(append([]*Term{}, o.assms...), Not(o.goal))
					os.WriteFile(q, []byte(smtText(ts, needsNative(ts), false)), 0644)
					fmt.Fprintf(&sb, "     query: %s\n     goal: %s\n", q, clip(o.goal.String(), 2000))
					fmt.Fprintf(&sb, "     verifier output: %s\n", clip(strings.TrimSpace(o.Res.Out), 1500))
				}
			}
			sb.WriteString("\n")
		}
		if len(newFails) > 0 {
			sb.WriteString("Failing inputs on the real code:\n")
			for _, f := range newFails {
				fmt.Fprintf(&sb, "  %s\n", f)
			}
			fmt.Fprintf(&sb, "Reproduce: the driver files %s, put into the package by an overlay (gover check -p %s).\n", strings.Join(drv.files, " "), p)
		} else {
			fmt.Fprintf(&sb, "The driver found no failing input (%d evaluations%s). %s\n", drv.Evals, map[bool]string{true: ", deep run included", false: ""}[deepRan], drv.Problem)
		}
		fmt.Fprintf(&sb, "\nDriver output:\n%s\n", clip(drv.Out, 20000))
		os.WriteFile(rp, []byte(sb.String()), 0644)
		if len(failed) > 0 {
			fmt.Printf("failed obligation: %s %s:%s (%s)\n", failed[0].Func, failed[0].Kind, failed[0].Label, failed[0].Pos)
		}
		if len(newFails) > 0 {
			fmt.Printf("failing input: %s\n", clip(newFails[0], 400))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p, rp)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", p, rp)
		}
	}
	writeEvidence(p, tier, seed, roots, all, bounded, drv, violations, proofSecs, time.Since(t0).Seconds())
	for _, b := range bounded {
		fmt.Printf("bounded: %s\n", b)
	}
	ob, dis := countObls(all)
	fmt.Printf("%s: %d functions under contract, %d of %d obligations discharged, %d driver evaluations, %.0fs\n", p, len(all), dis, ob, drv.Evals, time.Since(t0).Seconds())
	if drv.Problem != "" {
		fmt.Printf("driver: %s\n", drv.Problem)
	}
	return code
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func sortedKeys(m map[string]*FnResult) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func countObls(all map[string]*FnResult) (n, d int) {
	for _, r := range all {
		for _, o := range r.Obls {
			n++
			if o.Res.Status == "unsat" {
				d++
			}
		}
	}
	return
}

func writeEvidence(p, tier string, seed int, roots []string, all map[string]*FnResult, bounded []string, drv driverRes, violations int, proofSecs, wall float64) {
	type fnEv struct {
		Function    string         `json:"function"`
		Status      string         `json:"status"`
		Obligations int            `json:"obligations"`
		Discharged  int            `json:"discharged"`
		ByKind      map[string]int `json:"by_kind"`
		Paths       int            `json:"paths"`
		Loops       int            `json:"loops"`
		Inlined     []string       `json:"inlined,omitempty"`
		Secs        float64        `json:"secs"`
	}
	var fns []fnEv
	back := map[string]int{}
	ext, nocon, assumed, trusted := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	nloops, ninv := 0, 0
	var pre []string
	for _, k := range sortedKeys(all) {
		r := all[k]
		e := fnEv{Function: k, Status: "proved", ByKind: map[string]int{}, Paths: r.Paths, Loops: len(r.Loops), Inlined: r.Inlined, Secs: float64(int(r.Secs*10)) / 10}
		if r.Contract != nil && r.Contract.Trusted {
			e.Status = "contract assumed"
			trusted[k] = true
		} else if r.Err != "" {
			e.Status = "out of reach: " + r.Err
		} else if r.Vacuous {
			e.Status = "vacuous"
		} else if !r.OK {
			e.Status = "not proved"
		}
		for _, o := range r.Obls {
			e.Obligations++
			e.ByKind[o.Kind]++
			if o.Res.Status == "unsat" {
				e.Discharged++
				s := o.Res.Solver
				switch s {
				case "z3-nomb":
					s = "z3 5.3.2"
				case "z3-new":
					s = "z3 5.3.2 (mbqi)"
				case "z3":
					s = "z3 4.8.12 (mbqi)"
				case "z3-old-nomb":
					s = "z3 4.8.12"
				case "cvc5-r", "cvc5":
					s = "cvc5 1.1.2"
				case "cvc5-enum":
					s = "cvc5 1.1.2 (enum-inst)"
				case "simplifier":
					s = "gover simplifier"
				}
				back[s]++
			}
		}
		for _, x := range r.Ext {
			ext[x] = true
		}
		for _, x := range r.NoCon {
			nocon[x] = true
		}
		for _, x := range r.Assumed {
			assumed[x] = true
		}
		for _, l := range r.Loops {
			nloops++
			ninv += len(l.Kept)
		}
		if hasStr(roots, k) && r.Contract != nil {
			for _, q := range r.Contract.Requires {
				pre = append(pre, k+" is entered with: "+q.Src)
			}
		}
		fns = append(fns, e)
	}
	ob, dis := countObls(all)
	solverMu.Lock()
	st := map[string]float64{}
	for k, v := range solverTime {
		st[k] = float64(int(v*10)) / 10
	}
	runs := map[string]int{}
	for k, v := range solverRuns {
		runs[k] = v
	}
	solverMu.Unlock()
	tb := []string{
		"gover: the translation of go/ssa (golang.org/x/tools) into verification conditions, and the Go compiler's agreement with it",
		"z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
	}
	for _, k := range keysOf(ext) {
		tb = append(tb, "model of external function "+k)
	}
	for _, k := range keysOf(trusted) {
		tb = append(tb, "assumed contract "+k)
	}
	as := []string{
		"integers are mathematical: no overflow; floating-point +, * uninterpreted up to commutativity unless stated",
		"each function runs without interference from other goroutines except where a contract models it",
	}
	as = append(as, keysOf(assumed)...)
	for _, k := range keysOf(nocon) {
		as = append(as, "call without contract or model, treated as arbitrary (but terminating, not panicking): "+k)
	}
	as = append(as, pre...)
	cov := map[string]interface{}{
		"obligations": ob, "discharged": dis,
		"checker_cmd":  "bin/gover check -p " + p + " -tier " + tier,
		"trusted_base": tb,
		"roots":        roots, "functions_under_contract": fns,
		"discharged_by_back_end": back, "solver_runs": runs, "solver_seconds": st,
		"queries": atomic.LoadInt64(&nQueries), "proof_seconds": float64(int(proofSecs*10)) / 10,
		"loops": nloops, "loop_invariants_kept": ninv,
		"bounded_or_undecided": bounded,
		"driver_packages":      drv.Pkgs, "evaluations": drv.Evals, "distinct_nontrivial": drv.Distinct,
		"rule": strings.Join(drv.Rules, " | "), "samples": drv.Samples, "driver_seconds": float64(int(drv.Secs*10)) / 10,
		"driver_status": map[bool]string{true: "ran", false: drv.Problem}[drv.Problem == ""],
		"driver_role":   "bounded: never counted as proved; replays failed obligations on the real code and checks the assumed models",
	}
	if bounded == nil {
		cov["bounded_or_undecided"] = []string{}
	}
	if drv.Samples == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]interface{}{
		"property": p, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": as, "wall_s": float64(int(wall*10)) / 10, "violations": violations,
	}
	if len(roots) == 0 {
		ev["level"] = "exploration"
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(flagVerif, "evidence"), 0755)
	os.WriteFile(filepath.Join(flagVerif, "evidence", p+".json"), b, 0644)
}
