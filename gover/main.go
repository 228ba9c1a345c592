package main

// gover: contract-based deductive verification of /repo.
//
//	gover check -p C01 [-tier quick|thorough]   decide one property
//	gover fn KEY...                             verify contracts (debugging)
//	gover list                                  list functions and contracts

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

var (
	flagRepo  = "/repo"
	flagVerif = "/verif"
)

// scratchMod copies the module files to a scratch directory (go may rewrite them).
func scratchMod() (string, func()) {
	d, err := os.MkdirTemp("", "gover-mod-")
	if err != nil {
		fatal(err)
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(flagVerif, "gomod", f))
		if err != nil {
			continue
		}
		b = []byte(strings.ReplaceAll(string(b), "/verif/stubs", flagVerif+"/stubs"))
		os.WriteFile(filepath.Join(d, f), b, 0644)
	}
	return d, func() { os.RemoveAll(d) }
}

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(2)
}

func load(moddir string) (*Program, error) {
	sf, err := parseSpecs(filepath.Join(flagVerif, "contracts"))
	if err != nil {
		return nil, fmt.Errorf("contracts: %v", err)
	}
	P, err := loadProgram(flagRepo, filepath.Join(moddir, "go.mod"))
	if err != nil {
		return nil, err
	}
	P.spec = sf
	P.contracts = sf.contracts
	P.runInits()
	P.attachInitFacts()
	return P, nil
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: gover check|fn|list")
	}
	if v := os.Getenv("GOVER_REPO"); v != "" {
		flagRepo = v
	}
	if v := os.Getenv("GOVER_VERIF"); v != "" {
		flagVerif = v
	}
	switch os.Args[1] {
	case "list":
		md, done := scratchMod()
		P, err := load(md)
		done()
		if err != nil {
			fatal(err)
		}
		var ks []string
		for k := range P.fns {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			c := P.contracts[k]
			m := ""
			if c != nil {
				m = "contract " + strings.Join(c.Root, ",")
			}
			fmt.Println(k, m)
		}
	case "fn":
		md, done := scratchMod()
		P, err := load(md)
		done()
		if err != nil {
			fatal(err)
		}
		for _, k := range os.Args[2:] {
			if P.contracts[k] == nil {
				fmt.Println(k, ": no contract")
				continue
			}
			t0 := time.Now()
			ensureVerified(P, k)
			debugf("%s done in %s", k, time.Since(t0))
		}
		var ks []string
		for k := range fnResults {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			printResult(fnResults[k])
		}
		fmt.Println("queries", nQueries, "runs", solverRuns, "time", solverTime, "feas", feasN, feasSecs)
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		p := fs.String("p", "", "property")
		tier := fs.String("tier", "quick", "tier")
		fs.Parse(os.Args[2:])
		os.Exit(runCheck(*p, *tier))
	case "driver": // only the driver of a property
		for _, p := range os.Args[2:] {
			r := runDriver(p, "quick", false, 200*time.Second)
			fmt.Printf("%s: %d evaluations, %d distinct, %.1fs %s\n", p, r.Evals, r.Distinct, r.Secs, r.Problem)
			for _, f := range r.Fails {
				fmt.Println("  FAIL", f)
			}
			if r.Problem != "" {
				fmt.Println(r.Out)
			}
		}
	default:
		fatal("unknown command")
	}
}

func printResult(r *FnResult) {
	s := "OK"
	if !r.OK {
		s = "FAIL"
	}
	fmt.Printf("%-4s %s: %d obligations, %d failed, %d paths, %.1fs", s, r.Key, len(r.Obls), len(r.Failed), r.Paths, r.Secs)
	if r.Vacuous {
		fmt.Print(" VACUOUS")
	}
	if r.Err != "" {
		fmt.Print(" ERR ", r.Err)
	}
	fmt.Println()
	for i, o := range r.Failed {
		if d := os.Getenv("GOVER_DUMP"); d != "" {
			ts := append(append([]*Term{}, o.assms...), Not(o.goal))
			os.WriteFile(fmt.Sprintf("%s/FAIL-%d.smt2", d, i), []byte(smtText(ts, needsNative(ts), false)), 0644)
			rs, _ := relevant(o.assms, o.goal)
			rs = append(append([]*Term{}, rs...), Not(o.goal))
			os.WriteFile(fmt.Sprintf("%s/REL-%d.smt2", d, i), []byte(smtText(rs, needsNative(rs), false)), 0644)
			fmt.Println("     goal:", clip(o.goal.String(), 600))
		}
		fmt.Printf("     %s (%s) %s [%s %.1fs]\n", o.Kind+":"+o.Label, o.Pos, o.Res.Status, o.Res.Solver, o.Res.Secs)
	}
	for _, l := range r.Loops {
		if debugOn {
			fmt.Printf("     loop %s %s: %d candidates, kept %v\n", l.Func, l.Pos, l.Candidates, l.Kept)
		}
	}
	if debugOn {
		by := map[string]float64{}
		for _, o := range r.Obls {
			by[o.Kind+":"+o.Label] += o.Res.Secs
		}
		var ks []string
		for k := range by {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return by[ks[i]] > by[ks[j]] })
		for i, k := range ks {
			if i < 8 && by[k] > 1 {
				fmt.Printf("     slow %.1fs %s\n", by[k], k)
			}
		}
		fmt.Println("     inlined", r.Inlined, "used", r.Used, "ext", r.Ext, "nocon", r.NoCon)
	}
}
