package health

import (
	"strings"
	"testing"
)

func vMergeTimer(a, b vTimer) vTimer {
	if b.Count != 0 {
		if a.Count == 0 || b.Min < a.Min {
			a.Min = b.Min
		}
		if a.Count == 0 || b.Max > a.Max {
			a.Max = b.Max
		}
	}
	a.Count += b.Count
	a.Sum += b.Sum
	a.Sq += b.Sq
	return a
}

// vMergeMaps merges b into a; error samples of both sides are checked apart.
func vMergeMaps(v *vdrv, what string, a, b, got vMaps) {
	for k, x := range b.Events {
		a.Events[k] += x
	}
	for k, x := range b.Gauges {
		a.Gauges[k] = x
	}
	for k, x := range b.Timers {
		if y, ok := a.Timers[k]; ok {
			a.Timers[k] = vMergeTimer(y, x)
		} else {
			a.Timers[k] = x
		}
	}
	for k, x := range b.Errs {
		y, ok := a.Errs[k]
		if !ok {
			a.Errs[k] = x
			continue
		}
		g := got.Errs[k]
		if g.Count != x.Count+y.Count {
			v.fail("errcount", "%s: error count of %q is %d, want %d", what, k, g.Count, x.Count+y.Count)
		}
		n := 0
		for _, s := range g.slots() {
			if s == "-" {
				continue
			}
			n++
			if !strings.Contains("|"+x.Samples+"|"+y.Samples+"|", "|"+s+"|") {
				v.fail("samples", "%s: sample %q of %q comes from neither side", what, s, k)
			}
		}
		if n == 0 && (x.Count > 0 || y.Count > 0) {
			v.fail("samples", "%s: no sample left for %q", what, k)
		}
		a.Errs[k] = g
	}
	for _, d := range []string{vdiff(got.Events, a.Events), vdiff(got.Gauges, a.Gauges), vdiff(got.Timers, a.Timers), vdiff(got.Errs, a.Errs)} {
		if d != "" {
			v.fail("maps", "%s: %s", what, d)
		}
	}
}

func TestVerifC12(t *testing.T) {
	v := newVdrv(t, "random pairs of aggregations merged and compared with a from-scratch sum; the argument must not change then or later; distinct: both emission lists")
	defer v.done()
	for i := 0; i < v.n(1500) && !v.failed(); i++ {
		oa, ob := v.opList(v.Intn(18)), v.opList(v.Intn(18))
		what := "merge of [" + opsString(ob) + "] into [" + opsString(oa) + "]"
		v.eval(what)
		a, b := aggOf(oa), aggOf(ob)
		va, vb := viewInt(a), viewInt(b)
		a.Merge(b)
		got := viewInt(a)
		if got.Serial != va.Serial+1 {
			v.fail("serial", "%s: serial number %d, want %d", what, got.Serial, va.Serial+1)
		}
		if got.Start != va.Start {
			v.fail("start", "%s: interval start changed", what)
		}
		if d := vdiff(viewInt(b), vb); d != "" {
			v.fail("argument", "%s: argument changed: %s", what, d)
		}
		if s := vshared(a, b); len(s) > 0 {
			v.fail("shared", "%s: shares %v", what, s)
		}
		vMergeMaps(v, what, va.vMaps, vb.vMaps, got.vMaps)
		for k := range got.Jobs {
			_, x := va.Jobs[k]
			_, y := vb.Jobs[k]
			if !x && !y {
				v.fail("jobs", "%s: job %q from nowhere", what, k)
			}
		}
		for k, j := range va.Jobs {
			g, ok := got.Jobs[k]
			if !ok {
				v.fail("jobs", "%s: job %q lost", what, k)
				continue
			}
			o, both := vb.Jobs[k]
			if !both {
				if d := vdiff(g, j); d != "" {
					v.fail("jobs", "%s: untouched job %q: %s", what, k, d)
				}
				continue
			}
			vMergeMaps(v, what+" job "+k, j.vMaps, o.vMaps, g.vMaps)
			if d := vdiff(g.T, vMergeTimer(j.T, o.T)); d != "" {
				v.fail("jobs", "%s: timer of job %q: %s", what, k, d)
			}
			for q := range g.N {
				if g.N[q] != j.N[q]+o.N[q] {
					v.fail("jobs", "%s: counts of job %q: %v, want %v+%v", what, k, g.N, j.N, o.N)
					break
				}
			}
		}
		for k, o := range vb.Jobs {
			if _, ok := va.Jobs[k]; ok {
				continue
			}
			if d := vdiff(got.Jobs[k], o); d != "" {
				v.fail("jobs", "%s: new job %q: %s", what, k, d)
			}
		}
	}
}
