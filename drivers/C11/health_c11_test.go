package health

import "testing"

func TestVerifC11(t *testing.T) {
	v := newVdrv(t, "random aggregations: a clone equals its original, shares nothing mutable with it, and neither changes when the other does; distinct: the emission list")
	defer v.done()
	for i := 0; i < v.n(1200) && !v.failed(); i++ {
		os, more := v.opList(v.Intn(25)), v.opList(12)
		v.eval(opsString(os))
		a := aggOf(os)
		before := viewInt(a)
		c := a.Clone()
		if d := vdiff(viewInt(c), before); d != "" {
			v.fail("equal", "clone after %s: %s", opsString(os), d)
		}
		if d := vdiff(viewInt(a), before); d != "" {
			v.fail("original", "cloning changed the original %s: %s", opsString(os), d)
		}
		if s := vshared(a, c); len(s) > 0 {
			v.fail("shared", "clone after %s shares %v", opsString(os), s)
		}
		mutate := func(x *IntervalAggregation) {
			for _, o := range more {
				setNowMock("2011-09-09T23:36:13Z")
				ag := newAggregator(60e9, 300e9)
				ag.intervalAggregations = append(ag.intervalAggregations, x)
				applyAgg(ag, o)
				resetNowMock()
			}
		}
		if i%2 == 0 {
			mutate(a)
			if d := vdiff(viewInt(c), before); d != "" {
				v.fail("follows", "emissions %s to the original reach the clone: %s", opsString(more), d)
			}
		} else {
			mutate(c)
			if d := vdiff(viewInt(a), before); d != "" {
				v.fail("follows", "emissions %s to the clone reach the original: %s", opsString(more), d)
			}
		}
	}
}
