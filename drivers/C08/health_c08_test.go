package health

import (
	"fmt"
	"testing"
	"time"
)

func TestVerifC08(t *testing.T) {
	v := newVdrv(t, "random interval lengths, retentions and forward clock steps; after each step the retained intervals (identity, start, contents) are compared with the expected window; distinct: interval/retention/steps")
	defer v.done()
	defer resetNowMock()
	ivs := []time.Duration{time.Second, 7 * time.Second, time.Minute, 90 * time.Second, time.Hour}
	for i := 0; i < v.n(600) && !v.failed(); i++ {
		iv := ivs[v.Intn(len(ivs))]
		ret := time.Duration(v.Intn(50)) * iv / 10
		if v.Intn(6) == 0 {
			ret = iv - 1
		}
		max := int(ret / iv)
		if max < 1 {
			max = 1
		}
		a := newAggregator(iv, ret)
		tm := mockStart()
		var ptrs []*IntervalAggregation
		var views []vInt
		desc := fmt.Sprintf("interval %s retain %s:", iv, ret)
		for k := 0; k < 12; k++ {
			switch v.Intn(4) {
			case 0:
				tm = tm.Add(time.Duration(v.Intn(3)) * time.Second)
			case 1:
				tm = tm.Add(iv)
			case 2:
				tm = tm.Add(iv * time.Duration(1+v.Intn(10)) / 3)
			}
			tm = tm.Truncate(time.Second)
			vMockNow(tm)
			start := tm.UTC().Truncate(iv)
			desc += " " + tm.Format("15:04:05")
			var cur *IntervalAggregation
			if v.Intn(2) == 0 {
				cur = a.getIntervalAggregation()
				desc += "(look up)"
			} else {
				o := v.op()
				applyAgg(a, o)
				desc += "(" + o.String() + ")"
				if len(a.intervalAggregations) == 0 {
					v.fail("empty", "%s: nothing retained", desc)
					break
				}
				cur = a.intervalAggregations[len(a.intervalAggregations)-1]
			}
			n := len(ptrs)
			if n > 0 && ptrs[n-1].IntervalStart.Equal(start) {
				if len(a.intervalAggregations) != n || a.intervalAggregations[n-1] != ptrs[n-1] {
					v.fail("sameinterval", "%s: the current interval was replaced or another one appeared", desc)
					break
				}
				views[n-1] = viewInt(cur)
			} else {
				ptrs = append(ptrs, cur)
				views = append(views, viewInt(cur))
				if len(ptrs) > max {
					ptrs, views = ptrs[1:], views[1:]
				}
			}
			got := a.intervalAggregations
			if len(got) > max {
				v.fail("bound", "%s: %d intervals retained, at most %d allowed", desc, len(got), max)
				break
			}
			if len(got) != len(ptrs) {
				v.fail("window", "%s: %d intervals retained, want %d", desc, len(got), len(ptrs))
				break
			}
			bad := false
			for q := range got {
				if got[q] != ptrs[q] {
					v.fail("order", "%s: interval %d starts at %s, want the one of %s", desc, q, got[q].IntervalStart, ptrs[q].IntervalStart)
					bad = true
					break
				}
				if d := vdiff(viewInt(got[q]), views[q]); d != "" {
					v.fail("contents", "%s: interval %d changed: %s", desc, q, d)
					bad = true
					break
				}
			}
			if bad {
				break
			}
			if !cur.IntervalStart.Equal(start) {
				v.fail("aligned", "%s: current interval starts at %s, want %s", desc, cur.IntervalStart, start)
				break
			}
		}
		v.eval(desc)
	}
}
