package health

import (
	"fmt"
	"testing"
)

func TestVerifC05(t *testing.T) {
	v := newVdrv(t, "random observation sequences fed to a timer and to a job aggregation, statistics recomputed from scratch; distinct: the sequence")
	defer v.done()
	for i := 0; i < v.n(3000) && !v.failed(); i++ {
		n := v.Intn(12)
		var ns []int64
		var ss []CompletionStatus
		for j := 0; j < n; j++ {
			x := vNanos[v.Intn(len(vNanos))]
			if v.Intn(3) == 0 {
				x = v.Int63n(1 << 40)
			}
			ns = append(ns, x)
			ss = append(ss, CompletionStatus(v.Intn(6)))
		}
		v.eval(fmt.Sprint(ns, ss))
		var want vTimer
		var cnt [5]int64
		ta, ja := &TimerAggregation{}, &JobAggregation{}
		for j, x := range ns {
			want = want.ingest(x)
			for q, s := range vStatuses {
				if s == ss[j] {
					cnt[q]++
				}
			}
			ta.ingest(x)
			ja.ingest(ss[j], x)
			if d := vdiff(viewTimer(ta), want); d != "" {
				v.fail("timer", "timer after %v: %s", ns[:j+1], d)
			}
			if d := vdiff(viewTimer(&ja.TimerAggregation), want); d != "" {
				v.fail("job", "job timer after %v: %s", ns[:j+1], d)
			}
			got := [5]int64{ja.CountSuccess, ja.CountValidationError, ja.CountPanic, ja.CountError, ja.CountJunk}
			if got != cnt {
				v.fail("status", "job completion counts after statuses %v: got %v want %v", ss[:j+1], got, cnt)
			}
		}
		// the same through the aggregator
		var os []vOp
		for j, x := range ns {
			os = append(os, vOp{Kind: 2 + 2*(j%2), Job: "j", Event: "e", N: x, Status: vStatuses[j%5]})
		}
		w := newVInt(mockStart())
		for _, o := range os {
			w.apply(o)
		}
		if d := vdiff(viewInt(aggOf(os)), w); d != "" {
			v.fail("aggregator", "after %s: %s", opsString(os), d)
		}
	}
}
