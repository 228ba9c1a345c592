package health

import (
	"fmt"
	"testing"
	"time"
)

// the reference window: what has been recorded, per interval
type vWin struct {
	max int
	its []vInt
}

func (w *vWin) at(start time.Time) *vInt {
	s := start.String()
	n := len(w.its)
	if n > 0 && w.its[n-1].Start == s {
		return &w.its[n-1]
	}
	w.its = append(w.its, newVInt(start))
	if len(w.its) > w.max {
		w.its = w.its[len(w.its)-w.max:]
	}
	return &w.its[len(w.its)-1]
}

func TestVerifC06(t *testing.T) {
	v := newVdrv(t, "random emission sequences with a moving clock fed to the aggregator, and through a running polling sink; every retained interval compared with a reference after each emission; distinct: the sequence")
	defer v.done()
	defer resetNowMock()
	for i := 0; i < v.n(400) && !v.failed(); i++ {
		max := 1 + v.Intn(4)
		a := newAggregator(time.Minute, time.Duration(max)*time.Minute)
		w := &vWin{max: max, its: []vInt{}}
		tm := mockStart()
		var hist []vOp
		os := v.opList(1 + v.Intn(14))
		v.eval(opsString(os))
		var prev vOp
		for _, o := range os {
			if v.Intn(4) == 0 {
				tm = tm.Add(time.Duration(v.Intn(100)) * time.Second)
			}
			if v.Intn(5) == 0 && prev.Event != "" {
				o = prev // repeat
			}
			prev = o
			vMockNow(tm)
			applyAgg(a, o)
			hist = append(hist, o)
			w.at(tm.Truncate(time.Minute)).apply(o)
			if d := vdiff(viewAll(a.intervalAggregations), w.its); d != "" {
				v.fail("recorded", "window of %d, after %s at %s: %s", max, opsString(hist), tm, d)
				break
			}
		}
	}
	resetNowMock()
	for i := 0; i < v.n(60) && !v.failed(); i++ {
		os := v.opList(1 + v.Intn(20))
		v.eval("sink " + opsString(os))
		for try := 0; try < 3; try++ {
			h := time.Now().UTC().Truncate(time.Hour)
			s := NewJsonPollingSink(time.Hour, 3*time.Hour)
			w := &vWin{max: 3, its: []vInt{}}
			for _, o := range os {
				vEmit(s, o)
				w.at(h).apply(o)
			}
			var got []*IntervalAggregation
			ok := v.within(20*time.Second, "sink", fmt.Sprintf("emitting %s, GetMetrics", opsString(os)), func() {
				for k := 0; k < 2000; k++ { // the metrics are read by another channel: wait for the emissions
					got = s.GetMetrics()
					n := int64(0)
					for _, g := range got {
						n += g.SerialNumber
					}
					if n >= int64(len(os)) {
						break
					}
					time.Sleep(time.Millisecond)
				}
				time.Sleep(2 * time.Millisecond)
				got = s.GetMetrics()
				s.ShutdownServer()
			})
			if !ok {
				return
			}
			if time.Now().UTC().Truncate(time.Hour) != h {
				continue // crossed an interval boundary
			}
			for k := range got {
				got[k].IntervalStart = got[k].IntervalStart.UTC()
			}
			if d := vdiff(viewAll(got), w.its); d != "" {
				v.fail("sink", "metrics of a polling sink after %s: %s", opsString(os), d)
			}
			break
		}
	}
}
