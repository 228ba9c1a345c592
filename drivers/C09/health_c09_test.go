package health

import (
	"fmt"
	"testing"
	"time"
)

func TestVerifC09(t *testing.T) {
	v := newVdrv(t, "snapshots taken between random emissions with a moving clock; each snapshot compared with the recorded data when taken and again at the end; distinct: the history")
	defer v.done()
	defer resetNowMock()
	for i := 0; i < v.n(300) && !v.failed(); i++ {
		max := 1 + v.Intn(4)
		a := newAggregator(time.Minute, time.Duration(max)*time.Minute)
		tm := mockStart()
		type snap struct {
			got  []*IntervalAggregation
			view []vInt
			at   string
		}
		var snaps []snap
		hist := fmt.Sprintf("window of %d:", max)
		for k := 0; k < 14; k++ {
			if v.Intn(3) == 0 {
				tm = tm.Add(time.Duration(v.Intn(100)) * time.Second)
			}
			vMockNow(tm)
			hist += " " + tm.Format("15:04:05")
			if v.Intn(3) > 0 {
				o := v.op()
				applyAgg(a, o)
				hist += " " + o.String()
				continue
			}
			hist += " snapshot"
			before := viewAll(a.intervalAggregations)
			got := a.memorySafeIntervals()
			after := viewAll(a.intervalAggregations)
			view := viewAll(got)
			if d := vdiff(view, after); d != "" {
				v.fail("equal", "%s: snapshot differs from the recorded data: %s", hist, d)
				break
			}
			// expected: what was there, plus possibly a new empty interval
			start := tm.UTC().Truncate(time.Minute)
			if n := len(before); n == 0 || before[n-1].Start != start.String() {
				before = append(before, newVInt(start))
				if len(before) > max {
					before = before[1:]
				}
			}
			if d := vdiff(after, before); d != "" {
				v.fail("unchanged", "%s: taking the snapshot changed the recorded data: %s", hist, d)
				break
			}
			snaps = append(snaps, snap{got, view, hist})
		}
		for _, s := range snaps {
			if d := vdiff(viewAll(s.got), s.view); d != "" {
				v.fail("stable", "snapshot taken after %s changed by the later operations of %s: %s", s.at, hist, d)
				break
			}
		}
		// whatever is emitted later: once more, into the current interval
		got := a.memorySafeIntervals()
		view := viewAll(got)
		for k := 0; k < 5; k++ {
			o := v.op()
			applyAgg(a, o)
			if d := vdiff(viewAll(got), view); d != "" {
				v.fail("stable", "last snapshot after %s changed by %s: %s", hist, o, d)
				break
			}
		}
		v.eval(hist)
	}
	resetNowMock()
	// through a running sink
	for i := 0; i < v.n(10) && !v.failed(); i++ {
		s := NewJsonPollingSink(time.Hour, 2*time.Hour)
		var got []*IntervalAggregation
		if !v.within(20*time.Second, "request", "GetMetrics on a new sink", func() { got = s.GetMetrics() }) {
			return
		}
		if len(got) < 1 {
			v.fail("empty", "a new sink's metrics do not include the current interval")
		}
		view := viewAll(got)
		os := v.opList(6)
		v.eval("sink " + opsString(os))
		v.within(20*time.Second, "request", "emitting and GetMetrics", func() {
			for _, o := range os {
				vEmit(s, o)
			}
			for k := 0; k < 2000; k++ {
				n := int64(0)
				for _, g := range s.GetMetrics() {
					n += g.SerialNumber
				}
				if n >= int64(len(os)) {
					break
				}
				time.Sleep(time.Millisecond)
			}
			s.ShutdownServer()
		})
		if d := vdiff(viewAll(got), view); d != "" {
			v.fail("stable", "metrics of a sink changed after they were handed out by %s: %s", opsString(os), d)
		}
	}
}
