package health

import (
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"
)

func TestVerifC16(t *testing.T) {
	v := newVdrv(t, "emissions are processed in order; drains hand everything to the network; every drain and stop is answered")
	defer v.done()
	u := vListen()
	defer u.c.Close()
	names := []string{"a", "b", "job", "evt", "x.y"}
	for i := 0; i < v.n(120) && !v.failed(); i++ {
		s, err := NewStatsDSink(u.c.LocalAddr().String(), nil)
		if err != nil {
			t.Fatal(err)
		}
		var want []string
		desc := ""
		seq := 0
		for part := 0; part < 1+v.Intn(4); part++ {
			for k := v.Intn(40); k > 0; k-- {
				o := vRandStat(v, names)
				seq++
				o.evt += fmt.Sprintf(".n%d", seq)
				o.emit(s)
				want = append(want, o.lines("", vSanitize, false, false)...)
				desc += fmt.Sprintf(" %+v", o)
			}
			if v.Intn(4) == 0 {
				time.Sleep(time.Duration(v.Intn(120)) * time.Millisecond)
			}
			// several drains at once, with emissions of their own between them
			nd := 1 + v.Intn(4)
			desc += fmt.Sprintf(" %d drains", nd)
			if !v.within(10*time.Second, "drain", desc, func() {
				var wg sync.WaitGroup
				for d := 0; d < nd; d++ {
					wg.Add(1)
					go func() { s.Drain(); wg.Done() }()
				}
				wg.Wait()
			}) {
				return
			}
			// what was emitted before is on the network now
			got := strings.Join(u.take(3*time.Millisecond), "")
			w := strings.Join(want, "")
			want = nil
			if got != w {
				v.fail("drained", "%.1200s: after the drain %d bytes had arrived, want %d (lost or out of order)", desc, len(got), len(w))
			}
		}
		// drains and a stop pending at the same time
		nd := v.Intn(4)
		var o vStat
		for k := v.Intn(30); k > 0; k-- {
			o = vRandStat(v, names)
			o.emit(s)
			want = append(want, o.lines("", vSanitize, false, false)...)
		}
		desc += fmt.Sprintf(" %d drains and a stop", nd)
		if !v.within(10*time.Second, "drain-stop", desc, func() {
			var wg sync.WaitGroup
			// all drains are queued before the stop
			for d := 0; d < nd; d++ {
				s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindDrain}
			}
			for d := 0; d < nd; d++ {
				wg.Add(1)
				go func() { <-s.drainDoneChan; wg.Done() }()
			}
			s.Stop()
			wg.Wait()
		}) {
			return
		}
		if nd > 0 {
			got := strings.Join(u.take(3*time.Millisecond), "")
			if w := strings.Join(want, ""); got != w {
				v.fail("stopped", "%.1200s: after drains and stop %d bytes had arrived, want %d", desc, len(got), len(w))
			}
		} else {
			u.take(time.Millisecond)
		}
		// after the stop nothing more is processed
		o = vRandStat(v, names)
		o.emit(s)
		s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindFlush}
		if i%10 == 0 {
			if got := u.take(130 * time.Millisecond); len(got) > 0 {
				v.fail("after-stop", "%.1200s: %q was sent after the stop", desc, got)
			}
		}
		v.eval(desc)
	}
}
