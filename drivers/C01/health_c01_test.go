package health

import (
	"errors"
	"fmt"
	"testing"
	"time"
)

func TestVerifC01(t *testing.T) {
	v := newVdrv(t, "random numbers of sinks, job names, emission methods and arguments; deliveries compared with the emission; distinct: the emission and the number of sinks")
	defer v.done()
	names := []string{"", "general", "j", "a.b", "x y", "%s", "é"}
	for it := 0; it < v.n(4000) && !v.failed(); it++ {
		n := v.Intn(7)
		st, l := vStream(n)
		// adding one more sink later keeps the others
		var rcv interface {
			EventReceiver
			Complete(CompletionStatus)
			CompleteKv(CompletionStatus, map[string]string)
		} = st
		job := "general"
		created := time.Now()
		if v.Intn(3) > 0 {
			job = names[v.Intn(len(names))]
			j := st.NewJob(job)
			rcv = j
			created = j.Start
		} else {
			created = st.Job.Start
		}
		if v.Intn(4) == 0 {
			st.AddSink(&vsink{id: n, log: l})
			n++
		}
		for k := 1 + v.Intn(3); k > 0; k-- {
			l.recs = nil
			ev := names[v.Intn(len(names))]
			x := vNanos[v.Intn(len(vNanos))]
			g := float64(v.Intn(1000))/8 - 50
			var kvs map[string]string
			if v.Intn(2) == 0 {
				kvs = vRandKvs(v, "c")
			}
			err := errors.New("e" + ev)
			s := CompletionStatus(v.Intn(7))
			var want vrec
			before := time.Since(created).Nanoseconds()
			kind := v.Intn(10)
			switch kind {
			case 0:
				rcv.Event(ev)
				want = vrec{Kind: "event", Event: ev}
			case 1:
				rcv.EventKv(ev, kvs)
				want = vrec{Kind: "event", Event: ev}
			case 2:
				rcv.EventErr(ev, err)
				want = vrec{Kind: "err", Event: ev}
			case 3:
				rcv.EventErrKv(ev, err, kvs)
				want = vrec{Kind: "err", Event: ev}
			case 4:
				rcv.Timing(ev, x)
				want = vrec{Kind: "timing", Event: ev, N: x}
			case 5:
				rcv.TimingKv(ev, x, kvs)
				want = vrec{Kind: "timing", Event: ev, N: x}
			case 6:
				rcv.Gauge(ev, g)
				want = vrec{Kind: "gauge", Event: ev, V: g}
			case 7:
				rcv.GaugeKv(ev, g, kvs)
				want = vrec{Kind: "gauge", Event: ev, V: g}
			case 8:
				rcv.Complete(s)
				want = vrec{Kind: "complete", Status: s}
			case 9:
				rcv.CompleteKv(s, kvs)
				want = vrec{Kind: "complete", Status: s}
			}
			after := time.Since(created).Nanoseconds()
			want.Job = job
			c := fmt.Sprintf("%d sinks, %s, kvs %s", n, want, vKvs(kvs))
			v.eval(c)
			if len(l.recs) != n {
				v.fail("count", "%s: %d deliveries to %d sinks: %v", c, len(l.recs), n, l.recs)
				continue
			}
			for i, r := range l.recs {
				w := want
				w.Sink = i
				w.Kvs, w.Err, w.Emitted = r.Kvs, r.Err, r.Emitted
				if kind >= 8 {
					if r.N < before || r.N > after {
						v.fail("elapsed", "%s: elapsed %d not within [%d,%d]", c, r.N, before, after)
					}
					w.N = r.N
				}
				if r.String() != w.String() {
					v.fail("delivery", "%s: delivery %d is %s", c, i, r)
				}
			}
		}
	}
}
