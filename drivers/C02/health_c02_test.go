package health

import (
	"errors"
	"fmt"
	"testing"
)

func TestVerifC02(t *testing.T) {
	v := newVdrv(t, "random stream, job and call key/values for every emission method; merged maps recomputed; distinct: the three maps and the method")
	defer v.done()
	for it := 0; it < v.n(6000) && !v.failed(); it++ {
		n := 1 + v.Intn(3)
		st, l := vStream(n)
		sk, jk, ck := vRandKvs(v, "s"), vRandKvs(v, "j"), vRandKvs(v, "c")
		set := func(m map[string]string, lvl string, f func(k, v string)) map[string]string {
			w := map[string]string{}
			for k, x := range m {
				// set twice: only that key changes
				if v.Intn(3) == 0 {
					f(k, "old")
				}
				f(k, x)
				w[k] = x
			}
			return w
		}
		ws := set(sk, "s", func(k, x string) {
			if st.KeyValue(k, x) != st {
				v.fail("self", "Stream.KeyValue does not return the stream")
			}
		})
		general := v.Intn(4) == 0
		j := st.Job
		if !general {
			j = st.NewJob("j")
		}
		wj := set(jk, "j", func(k, x string) {
			if j.KeyValue(k, x) != j {
				v.fail("self", "Job.KeyValue does not return the job")
			}
		})
		if vKvs(st.KeyValues) != vKvs(ws) || vKvs(j.KeyValues) != vKvs(wj) {
			v.fail("set", "setting %s on the stream and %s on the job gives %s and %s", vKvs(ws), vKvs(wj), vKvs(st.KeyValues), vKvs(j.KeyValues))
		}
		kind := v.Intn(10)
		withCall := kind%2 == 1
		want := vCopyKvs(ws)
		for k, x := range wj {
			want[k] = x
		}
		if withCall {
			for k, x := range ck {
				want[k] = x
			}
		}
		ck0 := vKvs(ck)
		for rep := 0; rep < 2; rep++ {
			l.recs = nil
			switch kind {
			case 0:
				j.Event("e")
			case 1:
				j.EventKv("e", ck)
			case 2:
				j.EventErr("e", errors.New("x"))
			case 3:
				j.EventErrKv("e", errors.New("x"), ck)
			case 4:
				j.Timing("e", 1)
			case 5:
				j.TimingKv("e", 1, ck)
			case 6:
				j.Gauge("e", 1)
			case 7:
				j.GaugeKv("e", 1, ck)
			case 8:
				j.Complete(Success)
			case 9:
				j.CompleteKv(Success, ck)
			}
			c := fmt.Sprintf("method %d, stream %s job %s call %s", kind, vKvs(ws), vKvs(wj), ck0)
			v.eval(c)
			if len(l.recs) != n {
				v.fail("count", "%s: %d deliveries", c, len(l.recs))
			}
			for _, r := range l.recs {
				if vKvs(r.Kvs) != vKvs(want) {
					v.fail("merge", "%s: sink got %s want %s", c, vKvs(r.Kvs), vKvs(want))
				}
			}
			if vKvs(st.KeyValues) != vKvs(ws) || vKvs(j.KeyValues) != vKvs(wj) || vKvs(ck) != ck0 {
				v.fail("modified", "%s: after emitting they are %s %s %s", c, vKvs(st.KeyValues), vKvs(j.KeyValues), vKvs(ck))
			}
		}
	}
}
