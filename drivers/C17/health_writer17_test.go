package health

import (
	"fmt"
	"strings"
	"testing"
	"time"
)

func TestVerifC17(t *testing.T) {
	v := newVdrv(t, "random emissions into one writer sink: exactly one write of the exact line; distinct: the emission")
	defer v.done()
	w := &vW{}
	s := &WriterSink{w}
	for i := 0; i < v.n(20000) && !v.failed(); i++ {
		job, evt, kvs, n, x, e := vName(v), vName(v), vKvMap(v), vRandNanos(v), vVal(v), vRandErr(v)
		st := CompletionStatus(v.Intn(5))
		cp := vKvText(kvs)
		var want string
		w.writes = nil
		a := time.Now()
		k := v.Intn(5)
		switch k {
		case 0:
			s.EmitEvent(job, evt, kvs)
			want = " event:" + evt
		case 1:
			s.EmitEventErr(job, evt, e, kvs)
			want = " event:" + evt + " err:" + e.Error()
		case 2:
			s.EmitTiming(job, evt, n, kvs)
			want = " event:" + evt + " time:" + vDur(n)
		case 3:
			s.EmitGauge(job, evt, x, kvs)
			want = " event:" + evt + " gauge:" + fmt.Sprintf("%g", x)
		case 4:
			s.EmitComplete(job, st, n, kvs)
			want = " status:" + []string{"success", "validation_error", "panic", "error", "junk"}[st] + " time:" + vDur(n)
		}
		b := time.Now()
		want = "]: job:" + job + want + cp + "\n"
		v.eval(fmt.Sprint(k, want))
		if len(w.writes) != 1 {
			v.fail("writes", "%d writes for %q", len(w.writes), want)
			continue
		}
		g := w.writes[0]
		if !strings.HasPrefix(g, "[") || !strings.Contains(g, "]: ") {
			v.fail("line", "got %q, want [...%q", g, want)
			continue
		}
		j := strings.Index(g, "]: ")
		if !vStamp(g[1:j], a, b) || g[j:] != want {
			v.fail("line", "got %q, want [...%q", g, want)
		}
		if vKvText(kvs) != cp {
			v.fail("kvs", "key/values changed by logging %q", want)
		}
	}
}
