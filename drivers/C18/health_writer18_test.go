package health

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"testing"
	"time"
)


func TestVerifC18(t *testing.T) {
	v := newVdrv(t, "random emissions into one JSON writer sink: exactly one write of one object with exactly the emission's content, none if it cannot be encoded; distinct: the emission")
	defer v.done()
	w := &vW{}
	s := &JsonWriterSink{w}
	for i := 0; i < v.n(20000) && !v.failed(); i++ {
		job, evt, kvs, n, x, e := vName(v), vName(v), vKvMap(v), vRandNanos(v), vVal(v), vRandErr(v)
		st := CompletionStatus(v.Intn(5))
		want := map[string]interface{}{"Job": job}
		w.writes = nil
		a := time.Now()
		k := v.Intn(5)
		if k < 4 {
			want["Event"] = evt
		}
		switch k {
		case 0:
			s.EmitEvent(job, evt, kvs)
		case 1:
			s.EmitEventErr(job, evt, e, kvs)
			want["Err"] = e.Error()
		case 2:
			s.EmitTiming(job, evt, n, kvs)
			want["Nanoseconds"] = json.Number(strconv.FormatInt(n, 10))
		case 3:
			s.EmitGauge(job, evt, x, kvs)
			want["Value"] = x
		case 4:
			s.EmitComplete(job, st, n, kvs)
			want["Status"] = []string{"success", "validation_error", "panic", "error", "junk"}[st]
			want["Nanoseconds"] = json.Number(strconv.FormatInt(n, 10))
		}
		b := time.Now()
		v.eval(fmt.Sprint(k, want, vKvs(kvs)))
		if k == 3 && (math.IsNaN(x) || math.IsInf(x, 0)) {
			if len(w.writes) != 0 {
				v.fail("unencodable", "%q written for %v", w.writes, want)
			}
			continue
		}
		if len(w.writes) != 1 {
			v.fail("writes", "%d writes for %v", len(w.writes), want)
			continue
		}
		d := json.NewDecoder(bytes.NewReader([]byte(w.writes[0])))
		d.UseNumber()
		var got map[string]interface{}
		if err := d.Decode(&got); err != nil || d.More() {
			v.fail("json", "%q: %v", w.writes[0], err)
			continue
		}
		ts, _ := got["Timestamp"].(string)
		if !vStamp(ts, a, b) {
			v.fail("timestamp", "%q", w.writes[0])
		}
		if len(got) != len(want)+2 {
			v.fail("fields", "%q, want %v", w.writes[0], want)
		}
		for f, x := range want {
			ok := false
			switch x := x.(type) {
			case float64:
				gn, _ := got[f].(json.Number)
				gf, err := gn.Float64()
				ok = err == nil && gf == x
			default:
				ok = got[f] == x
			}
			if !ok {
				v.fail("field", "%s: %q, want %v", f, w.writes[0], want)
			}
		}
		kg, isMap := got["Kvs"].(map[string]interface{})
		if isMap != (kvs != nil) && len(kvs) > 0 || len(kg) != len(kvs) {
			v.fail("kvs", "%q, want %s", w.writes[0], vKvs(kvs))
		}
		for key, val := range kvs {
			if kg[key] != val {
				v.fail("kvs", "%q, want %s", w.writes[0], vKvs(kvs))
			}
		}
	}
}
