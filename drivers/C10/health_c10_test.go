package health

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"net/http/httptest"
	"reflect"
	"testing"
	"time"
)

func vDecode(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var x interface{}
	if err := d.Decode(&x); err != nil {
		return nil, err
	}
	var y interface{}
	if err := d.Decode(&y); err == nil {
		return nil, fmt.Errorf("more than one value")
	}
	return x, nil
}

func TestVerifC10(t *testing.T) {
	v := newVdrv(t, "requests for random paths and methods against a polling sink holding random data with odd names; the body is decoded and compared with the encoding of the sink's metrics; distinct: request and data")
	defer v.done()
	names := []string{"plain", "100%", "%s%d", "a\"b", "back\\slash", "<x>&y", "\x00\x01", "\xff\xfe", "é☃", "", "a\nb", "%!", "\u2028"}
	paths := []string{"/health", "/health", "/health", "/healthx", "/", "/health/", "/Health", "/x/health", "", "/healt"}
	for i := 0; i < v.n(60) && !v.failed(); i++ {
		iv := time.Hour * time.Duration(1+v.Intn(3))
		s := NewJsonPollingSink(iv, 3*time.Hour)
		n := v.Intn(8)
		bad := v.Intn(6) == 0
		var os []vOp
		for k := 0; k < n; k++ {
			o := v.op()
			o.Job, o.Event = names[v.Intn(len(names))], names[v.Intn(len(names))]
			if math.IsInf(o.F, 0) {
				o.F = 7
			}
			os = append(os, o)
			vEmit(s, o)
		}
		if bad {
			o := vOp{Kind: 3, Job: "j", Event: "nan", F: []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[v.Intn(3)]}
			os = append(os, o)
			vEmit(s, o)
		}
		var metrics []*IntervalAggregation
		ok := v.within(20*time.Second, "settle", "emitting "+opsString(os), func() {
			for k := 0; k < 4000; k++ {
				metrics = s.GetMetrics()
				c := int64(0)
				for _, g := range metrics {
					c += g.SerialNumber
				}
				if c >= int64(len(os)) {
					return
				}
				time.Sleep(time.Millisecond)
			}
		})
		if !ok {
			return
		}
		for _, p := range paths {
			rw := httptest.NewRecorder()
			m := v.pick("GET", "GET", "HEAD", "POST")
			r, _ := http.NewRequest(m, "http://h/", nil)
			r.URL.Path = p
			if v.Intn(3) == 0 {
				r.URL.RawQuery = "path=/health"
			}
			what := fmt.Sprintf("%s %q after %s", m, p, opsString(os))
			v.eval(what)
			if !v.within(20*time.Second, "serve", what, func() { s.ServeHTTP(rw, r) }) {
				return
			}
			body := rw.Body.Bytes()
			got, err := vDecode(body)
			if ct := rw.Header().Get("Content-Type"); ct != "application/json; charset=utf-8" {
				v.fail("type", "%s: content type %q", what, ct)
			}
			switch {
			case p != "/health":
				if rw.Code != 404 || err != nil || !reflect.DeepEqual(got, map[string]interface{}{"error": "not_found"}) {
					v.fail("notfound", "%s: code %d body %q", what, rw.Code, body)
				}
			case bad:
				_, isobj := got.(map[string]interface{})
				if rw.Code != 500 || err != nil || !isobj || got.(map[string]interface{})["error"] == nil {
					v.fail("unencodable", "%s: code %d body %q", what, rw.Code, body)
				}
			default:
				want, e2 := json.Marshal(map[string]interface{}{"instance_id": Identifier, "interval_duration": int64(iv), "aggregations": metrics})
				if e2 != nil {
					continue
				}
				w, _ := vDecode(want)
				if rw.Code != 200 || err != nil || !reflect.DeepEqual(got, w) {
					v.fail("body", "%s: code %d, decoding: %v, body %q, want %q", what, rw.Code, err, body, want)
				}
			}
		}
		s.ShutdownServer()
	}
}
