package bugsnag

import (
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/stack"
)

type vsrv struct {
	mu     sync.Mutex
	bodies []string
	reply  string
	code   int
	bad    string
}

func (s *vsrv) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	b, _ := ioutil.ReadAll(r.Body)
	s.mu.Lock()
	defer s.mu.Unlock()
	if r.Method != "POST" || r.URL.Path != "/notify" {
		s.bad = r.Method + " " + r.URL.Path
	}
	s.bodies = append(s.bodies, string(b))
	w.WriteHeader(s.code)
	w.Write([]byte(s.reply))
}

func (s *vsrv) take(n int) []string {
	for i := 0; i < 2000; i++ {
		s.mu.Lock()
		if len(s.bodies) >= n {
			s.mu.Unlock()
			break
		}
		s.mu.Unlock()
		time.Sleep(time.Millisecond)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	b := s.bodies
	s.bodies = nil
	return b
}

func vname(v *vdrv) string {
	return v.pick("", "a", "b.c", "x y", "%d", "日本", "q\"uo\\te", "<&>", fmt.Sprint("n", v.Intn(20)))
}

func vkvs(v *vdrv) map[string]string {
	if v.Intn(5) == 0 {
		return nil
	}
	m := map[string]string{}
	for i := v.Intn(5); i > 0; i-- {
		m[v.pick("request", "formdata", "k", "", "other")] = vname(v)
	}
	return m
}

func vtrace(n int) *stack.Trace {
	if n > 0 {
		return vtrace(n - 1)
	}
	return stack.NewTrace(0)
}

func get(x interface{}, path ...interface{}) interface{} {
	for _, p := range path {
		switch k := p.(type) {
		case string:
			m, _ := x.(map[string]interface{})
			x = m[k]
		case int:
			a, _ := x.([]interface{})
			if k >= len(a) {
				return nil
			}
			x = a[k]
		}
	}
	return x
}

// vcheck compares a posted body to what must be reported.
func vcheck(body string, c *Config, job, event, msg string, tr *stack.Trace, kvs map[string]string) string {
	var m interface{}
	if err := json.Unmarshal([]byte(body), &m); err != nil {
		return err.Error()
	}
	ev := []interface{}{"events", 0}
	at := func(p ...interface{}) interface{} { return get(m, append(append([]interface{}{}, ev...), p...)...) }
	for _, x := range []struct{ got, want interface{} }{
		{get(m, "apiKey"), c.APIKey}, {at("app", "releaseStage"), c.ReleaseStage}, {at("device", "hostname"), c.Hostname}, {at("context"), job},
		{at("exceptions", 0, "errorClass"), event}, {at("exceptions", 0, "message"), msg},
		{at("metaData", "request", "url"), kvs["request"]}, {at("metaData", "request", "parameters"), kvs["formdata"]},
		{get(m, "events", 1), nil}, {at("exceptions", 1), nil},
	} {
		if x.got != x.want {
			return fmt.Sprintf("got %v, want %v", x.got, x.want)
		}
	}
	km, _ := at("metaData", "kvs").(map[string]interface{})
	if len(km) != len(kvs) {
		return fmt.Sprintf("kvs %v, want %v", km, kvs)
	}
	for k, x := range kvs {
		if km[k] != x {
			return fmt.Sprintf("kvs %v, want %v", km, kvs)
		}
	}
	fs, _ := at("exceptions", 0, "stacktrace").([]interface{})
	want := tr.Frames()
	if len(fs) != len(want) {
		return fmt.Sprintf("%d frames, want %d", len(fs), len(want))
	}
	for i, f := range want {
		w := map[string]interface{}{"file": f.File, "lineNumber": float64(f.LineNumber), "method": f.Package + ":" + f.Name, "inProject": !f.IsSystemPackage}
		for k, x := range w {
			if get(fs[i], k) != x {
				return fmt.Sprintf("frame %d: %v, want %v", i, fs[i], w)
			}
		}
	}
	return ""
}

func TestVerifC19(t *testing.T) {
	v := newVdrv(t, "random error events and other emissions into a sink reporting to a local server, key/values changed afterwards; distinct: the emission")
	defer v.done()
	os.Stderr, _ = os.Open(os.DevNull)
	s := &vsrv{reply: "OK", code: 200}
	h := httptest.NewServer(s)
	defer h.Close()
	if c := (&Config{}); NewSink(c) == nil || c.Endpoint != "https://notify.bugsnag.com/" {
		v.fail("endpoint", "%+v", c)
	}
	c := &Config{APIKey: "k\"1", Endpoint: h.URL + "/notify", ReleaseStage: "stage", AppVersion: "9", Hostname: "host"}
	sink := NewSink(c)
	if c.Endpoint != h.URL+"/notify" {
		v.fail("endpoint", "%+v", c)
	}
	for i := 0; i < v.n(250) && !v.failed(); i++ {
		type exp struct {
			job, event, msg string
			tr              *stack.Trace
			kvs             map[string]string
		}
		var want []exp
		for j := v.Intn(6); j >= 0; j-- {
			job, event, msg, kvs := vname(v), vname(v), vname(v), vkvs(v)
			u := &health.UnmutedError{Err: errors.New(msg), Stack: vtrace(v.Intn(60)), Emitted: v.Intn(3) == 0}
			k := v.Intn(9)
			v.eval(fmt.Sprint(k, job, event, msg, kvs, u.Emitted))
			switch k {
			case 0:
				sink.EmitEvent(job, event, kvs)
			case 1:
				sink.EmitEventErr(job, event, &health.MutedError{Err: errors.New(msg)}, kvs)
			case 2:
				sink.EmitEventErr(job, event, errors.New(msg), kvs)
			case 3:
				sink.EmitTiming(job, event, 5, kvs)
			case 4:
				sink.EmitGauge(job, event, 5, kvs)
				sink.EmitComplete(job, health.Error, 5, kvs)
			default:
				if !u.Emitted {
					cp := map[string]string{}
					for a, b := range kvs {
						cp[a] = b
					}
					want = append(want, exp{job, event, msg, u.Stack, cp})
				}
				sink.EmitEventErr(job, event, u, kvs)
				u.Emitted = true
				if kvs != nil && v.Intn(2) == 0 {
					kvs["request"] = "changed"
					delete(kvs, "k")
				}
			}
		}
		got := s.take(len(want))
		if len(want) == 0 {
			time.Sleep(time.Millisecond)
			got = append(got, s.take(0)...)
		}
		if len(got) != len(want) {
			v.fail("once", "%d reports, want %d", len(got), len(want))
			continue
		}
		for j, w := range want {
			if e := vcheck(got[j], c, w.job, w.event, w.msg, w.tr, w.kvs); e != "" {
				v.fail("report", "%q: %s", got[j], e)
			}
		}
	}
	v.within(5*time.Second, "stop", "ShutdownServer", sink.ShutdownServer)
	// failures
	for i := 0; i < v.n(60) && !v.failed(); i++ {
		s.mu.Lock()
		s.reply = v.pick("OK", "OK", "OK\n", "ok", "", " OK", "OKOK", "error")
		s.code = []int{200, 200, 201, 500}[v.Intn(4)]
		rep := s.reply
		s.mu.Unlock()
		c2 := *c
		down := v.Intn(6) == 0
		if down {
			c2.Endpoint = "http://127.0.0.1:1/notify"
		}
		kvs := vkvs(v)
		tr := vtrace(v.Intn(5))
		err := Notify(&c2, "j", "e", errors.New("m"), tr, kvs)
		v.eval(fmt.Sprint("notify", rep, s.code, down))
		got := s.take(0)
		if down {
			if err == nil || len(got) != 0 {
				v.fail("down", "Notify: %v with the server down, %d reports", err, len(got))
			}
			continue
		}
		if (err == nil) != (rep == "OK") || len(got) != 1 {
			v.fail("answer", "Notify: %v after the answer %q, %d reports", err, rep, len(got))
		} else if e := vcheck(got[0], &c2, "j", "e", "m", tr, kvs); e != "" {
			v.fail("report", "%q: %s", got[0], e)
		}
	}
	if s.bad != "" {
		v.fail("post", "%s", s.bad)
	}
}
