package librato

import (
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math"
	"net/http"
	"net/http/httptest"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gocraft/health"
)

type vpost struct {
	body       string
	user, pass string
	head       string
	at         time.Time
}

type vsrv struct {
	mu    sync.Mutex
	posts []vpost
	mode  int
}

func (s *vsrv) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	b, _ := ioutil.ReadAll(r.Body)
	u, p, _ := r.BasicAuth()
	s.mu.Lock()
	s.posts = append(s.posts, vpost{string(b), u, p, r.Method + " " + r.URL.Path + " " + r.Header.Get("Content-Type"), time.Now()})
	mode := s.mode
	n := len(s.posts)
	s.mu.Unlock()
	switch {
	case mode == 1:
		w.WriteHeader(500)
	case mode == 2 && n%2 == 1:
		if h, ok := w.(http.Hijacker); ok {
			if c, _, err := h.Hijack(); err == nil {
				c.Close()
			}
		}
	}
}

func vsan(s string) string {
	out := ""
	for _, r := range []rune(s) {
		if strings.ContainsRune("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789.:-_", r) && r < 128 {
			out += string(r)
		} else {
			out += "_"
		}
	}
	return out
}

type vstat struct {
	n                 int64
	sum, sq, min, max float64
}

func vadd(m map[string]*vstat, k string, x float64) {
	a := m[k]
	if a == nil {
		a = &vstat{min: x, max: x}
		m[k] = a
	}
	a.n++
	a.sum += x
	a.sq += x * x
	a.min = math.Min(a.min, x)
	a.max = math.Max(a.max, x)
}

func vlname(v *vdrv) string {
	if v.Intn(3) == 0 {
		b := make([]byte, v.Intn(6))
		for i := range b {
			b[i] = byte(v.Intn(256))
		}
		return string(b)
	}
	return v.pick("", "a", "b.c", "x y", "%d", "日本", "A-Z:_9", "@[`{/", "é", "q\"uo\\te", fmt.Sprint("n", v.Intn(20)))
}

func TestVerifC20(t *testing.T) {
	v := newVdrv(t, "random emissions of all kinds into a sink posting to a local server (which may fail), all posts summed and compared; distinct: the emission")
	defer v.done()
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	srv := &vsrv{}
	h := httptest.NewServer(srv)
	defer h.Close()
	old := libratoRequestPath
	libratoRequestPath = h.URL + "/v1/metrics"
	defer func() { libratoRequestPath = old }()
	rounds := v.n(24)
	for round := 0; round < rounds && !v.failed(); round++ {
		srv.mu.Lock()
		srv.posts, srv.mode = nil, round%3
		srv.mu.Unlock()
		prefix := v.pick("", "p", "pre.fix")
		user, key := fmt.Sprint("u", round), v.pick("key", "k:é")
		period := 15 * time.Millisecond
		if round == rounds/2 {
			period = 1100 * time.Millisecond
		}
		san := vsan
		s := New(user, key, prefix)
		s.FlushPeriod = period // before the sink's goroutine runs: GOMAXPROCS is 1
		if round%4 == 3 {
			san = strings.ToUpper
			s.SanitizationFunc = strings.ToUpper
		}
		source := s.Source
		if hn, _ := os.Hostname(); hn != source {
			v.fail("source", "%q, want %q", source, hn)
		}
		pre := ""
		if prefix != "" {
			pre = prefix + "."
		}
		counts := map[string]int64{}
		stats := map[string]*vstat{}
		total := int64(0)
		for j := v.Intn(60); j >= 0; j-- {
			job, event := vlname(v), vlname(v)
			if san("x") == "X" { // the upper-casing sanitizer leaves names that JSON would alter
				job, event = vsan(job), vsan(event)
			}
			k := v.Intn(5)
			nanos := int64(v.Intn(8000)-1000) * 125000
			val := float64(v.Intn(4001)-2000) / 8
			v.eval(fmt.Sprint(k, job, event, nanos, val, prefix))
			n1, n2 := pre+san(event), pre+san(job)+"."+san(event)
			switch k {
			case 0:
				s.EmitEvent(job, event, nil)
				counts[n1+".count"]++
				counts[n2+".count"]++
				total += 2
			case 1:
				s.EmitEventErr(job, event, errors.New("e"), map[string]string{"a": "b"})
				counts[n1+".error.count"]++
				counts[n2+".error.count"]++
				total += 2
			case 2:
				s.EmitTiming(job, event, nanos, nil)
				vadd(stats, n1+".timing", float64(nanos)/1e6)
				vadd(stats, n2+".timing", float64(nanos)/1e6)
				total += 2
			case 3:
				s.EmitGauge(job, event, val, nil)
				vadd(stats, n1+".gauge", val)
				vadd(stats, n2+".gauge", val)
				total += 2
			case 4:
				st := []health.CompletionStatus{health.Success, health.ValidationError, health.Panic, health.Error, health.Junk}[v.Intn(5)]
				s.EmitComplete(job, st, nanos, nil)
				vadd(stats, pre+san(job)+"."+[]string{"success", "validation_error", "panic", "error", "junk"}[map[health.CompletionStatus]int{health.Success: 0, health.ValidationError: 1, health.Panic: 2, health.Error: 3, health.Junk: 4}[st]]+".timing", float64(nanos)/1e6)
				total++
			}
			if v.Intn(12) == 0 {
				time.Sleep(period / 3)
			}
		}
		if round%5 == 0 { // nothing more must come in idle periods
			time.Sleep(period + period/2)
		}
		var gotC map[string]int64
		var gotS map[string]*vstat
		bad := ""
		read := func() int64 {
			gotC, gotS = map[string]int64{}, map[string]*vstat{}
			n := int64(0)
			srv.mu.Lock()
			defer srv.mu.Unlock()
			for _, p := range srv.posts {
				if p.user != user || p.pass != key {
					bad = fmt.Sprintf("credentials %q %q", p.user, p.pass)
				}
				if p.head != "POST /v1/metrics application/json" {
					bad = p.head
				}
				var d struct {
					MeasureTime int64  `json:"measure_time"`
					Period      *int64 `json:"period"`
					Source      string `json:"source"`
					Gauges      map[string]map[string]interface{}
				}
				if err := json.Unmarshal([]byte(p.body), &d); err != nil {
					bad = err.Error()
					continue
				}
				if d.Source != source || d.Period == nil || *d.Period != int64(period/time.Second) || d.MeasureTime > p.at.Unix() || d.MeasureTime < p.at.Unix()-3 {
					bad = "header of " + p.body
				}
				if len(d.Gauges) == 0 {
					bad = "empty post " + p.body
				}
				for k, g := range d.Gauges {
					f := func(x string) float64 { y, _ := g[x].(float64); return y }
					if x, ok := g["value"]; ok {
						c, _ := x.(float64)
						gotC[k] += int64(c)
						n += int64(c)
						if c < 1 {
							bad = "counter " + k
						}
						continue
					}
					c := int64(f("count"))
					if c < 1 {
						bad = fmt.Sprintf("measurement %q without values: %v", k, g)
					}
					n += c
					a := gotS[k]
					if a == nil {
						a = &vstat{min: f("min"), max: f("max")}
						gotS[k] = a
					}
					a.n += c
					a.sum += f("sum")
					a.sq += f("sum_squares")
					a.min = math.Min(a.min, f("min"))
					a.max = math.Max(a.max, f("max"))
				}
			}
			return n
		}
		for i := 0; i < 1500 && read() < total && bad == ""; i++ {
			time.Sleep(2 * time.Millisecond)
		}
		time.Sleep(period + period/2)
		v.within(3*time.Second, "stop", "Stop", s.Stop)
		read()
		if bad != "" {
			v.fail("post", "%s", bad)
		}
		if len(gotC) != len(counts) || len(gotS) != len(stats) {
			v.fail("names", "got %v and %v, want %v and %v", gotC, len(gotS), counts, len(stats))
		}
		for k, n := range counts {
			if gotC[k] != n {
				v.fail("counter", "%q: %d, want %d", k, gotC[k], n)
			}
		}
		for k, a := range stats {
			if g := gotS[k]; g == nil || *g != *a {
				v.fail("measurement", "%q: %+v, want %+v", k, g, *a)
			}
		}
	}
}
