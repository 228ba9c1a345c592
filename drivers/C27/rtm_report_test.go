package runtime_metrics

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

type vg struct {
	name string
	v    float64
}

type vRecv struct {
	mu  sync.Mutex
	got []vg
	odd []string
}

func (r *vRecv) other(n string) { r.mu.Lock(); r.odd = append(r.odd, n); r.mu.Unlock() }

func (r *vRecv) Event(n string)                             { r.other(n) }
func (r *vRecv) EventKv(n string, kvs map[string]string)    { r.other(n) }
func (r *vRecv) EventErr(n string, e error) error           { r.other(n); return e }
func (r *vRecv) Timing(n string, ns int64)                  { r.other(n) }
func (r *vRecv) GaugeKv(n string, v float64, kvs map[string]string) {
	if len(kvs) == 0 {
		r.Gauge(n, v)
	} else {
		r.other(n)
	}
}
func (r *vRecv) EventErrKv(n string, e error, kvs map[string]string) error { r.other(n); return e }
func (r *vRecv) TimingKv(n string, ns int64, kvs map[string]string)        { r.other(n) }
func (r *vRecv) Gauge(n string, v float64) {
	r.mu.Lock()
	r.got = append(r.got, vg{n, v})
	r.mu.Unlock()
}
func (r *vRecv) len() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.got) }

func vNames(o Options) []string {
	var w []string
	if o.Memory {
		w = append(w, "alloc", "heap_objects")
	}
	if o.GC {
		w = append(w, "pause_total_ns", "num_gc", "next_gc", "gc_cpu_fraction")
	}
	if o.GCQuantile {
		w = append(w, "gc_pause_quantile_50", "gc_pause_quantile_max")
	}
	if o.Goroutines {
		w = append(w, "num_goroutines")
	}
	if o.Cgo {
		w = append(w, "num_cgo_call")
	}
	if o.FDs && runtime.GOOS == "linux" {
		w = append(w, "num_fds_used")
	}
	sort.Strings(w)
	return w
}

func vFds() float64 {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return float64(len(d))
}

func vq() (float64, float64) {
	var g debug.GCStats
	g.PauseQuantiles = make([]time.Duration, 3)
	debug.ReadGCStats(&g)
	return float64(g.PauseQuantiles[1]/1000) / 1000.0, float64(g.PauseQuantiles[2]/1000) / 1000.0
}

var vSink []byte

func TestVerifC27(t *testing.T) {
	v := newVdrv(t, "reports under random options with garbage, goroutines and descriptors changing in between: exact gauge names, values against the runtime around the report; distinct: the options and values")
	defer v.done()
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	if d := NewRuntimeMetrics(&vRecv{}, nil).options; d != (Options{5 * time.Second, true, true, true, true, true, true}) {
		v.fail("default", "%+v", d)
	}
	var files []*os.File
	stop := make(chan bool)
	for i := 0; i < v.n(250) && !v.failed(); i++ {
		o := Options{time.Second, v.Intn(2) == 0, v.Intn(2) == 0, v.Intn(2) == 0, v.Intn(2) == 0, v.Intn(2) == 0, v.Intn(2) == 0}
		r := &vRecv{}
		rm := NewRuntimeMetrics(r, &o)
		if rm.options != o {
			v.fail("options", "%+v, want %+v", rm.options, o)
		}
		switch v.Intn(4) {
		case 0:
			runtime.GC()
		case 1:
			if f, err := os.Open("/dev/null"); err == nil && len(files) < 200 {
				files = append(files, f)
			}
		case 2:
			go func() { <-stop }()
		case 3:
			vSink = make([]byte, v.Intn(1<<20))
		}
		var m0, m1 runtime.MemStats
		g0, q0, q1 := runtime.NumGoroutine(), 0.0, 0.0
		q0, q1 = vq()
		f0 := vFds()
		c0 := runtime.NumCgoCall()
		runtime.ReadMemStats(&m0)
		rm.Report()
		runtime.ReadMemStats(&m1)
		g1, f1 := runtime.NumGoroutine(), vFds()
		p0, p1 := vq()
		if len(r.odd) > 0 {
			v.fail("other", "%+v: also emitted %v", o, r.odd)
		}
		var names []string
		for _, g := range r.got {
			names = append(names, g.name)
		}
		sort.Strings(names)
		v.eval(fmt.Sprint(o, r.got))
		w := vNames(o)
		if f0 < 0 || f1 < 0 {
			continue
		}
		if strings.Join(names, " ") != strings.Join(w, " ") {
			v.fail("names", "%+v: gauges %v, want %v", o, names, w)
		}
		between := func(g vg, a, b float64) {
			if a > b {
				a, b = b, a
			}
			if g.v < a || g.v > b {
				v.fail("value", "%+v: %s=%v, the runtime's is between %v and %v", o, g.name, g.v, a, b)
			}
		}
		for _, g := range r.got {
			switch g.name {
			case "alloc":
				between(g, float64(m0.Alloc), float64(m1.Alloc))
			case "heap_objects":
				between(g, float64(m0.HeapObjects), float64(m1.HeapObjects))
			case "pause_total_ns":
				between(g, float64(m0.PauseTotalNs), float64(m1.PauseTotalNs))
			case "num_gc":
				between(g, float64(m0.NumGC), float64(m1.NumGC))
			case "next_gc":
				between(g, float64(m0.NextGC), float64(m1.NextGC))
			case "gc_cpu_fraction":
				between(g, m0.GCCPUFraction, m1.GCCPUFraction)
			case "num_goroutines":
				between(g, float64(g0), float64(g1))
			case "num_cgo_call":
				between(g, float64(c0), float64(runtime.NumCgoCall()))
			case "num_fds_used":
				between(g, f0, f1)
			case "gc_pause_quantile_50":
				between(g, q0, p0)
			case "gc_pause_quantile_max":
				between(g, q1, p1)
			}
		}
	}
	close(stop)
	for _, f := range files {
		f.Close()
	}
	// no descriptor can be opened: no descriptor gauge
	var lim syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim) == nil {
		for i := 0; i < 3; i++ {
			r := &vRecv{}
			rm := NewRuntimeMetrics(r, &Options{FDs: true, Goroutines: i > 0})
			syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 0, Max: lim.Max})
			n := vFds()
			rm.Report()
			syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
			v.eval(fmt.Sprint("unreadable", i, n))
			for _, g := range r.got {
				if n < 0 && g.name == "num_fds_used" {
					v.fail("unreadable", "descriptors cannot be counted, but %s=%v was emitted", g.name, g.v)
				}
			}
		}
	}
	// the poller
	for i := 0; i < v.n(10) && !v.failed(); i++ {
		r := &vRecv{}
		rm := NewRuntimeMetrics(r, &Options{Interval: 2 * time.Millisecond, Goroutines: true})
		rm.Start()
		a := time.Now()
		for r.len() < 3 && time.Since(a) < 5*time.Second {
			time.Sleep(time.Millisecond)
		}
		n := r.len()
		if n < 3 {
			v.fail("poller", "%d reports in 5s at 2ms intervals", n)
		}
		if d := time.Since(a); float64(n) > float64(d)/float64(2*time.Millisecond)+1 {
			v.fail("poller", "%d reports in %v at 2ms intervals", n, d)
		}
		v.within(5*time.Second, "stop", "Stop", rm.Stop)
		n = r.len()
		time.Sleep(5 * time.Millisecond)
		if r.len() != n {
			v.fail("stop", "reports after Stop returned")
		}
		v.eval(fmt.Sprint("poller", i))
	}
}
