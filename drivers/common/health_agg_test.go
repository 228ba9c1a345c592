package health

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"
)

// A reference view of an aggregation: plain values, nothing shared with the real one.
type vTimer struct {
	Count, Sum, Min, Max int64
	Sq                   float64
}
type vErr struct {
	Count   int64
	Samples string // the samples, oldest slot first
	Idx     int
}
type vMaps struct {
	Events map[string]int64
	Gauges map[string]uint64 // bits
	Timers map[string]vTimer
	Errs   map[string]vErr
}
type vJob struct {
	vMaps
	T vTimer
	N [5]int64
}
type vInt struct {
	Start  string
	Serial int64
	vMaps
	Jobs map[string]vJob
}

func viewTimer(t *TimerAggregation) vTimer {
	return vTimer{t.Count, t.NanosSum, t.NanosMin, t.NanosMax, t.NanosSumSquares}
}

func errStr(e error) string {
	if e == nil {
		return "-"
	}
	return fmt.Sprintf("%T:%s", e, e.Error())
}

func viewErr(c *ErrorCounter) vErr {
	var s []string
	for _, e := range c.errorSamples {
		s = append(s, errStr(e))
	}
	return vErr{c.Count, strings.Join(s, "|"), c.errorSampleIndex}
}

func viewMaps(ev map[string]int64, g map[string]float64, t map[string]*TimerAggregation, ee map[string]*ErrorCounter) vMaps {
	v := vMaps{map[string]int64{}, map[string]uint64{}, map[string]vTimer{}, map[string]vErr{}}
	for k, x := range ev {
		v.Events[k] = x
	}
	for k, x := range g {
		v.Gauges[k] = math.Float64bits(x)
	}
	for k, x := range t {
		v.Timers[k] = viewTimer(x)
	}
	for k, x := range ee {
		v.Errs[k] = viewErr(x)
	}
	return v
}

func viewJob(j *JobAggregation) vJob {
	return vJob{viewMaps(j.Events, j.Gauges, j.Timers, j.EventErrs), viewTimer(&j.TimerAggregation),
		[5]int64{j.CountSuccess, j.CountValidationError, j.CountPanic, j.CountError, j.CountJunk}}
}

func viewInt(a *IntervalAggregation) vInt {
	v := vInt{a.IntervalStart.String(), a.SerialNumber, viewMaps(a.Events, a.Gauges, a.Timers, a.EventErrs), map[string]vJob{}}
	for k, j := range a.Jobs {
		v.Jobs[k] = viewJob(j)
	}
	return v
}

func newVMaps() vMaps {
	return vMaps{map[string]int64{}, map[string]uint64{}, map[string]vTimer{}, map[string]vErr{}}
}

// vdiff describes how two views differ ("" if they do not).
func vdiff(got, want interface{}) string {
	if reflect.DeepEqual(got, want) {
		return ""
	}
	return fmt.Sprintf("got %+v, want %+v", got, want)
}

func (t vTimer) ingest(n int64) vTimer {
	f := float64(n)
	if t.Count == 0 || n < t.Min {
		t.Min = n
	}
	if t.Count == 0 || n > t.Max {
		t.Max = n
	}
	t.Count++
	t.Sum += n
	t.Sq += f * f
	return t
}

// ---- the error sample ring

func (e vErr) slots() []string {
	if e.Samples == "" {
		return []string{"-", "-", "-", "-", "-"}
	}
	return strings.Split(e.Samples, "|")
}

func (e vErr) add(err error) vErr {
	s := e.slots()
	n := errStr(err)
	if s[e.Idx] == "-" {
		s[e.Idx] = n
	} else if s[e.Idx] != n {
		e.Idx = (e.Idx + 1) % 5
		s[e.Idx] = n
	}
	e.Samples = strings.Join(s, "|")
	return e
}

// ---- operations

type vOp struct {
	Kind       int // 0 event 1 err 2 timing 3 gauge 4 complete
	Job, Event string
	N          int64
	F          float64
	Err        error
	Status     CompletionStatus
}

func (o vOp) String() string {
	switch o.Kind {
	case 0:
		return fmt.Sprintf("event(%s,%s)", o.Job, o.Event)
	case 1:
		return fmt.Sprintf("err(%s,%s,%v)", o.Job, o.Event, o.Err)
	case 2:
		return fmt.Sprintf("timing(%s,%s,%d)", o.Job, o.Event, o.N)
	case 3:
		return fmt.Sprintf("gauge(%s,%s,%v)", o.Job, o.Event, o.F)
	}
	return fmt.Sprintf("complete(%s,%v,%d)", o.Job, o.Status, o.N)
}

func opsString(os []vOp) string {
	var s []string
	for _, o := range os {
		s = append(s, o.String())
	}
	return strings.Join(s, " ")
}

type vErrT struct{ s string }

func (e *vErrT) Error() string { return e.s }

var vNanos = []int64{0, 1, -1, 5, 1000, 999999, 1000000, 3000000000, -7, math.MaxInt64 / 4, 123456789012}
var vFloats = []float64{0, 1, -1, 3.14, 1e300, -2.5, math.Inf(1), math.Copysign(0, -1), 1e-9}
var vStatuses = []CompletionStatus{Success, ValidationError, Panic, Error, Junk}

func (v *vdrv) name(prefix string, n int) string {
	if v.Intn(30) == 0 {
		return v.pick("", "é", "a b", "%d", "x\ny")
	}
	return fmt.Sprintf("%s%d", prefix, v.Intn(n))
}

func (v *vdrv) op() vOp {
	o := vOp{Kind: v.Intn(5), Job: v.name("j", 3), Event: v.name("e", 3)}
	o.N = vNanos[v.Intn(len(vNanos))]
	o.F = vFloats[v.Intn(len(vFloats))]
	o.Status = vStatuses[v.Intn(5)]
	switch v.Intn(3) {
	case 0:
		o.Err = errors.New(fmt.Sprintf("err%d", v.Intn(4)))
	case 1:
		o.Err = &vErrT{fmt.Sprintf("verr%d", v.Intn(3))}
	default:
		o.Err = &UnmutedError{Err: fmt.Errorf("u%d", v.Intn(3))}
	}
	return o
}

func (v *vdrv) opList(n int) []vOp {
	var os []vOp
	for i := 0; i < n; i++ {
		os = append(os, v.op())
	}
	return os
}

func applyAgg(a *aggregator, o vOp) {
	switch o.Kind {
	case 0:
		a.EmitEvent(o.Job, o.Event)
	case 1:
		a.EmitEventErr(o.Job, o.Event, o.Err)
	case 2:
		a.EmitTiming(o.Job, o.Event, o.N)
	case 3:
		a.EmitGauge(o.Job, o.Event, o.F)
	case 4:
		a.EmitComplete(o.Job, o.Status, o.N)
	}
}

func (m vMaps) apply(o vOp) {
	switch o.Kind {
	case 0:
		m.Events[o.Event]++
	case 1:
		e, ok := m.Errs[o.Event]
		if !ok {
			e = vErr{}
		}
		e.Count++
		m.Errs[o.Event] = e.add(o.Err)
	case 2:
		m.Timers[o.Event] = m.Timers[o.Event].ingest(o.N)
	case 3:
		m.Gauges[o.Event] = math.Float64bits(o.F)
	}
}

func (a *vInt) apply(o vOp) {
	j, ok := a.Jobs[o.Job]
	if !ok {
		j = vJob{vMaps: newVMaps()}
	}
	a.vMaps.apply(o)
	j.vMaps.apply(o)
	if o.Kind == 4 {
		j.T = j.T.ingest(o.N)
		for i, s := range vStatuses {
			if s == o.Status {
				j.N[i]++
			}
		}
	}
	a.Jobs[o.Job] = j
	a.Serial++
}

func newVInt(start time.Time) vInt {
	return vInt{Start: start.String(), vMaps: newVMaps(), Jobs: map[string]vJob{}}
}

// aggOf builds a real aggregation by feeding operations to an aggregator at a fixed time.
func aggOf(os []vOp) *IntervalAggregation {
	setNowMock("2011-09-09T23:36:13Z")
	defer resetNowMock()
	a := newAggregator(time.Minute, 5*time.Minute)
	for _, o := range os {
		applyAgg(a, o)
	}
	return a.getIntervalAggregation()
}

// vshared lists addresses reachable from both values (errors, times and strings excepted).
func vshared(a, b interface{}) []string {
	ma, mb := map[uintptr]string{}, map[uintptr]string{}
	vreach(reflect.ValueOf(a), "", ma)
	vreach(reflect.ValueOf(b), "", mb)
	var out []string
	for p, path := range ma {
		if q, ok := mb[p]; ok {
			out = append(out, path+" = "+q)
		}
	}
	sort.Strings(out)
	return out
}

func vreach(v reflect.Value, path string, m map[uintptr]string) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || v.Type().String() == "*time.Location" {
			return
		}
		if _, ok := m[v.Pointer()]; ok {
			return
		}
		m[v.Pointer()] = path
		vreach(v.Elem(), path, m)
	case reflect.Map:
		if v.IsNil() {
			return
		}
		if _, ok := m[v.Pointer()]; ok {
			return
		}
		m[v.Pointer()] = path
		for _, k := range v.MapKeys() {
			vreach(v.MapIndex(k), path+"["+fmt.Sprint(k)+"]", m)
		}
	case reflect.Slice:
		if v.Len() > 0 {
			m[v.Pointer()] = path
		}
		for i := 0; i < v.Len(); i++ {
			vreach(v.Index(i), fmt.Sprintf("%s[%d]", path, i), m)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			vreach(v.Index(i), fmt.Sprintf("%s[%d]", path, i), m)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			vreach(v.Field(i), path+"."+v.Type().Field(i).Name, m)
		}
	}
}

func mockStart() time.Time {
	t, _ := time.Parse(time.RFC3339, "2011-09-09T23:36:00Z")
	return t
}

func viewAll(is []*IntervalAggregation) []vInt {
	out := []vInt{}
	for _, i := range is {
		out = append(out, viewInt(i))
	}
	return out
}

func vMockNow(t time.Time) { setNowMock(t.UTC().Format(time.RFC3339)) }

func vEmit(s Sink, o vOp) {
	switch o.Kind {
	case 0:
		s.EmitEvent(o.Job, o.Event, nil)
	case 1:
		s.EmitEventErr(o.Job, o.Event, o.Err, nil)
	case 2:
		s.EmitTiming(o.Job, o.Event, o.N, nil)
	case 3:
		s.EmitGauge(o.Job, o.Event, o.F, nil)
	case 4:
		s.EmitComplete(o.Job, o.Status, o.N, nil)
	}
}
