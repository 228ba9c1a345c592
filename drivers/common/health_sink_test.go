package health

import (
	"fmt"
	"sort"
	"strings"
)

// vrec: one call of a sink method, as the sink saw it.
type vrec struct {
	Sink    int
	Kind    string
	Job     string
	Event   string
	Err     error
	Emitted bool
	N       int64
	V       float64
	Status  CompletionStatus
	Kvs     map[string]string
}

func (r vrec) String() string {
	return fmt.Sprintf("%d:%s job=%q event=%q err=%v n=%d v=%v status=%d kvs=%s", r.Sink, r.Kind, r.Job, r.Event, r.Err, r.N, r.V, r.Status, vKvs(r.Kvs))
}

func vKvs(m map[string]string) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, fmt.Sprintf("%q:%q", k, v))
	}
	sort.Strings(ks)
	return "{" + strings.Join(ks, ",") + "}"
}

func vCopyKvs(m map[string]string) map[string]string {
	n := map[string]string{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

type vlog struct{ recs []vrec }

type vsink struct {
	id  int
	log *vlog
}

func (s *vsink) add(r vrec) {
	r.Sink = s.id
	r.Kvs = vCopyKvs(r.Kvs)
	s.log.recs = append(s.log.recs, r)
}
func (s *vsink) EmitEvent(job, event string, kvs map[string]string) {
	s.add(vrec{Kind: "event", Job: job, Event: event, Kvs: kvs})
}
func (s *vsink) EmitEventErr(job, event string, err error, kvs map[string]string) {
	r := vrec{Kind: "err", Job: job, Event: event, Err: err, Kvs: kvs}
	if u, ok := err.(*UnmutedError); ok {
		r.Emitted = u.Emitted
	}
	s.add(r)
}
func (s *vsink) EmitTiming(job, event string, n int64, kvs map[string]string) {
	s.add(vrec{Kind: "timing", Job: job, Event: event, N: n, Kvs: kvs})
}
func (s *vsink) EmitGauge(job, event string, x float64, kvs map[string]string) {
	s.add(vrec{Kind: "gauge", Job: job, Event: event, V: x, Kvs: kvs})
}
func (s *vsink) EmitComplete(job string, status CompletionStatus, n int64, kvs map[string]string) {
	s.add(vrec{Kind: "complete", Job: job, Status: status, N: n, Kvs: kvs})
}

func vStream(n int) (*Stream, *vlog) {
	l := &vlog{}
	st := NewStream()
	for i := 0; i < n; i++ {
		st.AddSink(&vsink{id: i, log: l})
	}
	return st, l
}

var vKeys = []string{"a", "b", "c", "stack", "", "é"}

// vRandKvs: a random map over few keys, with values that tell the level; possibly nil or empty.
func vRandKvs(v *vdrv, lvl string) map[string]string {
	if v.Intn(4) == 0 {
		return nil
	}
	m := map[string]string{}
	for i := v.Intn(4); i > 0; i-- {
		k := vKeys[v.Intn(len(vKeys))]
		m[k] = lvl + fmt.Sprint(v.Intn(3))
	}
	return m
}
