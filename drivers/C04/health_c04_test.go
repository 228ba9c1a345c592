package health

import (
	"errors"
	"fmt"
	"testing"
)

type v4Str struct{ a, b int }

func (s v4Str) String() string { return fmt.Sprintf("<%d|%d>", s.a, s.b) }

func TestVerifC04(t *testing.T) {
	v := newVdrv(t, "random functions (nil, error, panic with values of many types, emitting and nesting jobs) run on streams and jobs; distinct: outcome, level and number of sinks")
	defer v.done()
	for it := 0; it < v.n(4000) && !v.failed(); it++ {
		n := v.Intn(4)
		st, l := vStream(n)
		kind := v.Intn(16)
		if v.Intn(3) == 0 {
			st.KeyValue("stack", "mine")
		}
		name := v.pick("j", "", "general", "a b")
		var inner *Job
		calls := 0
		var retErr error
		var pv interface{}
		panics := kind >= 4
		switch kind {
		case 0, 1:
		case 2:
			retErr = errors.New("boom")
		case 3:
			retErr = Mute(errors.New("boom"))
		case 4:
			pv = "text"
		case 5:
			pv = errors.New("perr")
		case 6:
			pv = 42
		case 7:
			pv = v4Str{1, 2}
		case 8:
			pv = &MutedError{Err: errors.New("m")}
		case 9:
			pv = &UnmutedError{Err: errors.New("u"), Emitted: true}
		case 10:
			pv = ""
		case 11:
			pv = "100%d"
		case 12:
			pv = []int{1, 2}
		case 13:
			pv = 1.5
		case 14:
			pv = map[string]int{"x": 1}
		case 15:
			pv = []byte("bytes")
		}
		marks := 0
		f := func() error {
			calls++
			marks = len(l.recs)
			switch v.Intn(4) {
			case 0:
				st.Event("inside")
			case 1:
				st.NewJob("other").Run(func() error { return nil })
			case 2:
				if inner != nil {
					inner.KeyValue("k", "v")
				}
			}
			marks = len(l.recs)
			if panics {
				panic(pv)
			}
			return retErr
		}
		var got error
		onStream := v.Intn(2) == 0
		c := fmt.Sprintf("outcome %d (%T %v), %d sinks, stream %v, job %q", kind, pv, pv, n, onStream, name)
		v.eval(c)
		func() {
			defer func() {
				if r := recover(); r != nil {
					v.fail("escaped", "%s: panic escaped: %v", c, r)
				}
			}()
			if onStream {
				got = st.Run(name, f)
			} else {
				inner = st.NewJob(name)
				got = inner.Run(f)
			}
		}()
		if calls != 1 {
			v.fail("calls", "%s: function called %d times", c, calls)
			continue
		}
		want := Success
		if retErr != nil {
			want = Error
		}
		if panics {
			want = Panic
			if got == nil || got.Error() != fmt.Sprint(pv) {
				v.fail("panicText", "%s: returned %v, want text %q", c, got, fmt.Sprint(pv))
			}
		} else if got != retErr {
			v.fail("result", "%s: returned %v", c, got)
		}
		if marks > len(l.recs) {
			continue
		}
		rest := l.recs[marks:]
		exp := n
		if panics {
			exp = 2 * n
		}
		if len(rest) != exp {
			v.fail("deliveries", "%s: %d deliveries after the function ended, want %d: %v", c, len(rest), exp, rest)
			continue
		}
		if panics {
			for i, r := range rest[:n] {
				if r.Kind != "err" || r.Event != "panic" || r.Job != name || r.Sink != i || r.Kvs["stack"] == "" || r.Kvs["stack"] == "mine" {
					v.fail("panicEvent", "%s: delivery %d is %s", c, i, r)
				} else if u, ok := r.Err.(*UnmutedError); !ok || u.Err != got {
					v.fail("panicError", "%s: reported %T %v, returned %v", c, r.Err, r.Err, got)
				}
			}
			rest = rest[n:]
		}
		for i, r := range rest {
			if r.Kind != "complete" || r.Status != want || r.Job != name || r.Sink != i {
				v.fail("status", "%s: completion %d is %s, want status %d", c, i, r, want)
			}
		}
	}
}
