package health

import (
	"errors"
	"fmt"
	"testing"
)

type v3ErrT struct{ s string }

func (e v3ErrT) Error() string { return e.s }

type v3ErrP struct{ s string }

func (e *v3ErrP) Error() string { return "p" + e.s }

func TestVerifC03(t *testing.T) {
	v := newVdrv(t, "random error values of several dynamic types reported once or repeatedly through jobs with several sinks; distinct: type, text, sinks and history")
	defer v.done()
	for it := 0; it < v.n(4000) && !v.failed(); it++ {
		n := v.Intn(4)
		st, l := vStream(n)
		txt := v.pick("", "boom", "%d", "é")
		var err error
		kind := v.Intn(8)
		switch kind {
		case 0:
			err = errors.New(txt)
		case 1:
			err = v3ErrT{txt}
		case 2:
			err = &v3ErrP{txt}
		case 3:
			err = Mute(v3ErrT{txt})
		case 4:
			err = &UnmutedError{Err: v3ErrT{txt}}
		case 5:
			err = &UnmutedError{Err: v3ErrT{txt}, Emitted: true}
		case 6:
			err = fmt.Errorf("w: %w", Mute(v3ErrT{txt}))
		case 7:
			err = fmt.Errorf("w: %w", error(&UnmutedError{Err: v3ErrT{txt}}))
		}
		text := err.Error()
		m0, isM := err.(*MutedError)
		u0, isU := err.(*UnmutedError)
		for rep := 1 + v.Intn(3); rep > 0; rep-- {
			in := err
			j := st.Job
			if v.Intn(2) == 0 {
				j = st.NewJob("j")
			}
			emitted := false
			if u, ok := in.(*UnmutedError); ok {
				emitted = u.Emitted
			}
			l.recs = nil
			var out error
			if v.Intn(2) == 0 {
				out = j.EventErr("e", in)
			} else {
				out = j.EventErrKv("e", in, vRandKvs(v, "c"))
			}
			c := fmt.Sprintf("kind %d %T(%q), %d sinks, rep %d", kind, in, text, n, rep)
			v.eval(c)
			if out == nil {
				v.fail("nil", "%s: returned nil", c)
				break
			}
			_, inM := in.(*MutedError)
			_, inU := in.(*UnmutedError)
			if inM || inU {
				if out != in {
					v.fail("passthrough", "%s: returned another error %T", c, out)
				}
			} else {
				u, ok := out.(*UnmutedError)
				if !ok || u.Err != in || u.Stack == nil {
					v.fail("wrap", "%s: returned %T %#v", c, out, out)
				} else if len(u.Stack.Frames()) == 0 {
					v.fail("stack", "%s: empty stack", c)
				}
			}
			for _, r := range l.recs {
				if r.Err != out {
					v.fail("same", "%s: a sink got %T %p, the caller %T %p", c, r.Err, r.Err, out, out)
				}
				if r.Emitted != emitted {
					v.fail("notBefore", "%s: emitted flag %v at delivery to sink %d, was %v", c, r.Emitted, r.Sink, emitted)
				}
			}
			if u, ok := out.(*UnmutedError); ok && !u.Emitted {
				v.fail("marked", "%s: not marked as emitted afterwards", c)
			}
			if out.Error() != text {
				v.fail("text", "%s: prints %q", c, out.Error())
			}
			if isM && (m0.Err != error(v3ErrT{txt})) || isU && u0.Err != error(v3ErrT{txt}) {
				v.fail("changed", "%s: wrapped error changed", c)
			}
			if v.Intn(2) == 0 {
				err = out
			}
		}
		if m := Mute(err); m == nil || m.Err != err || m.Error() != text {
			v.fail("mute", "Mute(%T %q)", err, text)
		}
	}
}
