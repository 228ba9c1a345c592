package stack

import (
	"fmt"
	"runtime"
	"strings"
	"testing"
)

type vT struct{}

//go:noinline
func vA(seq []int, skip int) (*Trace, []uintptr) {
	if len(seq) == 0 {
		pcs := make([]uintptr, 500)
		tr := NewTrace(skip)
		return tr, pcs[:runtime.Callers(1+skip, pcs)]
	}
	return vNext(seq, skip)
}

//go:noinline
func vB(seq []int, skip int) (*Trace, []uintptr) {
	if len(seq) == 0 {
		return vA(seq, skip)
	}
	a, b := vNext(seq, skip)
	return a, b
}

//go:noinline
func (t *vT) C(seq []int, skip int) (*Trace, []uintptr) {
	return vNext(seq, skip)
}

//go:noinline
func vNext(seq []int, skip int) (tr *Trace, pcs []uintptr) {
	if len(seq) == 0 {
		return vA(seq, skip)
	}
	switch seq[0] {
	case 0:
		return vA(seq[1:], skip)
	case 1:
		return vB(seq[1:], skip)
	case 2:
		return (&vT{}).C(seq[1:], skip)
	}
	func() {
		tr, pcs = vNext(seq[1:], skip)
	}()
	return
}

func vSplit(n string) (pkg, name string) {
	i := strings.LastIndex(n, "/") + 1
	j := strings.Index(n[i:], ".")
	if j < 0 {
		return n[:i], n[i:]
	}
	return n[:i+j], n[i+j+1:]
}

func vFrame(pc uintptr) Frame {
	f := Frame{ProgramCounter: pc}
	fn := runtime.FuncForPC(pc)
	if pc == 0 || fn == nil {
		return f
	}
	f.Package, f.Name = vSplit(fn.Name())
	f.File, f.LineNumber = fn.FileLine(pc - 1)
	f.IsSystemPackage = strings.HasPrefix(f.File, runtime.GOROOT())
	return f
}

func TestVerifC26(t *testing.T) {
	v := newVdrv(t, "traces captured at random call depths and skips against the runtime's own call stack, and traces of arbitrary program counters; distinct: the call sequence")
	defer v.done()
	old := MaxStackDepth
	defer func() { MaxStackDepth = old }()
	for i := 0; i < v.n(3000) && !v.failed(); i++ {
		MaxStackDepth = []int{50, 50, 50, 1, 7, 200, 0}[v.Intn(7)]
		seq := make([]int, v.Intn(70))
		for j := range seq {
			seq[j] = v.Intn(4)
		}
		skip := v.Intn(len(seq) + 2)
		var tr *Trace
		var pcs []uintptr
		if v.Intn(4) == 0 {
			// arbitrary counters, known and unknown to the runtime
			all := make([]uintptr, 50)
			all = all[:runtime.Callers(0, all)]
			for j := v.Intn(20); j > 0; j-- {
				switch v.Intn(3) {
				case 0:
					pcs = append(pcs, uintptr(v.Intn(3)))
				default:
					pcs = append(pcs, all[v.Intn(len(all))]+uintptr(v.Intn(2)))
				}
			}
			tr = &Trace{stack: append([]uintptr{}, pcs...)}
			v.eval(fmt.Sprint(pcs))
		} else {
			tr, pcs = vNext(seq, skip)
			v.eval(fmt.Sprint(seq, skip, MaxStackDepth))
			if len(pcs) > MaxStackDepth {
				pcs = pcs[:MaxStackDepth]
			}
			// the innermost call is on another line of the same function
			if len(tr.stack) > 0 && len(pcs) > 0 && skip == 0 {
				if runtime.FuncForPC(tr.stack[0]) != runtime.FuncForPC(pcs[0]) {
					v.fail("start", "%v skip %d: starts at %v, want vA", seq, skip, vFrame(tr.stack[0]))
				}
				pcs = append([]uintptr{tr.stack[0]}, pcs[1:]...)
			}
		}
		fs := tr.Frames()
		if len(fs) != len(pcs) {
			v.fail("depth", "%v skip %d max %d: %d frames, want %d", seq, skip, MaxStackDepth, len(fs), len(pcs))
			continue
		}
		text := ""
		for j, f := range fs {
			w := vFrame(pcs[j])
			if f != w {
				v.fail("frame", "%v skip %d: frame %d is %+v, want %+v", seq, skip, j, f, w)
				break
			}
			text += fmt.Sprintf("%s:%d %s\n", w.File, w.LineNumber, w.Name)
		}
		if g := string(tr.Stack()); g != text {
			v.fail("text", "%v skip %d: got %q, want %q", seq, skip, g, text)
		}
		again := tr.Frames()
		for j := range again {
			if len(again) != len(fs) || again[j] != fs[j] {
				v.fail("again", "%v skip %d: other frames when asked again", seq, skip)
				break
			}
		}
	}
}
