package health

import (
	"errors"
	"fmt"
	"strings"
	"testing"
)

func TestVerifC13(t *testing.T) {
	v := newVdrv(t, "random error sequences into an error counter: count, and the last five distinct-from-predecessor errors; distinct: the sequence")
	defer v.done()
	for i := 0; i < v.n(4000) && !v.failed(); i++ {
		n := v.Intn(20)
		k := 1 + v.Intn(7)
		ec := &ErrorCounter{}
		var hist []string // runs of equal errors collapsed
		var seq []string
		for j := 0; j < n; j++ {
			var e error
			s := fmt.Sprintf("e%d", v.Intn(k))
			if v.Intn(2) == 0 {
				e = errors.New(s)
			} else {
				e = &vErrT{s}
			}
			seq = append(seq, errStr(e))
			ec.incrementAndAddError(e)
			if len(hist) == 0 || hist[len(hist)-1] != errStr(e) {
				hist = append(hist, errStr(e))
			}
			last := hist
			if len(last) > 5 {
				last = last[len(last)-5:]
			}
			if ec.Count != int64(j+1) {
				v.fail("count", "after %v: count %d", seq, ec.Count)
			}
			got := map[string]int{}
			gs := ec.getErrorSamples()
			for _, g := range gs {
				if g == nil {
					v.fail("nil", "after %v: a nil sample", seq)
					continue
				}
				got[errStr(g)]++
			}
			want := map[string]int{}
			for _, w := range last {
				want[w]++
			}
			if d := vdiff(got, want); d != "" || len(gs) != len(last) {
				v.fail("samples", "after %v: %s", seq, d)
			}
		}
		v.eval(strings.Join(seq, ","))
	}
}
