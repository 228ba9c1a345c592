package health

import (
	"fmt"
	"strings"
	"testing"
	"time"
)

// Random lines of random lengths through a real sink and socket; the datagrams are compared with the
// packing. Runs that took long enough for the flush timer to fire are compared line by line only.
func TestVerifC14(t *testing.T) {
	v := newVdrv(t, "whole lines, in order, each once, in datagrams of at most 1440 bytes that are filled greedily")
	defer v.done()
	u := vListen()
	defer u.c.Close()
	for i := 0; i < v.n(250) && !v.failed(); i++ {
		skip := v.Intn(2) == 0
		pre := strings.Repeat("p", v.Intn(4))
		start := time.Now()
		s, err := NewStatsDSink(u.c.LocalAddr().String(), &StatsDSinkOptions{Prefix: pre, SkipNestedEvents: skip})
		if err != nil {
			t.Fatal(err)
		}
		u.take(time.Microsecond)
		var lines, grams []string
		desc := fmt.Sprintf("prefix %q, skip nested %v:", pre, skip)
		for part := 0; part < 1+v.Intn(3); part++ {
			var ls []string
			for k := v.Intn(40); k > 0; k-- {
				n := 1 + v.Intn(60)
				switch v.Intn(8) {
				case 0:
					n = 1420 + v.Intn(30)
				case 1:
					n = 700 + v.Intn(40)
				case 2:
					n = 470 + v.Intn(20)
				}
				if len(ls) > 0 && v.Intn(4) == 0 {
					// fill exactly, or one byte too many
					cur := vPack(ls)
					if len(cur) > 0 {
						room := 1440 - len(cur[len(cur)-1]) - len(vKey(vSanitize, pre, "")+"1|c\n")
						if pre != "" {
							room--
						}
						if room += v.Intn(3) - 1; room > 0 && skip {
							n = room
						}
					}
				}
				o := vStat{kind: 0, job: "j", evt: strings.Repeat("x", n)}
				o.emit(s)
				ls = append(ls, o.lines(pre, vSanitize, false, skip)...)
				desc += fmt.Sprintf(" %d", n)
			}
			if !v.within(10*time.Second, "drain", desc, s.Drain) {
				return
			}
			desc += " drain"
			lines = append(lines, ls...)
			grams = append(grams, vPack(ls)...)
		}
		quick := time.Since(start) < 90*time.Millisecond
		got := u.take(5 * time.Millisecond)
		s.Stop()
		var want string
		for _, l := range lines {
			if len(l) <= 1440 {
				want += l
			}
		}
		for _, g := range got {
			if len(g) > 1440 || len(g) == 0 {
				v.fail("datagram-size", "%s: datagram of %d bytes", desc, len(g))
			}
			if !strings.HasSuffix(g, "\n") {
				v.fail("cut-line", "%s: datagram ends in the middle of a line: %q", desc, g[max(0, len(g)-30):])
			}
		}
		all := strings.Join(got, "")
		if all != want {
			v.fail("lines", "%s: received %d bytes, want %d; lines lost, repeated or reordered", desc, len(all), len(want))
		} else if quick && fmt.Sprint(lens(got)) != fmt.Sprint(lens(grams)) {
			v.fail("packing", "%s: datagram sizes %v, want %v", desc, lens(got), lens(grams))
		}
		v.eval(desc)
	}
}

func lens(xs []string) (out []int) {
	for _, x := range xs {
		out = append(out, len(x))
	}
	return
}
