package health

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"
)

func TestVerifC15(t *testing.T) {
	v := newVdrv(t, "the lines on the wire are those the options and the emissions determine")
	defer v.done()
	u := vListen()
	defer u.c.Close()
	names := []string{"", "a", "job", "Evt.x", "with space", "col:on", "pi|pe", "new\nline", "\xff\xfe", "é", "_", "a/b", "@[`{", "0:9/", "error", "success"}
	for i := 0; i < v.n(150) && !v.failed(); i++ {
		pre := v.pick("", "", "metroid", "a b", "x.y")
		opt := &StatsDSinkOptions{Prefix: pre, SkipNestedEvents: v.Intn(3) == 0, SkipTopLevelEvents: v.Intn(3) == 0}
		san := vSanitize
		kind := v.Intn(4)
		if kind == 0 {
			opt.SanitizationFunc = func(b *bytes.Buffer, s string) { b.WriteString("<" + s + ">") }
			san = func(s string) string { return "<" + s + ">" }
		}
		if kind == 1 {
			opt.SanitizationFunc = func(b *bytes.Buffer, s string) {}
			san = func(s string) string { return "" }
		}
		given := opt
		if kind == 2 {
			opt, given = &StatsDSinkOptions{}, nil
			pre = ""
		}
		s, err := NewStatsDSink(u.c.LocalAddr().String(), given)
		if err != nil {
			t.Fatal(err)
		}
		var want []string
		desc := fmt.Sprintf("prefix %q skipNested %v skipTop %v sanitize %d:", pre, opt.SkipNestedEvents, opt.SkipTopLevelEvents, kind)
		for k := 1 + v.Intn(25); k > 0; k-- {
			o := vRandStat(v, names)
			if v.Intn(20) == 0 {
				o.job, o.evt = strings.Repeat("long", 100), strings.Repeat("n", 400)
			}
			o.emit(s)
			desc += fmt.Sprintf(" %+v", o)
			want = append(want, vLines(o, pre, san, opt)...)
		}
		if !v.within(10*time.Second, "drain", desc, s.Drain) {
			return
		}
		got := strings.Join(u.take(5*time.Millisecond), "")
		s.Stop()
		if w := strings.Join(want, ""); got != w {
			k := 0
			for k < len(got) && k < len(w) && got[k] == w[k] {
				k++
			}
			v.fail("lines", "%s: at byte %d got %.80q, want %.80q", desc, k, got[max(0, k-30):], w[max(0, k-30):])
		}
		v.eval(desc)
	}
}

func vLines(o vStat, pre string, san func(string) string, opt *StatsDSinkOptions) []string {
	return o.lines(pre, san, opt.SkipTopLevelEvents, opt.SkipNestedEvents)
}
