package health

import (
	"fmt"
	"net"
	"strconv"
	"time"
)

type vUDP struct {
	c *net.UDPConn
}

func vListen() *vUDP {
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic(err)
	}
	c.SetReadBuffer(4 << 20)
	return &vUDP{c}
}

// take reads what has arrived: until quiet for d.
func (u *vUDP) take(d time.Duration) []string {
	var out []string
	b := make([]byte, 65536)
	for {
		u.c.SetReadDeadline(time.Now().Add(d))
		n, _, err := u.c.ReadFromUDP(b)
		if err != nil {
			return out
		}
		out = append(out, string(b[:n]))
	}
}

func vSanitize(s string) string {
	b := []byte(s)
	for i, c := range b {
		if !(c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '_' || c == '.') {
			b[i] = '$'
		}
	}
	return string(b)
}

func vKey(san func(string) string, parts ...string) string {
	out, dot := "", false
	for _, p := range parts {
		if p == "" {
			continue
		}
		if dot {
			out += "."
		}
		dot = true
		out += san(p)
	}
	return out + ":"
}

func vMs(n int64) string {
	if n >= 10000000 {
		return strconv.FormatInt(n/1000000, 10)
	}
	return fmt.Sprintf("%.2f", float64(n)/1e6)
}

func vGaugeText(x float64) string {
	if x < 0.1 && x > -0.1 {
		return strconv.FormatFloat(x, 'f', -1, 64)
	}
	return fmt.Sprintf("%.2f", x)
}

type vStat struct {
	kind     int // 0 event, 1 error, 2 timing, 3 gauge, 4 complete
	job, evt string
	nanos    int64
	value    float64
	status   CompletionStatus
}

func (o vStat) emit(s *StatsDSink) {
	switch o.kind {
	case 0:
		s.EmitEvent(o.job, o.evt, nil)
	case 1:
		s.EmitEventErr(o.job, o.evt, fmt.Errorf("x"), nil)
	case 2:
		s.EmitTiming(o.job, o.evt, o.nanos, nil)
	case 3:
		s.EmitGauge(o.job, o.evt, o.value, nil)
	case 4:
		s.EmitComplete(o.job, o.status, o.nanos, nil)
	}
}

var vStatusNames = map[CompletionStatus]string{Success: "success", ValidationError: "validation_error", Panic: "panic", Error: "error", Junk: "junk"}

// lines is what o must put on the wire.
func (o vStat) lines(prefix string, san func(string) string, skipTop, skipNested bool) []string {
	text, suffix := "", ""
	switch o.kind {
	case 0:
		text = "1|c\n"
	case 1:
		text, suffix = "1|c\n", "error"
	case 2:
		text = vMs(o.nanos) + "|ms\n"
	case 3:
		text = vGaugeText(o.value) + "|g\n"
	case 4:
		return []string{vKey(san, prefix, o.job, "", vStatusNames[o.status]) + vMs(o.nanos) + "|ms\n"}
	}
	var out []string
	if !skipTop {
		out = append(out, vKey(san, prefix, "", o.evt, suffix)+text)
	}
	if !skipNested {
		out = append(out, vKey(san, prefix, o.job, o.evt, suffix)+text)
	}
	return out
}

// vPack is the packing of lines into datagrams.
func vPack(lines []string) (grams []string) {
	cur := ""
	for _, l := range lines {
		if len(l) > 1440 {
			continue
		}
		if len(cur)+len(l) > 1440 {
			grams = append(grams, cur)
			cur = ""
		}
		cur += l
	}
	if cur != "" {
		grams = append(grams, cur)
	}
	return grams
}

func vRandStat(v *vdrv, names []string) vStat {
	o := vStat{kind: v.Intn(5), job: v.pick(names...), evt: v.pick(names...)}
	o.nanos = []int64{0, 1, 999999, 9999999, 10000000, 10000001, 12345678, 1000000000, 5000, v.Int63n(1 << 40), v.Int63n(20000000), 950400000000000}[v.Intn(12)]
	o.value = []float64{0, 1, -1, 0.1, -0.1, 0.0999, -0.0999, 0.001234567, 3.14159, 1e9, 1234.5678, v.NormFloat64(), v.NormFloat64() / 20}[v.Intn(13)]
	o.status = []CompletionStatus{Success, ValidationError, Panic, Error, Junk}[v.Intn(5)]
	return o
}
