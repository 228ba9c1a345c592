package health

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"
)

type vW struct{ writes []string }

func (w *vW) Write(b []byte) (int, error) {
	w.writes = append(w.writes, string(b))
	if len(w.writes)%5 == 0 {
		return 0, errors.New("disk full")
	}
	return len(b), nil
}

func vName(v *vdrv) string {
	return v.pick("", "a", "b.c", "x y", "%d", "100%", "日本", "\x00", "q\"uo\\te", "a:b", "<&>", strings.Repeat("k", v.Intn(80)), fmt.Sprint("n", v.Intn(20)))
}

func vKvMap(v *vdrv) map[string]string {
	if v.Intn(5) == 0 {
		return nil
	}
	m := map[string]string{}
	for i := v.Intn(12); i > 0; i-- {
		m[vName(v)] = vName(v)
	}
	return m
}

func vKvText(m map[string]string) string {
	if m == nil {
		return ""
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		ks[i] = k + ":" + m[k]
	}
	return " kvs:[" + strings.Join(ks, " ") + "]"
}

func vDur(n int64) string {
	switch {
	case n > 2000000:
		return fmt.Sprint(n/1000000, " ms")
	case n > 2000:
		return fmt.Sprint(n/1000, " μs")
	}
	return fmt.Sprint(n, " ns")
}

func vRandNanos(v *vdrv) int64 {
	switch v.Intn(4) {
	case 0:
		return []int64{0, 1, 1999, 2000, 2001, 2999, 3000, 999999, 1999999, 2000000, 2000001, 2999999, 3000000, -1, -5000000, math.MaxInt64, math.MinInt64}[v.Intn(17)]
	case 1:
		return v.Int63n(5000)
	case 2:
		return v.Int63n(5000000)
	}
	return v.Int63()
}

func vVal(v *vdrv) float64 {
	switch v.Intn(4) {
	case 0:
		return []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1e20, 1e21, 1e22, 1e-6, 1e-7, 1 << 53, math.MaxFloat64, math.SmallestNonzeroFloat64, 123456789, 100000}[v.Intn(15)]
	case 1:
		return []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[v.Intn(3)]
	case 2:
		return float64(v.Intn(100000)) / 100
	}
	return v.NormFloat64()
}

type vErrVal struct{ s string }

func (e vErrVal) Error() string { return e.s }

func vRandErr(v *vdrv) error {
	s := vName(v)
	switch v.Intn(4) {
	case 0:
		return &UnmutedError{Err: errors.New(s)}
	case 1:
		return &MutedError{Err: errors.New(s)}
	case 2:
		return vErrVal{s}
	}
	return errors.New(s)
}

// vStamp: s is the current UTC time in RFC 3339, between a and b.
func vStamp(s string, a, b time.Time) bool {
	t, err := time.Parse(time.RFC3339Nano, s)
	return err == nil && strings.HasSuffix(s, "Z") && !t.Before(a.Round(0)) && !t.After(b.Round(0))
}
