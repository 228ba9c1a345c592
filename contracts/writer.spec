// ---------------------------------------------------------------------------
// The writer sinks.
// ---------------------------------------------------------------------------

uf tfmt(ns int, loc int, layout string) : string as timefmt
uf fmtg(x float64) : string as fmtfloat:g:-1:64
fun stamp() : string = tfmt(clock(), 0, "2006-01-02T15:04:05.999999999Z07:00")

// "k:v k:v ..." over the n smallest keys of a map with keys d and values v
rec kvT(d strset, v strmap, n int) : string = if n <= 0 then "" else kvT(d, v, n-1) + (if n > 1 then " " else "") + skey(d, n-1) + ":" + select(v, skey(d, n-1))
fun kvsText(m map[string]string) : string = if m == nil then "" else " kvs:[" + kvT(dom(m), vals(m), card(dom(m))) + "]"
fun durText(n int) : string = if n > 2000000 then itoa(n / 1000000) + " ms" else if n > 2000 then itoa(n / 1000) + " μs" else itoa(n) + " ns"

contract health.writeMapConsistently(b, kvs)
  root C17
  requires b != nil && isobj(b)
  assigns content(b)
  invariant [keys] with $ks: []string :: len($ks) == card(visited(kvs)) && (forall i: int :: 0 <= i && i < len($ks) ==> visited(kvs)[$ks[i]]) && (forall i: int, j: int :: 0 <= i && i < j && j < len($ks) ==> $ks[i] != $ks[j])
  invariant [written] content(b) == old(content(b)) + " kvs:[" + kvT(dom(kvs), vals(kvs), $i) + (if 0 < $i && $i < card(dom(kvs)) then " " else "")
  invariant [writtenfirst] content(b) == old(content(b)) + " kvs:[" + kvT(dom(kvs), vals(kvs), $i)
  ensures [all] content(b) == old(content(b)) + kvsText(kvs)

contract health.writeNanoseconds(b, nanos)
  root C17
  requires b != nil && isobj(b)
  assigns content(b)
  ensures [unit] content(b) == old(content(b)) + durText(nanos)

// the sink writes exactly once, the line s
pred logged(w *health.WriterSink, s string) = nev() == old(nev()) + 1 && event(old(nev()), Write, w.Writer, s)

contract (*health.WriterSink).EmitEvent(s, job, event, kvs)
  root C17
  requires s != nil && s.Writer != nil
  assigns events
  ensures [line] logged(s, "[" + stamp() + "]: job:" + job + " event:" + event + kvsText(kvs) + "\n")
contract (*health.WriterSink).EmitEventErr(s, job, event, err, kvs)
  root C17
  requires s != nil && s.Writer != nil && err != nil
  assigns events
  ensures [line] logged(s, "[" + stamp() + "]: job:" + job + " event:" + event + " err:" + errmsg(err) + kvsText(kvs) + "\n") || logged(s, "[" + stamp() + "]: job:" + job + " event:" + event + " err:" + fmtv(err) + kvsText(kvs) + "\n")
contract (*health.WriterSink).EmitTiming(s, job, event, nanos, kvs)
  root C17
  requires s != nil && s.Writer != nil
  assigns events
  ensures [line] logged(s, "[" + stamp() + "]: job:" + job + " event:" + event + " time:" + durText(nanos) + kvsText(kvs) + "\n")
contract (*health.WriterSink).EmitGauge(s, job, event, value, kvs)
  root C17
  requires s != nil && s.Writer != nil
  assigns events
  ensures [line] logged(s, "[" + stamp() + "]: job:" + job + " event:" + event + " gauge:" + fmtg(value) + kvsText(kvs) + "\n")
contract (*health.WriterSink).EmitComplete(s, job, status, nanos, kvs)
  root C17
  requires s != nil && s.Writer != nil
  assigns events
  ensures [line] logged(s, "[" + stamp() + "]: job:" + job + " status:" + statusText(status) + " time:" + durText(nanos) + kvsText(kvs) + "\n")

// ---- JSON lines
contract (*health.JsonWriterSink).EmitEvent(s, job, event, kvs)
  root C18
  requires s != nil && s.Writer != nil
  assigns events
  ensures [object] nev() == old(nev()) + 1 && event(old(nev()), Write, s.Writer, jsonobj("Job", job, "Event", event, "Timestamp", stamp(), "Kvs", kvs))
contract (*health.JsonWriterSink).EmitEventErr(s, job, event, err, kvs)
  root C18
  requires s != nil && s.Writer != nil && err != nil
  assigns events
  ensures [object] nev() == old(nev()) + 1 && (event(old(nev()), Write, s.Writer, jsonobj("Job", job, "Event", event, "Timestamp", stamp(), "Err", fmtv(err), "Kvs", kvs)) || event(old(nev()), Write, s.Writer, jsonobj("Job", job, "Event", event, "Timestamp", stamp(), "Err", errmsg(err), "Kvs", kvs)))
contract (*health.JsonWriterSink).EmitTiming(s, job, event, nanos, kvs)
  root C18
  requires s != nil && s.Writer != nil
  assigns events
  ensures [object] nev() == old(nev()) + 1 && event(old(nev()), Write, s.Writer, jsonobj("Job", job, "Event", event, "Timestamp", stamp(), "Nanoseconds", nanos, "Kvs", kvs))
contract (*health.JsonWriterSink).EmitGauge(s, job, event, value, kvs)
  root C18
  requires s != nil && s.Writer != nil
  assigns events
  ensures [object] finite(value) ==> nev() == old(nev()) + 1 && event(old(nev()), Write, s.Writer, jsonobj("Job", job, "Event", event, "Timestamp", stamp(), "Value", value, "Kvs", kvs))
  ensures [unencodable] !finite(value) ==> nev() == old(nev())
contract (*health.JsonWriterSink).EmitComplete(s, job, status, nanos, kvs)
  root C18
  requires s != nil && s.Writer != nil
  assigns events
  ensures [object] nev() == old(nev()) + 1 && event(old(nev()), Write, s.Writer, jsonobj("Job", job, "Status", statusText(status), "Timestamp", stamp(), "Nanoseconds", nanos, "Kvs", kvs))
