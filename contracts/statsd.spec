// ---------------------------------------------------------------------------
// The StatsD sink.
// ---------------------------------------------------------------------------

// what a sanitization function appends for a key: a function of the key alone
uf san(f health.StatsDSinkSanitizationFunc, s string) : string
contract functype:func(*bytes.Buffer, string)
  assigns content(arg0)
  ensures content(arg0) == old(content(arg0)) + san(callee, arg1)

// ---- C14: packing lines into datagrams; u is what is pending, l the next line ("" for none)
rec wbuf(u string, l string) : string = if len(l) == 0 || len(l) > 1440 then u else if len(l) + len(u) > 1440 then l else u + l
rec wn(u string, l string) : int = if len(l) == 0 || len(l) > 1440 then 0 else if len(l) + len(u) > 1440 then 1 else 0

pred udpOK(s *health.StatsDSink) = s.udpConn != nil && len(content(addr(s.udpBuf))) <= 1440

contract (*health.StatsDSink).writeStatsDMetric(s, b)
  root C14
  requires s != nil && udpOK(s)
  requires base(b) != datareg(addr(s.udpBuf))
  assigns content(addr(s.udpBuf)), events
  ensures [fits] udpOK(s)
  ensures [pending] content(addr(s.udpBuf)) == wbuf(old(content(addr(s.udpBuf))), old(content(b)))
  ensures [count] nev() == old(nev()) + wn(old(content(addr(s.udpBuf))), old(content(b)))
  ensures [sent] nev() > old(nev()) ==> old(content(addr(s.udpBuf))) != "" && event(old(nev()), "udp", s.udpConn, old(content(addr(s.udpBuf))), s.udpAddr)

contract (*health.StatsDSink).flush(s)
  root C14
  requires s != nil && udpOK(s)
  assigns content(addr(s.udpBuf)), events
  ensures [empty] content(addr(s.udpBuf)) == ""
  ensures [count] nev() == old(nev()) + (if old(content(addr(s.udpBuf))) == "" then 0 else 1)
  ensures [sent] nev() > old(nev()) ==> event(old(nev()), "udp", s.udpConn, old(content(addr(s.udpBuf))), s.udpAddr)

// ---- C15: names and values
uf itoa(n int) : string as itoa
uf fmtf2(x float64) : string as fmtfloat:f:2:64
uf fmtfm(x float64) : string as fmtfloat:f:-1:64

rec sanz(s string, n int) : string = if n <= 0 then "" else sanz(s, n-1) + (if sanch(s[n-1]) then substr(s, n-1, 1) else "$")
pred sanch(c int) = (65 <= c && c <= 90) || (97 <= c && c <= 122) || (48 <= c && c <= 57) || c == 95 || c == 46

fun part(f health.StatsDSinkSanitizationFunc, need bool, k string) : string = if k == "" then "" else (if need then "." + san(f, k) else san(f, k))
rec keyline(f health.StatsDSinkSanitizationFunc, p string, j string, e string, x string) : string =
  part(f, false, p) + part(f, p != "", j) + part(f, p != "" || j != "", e) + part(f, p != "" || j != "" || e != "", x) + ":"
rec msNum(n int) : string = if n >= 10000000 then itoa(n / 1000000) else fmtf2(i2f(n) / i2f(1000000))
rec gNum(v float64) : string = if v < flt("0.1") && v > flt("-0.1") then fmtfm(v) else fmtf2(v)
fun msText(n int) : string = msNum(n) + "|ms\n"
fun gText(v float64) : string = gNum(v) + "|g\n"
fun statusText(c int) : string = if c == health.Success then "success" else if c == health.ValidationError then "validation_error" else if c == health.Panic then "panic" else if c == health.Error then "error" else if c == health.Junk then "junk" else ""

contract health.sanitizeKey(b, s)
  root C15
  requires b != nil && isobj(b)
  assigns content(b)
  invariant [prefix] with $n: int :: 0 <= $n && content(b) == old(content(b)) + sanz(s, $n)
  ensures [replaced] content(b) == old(content(b)) + sanz(s, len(s))

fun kline(s *health.StatsDSink, k health.eventKey) : string = keyline(s.options.SanitizationFunc, s.options.Prefix, k.job, k.event, k.suffix)
pred pbEntry(s *health.StatsDSink, k health.eventKey) =
  let b = s.prefixBuffers[k] :: b.Buffer != nil && isobj(b.Buffer) && allocd(b.Buffer) && 0 <= b.prefixLen && b.prefixLen <= len(content(b.Buffer)) && substr(content(b.Buffer), 0, b.prefixLen) == kline(s, k)
pred pbOK(s *health.StatsDSink) = s.prefixBuffers != nil && (forall k: health.eventKey :: k in s.prefixBuffers ==> pbEntry(s, k))
  && (forall k: health.eventKey, l: health.eventKey :: k in s.prefixBuffers && l in s.prefixBuffers && k != l ==> s.prefixBuffers[k].Buffer != s.prefixBuffers[l].Buffer)

contract (*health.StatsDSink).getPrefixBuffer(s, job, event, suffix)
  root C15
  requires s != nil && isobj(s) && pbOK(s)
  assigns map(s.prefixBuffers), content(s.prefixBuffers[mk(health.eventKey, job, event, suffix)].Buffer)
  ensures [line] result.Buffer != nil && isobj(result.Buffer) && content(result.Buffer) == kline(s, mk(health.eventKey, job, event, suffix))
  ensures [cached] mk(health.eventKey, job, event, suffix) in s.prefixBuffers && s.prefixBuffers[mk(health.eventKey, job, event, suffix)] == result
  ensures [others] forall k: health.eventKey :: k != mk(health.eventKey, job, event, suffix) ==> (k in s.prefixBuffers <==> old(k in s.prefixBuffers)) && s.prefixBuffers[k] == old(s.prefixBuffers[k])
  ensures [buffer] if old(mk(health.eventKey, job, event, suffix) in s.prefixBuffers) then result == old(s.prefixBuffers[mk(health.eventKey, job, event, suffix)]) else fresh(result.Buffer)
  ensures [shape] pbOK(s)

// the two lines of a metric ("" where there is none)
fun l1(s *health.StatsDSink, e string, x string, v string) : string = if s.options.SkipTopLevelEvents then "" else kline(s, mk(health.eventKey, "", e, x)) + v
fun l2(s *health.StatsDSink, j string, e string, x string, v string) : string = if s.options.SkipNestedEvents then "" else kline(s, mk(health.eventKey, j, e, x)) + v
fun pend(s *health.StatsDSink) : string = content(addr(s.udpBuf))
// the lines a and then b were packed after what was pending
pred packed(s *health.StatsDSink, a string, b string) =
  pend(s) == wbuf(wbuf(old(pend(s)), a), b)
  && nev() == old(nev()) + wn(old(pend(s)), a) + wn(wbuf(old(pend(s)), a), b)
  && (wn(old(pend(s)), a) == 1 ==> event(old(nev()), "udp", s.udpConn, old(pend(s)), s.udpAddr))
  && (wn(wbuf(old(pend(s)), a), b) == 1 ==> event(nev() - 1, "udp", s.udpConn, wbuf(old(pend(s)), a), s.udpAddr))
pred stOK(s *health.StatsDSink) = isobj(s) && udpOK(s) && pbOK(s)
fun pb(s *health.StatsDSink, j string, e string, x string) : *bytes.Buffer = s.prefixBuffers[mk(health.eventKey, j, e, x)].Buffer

contract (*health.StatsDSink).writeNanosToTimingBuf(s, nanos)
  root C15
  requires s != nil
  assigns s.timingBuf, elems(s.timingBuf)
  ensures [ms] content(s.timingBuf) == msNum(nanos)

contract (*health.StatsDSink).processEvent(s, job, event)
  root C15
  requires s != nil && stOK(s)
  assigns content(pb(s, "", event, "")), content(pb(s, job, event, "")), map(s.prefixBuffers), content(addr(s.udpBuf)), events
  ensures [shape] stOK(s)
  ensures [lines] packed(s, l1(s, event, "", "1|c\n"), l2(s, job, event, "", "1|c\n"))

contract (*health.StatsDSink).processEventErr(s, job, event)
  root C15
  requires s != nil && stOK(s)
  assigns content(pb(s, "", event, "error")), content(pb(s, job, event, "error")), map(s.prefixBuffers), content(addr(s.udpBuf)), events
  ensures [shape] stOK(s)
  ensures [lines] packed(s, l1(s, event, "error", "1|c\n"), l2(s, job, event, "error", "1|c\n"))

contract (*health.StatsDSink).processTiming(s, job, event, nanos)
  root C15
  requires s != nil && stOK(s)
  assigns content(pb(s, "", event, "")), content(pb(s, job, event, "")), map(s.prefixBuffers), content(addr(s.udpBuf)), s.timingBuf, elems(s.timingBuf), events
  ensures [shape] stOK(s)
  ensures [lines] packed(s, l1(s, event, "", msText(nanos)), l2(s, job, event, "", msText(nanos)))

contract (*health.StatsDSink).processGauge(s, job, event, value)
  root C15
  requires s != nil && stOK(s)
  assigns content(pb(s, "", event, "")), content(pb(s, job, event, "")), map(s.prefixBuffers), content(addr(s.udpBuf)), s.timingBuf, elems(s.timingBuf), events
  ensures [shape] stOK(s)
  ensures [lines] packed(s, l1(s, event, "", gText(value)), l2(s, job, event, "", gText(value)))

contract (*health.StatsDSink).processComplete(s, job, status, nanos)
  root C15
  requires s != nil && stOK(s)
  assigns content(pb(s, job, "", statusText(status))), map(s.prefixBuffers), content(addr(s.udpBuf)), s.timingBuf, elems(s.timingBuf), events
  ensures [shape] stOK(s)
  ensures [lines] packed(s, "", kline(s, mk(health.eventKey, job, "", statusText(status))) + msText(nanos))

contract (*health.StatsDSink).processCmd(s, cmd)
  root C15
  requires s != nil && stOK(s) && cmd != nil
  assigns map(s.prefixBuffers), content(addr(s.udpBuf)), s.timingBuf, elems(s.timingBuf), all bytes.Buffer.* where r: true, events
  ensures [shape] stOK(s)
  ensures [event] cmd.Kind == health.statsdCmdKindEvent ==> packed(s, l1(s, cmd.Event, "", "1|c\n"), l2(s, cmd.Job, cmd.Event, "", "1|c\n"))
  ensures [error] cmd.Kind == health.statsdCmdKindEventErr ==> packed(s, l1(s, cmd.Event, "error", "1|c\n"), l2(s, cmd.Job, cmd.Event, "error", "1|c\n"))
  ensures [timing] cmd.Kind == health.statsdCmdKindTiming ==> packed(s, l1(s, cmd.Event, "", msText(cmd.Nanos)), l2(s, cmd.Job, cmd.Event, "", msText(cmd.Nanos)))
  ensures [gauge] cmd.Kind == health.statsdCmdKindGauge ==> packed(s, l1(s, cmd.Event, "", gText(cmd.Value)), l2(s, cmd.Job, cmd.Event, "", gText(cmd.Value)))
  ensures [complete] cmd.Kind == health.statsdCmdKindComplete ==> packed(s, "", kline(s, mk(health.eventKey, cmd.Job, "", statusText(cmd.Status))) + msText(cmd.Nanos))

counter drainsIn recv:health.statsdEmitCmd (ch, c): c.Kind == health.statsdCmdKindDrain
counter stopsIn recv:health.statsdEmitCmd (ch, c): c.Kind == health.statsdCmdKindStop
counter signals send:struct{} (ch, v): true

pred packedIt(s *health.StatsDSink, n int, a string, b string) =
  pend(s) == wbuf(wbuf(old(pend(s)), a), b)
  && nev() == n + wn(old(pend(s)), a) + wn(wbuf(old(pend(s)), a), b)
  && (wn(old(pend(s)), a) == 1 ==> event(n, "udp", s.udpConn, old(pend(s)), s.udpAddr))
  && (wn(wbuf(old(pend(s)), a), b) == 1 ==> event(nev() - 1, "udp", s.udpConn, wbuf(old(pend(s)), a), s.udpAddr))
pred gotStat(s *health.StatsDSink) = nev() > old(nev()) && event(old(nev()), "recv:health.statsdEmitCmd", s.cmdChan, _)
fun statCmd() : health.statsdEmitCmd = evarg(ev(old(nev())), "recv:health.statsdEmitCmd", 1)
fun din(s *health.StatsDSink) : int = cnt(drainsIn, s.cmdChan) - old(cnt(drainsIn, s.cmdChan))
fun dout(s *health.StatsDSink) : int = cnt(signals, s.drainDoneChan) - old(cnt(signals, s.drainDoneChan))
fun sin(s *health.StatsDSink) : int = cnt(stopsIn, s.cmdChan) - old(cnt(stopsIn, s.cmdChan))
fun sout(s *health.StatsDSink) : int = cnt(signals, s.stopDoneChan) - old(cnt(signals, s.stopDoneChan))

contract (*health.StatsDSink).loop(s)
  noframe
  root C16
  requires s != nil && stOK(s) && s.flushPeriod > 0 && s.drainDoneChan != s.stopDoneChan
  invariant [shape] stOK(s)
  invariant [chans] s.cmdChan == old(s.cmdChan) && s.drainDoneChan == old(s.drainDoneChan) && s.stopDoneChan == old(s.stopDoneChan) && s.udpConn == old(s.udpConn)
  invariant [owed] with $d: int :: din(s) == dout(s) + $d
  invariant [answered] din(s) == dout(s)
  invariant [running] sin(s) == 0 && sout(s) == 0
  iter [one] gotStat(s)
  iter [metric-event] statCmd().Kind == health.statsdCmdKindEvent ==> packedIt(s, old(nev()) + 1, l1(s, statCmd().Event, "", "1|c\n"), l2(s, statCmd().Job, statCmd().Event, "", "1|c\n"))
  iter [metric-error] statCmd().Kind == health.statsdCmdKindEventErr ==> packedIt(s, old(nev()) + 1, l1(s, statCmd().Event, "error", "1|c\n"), l2(s, statCmd().Job, statCmd().Event, "error", "1|c\n"))
  iter [metric-timing] statCmd().Kind == health.statsdCmdKindTiming ==> packedIt(s, old(nev()) + 1, l1(s, statCmd().Event, "", msText(statCmd().Nanos)), l2(s, statCmd().Job, statCmd().Event, "", msText(statCmd().Nanos)))
  iter [metric-gauge] statCmd().Kind == health.statsdCmdKindGauge ==> packedIt(s, old(nev()) + 1, l1(s, statCmd().Event, "", gText(statCmd().Value)), l2(s, statCmd().Job, statCmd().Event, "", gText(statCmd().Value)))
  iter [metric-complete] statCmd().Kind == health.statsdCmdKindComplete ==> packedIt(s, old(nev()) + 1, "", kline(s, mk(health.eventKey, statCmd().Job, "", statusText(statCmd().Status))) + msText(statCmd().Nanos))
  iter [flush] statCmd().Kind == health.statsdCmdKindFlush ==> pend(s) == "" && nev() == old(nev()) + (if old(pend(s)) == "" then 1 else 2) && (old(pend(s)) != "" ==> event(old(nev()) + 1, "udp", s.udpConn, old(pend(s)), s.udpAddr))
  iter [drain] statCmd().Kind == health.statsdCmdKindDrain ==> pend(s) == ""
  inneriter [metric-event] gotStat(s) && statCmd().Kind == health.statsdCmdKindEvent ==> packedIt(s, old(nev()) + 1, l1(s, statCmd().Event, "", "1|c\n"), l2(s, statCmd().Job, statCmd().Event, "", "1|c\n"))
  inneriter [metric-error] gotStat(s) && statCmd().Kind == health.statsdCmdKindEventErr ==> packedIt(s, old(nev()) + 1, l1(s, statCmd().Event, "error", "1|c\n"), l2(s, statCmd().Job, statCmd().Event, "error", "1|c\n"))
  inneriter [metric-timing] gotStat(s) && statCmd().Kind == health.statsdCmdKindTiming ==> packedIt(s, old(nev()) + 1, l1(s, statCmd().Event, "", msText(statCmd().Nanos)), l2(s, statCmd().Job, statCmd().Event, "", msText(statCmd().Nanos)))
  inneriter [metric-gauge] gotStat(s) && statCmd().Kind == health.statsdCmdKindGauge ==> packedIt(s, old(nev()) + 1, l1(s, statCmd().Event, "", gText(statCmd().Value)), l2(s, statCmd().Job, statCmd().Event, "", gText(statCmd().Value)))
  inneriter [metric-complete] gotStat(s) && statCmd().Kind == health.statsdCmdKindComplete ==> packedIt(s, old(nev()) + 1, "", kline(s, mk(health.eventKey, statCmd().Job, "", statusText(statCmd().Status))) + msText(statCmd().Nanos))
  ensures [last] event(nev() - 1, "send:struct{}", s.stopDoneChan, _) || (event(nev() - 2, "send:struct{}", s.stopDoneChan, _) && evis(ev(nev() - 1), "ticker.Stop"))
  ensures [answered] din(s) == dout(s) && sin(s) == 1 && sout(s) == 1

contract (*health.StatsDSink).EmitEvent(s, job, event, kvs)
  root C16
  requires s != nil
  assigns events
  ensures [sent] nev() == old(nev()) + 1 && event(old(nev()), "send:health.statsdEmitCmd", s.cmdChan, mk(health.statsdEmitCmd, health.statsdCmdKindEvent, job, event, 0, i2f(0), 0))

contract (*health.StatsDSink).EmitEventErr(s, job, event, inputErr, kvs)
  root C16
  requires s != nil
  assigns events
  ensures [sent] nev() == old(nev()) + 1 && event(old(nev()), "send:health.statsdEmitCmd", s.cmdChan, mk(health.statsdEmitCmd, health.statsdCmdKindEventErr, job, event, 0, i2f(0), 0))

contract (*health.StatsDSink).EmitTiming(s, job, event, nanos, kvs)
  root C16
  requires s != nil
  assigns events
  ensures [sent] nev() == old(nev()) + 1 && event(old(nev()), "send:health.statsdEmitCmd", s.cmdChan, mk(health.statsdEmitCmd, health.statsdCmdKindTiming, job, event, nanos, i2f(0), 0))

contract (*health.StatsDSink).EmitGauge(s, job, event, value, kvs)
  root C16
  requires s != nil
  assigns events
  ensures [sent] nev() == old(nev()) + 1 && event(old(nev()), "send:health.statsdEmitCmd", s.cmdChan, mk(health.statsdEmitCmd, health.statsdCmdKindGauge, job, event, 0, value, 0))

contract (*health.StatsDSink).EmitComplete(s, job, status, nanos, kvs)
  root C16
  requires s != nil
  assigns events
  ensures [sent] nev() == old(nev()) + 1 && event(old(nev()), "send:health.statsdEmitCmd", s.cmdChan, mk(health.statsdEmitCmd, health.statsdCmdKindComplete, job, "", nanos, i2f(0), status))

contract (*health.StatsDSink).Drain(s)
  root C16
  requires s != nil
  assigns events
  ensures [answered] nev() == old(nev()) + 2 && event(old(nev()), "send:health.statsdEmitCmd", s.cmdChan, _) && evarg(ev(old(nev())), "send:health.statsdEmitCmd", 1).Kind == health.statsdCmdKindDrain && event(old(nev())+1, "recv:struct{}", s.drainDoneChan, _)

contract (*health.StatsDSink).Stop(s)
  root C16
  requires s != nil
  assigns events
  ensures [answered] nev() == old(nev()) + 2 && event(old(nev()), "send:health.statsdEmitCmd", s.cmdChan, _) && evarg(ev(old(nev())), "send:health.statsdEmitCmd", 1).Kind == health.statsdCmdKindStop && event(old(nev())+1, "recv:struct{}", s.stopDoneChan, _)

contract health.NewStatsDSink(addr, options)
  assigns events
  root C15 C16
  ensures [C15 given] result1 == nil && options != nil ==> result0.options.Prefix == options.Prefix && result0.options.SkipNestedEvents == options.SkipNestedEvents && result0.options.SkipTopLevelEvents == options.SkipTopLevelEvents
  ensures [C15 sanitize] result1 == nil ==> result0.options.SanitizationFunc == (if options == nil || options.SanitizationFunc == nil then global(health.sanitizeKey) else options.SanitizationFunc)
  ensures [C15 default] result1 == nil && options == nil ==> result0.options.Prefix == "" && !result0.options.SkipNestedEvents && !result0.options.SkipTopLevelEvents
  ensures [C15 ready] result1 == nil ==> stOK(result0) && pend(result0) == ""
  ensures [C16 started] result1 == nil ==> result0 != nil && result0.flushPeriod > 0 && result0.cmdChan != nil && result0.drainDoneChan != nil && result0.stopDoneChan != nil && result0.drainDoneChan != result0.stopDoneChan && event(nev()-1, "go:(*health.StatsDSink).loop", result0)
  ensures [C16 failed] result1 != nil ==> result0 == nil
