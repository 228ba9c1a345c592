// ---------------------------------------------------------------------------
// The polling sink: forwarding to its aggregator, the aggregator's loop, /health.
// ---------------------------------------------------------------------------

// what travels to the aggregator: a command; errors come with their error
chan *health.emitCmd (c) [command]: c != nil && allocd(c) && isobj(c) && (c.Kind == health.cmdKindEventErr ==> c.Err != nil)

// exactly one command was sent on this sink's command channel, holding v
pred sentOnly(s *health.JsonPollingSink) = nev() == old(nev()) + 1 && event(old(nev()), "send:*health.emitCmd", s.cmdChan, _)
pred sentOnly2(s *health.JsonPollingSink, v health.emitCmd) = sentOnly(s) && evcap(ev(old(nev())), "send:*health.emitCmd", 1, 0) == v

contract (*health.JsonPollingSink).EmitEvent(s, job, event, kvs)
  root C06
  requires s != nil
  assigns events
  ensures [sent] sentOnly2(s, mk(health.emitCmd, health.cmdKindEvent, job, event, nil, 0, i2f(0), 0))

contract (*health.JsonPollingSink).EmitEventErr(s, job, event, inputErr, kvs)
  root C06
  requires s != nil && inputErr != nil
  assigns events
  ensures [sent] sentOnly2(s, mk(health.emitCmd, health.cmdKindEventErr, job, event, inputErr, 0, i2f(0), 0))

contract (*health.JsonPollingSink).EmitTiming(s, job, event, nanos, kvs)
  root C06
  requires s != nil
  assigns events
  ensures [sent] sentOnly2(s, mk(health.emitCmd, health.cmdKindTiming, job, event, nil, nanos, i2f(0), 0))

contract (*health.JsonPollingSink).EmitGauge(s, job, event, value, kvs)
  root C06
  requires s != nil
  assigns events
  ensures [sent] sentOnly2(s, mk(health.emitCmd, health.cmdKindGauge, job, event, nil, 0, value, 0))

contract (*health.JsonPollingSink).EmitComplete(s, job, status, nanos, kvs)
  root C06
  requires s != nil
  assigns events
  ensures [sent] sentOnly2(s, mk(health.emitCmd, health.cmdKindComplete, job, "", nil, nanos, i2f(0), status))

contract (*health.JsonPollingSink).GetMetrics(s)
  root C09
  requires s != nil
  assigns events
  ensures [C09 asked] nev() == old(nev()) + 2 && evis(ev(old(nev())), "send:chan []*health.IntervalAggregation") && evarg(ev(old(nev())), "send:chan []*health.IntervalAggregation", 0) == s.intervalsChanChan
  ensures [C09 answer] event(old(nev())+1, "recv:[]*health.IntervalAggregation", evarg(ev(old(nev())), "send:chan []*health.IntervalAggregation", 1), result) && fresh(evarg(ev(old(nev())), "send:chan []*health.IntervalAggregation", 1))

pred last(a *health.aggregator, c *health.IntervalAggregation) = len(a.intervalAggregations) > 0 && c == a.intervalAggregations[len(a.intervalAggregations)-1]
fun cur(a *health.aggregator) : *health.IntervalAggregation = a.intervalAggregations[len(a.intervalAggregations)-1]
pred gotCmd(s *health.JsonPollingSink) = event(old(nev()), "recv:*health.emitCmd", s.cmdChan, _)
fun theCmd() : *health.emitCmd = evarg(ev(old(nev())), "recv:*health.emitCmd", 1)
pred recording(a *health.aggregator, job string) = slid(a, cur(a)) && current(tns(cur(a).IntervalStart), a.intervalDuration) && jobsOf(cur(a), job) && serialUp(cur(a))

contract health.startAggregator(intervalDuration, retain, sink)
  noreqinv
  noframe
  root C06 C08 C09
  requires sink != nil && intervalDuration > 0
  invariant [shape] with $a: *health.aggregator :: agShape($a) && agDistinct($a)
  invariant [config] with $a: *health.aggregator :: $a.intervalDuration == intervalDuration && $a.maxIntervals == (if retain < intervalDuration then 1 else retain / intervalDuration)
  invariant [sink] sink.cmdChan == old(sink.cmdChan) && sink.doneChan == old(sink.doneChan) && sink.doneDoneChan == old(sink.doneDoneChan) && sink.intervalsChanChan == old(sink.intervalsChanChan)
  ensures [C06 stopped] nev() >= 2 && event(nev()-2, "recv:int", sink.doneChan, _) && event(nev()-1, "send:int", sink.doneDoneChan, _)
  iter [C06 one] !exiting ==> gotCmd(sink) || evis(ev(old(nev())), "recv:time.Time") || evis(ev(old(nev())), "recv:chan []*health.IntervalAggregation")
  iter [C06 config] with $a: *health.aggregator :: $a.intervalDuration == intervalDuration && $a.maxIntervals == (if retain < intervalDuration then 1 else retain / intervalDuration)
  iter [C06 silent] gotCmd(sink) ==> nev() == old(nev()) + 1 && !exiting
  iter [C06 event] with $a: *health.aggregator :: gotCmd(sink) && theCmd().Kind == health.cmdKindEvent ==> recording($a, theCmd().Job) && emittedEvent(cur($a), theCmd().Job, theCmd().Event)
  iter [C06 error] with $a: *health.aggregator :: gotCmd(sink) && theCmd().Kind == health.cmdKindEventErr ==> recording($a, theCmd().Job) && emittedErr(cur($a), theCmd().Job, theCmd().Event, theCmd().Err)
  iter [C06 timing] with $a: *health.aggregator :: gotCmd(sink) && theCmd().Kind == health.cmdKindTiming ==> recording($a, theCmd().Job) && emittedTiming(cur($a), theCmd().Job, theCmd().Event, theCmd().Nanos)
  iter [C06 gauge] with $a: *health.aggregator :: gotCmd(sink) && theCmd().Kind == health.cmdKindGauge ==> recording($a, theCmd().Job) && emittedGauge(cur($a), theCmd().Job, theCmd().Event, theCmd().Value)
  iter [C06 complete] with $a: *health.aggregator :: gotCmd(sink) && theCmd().Kind == health.cmdKindComplete ==> recording($a, theCmd().Job) && emittedComplete(cur($a), theCmd().Job, theCmd().Status, theCmd().Nanos)
  iter [C08 tick] with $a: *health.aggregator :: evis(ev(old(nev())), "recv:time.Time") ==> slid($a, cur($a)) && current(tns(cur($a).IntervalStart), $a.intervalDuration) && nev() == old(nev()) + 1
  iter [C09 asked] evis(ev(old(nev())), "recv:chan []*health.IntervalAggregation") ==> nev() == old(nev()) + 2 && !exiting && event(old(nev())+1, "send:[]*health.IntervalAggregation", evarg(ev(old(nev())), "recv:chan []*health.IntervalAggregation", 1), _)
  iter [C09 snapshot] with $a: *health.aggregator :: evis(ev(old(nev())), "recv:chan []*health.IntervalAggregation") ==> (let r = evarg(ev(old(nev())+1), "send:[]*health.IntervalAggregation", 1) ::
     slid($a, cur($a)) && current(tns(cur($a).IntervalStart), $a.intervalDuration) && fresh(base(r)) && len(r) == len($a.intervalAggregations)
     && (forall i: int :: 0 <= i && i < len(r)-1 ==> r[i] == $a.intervalAggregations[i]) && copyIA(r[len(r)-1], $a.intervalAggregations[len(r)-1]))

contract health.NewJsonPollingSink(intervalDuration, retain)
  root C06 C09
  assigns events
  ensures [C06 started] nev() == old(nev()) + 1 && event(old(nev()), "go:health.startAggregator", intervalDuration, retain, result)
  ensures [C06 channels] result != nil && fresh(result) && result.cmdChan != nil && result.doneChan != nil && result.doneDoneChan != nil && result.intervalsChanChan != nil && result.doneChan != result.doneDoneChan
  ensures [C09 interval] result.intervalDuration == intervalDuration

contract (*health.JsonPollingSink).ShutdownServer(s)
  root C06
  requires s != nil
  assigns events
  ensures [stopped] nev() == old(nev()) + 2 && event(old(nev()), "send:int", s.doneChan, _) && event(old(nev())+1, "recv:int", s.doneDoneChan, _)

// ---- GET /health

uf headerof(rw any) : Ref as headerof

fun metricsResp(s *health.JsonPollingSink) : health.HealthAggregationsResponse = mk(health.HealthAggregationsResponse, global(health.Identifier), s.intervalDuration, evarg(ev(old(nev())+2), "recv:[]*health.IntervalAggregation", 1))

contract (*health.JsonPollingSink).ServeHTTP(s, rw, r)
  root C10
  requires s != nil && rw != nil && r != nil && r.URL != nil
  assigns events
  ensures [type] event(old(nev()), "Header.Set", headerof(rw), "Content-Type", "application/json; charset=utf-8")
  ensures [asks] r.URL.Path == "/health" ==> evis(ev(old(nev())+1), "send:chan []*health.IntervalAggregation") && evarg(ev(old(nev())+1), "send:chan []*health.IntervalAggregation", 0) == s.intervalsChanChan && event(old(nev())+2, "recv:[]*health.IntervalAggregation", evarg(ev(old(nev())+1), "send:chan []*health.IntervalAggregation", 1), _)
  ensures [body] r.URL.Path == "/health" && jsonerr(metricsResp(s)) == nil ==> nev() == old(nev()) + 4 && event(old(nev())+3, Write, rw, jsonof(metricsResp(s)))
  ensures [unencodable] r.URL.Path == "/health" && jsonerr(metricsResp(s)) != nil ==> nev() == old(nev()) + 5 && event(old(nev())+3, WriteHeader, rw, 500) && evis(ev(old(nev())+4), Write) && evarg(ev(old(nev())+4), Write, 0) == rw && prefix(evarg(ev(old(nev())+4), Write, 1), "{\"error\": \"")
  ensures [notfound] r.URL.Path != "/health" ==> nev() == old(nev()) + 3 && event(old(nev())+1, WriteHeader, rw, 404) && event(old(nev())+2, Write, rw, "{\"error\": \"not_found\"}")
