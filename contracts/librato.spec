// ---------------------------------------------------------------------------
// The Librato sink.
// ---------------------------------------------------------------------------

// what a sanitization function makes of a name: a function of the name alone
uf lsan(f librato.SanitizationFunc, s string) : string
contract functype:func(string) string
  ensures result == lsan(callee, arg0)

// ---- names
uf runeat(s string, p int) : int as runeat
uf runepos(s string, n int) : int as runepos
uf runecount(s string) : int as runecount
pred validRune(r int) = (65 <= r && r <= 90) || (97 <= r && r <= 122) || (48 <= r && r <= 57) || r == 46 || r == 58 || r == 45 || r == 95
// the sanitized text of the first n runes of s: every rune that is not allowed becomes "_"
rec lsanz(s string, n int) : string = if n <= 0 then "" else lsanz(s, n-1) + (if validRune(runeat(s, runepos(s, n-1))) then chr(runeat(s, runepos(s, n-1))) else "_")

contract librato.shouldSanitize(r)
  root C20
  assigns nothing
  ensures [valid] result <==> !validRune(r)

contract librato.sanitizeKey(k)
  root C20
  assigns nothing
  invariant [prefix] lsanz(k, strcount(k)) == substr(k, 0, strpos(k))
  invariant [built] with $b: *bytes.Buffer :: content($b) == lsanz(k, strcount(k))
  ensures [replaced] result == lsanz(k, runecount(k))

fun lpre(p string) : string = if p == "" then "" else p + "."
fun lsuf(x string) : string = if x == "" then "" else "." + x
fun lk1(s *librato.Sink, e string, x string) : string = lpre(s.prefix) + lsan(s.SanitizationFunc, e) + lsuf(x)
fun lk2(s *librato.Sink, j string, e string, x string) : string = lpre(s.prefix) + lsan(s.SanitizationFunc, j) + "." + lsan(s.SanitizationFunc, e) + lsuf(x)

contract (*librato.Sink).eventKeys(s, job, event, suffix)
  root C20
  requires s != nil && s.SanitizationFunc != nil
  assigns nothing
  ensures [event] result0 == lk1(s, event, suffix)
  ensures [job] result1 == lk2(s, job, event, suffix)

// ---- this period's data
pred tmOK(s *librato.Sink) = s.timers != nil && (forall k: string :: k in s.timers ==> s.timers[k] != nil && isobj(s.timers[k]) && allocd(s.timers[k]))
  && (forall k: string, l: string :: k in s.timers && l in s.timers && k != l ==> s.timers[k] != s.timers[l])
pred lbOK(s *librato.Sink) = isobj(s) && tmOK(s) && s.counters != nil && s.SanitizationFunc != nil

contract (*librato.Sink).inc(s, key)
  root C20
  requires s != nil && s.counters != nil
  assigns map(s.counters)
  ensures [one] key in s.counters && s.counters[key] == old(s.counters[key]) + 1
  ensures [others] forall k: string :: k != key ==> (k in s.counters <==> old(k in s.counters)) && s.counters[k] == old(s.counters[k])

// the statistics g are those of a single value v
pred single(g *librato.gauge, v float64) = g.Count == 1 && g.Sum == v && g.SumSquares == v * v && g.Min == v && g.Max == v && g.Attributes == global(librato.defaultTimerAttributes)
// they are now those of one more value v
pred added(g *librato.gauge, v float64) = g.Count == old(g.Count) + 1 && g.Sum == old(g.Sum) + v && g.SumSquares == old(g.SumSquares) + v * v
  && g.Min == (if v < old(g.Min) then v else old(g.Min)) && g.Max == (if v > old(g.Max) then v else old(g.Max)) && g.Attributes == old(g.Attributes)
pred lmeasured(s *librato.Sink, key string, v float64) = key in s.timers && (if old(key in s.timers) then s.timers[key] == old(s.timers[key]) && added(s.timers[key], v) else fresh(s.timers[key]) && single(s.timers[key], v))

contract (*librato.Sink).measure(s, key, value)
  root C20
  requires s != nil && tmOK(s)
  assigns map(s.timers), all librato.gauge.* where r: key in s.timers && r == s.timers[key]
  ensures [value] lmeasured(s, key, value)
  ensures [others] forall k: string :: k != key ==> (k in s.timers <==> old(k in s.timers)) && s.timers[k] == old(s.timers[k])
  ensures [shape] tmOK(s)

pred lcounted(s *librato.Sink, a string, b string) = a != b && a in s.counters && b in s.counters && s.counters[a] == old(s.counters[a]) + 1 && s.counters[b] == old(s.counters[b]) + 1
  && (forall k: string :: k != a && k != b ==> (k in s.counters <==> old(k in s.counters)) && s.counters[k] == old(s.counters[k]))
pred measured2(s *librato.Sink, a string, b string, v float64) = a != b && lmeasured(s, a, v) && lmeasured(s, b, v)
  && (forall k: string :: k != a && k != b ==> (k in s.timers <==> old(k in s.timers)) && s.timers[k] == old(s.timers[k]))

contract (*librato.Sink).processEvent(s, job, event)
  root C20
  requires s != nil && lbOK(s)
  assigns map(s.counters)
  ensures [counted] lcounted(s, lk1(s, event, "count"), lk2(s, job, event, "count"))

contract (*librato.Sink).processEventErr(s, job, event, err)
  root C20
  requires s != nil && lbOK(s)
  assigns map(s.counters)
  ensures [counted] lcounted(s, lk1(s, event, "error.count"), lk2(s, job, event, "error.count"))

contract (*librato.Sink).processTiming(s, job, event, nanos)
  root C20
  requires s != nil && lbOK(s)
  assigns map(s.timers), all librato.gauge.* where r: (lk1(s, event, "timing") in s.timers && r == s.timers[lk1(s, event, "timing")]) || (lk2(s, job, event, "timing") in s.timers && r == s.timers[lk2(s, job, event, "timing")])
  ensures [shape] lbOK(s)
  ensures [measured] measured2(s, lk1(s, event, "timing"), lk2(s, job, event, "timing"), i2f(nanos) / i2f(1000000))

contract (*librato.Sink).processGauge(s, job, event, value)
  root C20
  requires s != nil && lbOK(s)
  assigns map(s.timers), all librato.gauge.* where r: (lk1(s, event, "gauge") in s.timers && r == s.timers[lk1(s, event, "gauge")]) || (lk2(s, job, event, "gauge") in s.timers && r == s.timers[lk2(s, job, event, "gauge")])
  ensures [shape] lbOK(s)
  ensures [measured] measured2(s, lk1(s, event, "gauge"), lk2(s, job, event, "gauge"), value)

fun lkc(s *librato.Sink, j string, c int) : string = lpre(s.prefix) + lsan(s.SanitizationFunc, j) + "." + statusText(c) + ".timing"
contract (*librato.Sink).processComplete(s, job, status, nanos)
  root C20
  requires s != nil && lbOK(s)
  assigns map(s.timers), all librato.gauge.* where r: lkc(s, job, status) in s.timers && r == s.timers[lkc(s, job, status)]
  ensures [shape] lbOK(s)
  ensures [measured] lmeasured(s, lkc(s, job, status), i2f(nanos) / i2f(1000000))
  ensures [others] forall k: string :: k != lkc(s, job, status) ==> (k in s.timers <==> old(k in s.timers)) && s.timers[k] == old(s.timers[k])

// ---- flushing
uf reqmethod(r *http.Request) : string as reqmethod
uf requrl(r *http.Request) : string as requrl
uf reqheader(r *http.Request) : http.Header as reqheader
uf reqbody(r *http.Request) : string as reqbody
fun lpost() : librato.libratoMetricsPost = dyn(ghost(marshaled), librato.libratoMetricsPost)
// what is encoded holds all of the period's statistics, under their names
pred lencodes(s *librato.Sink) = typeis(ghost(marshaled), librato.libratoMetricsPost)
  && lpost().MeasureTime == clock() / 1000000000 - 62135596800 && lpost().Period == s.FlushPeriod / 1000000000 && lpost().Source == s.Source
  && (forall k: string :: k in lpost().Gauges <==> k in s.timers || k in s.counters)
  && (forall k: string :: k in s.counters ==> typeis(lpost().Gauges[k], librato.libratoCounterValue) && dyn(lpost().Gauges[k], librato.libratoCounterValue) == mk(librato.libratoCounterValue, s.counters[k], global(librato.defaultCounterAttributes)))
  && (forall k: string :: k in s.timers && !(k in s.counters) ==> typeis(lpost().Gauges[k], *librato.gauge) && dyn(lpost().Gauges[k], *librato.gauge) == s.timers[k])

pred lhaveData(s *librato.Sink) = card(dom(s.timers)) > 0 || card(dom(s.counters)) > 0
// from event n on: the encoded data is posted once with the account's credentials
pred postedFrom(s *librato.Sink, n int) = nev() == n + 3 && event(n, "Header.Add", _, "Content-Type", "application/json") && event(n + 1, SetBasicAuth, _, s.libratoUser, s.libratoApiKey)
  && event(n + 2, "http.Do", _) && evarg(ev(n + 2), "http.Do", 0) == evarg(ev(n + 1), SetBasicAuth, 0)
  && (let r = evarg(ev(n + 2), "http.Do", 0) :: reqmethod(r) == "POST" && requrl(r) == global(librato.libratoRequestPath) && reqbody(r) == ghost(marshaltext) && evarg(ev(n), "Header.Add", 0) == reqheader(r))

contract (*librato.Sink).send(s)
  root C20
  inline
  requires s != nil && lbOK(s) && s.httpClient != nil && s.FlushPeriod >= 0
  assigns events
  invariant [tdom] with $g: map[string]interface{} :: forall k: string :: k in $g <==> visited(s.timers)[k]
  invariant [timers] with $g: map[string]interface{} :: (forall k: string :: visited(s.timers)[k] ==> typeis($g[k], *librato.gauge) && dyn($g[k], *librato.gauge) == s.timers[k])
  invariant [both] with $g: map[string]interface{} :: forall k: string :: k in $g <==> k in s.timers || visited(s.counters)[k]
  invariant [counters] with $g: map[string]interface{} :: forall k: string :: visited(s.counters)[k] ==> typeis($g[k], librato.libratoCounterValue) && dyn($g[k], librato.libratoCounterValue) == mk(librato.libratoCounterValue, s.counters[k], global(librato.defaultCounterAttributes))
  invariant [kept] with $g: map[string]interface{} :: forall k: string :: k in s.timers && !visited(s.counters)[k] ==> typeis($g[k], *librato.gauge) && dyn($g[k], *librato.gauge) == s.timers[k]
  ensures [nothing] !lhaveData(s) ==> nev() == old(nev()) && result == nil
  ensures [data] lhaveData(s) ==> at(marshaled, lencodes(s))
  ensures [posted] lhaveData(s) ==> postedFrom(s, old(nev())) || (nev() == old(nev()) && result != nil)
  ensures [names] jsonname("librato.libratoMetricsPost", "MeasureTime") == "measure_time" && jsonname("librato.libratoMetricsPost", "Period") == "period" && jsonname("librato.libratoMetricsPost", "Source") == "source,omitempty" && jsonname("librato.libratoMetricsPost", "Gauges") == "gauges,omitempty"
    && jsonname("librato.gauge", "Count") == "count" && jsonname("librato.gauge", "Sum") == "sum" && jsonname("librato.gauge", "Min") == "min" && jsonname("librato.gauge", "Max") == "max" && jsonname("librato.gauge", "SumSquares") == "sum_squares" && jsonname("librato.libratoCounterValue", "Value") == "value"

pred lemptied(s *librato.Sink) = fresh(s.timers) && fresh(s.counters) && card(dom(s.timers)) == 0 && card(dom(s.counters)) == 0
contract (*librato.Sink).purge(s)
  root C20
  inline
  requires s != nil && lbOK(s) && s.httpClient != nil && s.FlushPeriod >= 0
  assigns s.timers, s.counters, events
  ensures [nothing] !old(lhaveData(s)) ==> nev() == old(nev())
  ensures [data] old(lhaveData(s)) ==> at(marshaled, lencodes(s))
  ensures [posted] old(lhaveData(s)) ==> postedFrom(s, old(nev())) || nev() == old(nev())
  ensures [next] lemptied(s) && lbOK(s)

chan *librato.emitCmd (c) [command]: c != nil && isobj(c)
pred lgotCmd(s *librato.Sink) = nev() > old(nev()) && event(old(nev()), "recv:*librato.emitCmd", s.cmdChan, _)
fun lcmd() : *librato.emitCmd = evarg(ev(old(nev())), "recv:*librato.emitCmd", 1)
pred lgotTick(s *librato.Sink) = nev() > old(nev()) && event(old(nev()), "recv:time.Time", _, _)
pred lsameT(s *librato.Sink) = s.timers == old(s.timers) && (forall k: string :: (k in s.timers <==> old(k in s.timers)) && s.timers[k] == old(s.timers[k])) && (forall k: string :: k in s.timers ==> lsameG(s.timers[k]))
pred lsameG(g *librato.gauge) = g.Count == old(g.Count) && g.Sum == old(g.Sum) && g.SumSquares == old(g.SumSquares) && g.Min == old(g.Min) && g.Max == old(g.Max)
pred lsameC(s *librato.Sink) = s.counters == old(s.counters) && (forall k: string :: (k in s.counters <==> old(k in s.counters)) && s.counters[k] == old(s.counters[k]))

contract (*librato.Sink).start(s)
  noframe
  root C20
  requires s != nil && lbOK(s) && s.httpClient != nil && s.FlushPeriod > 0 && s.cmdChan != nil && s.doneChan != nil && s.doneDoneChan != nil
  invariant [shape] lbOK(s) && s.httpClient != nil && s.FlushPeriod == old(s.FlushPeriod)
  iter [event] lgotCmd(s) && lcmd().Kind == librato.cmdKindEvent ==> nev() == old(nev()) + 1 && lsameT(s) && lcounted(s, lk1(s, lcmd().Event, "count"), lk2(s, lcmd().Job, lcmd().Event, "count"))
  iter [error] lgotCmd(s) && lcmd().Kind == librato.cmdKindEventErr ==> nev() == old(nev()) + 1 && lsameT(s) && lcounted(s, lk1(s, lcmd().Event, "error.count"), lk2(s, lcmd().Job, lcmd().Event, "error.count"))
  iter [timing] lgotCmd(s) && lcmd().Kind == librato.cmdKindTiming ==> nev() == old(nev()) + 1 && lsameC(s) && measured2(s, lk1(s, lcmd().Event, "timing"), lk2(s, lcmd().Job, lcmd().Event, "timing"), i2f(lcmd().Nanos) / i2f(1000000))
  iter [gauge] lgotCmd(s) && lcmd().Kind == librato.cmdKindGauge ==> nev() == old(nev()) + 1 && lsameC(s) && measured2(s, lk1(s, lcmd().Event, "gauge"), lk2(s, lcmd().Job, lcmd().Event, "gauge"), lcmd().Value)
  iter [complete] lgotCmd(s) && lcmd().Kind == librato.cmdKindComplete ==> nev() == old(nev()) + 1 && lsameC(s) && lmeasured(s, lkc(s, lcmd().Job, lcmd().Status), i2f(lcmd().Nanos) / i2f(1000000))
  iter [on] lgotCmd(s) || lgotTick(s) ==> !exiting
  iter [flush] lgotTick(s) ==> lemptied(s) && (if old(lhaveData(s)) then postedFrom(s, old(nev()) + 1) || nev() == old(nev()) + 1 else nev() == old(nev()) + 1)
  iter [period] lgotTick(s) && old(lhaveData(s)) ==> at(marshaled, lencodes(s))
  iter [stop] exiting ==> nev() > old(nev()) && event(old(nev()), "recv:int", s.doneChan, _)
  ensures [answered] event(nev() - 1, "send:int", s.doneDoneChan, _)

fun lemit() : *librato.emitCmd = evarg(ev(old(nev())), "send:*librato.emitCmd", 1)
pred lsent(s *librato.Sink) = nev() == old(nev()) + 1 && event(old(nev()), "send:*librato.emitCmd", s.cmdChan, _) && fresh(lemit())
contract (*librato.Sink).EmitEvent(s, job, event, kvs)
  root C20
  requires s != nil
  assigns events
  ensures [sent] lsent(s) && lemit().Kind == librato.cmdKindEvent && lemit().Job == job && lemit().Event == event
contract (*librato.Sink).EmitEventErr(s, job, event, inputErr, kvs)
  root C20
  requires s != nil
  assigns events
  ensures [sent] lsent(s) && lemit().Kind == librato.cmdKindEventErr && lemit().Job == job && lemit().Event == event
contract (*librato.Sink).EmitTiming(s, job, event, nanos, kvs)
  root C20
  requires s != nil
  assigns events
  ensures [sent] lsent(s) && lemit().Kind == librato.cmdKindTiming && lemit().Job == job && lemit().Event == event && lemit().Nanos == nanos
contract (*librato.Sink).EmitGauge(s, job, event, value, kvs)
  root C20
  requires s != nil
  assigns events
  ensures [sent] lsent(s) && lemit().Kind == librato.cmdKindGauge && lemit().Job == job && lemit().Event == event && lemit().Value == value
contract (*librato.Sink).EmitComplete(s, job, status, nanos, kvs)
  root C20
  requires s != nil
  assigns events
  ensures [sent] lsent(s) && lemit().Kind == librato.cmdKindComplete && lemit().Job == job && lemit().Status == status && lemit().Nanos == nanos
contract (*librato.Sink).Stop(s)
  root C20
  requires s != nil
  assigns events
  ensures [stopped] nev() == old(nev()) + 2 && event(old(nev()), "send:int", s.doneChan, _) && event(old(nev()) + 1, "recv:int", s.doneDoneChan, _)
contract librato.New(user, apiKey, prefix)
  root C20
  assigns events
  ensures [fresh] result != nil && fresh(result)
  ensures [lb] lbOK(result)
  ensures [empty] lemptied(result)
  ensures [ready] result.httpClient != nil && result.FlushPeriod > 0 && result.cmdChan != nil && result.doneChan != nil && result.doneDoneChan != nil
  ensures [given] result.libratoUser == user && result.libratoApiKey == apiKey && result.prefix == prefix && result.SanitizationFunc == global(librato.sanitizeKey)
  ensures [started] nev() == old(nev()) + 1 && event(old(nev()), "go:(*librato.Sink).start", result)
