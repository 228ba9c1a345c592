// ---------------------------------------------------------------------------
// The polling sink's aggregator: window of intervals, recording, snapshots.
// ---------------------------------------------------------------------------

uf ttrunc(ns int, d int) : int as ttrunc

pred agShape(a *health.aggregator) =
  a != nil && allocd(a.intervalAggregations) && a.maxIntervals >= 1 && len(a.intervalAggregations) <= a.maxIntervals
  && (forall i: int :: 0 <= i && i < len(a.intervalAggregations) ==> a.intervalAggregations[i] != nil && isobj(a.intervalAggregations[i]) && allocd(a.intervalAggregations[i]) && iaOK(a.intervalAggregations[i]))
pred agDistinct(a *health.aggregator) = forall i: int, k: int :: 0 <= i && i < k && k < len(a.intervalAggregations) ==> a.intervalAggregations[i] != a.intervalAggregations[k]
pred isLast(a *health.aggregator, r *health.IntervalAggregation) = len(a.intervalAggregations) > 0 && r == a.intervalAggregations[len(a.intervalAggregations)-1]

pred emptyAM(m *health.aggregationMaps) =
  (forall k: string :: !(k in m.Timers) && !(k in m.Gauges) && !(k in m.Events) && !(k in m.EventErrs))
pred emptyIA(ia *health.IntervalAggregation) = emptyAM(addr(ia.aggregationMaps)) && (forall k: string :: !(k in ia.Jobs)) && ia.SerialNumber == 0
pred freshMaps(m *health.aggregationMaps) = fresh(m.Timers) && fresh(m.Gauges) && fresh(m.Events) && fresh(m.EventErrs)

// the window after the current interval has been looked up: unchanged, or slid by one with a new interval at the end
pred slid(a *health.aggregator, cur *health.IntervalAggregation) =
  let n = old(len(a.intervalAggregations)) :: let m = len(a.intervalAggregations) ::
    if fresh(cur) then
      (if n == a.maxIntervals
        then m == n && a.intervalAggregations[m-1] == cur && (forall i: int :: 0 <= i && i < n-1 ==> a.intervalAggregations[i] == old(a.intervalAggregations[i+1]))
        else m == n+1 && a.intervalAggregations[m-1] == cur && (forall i: int :: 0 <= i && i < n ==> a.intervalAggregations[i] == old(a.intervalAggregations[i])))
    else m == n && n > 0 && cur == old(a.intervalAggregations[n-1]) && (forall i: int :: 0 <= i && i < n ==> a.intervalAggregations[i] == old(a.intervalAggregations[i]))

// t is the current time rounded down to a multiple of d
pred current(t int, d int) =
  exists c: int :: t == (if d <= 0 then c else ttrunc(c, d)) && (if tns(global(health.nowMock)) == 0 then old(clock()) <= c && c <= clock() else c == tns(global(health.nowMock)))

contract health.newAggregator(interval, retain)
  root C08
  requires interval > 0
  assigns nothing
  ensures [C08 config] result != nil && fresh(result) && result.intervalDuration == interval && result.retain == retain
  ensures [C08 bound] result.maxIntervals == (if retain < interval then 1 else retain / interval)
  ensures [C08 empty] len(result.intervalAggregations) == 0

contract (*health.aggregator).getIntervalAggregation(a)
  noreqinv
  root C08 C06 C09
  requires agShape(a)
  requires agDistinct(a)
  assigns a.intervalAggregations, elems(a.intervalAggregations)
  ensures [C08 shape] agShape(a)
  ensures [C08 distinct] agDistinct(a)
  ensures [C08 last] isLast(a, result)
  ensures [C08 current] current(tns(result.IntervalStart), a.intervalDuration)
  ensures [C08 window] slid(a, result)
  ensures [C08 own] base(a.intervalAggregations) == old(base(a.intervalAggregations)) || fresh(base(a.intervalAggregations))
  ensures [C08 new] fresh(result) ==> emptyIA(result) && freshMaps(addr(result.aggregationMaps)) && fresh(result.Jobs) && result.SerialNumber == 0
  ensures [C08 onlyWhenDue] fresh(result) && old(len(a.intervalAggregations)) > 0 ==> result.IntervalStart != old(a.intervalAggregations[len(a.intervalAggregations)-1].IntervalStart)
  invariant [shift] forall i: int :: 0 <= i && i < $i-1 ==> a.intervalAggregations[i] == old(a.intervalAggregations[i+1])
  invariant [rest] forall i: int :: $i-1 <= i && i < len(a.intervalAggregations) ==> a.intervalAggregations[i] == old(a.intervalAggregations[i])

// ---- recording

pred inLast(a *health.aggregator, f Ref) = len(a.intervalAggregations) > 0 && inIA(a.intervalAggregations[len(a.intervalAggregations)-1], f)
pred isJobsOfLast(a *health.aggregator, m map[string]*health.JobAggregation) = len(a.intervalAggregations) > 0 && m == a.intervalAggregations[len(a.intervalAggregations)-1].Jobs
// r is a timer (error counter, job) of the last interval or of one of its jobs
pred timerInLast(a *health.aggregator, r *health.TimerAggregation) = isobj(r) && inLast(a, ownfield(ownmap(r)))
pred errInLast(a *health.aggregator, r *health.ErrorCounter) = isobj(r) && inLast(a, ownfield(ownmap(r)))
pred jobInLast(a *health.aggregator, r *health.JobAggregation) = len(a.intervalAggregations) > 0 && hasJob(a.intervalAggregations[len(a.intervalAggregations)-1], r)

// one more event e in d, which is new (n) or was there before
pred addedEvent(d *health.aggregationMaps, n bool, e string) = forall k: string ::
  (k in d.Events <==> k == e || (!n && old(k in d.Events))) && d.Events[k] == (if n then 0 else old(d.Events[k])) + b2i(k == e)
pred setGauge(d *health.aggregationMaps, n bool, e string, v float64) = forall k: string ::
  (k in d.Gauges <==> k == e || (!n && old(k in d.Gauges))) && (k in d.Gauges ==> d.Gauges[k] == (if k == e then v else old(d.Gauges[k])))
pred sameEvents(d *health.aggregationMaps, n bool) = if n then (forall k: string :: !(k in d.Events)) else d.Events == old(d.Events) && dom(d.Events) == old(dom(d.Events)) && vals(d.Events) == old(vals(d.Events))
pred sameGauges(d *health.aggregationMaps, n bool) = if n then (forall k: string :: !(k in d.Gauges)) else d.Gauges == old(d.Gauges) && dom(d.Gauges) == old(dom(d.Gauges)) && vals(d.Gauges) == old(vals(d.Gauges))
pred sameTimers(d *health.aggregationMaps, n bool) = if n then (forall k: string :: !(k in d.Timers)) else d.Timers == old(d.Timers) && dom(d.Timers) == old(dom(d.Timers)) && vals(d.Timers) == old(vals(d.Timers)) && (forall k: string :: k in d.Timers ==> unchangedTimer(d.Timers[k]))
pred sameErrs(d *health.aggregationMaps, n bool) = if n then (forall k: string :: !(k in d.EventErrs)) else d.EventErrs == old(d.EventErrs) && dom(d.EventErrs) == old(dom(d.EventErrs)) && vals(d.EventErrs) == old(vals(d.EventErrs)) && (forall k: string :: k in d.EventErrs ==> unchangedErr(d.EventErrs[k]))
pred jobNew(c *health.IntervalAggregation, job string) = fresh(c) || !old(job in c.Jobs)
pred sameStats(j *health.JobAggregation, n bool) =
  if n then j.TimerAggregation.Count == 0 && j.NanosSum == 0 && j.NanosSumSquares == i2f(0) && j.NanosMin == 0 && j.NanosMax == 0 && j.CountSuccess == 0 && j.CountValidationError == 0 && j.CountPanic == 0 && j.CountError == 0 && j.CountJunk == 0
  else unchangedTimer(addr(j.TimerAggregation)) && unchangedJobCounts(j)
// the jobs of c: job, and whatever was there, as it was
pred jobsOf(c *health.IntervalAggregation, job string) =
  (forall k: string :: k in c.Jobs <==> k == job || (!fresh(c) && old(k in c.Jobs)))
  && (forall k: string :: !fresh(c) && old(k in c.Jobs) ==> c.Jobs[k] == old(c.Jobs[k]))
  && (jobNew(c, job) ==> fresh(c.Jobs[job]))
  && (forall k: string :: k != job && k in c.Jobs ==> unchangedAM(addr(c.Jobs[k].aggregationMaps)) && sameStats(c.Jobs[k], false))
pred serialUp(c *health.IntervalAggregation) = c.SerialNumber == (if fresh(c) then 0 else old(c.SerialNumber)) + 1

pred emittedEvent(c *health.IntervalAggregation, job string, e string) =
  addedEvent(addr(c.aggregationMaps), fresh(c), e) && addedEvent(addr(c.Jobs[job].aggregationMaps), jobNew(c, job), e)
  && sameGauges(addr(c.aggregationMaps), fresh(c)) && sameTimers(addr(c.aggregationMaps), fresh(c)) && sameErrs(addr(c.aggregationMaps), fresh(c))
  && sameGauges(addr(c.Jobs[job].aggregationMaps), jobNew(c, job)) && sameTimers(addr(c.Jobs[job].aggregationMaps), jobNew(c, job)) && sameErrs(addr(c.Jobs[job].aggregationMaps), jobNew(c, job))
  && sameStats(c.Jobs[job], jobNew(c, job))


contract (*health.aggregator).EmitEvent(a, job, event)
  root C06 C09
  requires agShape(a)
  requires agDistinct(a)
  assigns a.intervalAggregations, elems(a.intervalAggregations), all health.IntervalAggregation.SerialNumber where r: isLast(a, r),
    allmap map[string]*health.JobAggregation where m: isJobsOfLast(a, m), allmap map[string]int64 where m: inLast(a, ownfield(m))
  ensures [C06 shape] agShape(a)
  ensures [C06 distinct] agDistinct(a) && len(a.intervalAggregations) > 0
  ensures [C06 window] slid(a, a.intervalAggregations[len(a.intervalAggregations)-1])
  ensures [C06 current] current(tns(a.intervalAggregations[len(a.intervalAggregations)-1].IntervalStart), a.intervalDuration)
  ensures [C06 recorded] emittedEvent(a.intervalAggregations[len(a.intervalAggregations)-1], job, event)
  ensures [C06 jobs] jobsOf(a.intervalAggregations[len(a.intervalAggregations)-1], job)
  ensures [C06 serial] serialUp(a.intervalAggregations[len(a.intervalAggregations)-1])

// one more observation of e
pred addedTiming(d *health.aggregationMaps, n bool, e string, v int) =
  (forall k: string :: k in d.Timers <==> k == e || (!n && old(k in d.Timers)))
  && (forall k: string :: !n && k != e && old(k in d.Timers) ==> d.Timers[k] == old(d.Timers[k]) && unchangedTimer(d.Timers[k]))
  && (if n || !old(e in d.Timers) then fresh(d.Timers[e]) && ingested(d.Timers[e], 0, 0, i2f(0), 0, 0, v)
      else d.Timers[e] == old(d.Timers[e]) && ingested(d.Timers[e], old(d.Timers[e].Count), old(d.Timers[e].NanosSum), old(d.Timers[e].NanosSumSquares), old(d.Timers[e].NanosMin), old(d.Timers[e].NanosMax), v))
pred ingested(t *health.TimerAggregation, c int, s int, q float64, mn int, mx int, v int) =
  t.Count == c + 1 && t.NanosSum == s + v && t.NanosSumSquares == q + i2f(v) * i2f(v)
  && t.NanosMin == (if c == 0 || v < mn then v else mn) && t.NanosMax == (if c == 0 || v > mx then v else mx)

// one more error of name e
pred addedErr(d *health.aggregationMaps, n bool, e string, err error) =
  (forall k: string :: k in d.EventErrs <==> k == e || (!n && old(k in d.EventErrs)))
  && (forall k: string :: !n && k != e && old(k in d.EventErrs) ==> d.EventErrs[k] == old(d.EventErrs[k]) && unchangedErr(d.EventErrs[k]))
  && ecOK(d.EventErrs[e])
  && (d.EventErrs[e].errorSamples[d.EventErrs[e].errorSampleIndex] == err || deepeq(old(d.EventErrs[e].errorSamples[d.EventErrs[e].errorSampleIndex]), err))
  && (if n || !old(e in d.EventErrs) then fresh(d.EventErrs[e]) && d.EventErrs[e].Count == 1 && d.EventErrs[e].errorSamples[d.EventErrs[e].errorSampleIndex] == err
      else d.EventErrs[e] == old(d.EventErrs[e]) && d.EventErrs[e].Count == old(d.EventErrs[e].Count) + 1)

pred emittedErr(c *health.IntervalAggregation, job string, e string, err error) =
  addedErr(addr(c.aggregationMaps), fresh(c), e, err) && addedErr(addr(c.Jobs[job].aggregationMaps), jobNew(c, job), e, err)
  && sameEvents(addr(c.aggregationMaps), fresh(c)) && sameEvents(addr(c.Jobs[job].aggregationMaps), jobNew(c, job)) && sameGauges(addr(c.aggregationMaps), fresh(c)) && sameGauges(addr(c.Jobs[job].aggregationMaps), jobNew(c, job)) && sameTimers(addr(c.aggregationMaps), fresh(c)) && sameTimers(addr(c.Jobs[job].aggregationMaps), jobNew(c, job)) && sameStats(c.Jobs[job], jobNew(c, job))
pred emittedTiming(c *health.IntervalAggregation, job string, e string, v int) =
  addedTiming(addr(c.aggregationMaps), fresh(c), e, v) && addedTiming(addr(c.Jobs[job].aggregationMaps), jobNew(c, job), e, v)
  && sameEvents(addr(c.aggregationMaps), fresh(c)) && sameEvents(addr(c.Jobs[job].aggregationMaps), jobNew(c, job)) && sameGauges(addr(c.aggregationMaps), fresh(c)) && sameGauges(addr(c.Jobs[job].aggregationMaps), jobNew(c, job)) && sameErrs(addr(c.aggregationMaps), fresh(c)) && sameErrs(addr(c.Jobs[job].aggregationMaps), jobNew(c, job)) && sameStats(c.Jobs[job], jobNew(c, job))
pred emittedGauge(c *health.IntervalAggregation, job string, e string, v float64) =
  setGauge(addr(c.aggregationMaps), fresh(c), e, v) && setGauge(addr(c.Jobs[job].aggregationMaps), jobNew(c, job), e, v)
  && sameEvents(addr(c.aggregationMaps), fresh(c)) && sameEvents(addr(c.Jobs[job].aggregationMaps), jobNew(c, job)) && sameTimers(addr(c.aggregationMaps), fresh(c)) && sameTimers(addr(c.Jobs[job].aggregationMaps), jobNew(c, job)) && sameErrs(addr(c.aggregationMaps), fresh(c)) && sameErrs(addr(c.Jobs[job].aggregationMaps), jobNew(c, job)) && sameStats(c.Jobs[job], jobNew(c, job))
pred countedJob(j *health.JobAggregation, n bool, status string, v int) =
  (if n then ingested(addr(j.TimerAggregation), 0, 0, i2f(0), 0, 0, v)
    else ingested(addr(j.TimerAggregation), old(j.TimerAggregation.Count), old(j.NanosSum), old(j.NanosSumSquares), old(j.NanosMin), old(j.NanosMax), v))
  && j.CountSuccess == (if n then 0 else old(j.CountSuccess)) + b2i(status == health.Success)
  && j.CountValidationError == (if n then 0 else old(j.CountValidationError)) + b2i(status == health.ValidationError)
  && j.CountPanic == (if n then 0 else old(j.CountPanic)) + b2i(status == health.Panic)
  && j.CountError == (if n then 0 else old(j.CountError)) + b2i(status == health.Error)
  && j.CountJunk == (if n then 0 else old(j.CountJunk)) + b2i(status == health.Junk)
pred emittedComplete(c *health.IntervalAggregation, job string, status int, v int) =
  countedJob(c.Jobs[job], jobNew(c, job), status, v)
  && sameEvents(addr(c.aggregationMaps), fresh(c)) && sameEvents(addr(c.Jobs[job].aggregationMaps), jobNew(c, job)) && sameGauges(addr(c.aggregationMaps), fresh(c)) && sameGauges(addr(c.Jobs[job].aggregationMaps), jobNew(c, job)) && sameTimers(addr(c.aggregationMaps), fresh(c)) && sameTimers(addr(c.Jobs[job].aggregationMaps), jobNew(c, job)) && sameErrs(addr(c.aggregationMaps), fresh(c)) && sameErrs(addr(c.Jobs[job].aggregationMaps), jobNew(c, job))

contract (*health.aggregator).EmitEventErr(a, job, event, inputErr)
  root C06 C09
  requires agShape(a)
  requires agDistinct(a)
  requires inputErr != nil
  assigns a.intervalAggregations, elems(a.intervalAggregations), all health.IntervalAggregation.SerialNumber where r: isLast(a, r),
    allmap map[string]*health.JobAggregation where m: isJobsOfLast(a, m), allmap map[string]*health.ErrorCounter where m: inLast(a, ownfield(m)), all health.ErrorCounter.* where r: errInLast(a, r)
  ensures [C06 shape] agShape(a)
  ensures [C06 distinct] agDistinct(a) && len(a.intervalAggregations) > 0
  ensures [C06 window] slid(a, a.intervalAggregations[len(a.intervalAggregations)-1])
  ensures [C06 current] current(tns(a.intervalAggregations[len(a.intervalAggregations)-1].IntervalStart), a.intervalDuration)
  ensures [C06 recorded] emittedErr(a.intervalAggregations[len(a.intervalAggregations)-1], job, event, inputErr)
  ensures [C06 jobs] jobsOf(a.intervalAggregations[len(a.intervalAggregations)-1], job)
  ensures [C06 serial] serialUp(a.intervalAggregations[len(a.intervalAggregations)-1])

contract (*health.aggregator).EmitTiming(a, job, event, nanos)
  root C06 C09
  requires agShape(a)
  requires agDistinct(a)
  assigns a.intervalAggregations, elems(a.intervalAggregations), all health.IntervalAggregation.SerialNumber where r: isLast(a, r),
    allmap map[string]*health.JobAggregation where m: isJobsOfLast(a, m), allmap map[string]*health.TimerAggregation where m: inLast(a, ownfield(m)), all health.TimerAggregation.* where r: timerInLast(a, r)
  ensures [C06 shape] agShape(a)
  ensures [C06 distinct] agDistinct(a) && len(a.intervalAggregations) > 0
  ensures [C06 window] slid(a, a.intervalAggregations[len(a.intervalAggregations)-1])
  ensures [C06 current] current(tns(a.intervalAggregations[len(a.intervalAggregations)-1].IntervalStart), a.intervalDuration)
  ensures [C06 recorded] emittedTiming(a.intervalAggregations[len(a.intervalAggregations)-1], job, event, nanos)
  ensures [C06 jobs] jobsOf(a.intervalAggregations[len(a.intervalAggregations)-1], job)
  ensures [C06 serial] serialUp(a.intervalAggregations[len(a.intervalAggregations)-1])

contract (*health.aggregator).EmitGauge(a, job, event, value)
  root C06 C09
  requires agShape(a)
  requires agDistinct(a)
  assigns a.intervalAggregations, elems(a.intervalAggregations), all health.IntervalAggregation.SerialNumber where r: isLast(a, r),
    allmap map[string]*health.JobAggregation where m: isJobsOfLast(a, m), allmap map[string]float64 where m: inLast(a, ownfield(m))
  ensures [C06 shape] agShape(a)
  ensures [C06 distinct] agDistinct(a) && len(a.intervalAggregations) > 0
  ensures [C06 window] slid(a, a.intervalAggregations[len(a.intervalAggregations)-1])
  ensures [C06 current] current(tns(a.intervalAggregations[len(a.intervalAggregations)-1].IntervalStart), a.intervalDuration)
  ensures [C06 recorded] emittedGauge(a.intervalAggregations[len(a.intervalAggregations)-1], job, event, value)
  ensures [C06 jobs] jobsOf(a.intervalAggregations[len(a.intervalAggregations)-1], job)
  ensures [C06 serial] serialUp(a.intervalAggregations[len(a.intervalAggregations)-1])

contract (*health.aggregator).EmitComplete(a, job, status, nanos)
  root C06 C09
  requires agShape(a)
  requires agDistinct(a)
  assigns a.intervalAggregations, elems(a.intervalAggregations), all health.IntervalAggregation.SerialNumber where r: isLast(a, r),
    allmap map[string]*health.JobAggregation where m: isJobsOfLast(a, m), all health.JobAggregation.* where r: jobInLast(a, r), all health.TimerAggregation.* where r: issub(r) && jobInLast(a, par(r))
  ensures [C06 shape] agShape(a)
  ensures [C06 distinct] agDistinct(a) && len(a.intervalAggregations) > 0
  ensures [C06 window] slid(a, a.intervalAggregations[len(a.intervalAggregations)-1])
  ensures [C06 current] current(tns(a.intervalAggregations[len(a.intervalAggregations)-1].IntervalStart), a.intervalDuration)
  ensures [C06 recorded] emittedComplete(a.intervalAggregations[len(a.intervalAggregations)-1], job, status, nanos)
  ensures [C06 jobs] jobsOf(a.intervalAggregations[len(a.intervalAggregations)-1], job)
  ensures [C06 serial] serialUp(a.intervalAggregations[len(a.intervalAggregations)-1])

contract (*health.aggregator).memorySafeIntervals(a)
  noreqinv
  root C09
  requires agShape(a)
  requires agDistinct(a)
  assigns a.intervalAggregations, elems(a.intervalAggregations)
  ensures [C09 shape] agShape(a) && agDistinct(a) && len(a.intervalAggregations) > 0
  ensures [C09 window] slid(a, a.intervalAggregations[len(a.intervalAggregations)-1])
  ensures [C09 current] current(tns(a.intervalAggregations[len(a.intervalAggregations)-1].IntervalStart), a.intervalDuration)
  ensures [C09 all] fresh(base(result)) && len(result) == len(a.intervalAggregations)
  ensures [C09 older] forall i: int :: 0 <= i && i < len(result)-1 ==> result[i] == a.intervalAggregations[i]
  ensures [C09 copy] copyIA(result[len(result)-1], a.intervalAggregations[len(result)-1])
  ensures [C09 iaok] forall i: int :: 0 <= i && i < len(result) ==> result[i] != nil && isobj(result[i]) && iaOK(result[i])
  invariant [shape] agShape(a)
  invariant [window] slid(a, a.intervalAggregations[len(a.intervalAggregations)-1])
  invariant [own] base(a.intervalAggregations) == old(base(a.intervalAggregations)) || fresh(base(a.intervalAggregations))
  invariant [len] with $s: []*health.IntervalAggregation :: base($s) != base(a.intervalAggregations) ==> fresh(base($s)) && len($s) == $i
  invariant [older] with $s: []*health.IntervalAggregation :: base($s) != base(a.intervalAggregations) ==> (forall i: int :: 0 <= i && i < $i && i < len(a.intervalAggregations)-1 ==> $s[i] == a.intervalAggregations[i])
  invariant [copy] with $s: []*health.IntervalAggregation :: base($s) != base(a.intervalAggregations) && $i == len(a.intervalAggregations) ==> copyIA($s[$i-1], a.intervalAggregations[$i-1])

// d is a new interval with c's content that shares nothing with c
pred copyIA(d *health.IntervalAggregation, c *health.IntervalAggregation) =
  d != nil && isobj(d) && iaOK(d) && d != c && fresh(d) && fresh(d.Jobs) && freshAM(addr(d.aggregationMaps))
  && d.IntervalStart == c.IntervalStart && d.SerialNumber == c.SerialNumber && sameAM(addr(d.aggregationMaps), addr(c.aggregationMaps))
  && dom(d.Jobs) == dom(c.Jobs) && (forall k: string :: k in c.Jobs ==> sameJob(d.Jobs[k], c.Jobs[k]) && fresh(d.Jobs[k]) && freshAM(addr(d.Jobs[k].aggregationMaps)))
