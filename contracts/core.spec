// ---------------------------------------------------------------------------
// Interval aggregations: shape predicates, ingestion, Clone, Merge.
// ---------------------------------------------------------------------------

pred ecOK(c *health.ErrorCounter) = c != nil && 0 <= c.errorSampleIndex && c.errorSampleIndex < len(c.errorSamples)

// the maps of an aggregation are its own, and so is everything in them
pred amOK(a *health.aggregationMaps) =
  a.Timers != nil && a.Gauges != nil && a.Events != nil && a.EventErrs != nil
  && ownfield(a.Timers) == a && ownfield(a.Gauges) == a && ownfield(a.Events) == a && ownfield(a.EventErrs) == a
  && (forall k: string :: k in a.Timers ==> a.Timers[k] != nil && isobj(a.Timers[k]) && ownmap(a.Timers[k]) == a.Timers && ownkey(a.Timers[k]) == k)
  && (forall k: string :: k in a.EventErrs ==> ecOK(a.EventErrs[k]) && isobj(a.EventErrs[k]) && ownmap(a.EventErrs[k]) == a.EventErrs && ownkey(a.EventErrs[k]) == k)

pred iaOK(ia *health.IntervalAggregation) =
  isobj(ia) && ia.Jobs != nil && ownfield(ia.Jobs) == ia && amOK(addr(ia.aggregationMaps))
  && (forall k: string :: k in ia.Jobs ==> ia.Jobs[k] != nil && isobj(ia.Jobs[k]) && ownmap(ia.Jobs[k]) == ia.Jobs && ownkey(ia.Jobs[k]) == k && amOK(addr(ia.Jobs[k].aggregationMaps)))

// r is one of a's timers / error counters / ia's jobs
pred hasTimer(a *health.aggregationMaps, r *health.TimerAggregation) = isobj(r) && ownmap(r) == a.Timers
pred hasErr(a *health.aggregationMaps, r *health.ErrorCounter) = isobj(r) && ownmap(r) == a.EventErrs
pred hasJob(ia *health.IntervalAggregation, r *health.JobAggregation) = isobj(r) && ownmap(r) == ia.Jobs

contract (*health.TimerAggregation).ingest(a, nanos)
  root C05
  requires a != nil
  assigns a.*
  ensures [count] a.Count == old(a.Count) + 1
  ensures [sum] a.NanosSum == old(a.NanosSum) + nanos
  ensures [squares] a.NanosSumSquares == old(a.NanosSumSquares) + i2f(nanos) * i2f(nanos)
  ensures [min] a.NanosMin == (if old(a.Count) == 0 || nanos < old(a.NanosMin) then nanos else old(a.NanosMin))
  ensures [max] a.NanosMax == (if old(a.Count) == 0 || nanos > old(a.NanosMax) then nanos else old(a.NanosMax))

pred one(c bool) = c
fun b2i(c bool) : int = if c then 1 else 0

contract (*health.JobAggregation).ingest(a, status, nanos)
  root C05
  requires a != nil
  assigns a.CountSuccess, a.CountValidationError, a.CountPanic, a.CountError, a.CountJunk, a.TimerAggregation
  ensures [count] a.TimerAggregation.Count == old(a.TimerAggregation.Count) + 1
  ensures [sum] a.NanosSum == old(a.NanosSum) + nanos
  ensures [squares] a.NanosSumSquares == old(a.NanosSumSquares) + i2f(nanos) * i2f(nanos)
  ensures [min] a.NanosMin == (if old(a.TimerAggregation.Count) == 0 || nanos < old(a.NanosMin) then nanos else old(a.NanosMin))
  ensures [max] a.NanosMax == (if old(a.TimerAggregation.Count) == 0 || nanos > old(a.NanosMax) then nanos else old(a.NanosMax))
  ensures [success] a.CountSuccess == old(a.CountSuccess) + b2i(status == health.Success)
  ensures [validation] a.CountValidationError == old(a.CountValidationError) + b2i(status == health.ValidationError)
  ensures [panic] a.CountPanic == old(a.CountPanic) + b2i(status == health.Panic)
  ensures [error] a.CountError == old(a.CountError) + b2i(status == health.Error)
  ensures [junk] a.CountJunk == old(a.CountJunk) + b2i(status == health.Junk)

contract (*health.ErrorCounter).addError(ec, e)
  root C13
  requires ecOK(ec) && e != nil
  assigns ec.errorSamples, ec.errorSampleIndex
  ensures [ok] ecOK(ec)
  ensures [latest] ec.errorSamples[ec.errorSampleIndex] == e || deepeq(old(ec.errorSamples[ec.errorSampleIndex]), e)
  ensures [dup] old(ec.errorSamples[ec.errorSampleIndex]) != nil && deepeq(old(ec.errorSamples[ec.errorSampleIndex]), e) ==> ec.errorSamples == old(ec.errorSamples) && ec.errorSampleIndex == old(ec.errorSampleIndex)
  ensures [advance] old(ec.errorSamples[ec.errorSampleIndex]) != nil && !deepeq(old(ec.errorSamples[ec.errorSampleIndex]), e) ==> ec.errorSampleIndex == (if old(ec.errorSampleIndex) == 4 then 0 else old(ec.errorSampleIndex) + 1) && ec.errorSamples == store(old(ec.errorSamples), ec.errorSampleIndex, e)
  ensures [first] old(ec.errorSamples[ec.errorSampleIndex]) == nil ==> ec.errorSampleIndex == old(ec.errorSampleIndex) && ec.errorSamples == store(old(ec.errorSamples), ec.errorSampleIndex, e)

uf deepeq(a error, b error) : bool as deepequal

pred sameTimer(x *health.TimerAggregation, y *health.TimerAggregation) = x.Count == y.Count && x.NanosSum == y.NanosSum && x.NanosSumSquares == y.NanosSumSquares && x.NanosMin == y.NanosMin && x.NanosMax == y.NanosMax
pred sameErr(x *health.ErrorCounter, y *health.ErrorCounter) = x.Count == y.Count && x.errorSamples == y.errorSamples && x.errorSampleIndex == y.errorSampleIndex

// a new aggregation with the same content
pred sameAM(d *health.aggregationMaps, a *health.aggregationMaps) =
  dom(d.Events) == dom(a.Events) && (forall k: string :: k in a.Events ==> d.Events[k] == a.Events[k])
  && dom(d.Gauges) == dom(a.Gauges) && (forall k: string :: k in a.Gauges ==> d.Gauges[k] == a.Gauges[k])
  && dom(d.Timers) == dom(a.Timers) && (forall k: string :: k in a.Timers ==> sameTimer(d.Timers[k], a.Timers[k]))
  && dom(d.EventErrs) == dom(a.EventErrs) && (forall k: string :: k in a.EventErrs ==> sameErr(d.EventErrs[k], a.EventErrs[k]))
pred freshAM(d *health.aggregationMaps) =
  fresh(d.Events) && fresh(d.Gauges) && fresh(d.Timers) && fresh(d.EventErrs)
  && (forall k: string :: k in d.Timers ==> fresh(d.Timers[k]))
  && (forall k: string :: k in d.EventErrs ==> fresh(d.EventErrs[k]))

contract (*health.TimerAggregation).Clone(ta)
  root C11
  requires ta != nil
  ensures [same] result != nil && isobj(result) && fresh(result) && sameTimer(result, ta)

contract (*health.ErrorCounter).Clone(ec)
  root C11
  requires ec != nil
  ensures [same] result != nil && isobj(result) && fresh(result) && sameErr(result, ec)

contract (*health.aggregationMaps).Clone(am)
  root C11
  requires amOK(am)
  invariant [events] with $m: map[string]int64 :: $m != am.Events ==> dom($m) == visited(am.Events) && (forall k: string :: k in $m ==> $m[k] == am.Events[k])
  invariant [gauges] with $m: map[string]float64 :: $m != am.Gauges ==> dom($m) == visited(am.Gauges) && (forall k: string :: k in $m ==> $m[k] == am.Gauges[k])
  invariant [timers] with $m: map[string]*health.TimerAggregation :: $m != am.Timers ==> dom($m) == visited(am.Timers) && (forall k: string :: k in $m ==> $m[k] != nil && isobj($m[k]) && fresh($m[k]) && ownmap($m[k]) == $m && ownkey($m[k]) == k && sameTimer($m[k], am.Timers[k]))
  invariant [errs] with $m: map[string]*health.ErrorCounter :: $m != am.EventErrs ==> dom($m) == visited(am.EventErrs) && (forall k: string :: k in $m ==> ecOK($m[k]) && isobj($m[k]) && fresh($m[k]) && ownmap($m[k]) == $m && ownkey($m[k]) == k && sameErr($m[k], am.EventErrs[k]))
  ensures [fresh] result != nil && isobj(result) && fresh(result) && freshAM(result)
  ensures [shape] amOK(result)
  ensures [same] sameAM(result, am)

contract (*health.JobAggregation).Clone(ja)
  root C11
  requires ja != nil && amOK(addr(ja.aggregationMaps))
  ensures [fresh] result != nil && isobj(result) && fresh(result) && freshAM(addr(result.aggregationMaps))
  ensures [shape] amOK(addr(result.aggregationMaps))
  ensures [same] sameAM(addr(result.aggregationMaps), addr(ja.aggregationMaps)) && sameTimer(addr(result.TimerAggregation), addr(ja.TimerAggregation))
  ensures [counts] result.CountSuccess == ja.CountSuccess && result.CountValidationError == ja.CountValidationError && result.CountPanic == ja.CountPanic && result.CountError == ja.CountError && result.CountJunk == ja.CountJunk

pred sameJob(d *health.JobAggregation, j *health.JobAggregation) =
  sameAM(addr(d.aggregationMaps), addr(j.aggregationMaps)) && sameTimer(addr(d.TimerAggregation), addr(j.TimerAggregation))
  && d.CountSuccess == j.CountSuccess && d.CountValidationError == j.CountValidationError && d.CountPanic == j.CountPanic && d.CountError == j.CountError && d.CountJunk == j.CountJunk

contract (*health.IntervalAggregation).Clone(ia)
  root C11 C09
  requires iaOK(ia)
  invariant [jobs] with $m: map[string]*health.JobAggregation :: $m != ia.Jobs ==> dom($m) == visited(ia.Jobs)
  invariant [jobsfresh] with $m: map[string]*health.JobAggregation :: $m != ia.Jobs ==> (forall k: string :: k in $m ==> $m[k] != nil && isobj($m[k]) && fresh($m[k]) && ownmap($m[k]) == $m && ownkey($m[k]) == k && freshAM(addr($m[k].aggregationMaps)))
  invariant [jobsok] with $m: map[string]*health.JobAggregation :: $m != ia.Jobs ==> (forall k: string :: k in $m ==> amOK(addr($m[k].aggregationMaps)))
  invariant [jobssame] with $m: map[string]*health.JobAggregation :: $m != ia.Jobs ==> (forall k: string :: k in $m ==> sameJob($m[k], ia.Jobs[k]))
  ensures [fresh] result != nil && isobj(result) && fresh(result) && fresh(result.Jobs) && freshAM(addr(result.aggregationMaps))
  ensures [freshjobs] forall k: string :: k in result.Jobs ==> fresh(result.Jobs[k]) && freshAM(addr(result.Jobs[k].aggregationMaps))
  ensures [shape] iaOK(result)
  ensures [same] result.IntervalStart == ia.IntervalStart && result.SerialNumber == ia.SerialNumber && sameAM(addr(result.aggregationMaps), addr(ia.aggregationMaps))
  ensures [samejobs] dom(result.Jobs) == dom(ia.Jobs) && (forall k: string :: k in ia.Jobs ==> sameJob(result.Jobs[k], ia.Jobs[k]))

// ---- Merge

fun mmin(c1 int, v1 int, c2 int, v2 int) : int = if c2 == 0 then v1 else if c1 == 0 || v2 < v1 then v2 else v1
fun mmax(c1 int, v1 int, c2 int, v2 int) : int = if c2 == 0 then v1 else if c1 == 0 || v2 > v1 then v2 else v1

contract (*health.TimerAggregation).merge(into, from)
  root C12
  requires into != nil && from != nil && into != from
  assigns into.*
  ensures [count] into.Count == old(into.Count) + from.Count
  ensures [sum] into.NanosSum == old(into.NanosSum) + from.NanosSum
  ensures [squares] into.NanosSumSquares == old(into.NanosSumSquares) + from.NanosSumSquares
  ensures [min] into.NanosMin == mmin(old(into.Count), old(into.NanosMin), from.Count, from.NanosMin)
  ensures [max] into.NanosMax == mmax(old(into.Count), old(into.NanosMax), from.Count, from.NanosMax)

// x now holds old x merged with y
pred mergedTimer(x *health.TimerAggregation, y *health.TimerAggregation) =
  x.Count == old(x.Count) + y.Count && x.NanosSum == old(x.NanosSum) + y.NanosSum && x.NanosSumSquares == old(x.NanosSumSquares) + y.NanosSumSquares
  && x.NanosMin == mmin(old(x.Count), old(x.NanosMin), y.Count, y.NanosMin) && x.NanosMax == mmax(old(x.Count), old(x.NanosMax), y.Count, y.NanosMax)
pred unchangedTimer(x *health.TimerAggregation) = x.Count == old(x.Count) && x.NanosSum == old(x.NanosSum) && x.NanosSumSquares == old(x.NanosSumSquares) && x.NanosMin == old(x.NanosMin) && x.NanosMax == old(x.NanosMax)
pred unchangedErr(x *health.ErrorCounter) = x.Count == old(x.Count) && x.errorSamples == old(x.errorSamples) && x.errorSampleIndex == old(x.errorSampleIndex)

pred mergedAM(a *health.aggregationMaps, b *health.aggregationMaps) =
  (forall k: string :: (k in a.Events <==> old(k in a.Events) || k in b.Events) && a.Events[k] == old(a.Events[k]) + b.Events[k])
  && (forall k: string :: (k in a.Gauges <==> old(k in a.Gauges) || k in b.Gauges) && a.Gauges[k] == (if k in b.Gauges then b.Gauges[k] else old(a.Gauges[k])))
  && (forall k: string :: k in a.Timers <==> old(k in a.Timers) || k in b.Timers)
  && (forall k: string :: old(k in a.Timers) ==> a.Timers[k] == old(a.Timers[k]) && (if k in b.Timers then mergedTimer(a.Timers[k], b.Timers[k]) else unchangedTimer(a.Timers[k])))
  && (forall k: string :: !old(k in a.Timers) && k in b.Timers ==> fresh(a.Timers[k]) && sameTimer(a.Timers[k], b.Timers[k]))
  && (forall k: string :: k in a.EventErrs <==> old(k in a.EventErrs) || k in b.EventErrs)
  && (forall k: string :: old(k in a.EventErrs) ==> a.EventErrs[k] == old(a.EventErrs[k]) && (if k in b.EventErrs then a.EventErrs[k].Count == old(a.EventErrs[k].Count) + b.EventErrs[k].Count else unchangedErr(a.EventErrs[k])))
  && (forall k: string :: !old(k in a.EventErrs) && k in b.EventErrs ==> fresh(a.EventErrs[k]) && sameErr(a.EventErrs[k], b.EventErrs[k]))

contract (*health.aggregationMaps).merge(into, from)
  root C12
  nounroll
  requires into != from && amOK(into) && amOK(from)
  requires into != nil && from != nil
  assigns map(into.Events), map(into.Gauges), map(into.Timers), map(into.EventErrs), all health.TimerAggregation.* where r: hasTimer(into, r), all health.ErrorCounter.* where r: hasErr(into, r)
  ensures [shape] amOK(into)
  ensures [merged] mergedAM(into, from)
  invariant [same-arg] amOK(from)
  invariant [events] forall k: string :: (k in into.Events <==> old(k in into.Events) || visited(from.Events)[k]) && into.Events[k] == old(into.Events[k]) + (if visited(from.Events)[k] then from.Events[k] else 0)
  invariant [gauges] forall k: string :: (k in into.Gauges <==> old(k in into.Gauges) || visited(from.Gauges)[k]) && into.Gauges[k] == (if visited(from.Gauges)[k] then from.Gauges[k] else old(into.Gauges[k]))
  invariant [timers] forall k: string :: k in into.Timers <==> old(k in into.Timers) || visited(from.Timers)[k]
  invariant [timers2] forall k: string :: old(k in into.Timers) ==> into.Timers[k] == old(into.Timers[k]) && (if visited(from.Timers)[k] then mergedTimer(into.Timers[k], from.Timers[k]) else unchangedTimer(into.Timers[k]))
  invariant [timers3] forall k: string :: !old(k in into.Timers) && visited(from.Timers)[k] ==> fresh(into.Timers[k]) && sameTimer(into.Timers[k], from.Timers[k])
  invariant [errs] forall k: string :: k in into.EventErrs <==> old(k in into.EventErrs) || visited(from.EventErrs)[k]
  invariant [errs2] forall k: string :: old(k in into.EventErrs) ==> into.EventErrs[k] == old(into.EventErrs[k]) && (if visited(from.EventErrs)[k] then into.EventErrs[k].Count == old(into.EventErrs[k].Count) + from.EventErrs[k].Count else unchangedErr(into.EventErrs[k]))
  invariant [errs3] forall k: string :: !old(k in into.EventErrs) && visited(from.EventErrs)[k] ==> fresh(into.EventErrs[k]) && sameErr(into.EventErrs[k], from.EventErrs[k])

pred mergedJobCounts(x *health.JobAggregation, y *health.JobAggregation) =
  x.CountSuccess == old(x.CountSuccess) + y.CountSuccess && x.CountValidationError == old(x.CountValidationError) + y.CountValidationError
  && x.CountPanic == old(x.CountPanic) + y.CountPanic && x.CountError == old(x.CountError) + y.CountError && x.CountJunk == old(x.CountJunk) + y.CountJunk

contract (*health.JobAggregation).merge(into, from)
  root C12
  requires into != nil && from != nil && into != from && isobj(into) && isobj(from)
  requires amOK(addr(into.aggregationMaps)) && amOK(addr(from.aggregationMaps))
  assigns into.CountSuccess, into.CountValidationError, into.CountPanic, into.CountError, into.CountJunk, into.TimerAggregation, map(into.Events), map(into.Gauges), map(into.Timers), map(into.EventErrs), all health.TimerAggregation.* where r: hasTimer(addr(into.aggregationMaps), r), all health.ErrorCounter.* where r: hasErr(addr(into.aggregationMaps), r)
  ensures [shape] amOK(addr(into.aggregationMaps))
  ensures [maps] mergedAM(addr(into.aggregationMaps), addr(from.aggregationMaps))
  ensures [timer] mergedTimer(addr(into.TimerAggregation), addr(from.TimerAggregation))
  ensures [counts] mergedJobCounts(into, from)

pred unchangedAM(a *health.aggregationMaps) =
  a.Events == old(a.Events) && a.Gauges == old(a.Gauges) && a.Timers == old(a.Timers) && a.EventErrs == old(a.EventErrs)
  && dom(a.Events) == old(dom(a.Events)) && vals(a.Events) == old(vals(a.Events))
  && dom(a.Gauges) == old(dom(a.Gauges)) && vals(a.Gauges) == old(vals(a.Gauges))
  && dom(a.Timers) == old(dom(a.Timers)) && vals(a.Timers) == old(vals(a.Timers))
  && dom(a.EventErrs) == old(dom(a.EventErrs)) && vals(a.EventErrs) == old(vals(a.EventErrs))
  && (forall k: string :: k in a.Timers ==> unchangedTimer(a.Timers[k]))
  && (forall k: string :: k in a.EventErrs ==> unchangedErr(a.EventErrs[k]))
pred unchangedJobCounts(x *health.JobAggregation) = x.CountSuccess == old(x.CountSuccess) && x.CountValidationError == old(x.CountValidationError) && x.CountPanic == old(x.CountPanic) && x.CountError == old(x.CountError) && x.CountJunk == old(x.CountJunk)

// r belongs to ia: one of its timers, or a timer of one of its jobs
pred inIA(ia *health.IntervalAggregation, f Ref) = f == addr(ia.aggregationMaps) || (issub(f) && hasJob(ia, par(f)))

contract (*health.IntervalAggregation).Merge(ia, b)
  root C12
  requires b != nil && ia != b && iaOK(ia) && iaOK(b)
  assigns ia.SerialNumber, map(ia.Jobs), allmap map[string]int64 where m: inIA(ia, ownfield(m)), allmap map[string]float64 where m: inIA(ia, ownfield(m)), allmap map[string]*health.TimerAggregation where m: inIA(ia, ownfield(m)), allmap map[string]*health.ErrorCounter where m: inIA(ia, ownfield(m)),
     all health.TimerAggregation.* where r: (isobj(r) && inIA(ia, ownfield(ownmap(r)))) || (issub(r) && hasJob(ia, par(r))),
     all health.ErrorCounter.* where r: isobj(r) && inIA(ia, ownfield(ownmap(r))),
     all health.JobAggregation.* where r: hasJob(ia, r)
  ensures [shape] iaOK(ia) && iaOK(b)
  ensures [serial] ia.SerialNumber == old(ia.SerialNumber) + 1
  ensures [maps] mergedAM(addr(ia.aggregationMaps), addr(b.aggregationMaps))
  ensures [jobs] forall k: string :: k in ia.Jobs <==> old(k in ia.Jobs) || k in b.Jobs
  ensures [both] forall k: string :: old(k in ia.Jobs) && k in b.Jobs ==> ia.Jobs[k] == old(ia.Jobs[k]) && mergedJobCounts(ia.Jobs[k], b.Jobs[k]) && mergedTimer(addr(ia.Jobs[k].TimerAggregation), addr(b.Jobs[k].TimerAggregation)) && mergedAM(addr(ia.Jobs[k].aggregationMaps), addr(b.Jobs[k].aggregationMaps))
  ensures [mine] forall k: string :: old(k in ia.Jobs) && !(k in b.Jobs) ==> ia.Jobs[k] == old(ia.Jobs[k]) && unchangedJobCounts(ia.Jobs[k]) && unchangedTimer(addr(ia.Jobs[k].TimerAggregation)) && unchangedAM(addr(ia.Jobs[k].aggregationMaps))
  ensures [theirs] forall k: string :: !old(k in ia.Jobs) && k in b.Jobs ==> fresh(ia.Jobs[k]) && sameJob(ia.Jobs[k], b.Jobs[k]) && freshAM(addr(ia.Jobs[k].aggregationMaps))
  invariant [maps] mergedAM(addr(ia.aggregationMaps), addr(b.aggregationMaps))
  invariant [jobs] forall k: string :: k in ia.Jobs <==> old(k in ia.Jobs) || visited(b.Jobs)[k]
  invariant [both] forall k: string :: old(k in ia.Jobs) && visited(b.Jobs)[k] ==> ia.Jobs[k] == old(ia.Jobs[k]) && mergedJobCounts(ia.Jobs[k], b.Jobs[k]) && mergedTimer(addr(ia.Jobs[k].TimerAggregation), addr(b.Jobs[k].TimerAggregation)) && mergedAM(addr(ia.Jobs[k].aggregationMaps), addr(b.Jobs[k].aggregationMaps))
  invariant [mine] forall k: string :: old(k in ia.Jobs) && !visited(b.Jobs)[k] ==> ia.Jobs[k] == old(ia.Jobs[k]) && unchangedJobCounts(ia.Jobs[k]) && unchangedTimer(addr(ia.Jobs[k].TimerAggregation)) && unchangedAM(addr(ia.Jobs[k].aggregationMaps))
  invariant [theirs] forall k: string :: !old(k in ia.Jobs) && visited(b.Jobs)[k] ==> fresh(ia.Jobs[k]) && sameJob(ia.Jobs[k], b.Jobs[k]) && freshAM(addr(ia.Jobs[k].aggregationMaps))
