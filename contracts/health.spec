// ---------------------------------------------------------------------------
// Streams, jobs and their fan-out to sinks.
// ---------------------------------------------------------------------------

uf fmtv(x any) : string as fmtv

pred jobOK(j *health.Job) = j.Stream != nil && (forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> j.Stream.Sinks[i] != nil)

fun kvpick(s map[string]string, j map[string]string, i map[string]string, k string) : string = if k in i then i[k] else if k in j then j[k] else s[k]
pred kvin(s map[string]string, j map[string]string, i map[string]string, k string) = k in s || k in j || k in i

contract (*health.Job).mergedKeyValues(j, kvs)
  root C02
  requires jobOK(j)
  ensures [keys] forall k: string :: k in result <==> kvin(j.Stream.KeyValues, j.KeyValues, kvs, k)
  ensures [values] forall k: string :: k in result ==> result[k] == kvpick(j.Stream.KeyValues, j.KeyValues, kvs, k)
  invariant [union] with $m: map[string]string :: $m != j.Stream.KeyValues && $m != j.KeyValues && $m != kvs ==> (forall k: string :: k in $m <==> visited(j.Stream.KeyValues)[k] || visited(j.KeyValues)[k] || visited(kvs)[k])
  invariant [pick] with $m: map[string]string :: $m != j.Stream.KeyValues && $m != j.KeyValues && $m != kvs ==> (forall k: string :: k in $m ==> $m[k] == (if visited(kvs)[k] then kvs[k] else if visited(j.KeyValues)[k] then j.KeyValues[k] else j.Stream.KeyValues[k]))

contract (*health.Job).Event(j, ev)
  root C01 C02
  requires jobOK(j)
  assigns events
  ensures [C01 once] nev() == old(nev()) + len(j.Stream.Sinks)
  ensures [C01 each] forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> event(old(nev())+i, EmitEvent, j.Stream.Sinks[i], j.JobName, ev, _)
  ensures [C02 keys] forall i: int, k: string :: 0 <= i && i < len(j.Stream.Sinks) ==> (evcap(ev(old(nev())+i), EmitEvent, 3, 0)[k] <==> kvin(j.Stream.KeyValues, j.KeyValues, zero(map[string]string), k))
  ensures [C02 values] forall i: int, k: string :: 0 <= i && i < len(j.Stream.Sinks) && evcap(ev(old(nev())+i), EmitEvent, 3, 0)[k] ==> evcap(ev(old(nev())+i), EmitEvent, 3, 1)[k] == kvpick(j.Stream.KeyValues, j.KeyValues, zero(map[string]string), k)
  invariant [count] nev() == old(nev()) + $i
  invariant [each] forall i: int :: 0 <= i && i < nev() - old(nev()) ==> event(old(nev())+i, EmitEvent, j.Stream.Sinks[i], j.JobName, ev, _)
  invariant [keys] forall i: int, k: string :: 0 <= i && i < nev() - old(nev()) ==> (evcap(ev(old(nev())+i), EmitEvent, 3, 0)[k] <==> kvin(j.Stream.KeyValues, j.KeyValues, zero(map[string]string), k))
  invariant [values] forall i: int, k: string :: 0 <= i && i < nev() - old(nev()) && evcap(ev(old(nev())+i), EmitEvent, 3, 0)[k] ==> evcap(ev(old(nev())+i), EmitEvent, 3, 1)[k] == kvpick(j.Stream.KeyValues, j.KeyValues, zero(map[string]string), k)

contract (*health.Job).EventKv(j, ev, kvs)
  root C01 C02
  requires jobOK(j)
  assigns events
  ensures [C01 once] nev() == old(nev()) + len(j.Stream.Sinks)
  ensures [C01 each] forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> event(old(nev())+i, EmitEvent, j.Stream.Sinks[i], j.JobName, ev, _)
  ensures [C02 keys] forall i: int, k: string :: 0 <= i && i < len(j.Stream.Sinks) ==> (evcap(ev(old(nev())+i), EmitEvent, 3, 0)[k] <==> kvin(j.Stream.KeyValues, j.KeyValues, kvs, k))
  ensures [C02 values] forall i: int, k: string :: 0 <= i && i < len(j.Stream.Sinks) && evcap(ev(old(nev())+i), EmitEvent, 3, 0)[k] ==> evcap(ev(old(nev())+i), EmitEvent, 3, 1)[k] == kvpick(j.Stream.KeyValues, j.KeyValues, kvs, k)
  invariant [count] nev() == old(nev()) + $i
  invariant [each] forall i: int :: 0 <= i && i < nev() - old(nev()) ==> event(old(nev())+i, EmitEvent, j.Stream.Sinks[i], j.JobName, ev, _)
  invariant [keys] forall i: int, k: string :: 0 <= i && i < nev() - old(nev()) ==> (evcap(ev(old(nev())+i), EmitEvent, 3, 0)[k] <==> kvin(j.Stream.KeyValues, j.KeyValues, kvs, k))
  invariant [values] forall i: int, k: string :: 0 <= i && i < nev() - old(nev()) && evcap(ev(old(nev())+i), EmitEvent, 3, 0)[k] ==> evcap(ev(old(nev())+i), EmitEvent, 3, 1)[k] == kvpick(j.Stream.KeyValues, j.KeyValues, kvs, k)

contract (*health.Job).Timing(j, ev, nanos)
  root C01 C02
  requires jobOK(j)
  assigns events
  ensures [C01 once] nev() == old(nev()) + len(j.Stream.Sinks)
  ensures [C01 each] forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> event(old(nev())+i, EmitTiming, j.Stream.Sinks[i], j.JobName, ev, nanos, _)
  ensures [C02 keys] forall i: int, k: string :: 0 <= i && i < len(j.Stream.Sinks) ==> (evcap(ev(old(nev())+i), EmitTiming, 4, 0)[k] <==> kvin(j.Stream.KeyValues, j.KeyValues, zero(map[string]string), k))
  ensures [C02 values] forall i: int, k: string :: 0 <= i && i < len(j.Stream.Sinks) && evcap(ev(old(nev())+i), EmitTiming, 4, 0)[k] ==> evcap(ev(old(nev())+i), EmitTiming, 4, 1)[k] == kvpick(j.Stream.KeyValues, j.KeyValues, zero(map[string]string), k)
  invariant [count] nev() == old(nev()) + $i
  invariant [each] forall i: int :: 0 <= i && i < nev() - old(nev()) ==> event(old(nev())+i, EmitTiming, j.Stream.Sinks[i], j.JobName, ev, nanos, _)
  invariant [keys] forall i: int, k: string :: 0 <= i && i < nev() - old(nev()) ==> (evcap(ev(old(nev())+i), EmitTiming, 4, 0)[k] <==> kvin(j.Stream.KeyValues, j.KeyValues, zero(map[string]string), k))
  invariant [values] forall i: int, k: string :: 0 <= i && i < nev() - old(nev()) && evcap(ev(old(nev())+i), EmitTiming, 4, 0)[k] ==> evcap(ev(old(nev())+i), EmitTiming, 4, 1)[k] == kvpick(j.Stream.KeyValues, j.KeyValues, zero(map[string]string), k)

contract (*health.Job).TimingKv(j, ev, nanos, kvs)
  root C01 C02
  requires jobOK(j)
  assigns events
  ensures [C01 once] nev() == old(nev()) + len(j.Stream.Sinks)
  ensures [C01 each] forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> event(old(nev())+i, EmitTiming, j.Stream.Sinks[i], j.JobName, ev, nanos, _)
  ensures [C02 keys] forall i: int, k: string :: 0 <= i && i < len(j.Stream.Sinks) ==> (evcap(ev(old(nev())+i), EmitTiming, 4, 0)[k] <==> kvin(j.Stream.KeyValues, j.KeyValues, kvs, k))
  ensures [C02 values] forall i: int, k: string :: 0 <= i && i < len(j.Stream.Sinks) && evcap(ev(old(nev())+i), EmitTiming, 4, 0)[k] ==> evcap(ev(old(nev())+i), EmitTiming, 4, 1)[k] == kvpick(j.Stream.KeyValues, j.KeyValues, kvs, k)
  invariant [count] nev() == old(nev()) + $i
  invariant [each] forall i: int :: 0 <= i && i < nev() - old(nev()) ==> event(old(nev())+i, EmitTiming, j.Stream.Sinks[i], j.JobName, ev, nanos, _)
  invariant [keys] forall i: int, k: string :: 0 <= i && i < nev() - old(nev()) ==> (evcap(ev(old(nev())+i), EmitTiming, 4, 0)[k] <==> kvin(j.Stream.KeyValues, j.KeyValues, kvs, k))
  invariant [values] forall i: int, k: string :: 0 <= i && i < nev() - old(nev()) && evcap(ev(old(nev())+i), EmitTiming, 4, 0)[k] ==> evcap(ev(old(nev())+i), EmitTiming, 4, 1)[k] == kvpick(j.Stream.KeyValues, j.KeyValues, kvs, k)

contract (*health.Job).Gauge(j, ev, value)
  root C01 C02
  requires jobOK(j)
  assigns events
  ensures [C01 once] nev() == old(nev()) + len(j.Stream.Sinks)
  ensures [C01 each] forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> event(old(nev())+i, EmitGauge, j.Stream.Sinks[i], j.JobName, ev, value, _)
  ensures [C02 keys] forall i: int, k: string :: 0 <= i && i < len(j.Stream.Sinks) ==> (evcap(ev(old(nev())+i), EmitGauge, 4, 0)[k] <==> kvin(j.Stream.KeyValues, j.KeyValues, zero(map[string]string), k))
  ensures [C02 values] forall i: int, k: string :: 0 <= i && i < len(j.Stream.Sinks) && evcap(ev(old(nev())+i), EmitGauge, 4, 0)[k] ==> evcap(ev(old(nev())+i), EmitGauge, 4, 1)[k] == kvpick(j.Stream.KeyValues, j.KeyValues, zero(map[string]string), k)
  invariant [count] nev() == old(nev()) + $i
  invariant [each] forall i: int :: 0 <= i && i < nev() - old(nev()) ==> event(old(nev())+i, EmitGauge, j.Stream.Sinks[i], j.JobName, ev, value, _)
  invariant [keys] forall i: int, k: string :: 0 <= i && i < nev() - old(nev()) ==> (evcap(ev(old(nev())+i), EmitGauge, 4, 0)[k] <==> kvin(j.Stream.KeyValues, j.KeyValues, zero(map[string]string), k))
  invariant [values] forall i: int, k: string :: 0 <= i && i < nev() - old(nev()) && evcap(ev(old(nev())+i), EmitGauge, 4, 0)[k] ==> evcap(ev(old(nev())+i), EmitGauge, 4, 1)[k] == kvpick(j.Stream.KeyValues, j.KeyValues, zero(map[string]string), k)

contract (*health.Job).GaugeKv(j, ev, value, kvs)
  root C01 C02
  requires jobOK(j)
  assigns events
  ensures [C01 once] nev() == old(nev()) + len(j.Stream.Sinks)
  ensures [C01 each] forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> event(old(nev())+i, EmitGauge, j.Stream.Sinks[i], j.JobName, ev, value, _)
  ensures [C02 keys] forall i: int, k: string :: 0 <= i && i < len(j.Stream.Sinks) ==> (evcap(ev(old(nev())+i), EmitGauge, 4, 0)[k] <==> kvin(j.Stream.KeyValues, j.KeyValues, kvs, k))
  ensures [C02 values] forall i: int, k: string :: 0 <= i && i < len(j.Stream.Sinks) && evcap(ev(old(nev())+i), EmitGauge, 4, 0)[k] ==> evcap(ev(old(nev())+i), EmitGauge, 4, 1)[k] == kvpick(j.Stream.KeyValues, j.KeyValues, kvs, k)
  invariant [count] nev() == old(nev()) + $i
  invariant [each] forall i: int :: 0 <= i && i < nev() - old(nev()) ==> event(old(nev())+i, EmitGauge, j.Stream.Sinks[i], j.JobName, ev, value, _)
  invariant [keys] forall i: int, k: string :: 0 <= i && i < nev() - old(nev()) ==> (evcap(ev(old(nev())+i), EmitGauge, 4, 0)[k] <==> kvin(j.Stream.KeyValues, j.KeyValues, kvs, k))
  invariant [values] forall i: int, k: string :: 0 <= i && i < nev() - old(nev()) && evcap(ev(old(nev())+i), EmitGauge, 4, 0)[k] ==> evcap(ev(old(nev())+i), EmitGauge, 4, 1)[k] == kvpick(j.Stream.KeyValues, j.KeyValues, kvs, k)

contract (*health.Job).Complete(j, status)
  root C01 C02
  requires jobOK(j)
  assigns events
  ensures [C01 once] nev() == old(nev()) + len(j.Stream.Sinks)
  ensures [C01 each] forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> event(old(nev())+i, EmitComplete, j.Stream.Sinks[i], j.JobName, status, _, _)
  ensures [C02 keys] forall i: int, k: string :: 0 <= i && i < len(j.Stream.Sinks) ==> (evcap(ev(old(nev())+i), EmitComplete, 4, 0)[k] <==> kvin(j.Stream.KeyValues, j.KeyValues, zero(map[string]string), k))
  ensures [C02 values] forall i: int, k: string :: 0 <= i && i < len(j.Stream.Sinks) && evcap(ev(old(nev())+i), EmitComplete, 4, 0)[k] ==> evcap(ev(old(nev())+i), EmitComplete, 4, 1)[k] == kvpick(j.Stream.KeyValues, j.KeyValues, zero(map[string]string), k)
  ensures [C01 elapsed] forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> (let n = evarg(ev(old(nev())+i), EmitComplete, 3) + tns(j.Start) :: old(clock()) <= n && n <= clock())
  invariant [elapsed] forall i: int :: 0 <= i && i < nev() - old(nev()) ==> (let n = evarg(ev(old(nev())+i), EmitComplete, 3) + tns(j.Start) :: old(clock()) <= n && n <= clock())
  invariant [count] nev() == old(nev()) + $i
  invariant [each] forall i: int :: 0 <= i && i < nev() - old(nev()) ==> event(old(nev())+i, EmitComplete, j.Stream.Sinks[i], j.JobName, status, _, _)
  invariant [keys] forall i: int, k: string :: 0 <= i && i < nev() - old(nev()) ==> (evcap(ev(old(nev())+i), EmitComplete, 4, 0)[k] <==> kvin(j.Stream.KeyValues, j.KeyValues, zero(map[string]string), k))
  invariant [values] forall i: int, k: string :: 0 <= i && i < nev() - old(nev()) && evcap(ev(old(nev())+i), EmitComplete, 4, 0)[k] ==> evcap(ev(old(nev())+i), EmitComplete, 4, 1)[k] == kvpick(j.Stream.KeyValues, j.KeyValues, zero(map[string]string), k)

contract (*health.Job).CompleteKv(j, status, kvs)
  root C01 C02
  requires jobOK(j)
  assigns events
  ensures [C01 once] nev() == old(nev()) + len(j.Stream.Sinks)
  ensures [C01 each] forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> event(old(nev())+i, EmitComplete, j.Stream.Sinks[i], j.JobName, status, _, _)
  ensures [C02 keys] forall i: int, k: string :: 0 <= i && i < len(j.Stream.Sinks) ==> (evcap(ev(old(nev())+i), EmitComplete, 4, 0)[k] <==> kvin(j.Stream.KeyValues, j.KeyValues, kvs, k))
  ensures [C02 values] forall i: int, k: string :: 0 <= i && i < len(j.Stream.Sinks) && evcap(ev(old(nev())+i), EmitComplete, 4, 0)[k] ==> evcap(ev(old(nev())+i), EmitComplete, 4, 1)[k] == kvpick(j.Stream.KeyValues, j.KeyValues, kvs, k)
  ensures [C01 elapsed] forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> (let n = evarg(ev(old(nev())+i), EmitComplete, 3) + tns(j.Start) :: old(clock()) <= n && n <= clock())
  invariant [elapsed] forall i: int :: 0 <= i && i < nev() - old(nev()) ==> (let n = evarg(ev(old(nev())+i), EmitComplete, 3) + tns(j.Start) :: old(clock()) <= n && n <= clock())
  invariant [count] nev() == old(nev()) + $i
  invariant [each] forall i: int :: 0 <= i && i < nev() - old(nev()) ==> event(old(nev())+i, EmitComplete, j.Stream.Sinks[i], j.JobName, status, _, _)
  invariant [keys] forall i: int, k: string :: 0 <= i && i < nev() - old(nev()) ==> (evcap(ev(old(nev())+i), EmitComplete, 4, 0)[k] <==> kvin(j.Stream.KeyValues, j.KeyValues, kvs, k))
  invariant [values] forall i: int, k: string :: 0 <= i && i < nev() - old(nev()) && evcap(ev(old(nev())+i), EmitComplete, 4, 0)[k] ==> evcap(ev(old(nev())+i), EmitComplete, 4, 1)[k] == kvpick(j.Stream.KeyValues, j.KeyValues, kvs, k)

pred errOK(e error) = e != nil && (typeis(e, *health.UnmutedError) ==> dyn(e, *health.UnmutedError) != nil && dyn(e, *health.UnmutedError).Err != nil) && (typeis(e, *health.MutedError) ==> dyn(e, *health.MutedError) != nil && dyn(e, *health.MutedError).Err != nil)


contract (*health.Job).EventErr(j, ev, err)
  root C01 C02 C03
  requires jobOK(j)
  requires errOK(err)
  assigns events, all health.UnmutedError.Emitted where r: r == dyn(err, *health.UnmutedError) || fresh(r)
  ensures [C01 once] nev() >= old(nev()) + len(j.Stream.Sinks)
  ensures [C01 each] forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> event(nev()-len(j.Stream.Sinks)+i, EmitEventErr, j.Stream.Sinks[i], j.JobName, ev, _, _)
  ensures [C01 others] forall i: int :: old(nev()) <= i && i < nev()-len(j.Stream.Sinks) ==> evis(ev(i), "runtime.Callers")
  ensures [C03 same] forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> event(nev()-len(j.Stream.Sinks)+i, EmitEventErr, _, _, _, result, _)
  ensures [C03 passthrough] (typeis(err, *health.MutedError) || typeis(err, *health.UnmutedError)) ==> result == err
  ensures [C03 wrapped] !(typeis(err, *health.MutedError) || typeis(err, *health.UnmutedError)) ==> typeis(result, *health.UnmutedError) && fresh(dyn(result, *health.UnmutedError)) && dyn(result, *health.UnmutedError) != nil && dyn(result, *health.UnmutedError).Err == err && dyn(result, *health.UnmutedError).Stack != nil
  ensures [C03 marked] typeis(result, *health.UnmutedError) ==> dyn(result, *health.UnmutedError).Emitted
  ensures [C03 notBefore] typeis(result, *health.UnmutedError) ==> (forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> evcap(ev(nev()-len(j.Stream.Sinks)+i), EmitEventErr, 3, 0) == (if (typeis(err, *health.MutedError) || typeis(err, *health.UnmutedError)) then old(dyn(err, *health.UnmutedError).Emitted) else false))
  ensures [C02 keys] forall i: int, k: string :: 0 <= i && i < len(j.Stream.Sinks) ==> (evcap(ev(nev()-len(j.Stream.Sinks)+i), EmitEventErr, 4, 0)[k] <==> kvin(j.Stream.KeyValues, j.KeyValues, zero(map[string]string), k))
  ensures [C02 values] forall i: int, k: string :: 0 <= i && i < len(j.Stream.Sinks) && evcap(ev(nev()-len(j.Stream.Sinks)+i), EmitEventErr, 4, 0)[k] ==> evcap(ev(nev()-len(j.Stream.Sinks)+i), EmitEventErr, 4, 1)[k] == kvpick(j.Stream.KeyValues, j.KeyValues, zero(map[string]string), k)
  invariant [count] nev() >= old(nev()) + $i
  invariant [others] forall i: int :: old(nev()) <= i && i < nev()-$i ==> evis(ev(i), "runtime.Callers")
  invariant [each] forall i: int :: 0 <= i && i < $i ==> event(nev()-$i+i, EmitEventErr, j.Stream.Sinks[i], j.JobName, ev, _, _)
  invariant [same] with $e: error :: forall i: int :: 0 <= i && i < $i ==> event(nev()-$i+i, EmitEventErr, _, _, _, $e, _)
  invariant [flag] with $e: error :: typeis($e, *health.UnmutedError) ==> (forall i: int :: 0 <= i && i < $i ==> evcap(ev(nev()-$i+i), EmitEventErr, 3, 0) == dyn($e, *health.UnmutedError).Emitted)
  invariant [keys] forall i: int, k: string :: 0 <= i && i < $i ==> (evcap(ev(nev()-$i+i), EmitEventErr, 4, 0)[k] <==> kvin(j.Stream.KeyValues, j.KeyValues, zero(map[string]string), k))
  invariant [values] forall i: int, k: string :: 0 <= i && i < $i && evcap(ev(nev()-$i+i), EmitEventErr, 4, 0)[k] ==> evcap(ev(nev()-$i+i), EmitEventErr, 4, 1)[k] == kvpick(j.Stream.KeyValues, j.KeyValues, zero(map[string]string), k)

contract (*health.Job).EventErrKv(j, ev, err, kvs)
  root C01 C02 C03
  requires jobOK(j)
  requires errOK(err)
  assigns events, all health.UnmutedError.Emitted where r: r == dyn(err, *health.UnmutedError) || fresh(r)
  ensures [C01 once] nev() >= old(nev()) + len(j.Stream.Sinks)
  ensures [C01 each] forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> event(nev()-len(j.Stream.Sinks)+i, EmitEventErr, j.Stream.Sinks[i], j.JobName, ev, _, _)
  ensures [C01 others] forall i: int :: old(nev()) <= i && i < nev()-len(j.Stream.Sinks) ==> evis(ev(i), "runtime.Callers")
  ensures [C03 same] forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> event(nev()-len(j.Stream.Sinks)+i, EmitEventErr, _, _, _, result, _)
  ensures [C03 passthrough] (typeis(err, *health.MutedError) || typeis(err, *health.UnmutedError)) ==> result == err
  ensures [C03 wrapped] !(typeis(err, *health.MutedError) || typeis(err, *health.UnmutedError)) ==> typeis(result, *health.UnmutedError) && fresh(dyn(result, *health.UnmutedError)) && dyn(result, *health.UnmutedError) != nil && dyn(result, *health.UnmutedError).Err == err && dyn(result, *health.UnmutedError).Stack != nil
  ensures [C03 marked] typeis(result, *health.UnmutedError) ==> dyn(result, *health.UnmutedError).Emitted
  ensures [C03 notBefore] typeis(result, *health.UnmutedError) ==> (forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> evcap(ev(nev()-len(j.Stream.Sinks)+i), EmitEventErr, 3, 0) == (if (typeis(err, *health.MutedError) || typeis(err, *health.UnmutedError)) then old(dyn(err, *health.UnmutedError).Emitted) else false))
  ensures [C02 keys] forall i: int, k: string :: 0 <= i && i < len(j.Stream.Sinks) ==> (evcap(ev(nev()-len(j.Stream.Sinks)+i), EmitEventErr, 4, 0)[k] <==> kvin(j.Stream.KeyValues, j.KeyValues, kvs, k))
  ensures [C02 values] forall i: int, k: string :: 0 <= i && i < len(j.Stream.Sinks) && evcap(ev(nev()-len(j.Stream.Sinks)+i), EmitEventErr, 4, 0)[k] ==> evcap(ev(nev()-len(j.Stream.Sinks)+i), EmitEventErr, 4, 1)[k] == kvpick(j.Stream.KeyValues, j.KeyValues, kvs, k)
  invariant [count] nev() >= old(nev()) + $i
  invariant [others] forall i: int :: old(nev()) <= i && i < nev()-$i ==> evis(ev(i), "runtime.Callers")
  invariant [each] forall i: int :: 0 <= i && i < $i ==> event(nev()-$i+i, EmitEventErr, j.Stream.Sinks[i], j.JobName, ev, _, _)
  invariant [same] with $e: error :: forall i: int :: 0 <= i && i < $i ==> event(nev()-$i+i, EmitEventErr, _, _, _, $e, _)
  invariant [flag] with $e: error :: typeis($e, *health.UnmutedError) ==> (forall i: int :: 0 <= i && i < $i ==> evcap(ev(nev()-$i+i), EmitEventErr, 3, 0) == dyn($e, *health.UnmutedError).Emitted)
  invariant [keys] forall i: int, k: string :: 0 <= i && i < $i ==> (evcap(ev(nev()-$i+i), EmitEventErr, 4, 0)[k] <==> kvin(j.Stream.KeyValues, j.KeyValues, kvs, k))
  invariant [values] forall i: int, k: string :: 0 <= i && i < $i && evcap(ev(nev()-$i+i), EmitEventErr, 4, 0)[k] ==> evcap(ev(nev()-$i+i), EmitEventErr, 4, 1)[k] == kvpick(j.Stream.KeyValues, j.KeyValues, kvs, k)
contract health.Mute(err)
  root C03
  assigns nothing
  ensures [C03 mute] result != nil && fresh(result) && result.Err == err

contract (*health.MutedError).Error(e)
  root C03
  requires e != nil && e.Err != nil
  assigns nothing
  ensures [C03 text] result == errmsg(e.Err)

contract (*health.UnmutedError).Error(e)
  root C03
  requires e != nil && e.Err != nil
  assigns nothing
  ensures [C03 text] result == errmsg(e.Err)

contract health.wrapErr(err)
  root C03
  requires errOK(err)
  assigns events
  ensures [C03 passthrough] typeis(err, *health.MutedError) || typeis(err, *health.UnmutedError) ==> result == err && nev() == old(nev())
  ensures [C03 wrapped] !(typeis(err, *health.MutedError) || typeis(err, *health.UnmutedError)) ==> typeis(result, *health.UnmutedError) && fresh(dyn(result, *health.UnmutedError)) && dyn(result, *health.UnmutedError) != nil && dyn(result, *health.UnmutedError).Err == err && dyn(result, *health.UnmutedError).Stack != nil && !dyn(result, *health.UnmutedError).Emitted
  ensures forall i: int :: old(nev()) <= i && i < nev() ==> evis(ev(i), "runtime.Callers")
  ensures nev() >= old(nev())

contract (*health.Stream).NewJob(s, name)
  root C01 C02
  assigns nothing
  ensures [C01 job] result != nil && fresh(result) && result.Stream == s && result.JobName == name
  ensures [C02 empty] forall k: string :: !(k in result.KeyValues)
  ensures [C01 start] old(clock()) <= tns(result.Start) && tns(result.Start) <= clock()

contract health.NewStream()
  root C01 C02
  assigns nothing
  ensures [C01 stream] result != nil && fresh(result) && len(result.Sinks) == 0
  ensures [C01 general] result.Job != nil && fresh(result.Job) && result.Job.Stream == result && result.Job.JobName == "general"
  ensures [C01 start] old(clock()) <= tns(result.Job.Start) && tns(result.Job.Start) <= clock()
  ensures [C02 empty] forall k: string :: !(k in result.KeyValues) && !(k in result.Job.KeyValues)

contract (*health.Stream).AddSink(s, sink)
  root C01
  requires s != nil
  assigns s.Sinks, elems(s.Sinks)
  ensures [C01 self] result == s
  ensures [C01 added] len(s.Sinks) == old(len(s.Sinks)) + 1 && s.Sinks[len(s.Sinks)-1] == sink
  ensures [C01 kept] forall i: int :: 0 <= i && i < old(len(s.Sinks)) ==> s.Sinks[i] == old(s.Sinks[i])

contract (*health.Stream).KeyValue(s, key, value)
  root C02
  requires s != nil
  assigns s.KeyValues, map(s.KeyValues)
  ensures [C02 self] result == s
  ensures [C02 set] key in s.KeyValues && s.KeyValues[key] == value
  ensures [C02 others] forall k: string :: k != key ==> (k in s.KeyValues <==> old(k in s.KeyValues)) && s.KeyValues[k] == old(s.KeyValues[k])

contract (*health.Job).KeyValue(j, key, value)
  root C02
  requires j != nil
  assigns j.KeyValues, map(j.KeyValues)
  ensures [C02 self] result == j
  ensures [C02 set] key in j.KeyValues && j.KeyValues[key] == value
  ensures [C02 others] forall k: string :: k != key ==> (k in j.KeyValues <==> old(k in j.KeyValues)) && j.KeyValues[k] == old(j.KeyValues[k])

contract functype:func() error
  havoc events F|health.Job|KeyValues F|health.Stream|KeyValues MD|map[string]string MV|map[string]string F|health.UnmutedError|Emitted
  maypanic

contract (*health.Job).Run(j, f)
  root C04
  noframe
  inline
  requires jobOK(j) && f != nil
  ensures [C04 called] event(old(nev()), callback, f)
  ensures [C04 onlyThen] forall i: int :: at(callback, nev()) <= i && i < nev() ==> !evis(ev(i), callback)
  ensures [C04 result] !ghost(panicked) ==> result == ghost(cbresult0)
  ensures [C04 completions] !ghost(panicked) ==> nev() == at(callback, nev()) + len(j.Stream.Sinks)
  ensures [C04 status] !ghost(panicked) ==> (forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> event(at(callback, nev())+i, EmitComplete, j.Stream.Sinks[i], j.JobName, (if ghost(cbresult0) == nil then 0 else 3), _, _))
  ensures [C04 panicText] ghost(panicked) ==> result != nil && errmsg(result) == fmtv(ghost(panicval))
  ensures [C04 panicStatus] ghost(panicked) ==> (forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> event(nev()-len(j.Stream.Sinks)+i, EmitComplete, j.Stream.Sinks[i], j.JobName, 2, _, _))
  ensures [C04 panicEvent] ghost(panicked) ==> (forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> event(nev()-2*len(j.Stream.Sinks)+i, EmitEventErr, j.Stream.Sinks[i], j.JobName, "panic", _, _))
  ensures [C04 panicError] ghost(panicked) ==> (forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> (let e = evarg(ev(nev()-2*len(j.Stream.Sinks)+i), EmitEventErr, 3) :: typeis(e, *health.UnmutedError) && dyn(e, *health.UnmutedError).Err == result))
  ensures [C04 panicStack] ghost(panicked) ==> (forall i: int :: 0 <= i && i < len(j.Stream.Sinks) ==> evcap(ev(nev()-2*len(j.Stream.Sinks)+i), EmitEventErr, 4, 0)["stack"])
  ensures [C04 panicOthers] ghost(panicked) ==> at(callback, nev()) <= nev()-2*len(j.Stream.Sinks) && (forall i: int :: at(callback, nev()) <= i && i < nev()-2*len(j.Stream.Sinks) ==> evis(ev(i), "runtime.Callers") || evis(ev(i), "runtime.Stack"))

contract (*health.Stream).Run(s, name, f)
  root C04
  noframe
  requires s != nil && f != nil && (forall i: int :: 0 <= i && i < len(s.Sinks) ==> s.Sinks[i] != nil)
  ensures [C04 called] event(old(nev()), callback, f)
  ensures [C04 onlyThen] forall i: int :: at(callback, nev()) <= i && i < nev() ==> !evis(ev(i), callback)
  ensures [C04 result] !ghost(panicked) ==> result == ghost(cbresult0)
  ensures [C04 completions] !ghost(panicked) ==> nev() == at(callback, nev()) + len(s.Sinks)
  ensures [C04 status] !ghost(panicked) ==> (forall i: int :: 0 <= i && i < len(s.Sinks) ==> event(at(callback, nev())+i, EmitComplete, s.Sinks[i], name, (if ghost(cbresult0) == nil then 0 else 3), _, _))
  ensures [C04 panicText] ghost(panicked) ==> result != nil && errmsg(result) == fmtv(ghost(panicval))
  ensures [C04 panicStatus] ghost(panicked) ==> (forall i: int :: 0 <= i && i < len(s.Sinks) ==> event(nev()-len(s.Sinks)+i, EmitComplete, s.Sinks[i], name, 2, _, _))
  ensures [C04 panicEvent] ghost(panicked) ==> (forall i: int :: 0 <= i && i < len(s.Sinks) ==> event(nev()-2*len(s.Sinks)+i, EmitEventErr, s.Sinks[i], name, "panic", _, _))
