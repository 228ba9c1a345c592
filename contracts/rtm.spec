// ---------------------------------------------------------------------------
// Runtime metrics.
// ---------------------------------------------------------------------------

uf memstats() : runtime.MemStats as MemStats
uf gcquantile(i int, n int) : int as gcquantile
uf numgoroutine() : int as NumGoroutine
uf numcgocall() : int as NumCgoCall
uf readdirok() : bool as ReadDirOK
uf readdirlen() : int as ReadDirLen

pred gaugeAt(i int, rm *runtime_metrics.RuntimeMetrics, name string, v float64) = event(i, Gauge, rm.stream, name, v)
// how many gauges precede each group
fun nMem(rm *runtime_metrics.RuntimeMetrics) : int = if rm.options.Memory then 2 else 0
fun nGC(rm *runtime_metrics.RuntimeMetrics) : int = nMem(rm) + (if rm.options.GC then 4 else 0)
fun nQ(rm *runtime_metrics.RuntimeMetrics) : int = nGC(rm) + (if rm.options.GCQuantile then 2 else 0)
fun nGo(rm *runtime_metrics.RuntimeMetrics) : int = nQ(rm) + (if rm.options.Goroutines then 1 else 0)
fun nCgo(rm *runtime_metrics.RuntimeMetrics) : int = nGo(rm) + (if rm.options.Cgo then 1 else 0)

contract (*runtime_metrics.RuntimeMetrics).Report(rm)
  root C27
  requires rm != nil && rm.stream != nil
  assigns events
  ensures [memory] rm.options.Memory ==> gaugeAt(old(nev()), rm, "alloc", i2f(memstats().Alloc)) && gaugeAt(old(nev())+1, rm, "heap_objects", i2f(memstats().HeapObjects))
  ensures [gc] rm.options.GC ==> (let i = old(nev()) + nMem(rm) :: gaugeAt(i, rm, "pause_total_ns", i2f(memstats().PauseTotalNs)) && gaugeAt(i+1, rm, "num_gc", i2f(memstats().NumGC))
     && gaugeAt(i+2, rm, "next_gc", i2f(memstats().NextGC)) && gaugeAt(i+3, rm, "gc_cpu_fraction", memstats().GCCPUFraction))
  ensures [quantiles] rm.options.GCQuantile ==> (let i = old(nev()) + nGC(rm) :: gaugeAt(i, rm, "gc_pause_quantile_50", i2f(gcquantile(1, 3) / 1000) / flt("1000")) && gaugeAt(i+1, rm, "gc_pause_quantile_max", i2f(gcquantile(2, 3) / 1000) / flt("1000")))
  ensures [goroutines] rm.options.Goroutines ==> gaugeAt(old(nev()) + nQ(rm), rm, "num_goroutines", i2f(numgoroutine()))
  ensures [cgo] rm.options.Cgo ==> gaugeAt(old(nev()) + nGo(rm), rm, "num_cgo_call", i2f(numcgocall()))
  ensures [fds] rm.options.FDs ==> event(old(nev()) + nCgo(rm), "ReadDir", "/proc/self/fd") && (if readdirok() then nev() == old(nev()) + nCgo(rm) + 2 && gaugeAt(old(nev()) + nCgo(rm) + 1, rm, "num_fds_used", i2f(readdirlen())) else nev() == old(nev()) + nCgo(rm) + 1)
  ensures [nomore] !rm.options.FDs ==> nev() == old(nev()) + nCgo(rm)

contract runtime_metrics.NewRuntimeMetrics(stream, options)
  root C27
  ensures [stream] result != nil && fresh(result) && result.stream == stream
  ensures [options] options != nil ==> result.options == deref(options)
  ensures [default] options == nil ==> result.options.Interval == 5000000000 && result.options.Memory && result.options.GC && result.options.GCQuantile && result.options.Goroutines && result.options.Cgo && result.options.FDs
  ensures [channels] result.stopChan != nil && result.stopStopChan != nil && result.stopChan != result.stopStopChan

contract (*runtime_metrics.RuntimeMetrics).Start(rm)
  root C27
  requires rm != nil
  assigns events
  ensures [poller] nev() == old(nev()) + 1 && event(old(nev()), "go:(*runtime_metrics.RuntimeMetrics).metricsPoller", rm)

contract (*runtime_metrics.RuntimeMetrics).Stop(rm)
  root C27
  requires rm != nil && rm.stopChan != nil && rm.stopStopChan != nil
  assigns events
  ensures [waits] nev() == old(nev()) + 2 && event(old(nev()), "send:bool", rm.stopChan, _) && event(old(nev())+1, "recv:bool", rm.stopStopChan, _)

contract (*runtime_metrics.RuntimeMetrics).metricsPoller(rm)
  root C27
  requires rm != nil && rm.stream != nil && rm.options.Interval > 0 && rm.stopChan != nil && rm.stopStopChan != nil && rm.stopChan != rm.stopStopChan
  assigns events
  iter [tick] nev() > old(nev()) && evis(ev(old(nev())), "recv:time.Time") ==> reported(rm, old(nev())+1)
  iter [noreport] !(nev() > old(nev()) && evis(ev(old(nev())), "recv:time.Time")) ==> (forall i: int :: old(nev()) <= i && i < nev() ==> !evis(ev(i), Gauge))
  iter [stop] exiting ==> nev() > old(nev()) && event(old(nev()), "recv:bool", rm.stopChan, _)
  ensures [ended] nev() >= 2 && event(nev()-1, "send:bool", rm.stopStopChan, _)
  ensures [ticker] evis(ev(old(nev())), "time.NewTicker") && evarg(ev(old(nev())), "time.NewTicker", 1) == rm.options.Interval

// the report of rm is what happened from event i on
pred reported(rm *runtime_metrics.RuntimeMetrics, i int) = nev() >= i + nCgo(rm)
  && (rm.options.Memory ==> gaugeAt(i, rm, "alloc", i2f(memstats().Alloc)))
  && (rm.options.GC ==> gaugeAt(i + nMem(rm), rm, "pause_total_ns", i2f(memstats().PauseTotalNs)))
  && (rm.options.GCQuantile ==> gaugeAt(i + nGC(rm), rm, "gc_pause_quantile_50", i2f(gcquantile(1, 3) / 1000) / flt("1000")))
  && (rm.options.Goroutines ==> gaugeAt(i + nQ(rm), rm, "num_goroutines", i2f(numgoroutine())))
  && (rm.options.Cgo ==> gaugeAt(i + nGo(rm), rm, "num_cgo_call", i2f(numcgocall())))
  && (if !rm.options.FDs then nev() == i + nCgo(rm) else event(i + nCgo(rm), "ReadDir", "/proc/self/fd") && nev() == i + nCgo(rm) + (if readdirok() then 2 else 1))
