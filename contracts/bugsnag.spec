// ---------------------------------------------------------------------------
// The Bugsnag sink.
// ---------------------------------------------------------------------------

// what travels to the reporting goroutine
chan *bugsnag.cmdEventErr (c) [command]: c != nil && isobj(c) && c.Err != nil && c.Err.Err != nil && c.Err.Stack != nil && trOK(c.Err.Stack)

pred reportedFrame(p bugsnag.payloadFrame, f stack.Frame) = p.File == f.File && p.LineNumber == f.LineNumber && p.Method == f.Package + ":" + f.Name && (p.InProject <==> !f.IsSystemPackage)
pred frameOfPC(p bugsnag.payloadFrame, pc int) =
  if pc == 0 || funcforpc(pc) == nil then p.File == "" && p.LineNumber == 0 && p.Method == ":" && p.InProject
  else let n = funcname(funcforpc(pc)) :: p.File == funcfile(funcforpc(pc), pc-1) && p.LineNumber == funcline(funcforpc(pc), pc-1) && p.Method == pkgOf(n) + ":" + nameOf(n) && (p.InProject <==> !hasprefix(p.File, global(stack.goroot)))

// the report p of an error with message msg
pred payloadOK(p *bugsnag.payload, config *bugsnag.Config, job string, event string, msg string, t *stack.Trace, kvs map[string]string) =
  p != nil && p.APIKey == config.APIKey && len(p.Events) == 1 && p.Events[0].Context == job && p.Events[0].App.ReleaseStage == config.ReleaseStage && p.Events[0].Device.Hostname == config.Hostname
  && len(p.Events[0].Exceptions) == 1 && p.Events[0].Exceptions[0].ErrorClass == event && p.Events[0].Exceptions[0].Message == msg
  && p.Events[0].Metadata.Kvs == kvs && p.Events[0].Metadata.Request.Url == (if "request" in kvs then kvs["request"] else "") && p.Events[0].Metadata.Request.Parameters == (if "formdata" in kvs then kvs["formdata"] else "")
  && len(p.Events[0].Exceptions[0].Stacktrace) == len(t.stack)
  && (forall i: int :: 0 <= i && i < len(t.stack) ==> frameOfPC(p.Events[0].Exceptions[0].Stacktrace[i], t.stack[i]))

contract bugsnag.newPayload(config, jobName, eventName, err, trace, kvs)
  root C19
  inline
  requires config != nil && err != nil && trace != nil && trOK(trace)
  assigns trace.frames
  invariant [frames] with $x: *bugsnag.payloadException :: len($x.Stacktrace) == $i && (forall i: int :: 0 <= i && i < $i ==> reportedFrame($x.Stacktrace[i], trace.frames[i])) && (base($x.Stacktrace) == nil || fresh(base($x.Stacktrace)))
  invariant [shape] trFrames(trace)
  ensures [report] payloadOK(result, config, jobName, eventName, errmsg(err), trace, kvs)

contract bugsnag.Notify(config, jobName, eventName, err, trace, kvs)
  root C19
  inline
  requires config != nil && err != nil && trace != nil && trOK(trace)
  assigns trace.frames, events
  ensures [report] at(marshaled, payloadOK(dyn(ghost(marshaled), *bugsnag.payload), config, jobName, eventName, errmsg(err), trace, kvs)) && typeis(ghost(marshaled), *bugsnag.payload)
  ensures [unencodable] !ghost(marshalok) ==> nev() == old(nev()) && result != nil
  ensures [posted] ghost(marshalok) ==> nev() > old(nev()) && event(old(nev()), "http.Post", config.Endpoint, "application/json", ghost(marshaltext)) && nev() <= old(nev()) + 2
  ensures [success] result == nil <==> nev() == old(nev()) + 2 && event(old(nev()) + 1, "ReadAll", _, true, "OK")
  ensures [names] jsonname("bugsnag.payload", "APIKey") == "apiKey" && jsonname("bugsnag.payload", "Events") == "events" && jsonname("bugsnag.payload", "Events.Exceptions") == "exceptions" && jsonname("bugsnag.payload", "Events.Context") == "context"
    && jsonname("bugsnag.payload", "Events.App.ReleaseStage") == "releaseStage" && jsonname("bugsnag.payload", "Events.App") == "app" && jsonname("bugsnag.payload", "Events.Device") == "device" && jsonname("bugsnag.payload", "Events.Device.Hostname") == "hostname"
    && jsonname("bugsnag.payload", "Events.Metadata") == "metaData" && jsonname("bugsnag.payload", "Events.Metadata.Kvs") == "kvs" && jsonname("bugsnag.payload", "Events.Metadata.Request") == "request"
    && jsonname("bugsnag.payload", "Events.Exceptions.ErrorClass") == "errorClass" && jsonname("bugsnag.payload", "Events.Exceptions.Message") == "message" && jsonname("bugsnag.payload", "Events.Exceptions.Stacktrace") == "stacktrace"
    && jsonname("bugsnag.payload", "Events.Exceptions.Stacktrace.File") == "file" && jsonname("bugsnag.payload", "Events.Exceptions.Stacktrace.LineNumber") == "lineNumber" && jsonname("bugsnag.payload", "Events.Exceptions.Stacktrace.Method") == "method" && jsonname("bugsnag.payload", "Events.Exceptions.Stacktrace.InProject") == "inProject"
    && jsonname("bugsnag.payload", "Events.Metadata.Request.Url") == "url" && jsonname("bugsnag.payload", "Events.Metadata.Request.Parameters") == "parameters"

contract (*bugsnag.Sink).EmitEvent(s, job, event, kvs)
  root C19
  assigns events
  ensures [silent] nev() == old(nev())
contract (*bugsnag.Sink).EmitTiming(s, job, event, nanos, kvs)
  root C19
  assigns events
  ensures [silent] nev() == old(nev())
contract (*bugsnag.Sink).EmitGauge(s, job, event, value, kvs)
  root C19
  assigns events
  ensures [silent] nev() == old(nev())
contract (*bugsnag.Sink).EmitComplete(s, job, status, nanos, kvs)
  root C19
  assigns events
  ensures [silent] nev() == old(nev())

pred newUnmuted(e error) = typeis(e, *health.UnmutedError) && !dyn(e, *health.UnmutedError).Emitted
contract (*bugsnag.Sink).EmitEventErr(s, job, event, inputErr, kvs)
  root C19
  requires s != nil && errOK(inputErr) && (typeis(inputErr, *health.UnmutedError) ==> dyn(inputErr, *health.UnmutedError).Stack != nil && trOK(dyn(inputErr, *health.UnmutedError).Stack))
  assigns events
  invariant [copied] with $m: map[string]string :: $m != kvs ==> dom($m) == visited(kvs) && (forall k: string :: visited(kvs)[k] ==> $m[k] == kvs[k])
  ensures [others] !newUnmuted(inputErr) ==> nev() == old(nev())
  ensures [sent] newUnmuted(inputErr) ==> nev() == old(nev()) + 1 && event(old(nev()), "send:*bugsnag.cmdEventErr", s.cmdChan, _)
  ensures [command] newUnmuted(inputErr) ==> (let c = evarg(ev(old(nev())), "send:*bugsnag.cmdEventErr", 1) :: fresh(c) && c.Job == job && c.Event == event && c.Err == dyn(inputErr, *health.UnmutedError))
  ensures [kvs] newUnmuted(inputErr) ==> (let c = evarg(ev(old(nev())), "send:*bugsnag.cmdEventErr", 1) :: if kvs == nil then c.Kvs == nil || card(dom(c.Kvs)) == 0 else fresh(c.Kvs) && (forall k: string :: (k in c.Kvs <==> k in kvs) && c.Kvs[k] == kvs[k]))

contract (*bugsnag.Sink).ShutdownServer(s)
  root C19
  requires s != nil
  assigns events
  ensures [stop] nev() == old(nev()) + 1 && event(old(nev()), "send:int", s.doneChan, _)

contract bugsnag.NewSink(config)
  root C19
  requires config != nil
  assigns config.Endpoint, events
  ensures [started] nev() == old(nev()) + 1 && event(old(nev()), "go:bugsnag.errorProcessingLoop", result)
  ensures [config] result != nil && fresh(result) && result.Config == config && result.cmdChan != nil && result.doneChan != nil
  ensures [endpoint] config.Endpoint == (if old(config.Endpoint) == "" then "https://notify.bugsnag.com/" else old(config.Endpoint))

fun gotErr() : *bugsnag.cmdEventErr = evarg(ev(old(nev())), "recv:*bugsnag.cmdEventErr", 1)
pred gotErrCmd(s *bugsnag.Sink) = nev() > old(nev()) && event(old(nev()), "recv:*bugsnag.cmdEventErr", s.cmdChan, _)
contract bugsnag.errorProcessingLoop(sink)
  root C19
  requires sink != nil && sink.Config != nil && sink.cmdChan != nil && sink.doneChan != nil
  assigns events, all stack.Trace.frames where r: true
  iter [report] gotErrCmd(sink) ==> at(marshaled, payloadOK(dyn(ghost(marshaled), *bugsnag.payload), sink.Config, gotErr().Job, gotErr().Event, errmsg(gotErr().Err.Err), gotErr().Err.Stack, gotErr().Kvs))
  iter [posted] gotErrCmd(sink) && ghost(marshalok) ==> nev() > old(nev()) + 1 && event(old(nev())+1, "http.Post", sink.Config.Endpoint, "application/json", ghost(marshaltext))
  iter [once] forall i: int :: old(nev()) + 2 <= i && i < nev() ==> !evis(ev(i), "http.Post")
  iter [quiet] !gotErrCmd(sink) ==> (forall i: int :: old(nev()) <= i && i < nev() ==> !evis(ev(i), "http.Post"))
  iter [on] gotErrCmd(sink) ==> !exiting
