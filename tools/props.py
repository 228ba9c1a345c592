#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Every emission reaches every registered sink, once, in order, unaltered",
  "Each event, error, timing, gauge or completion emitted on a job or stream is delivered exactly once to every sink registered on the stream, in the order the sinks were added, carrying the job's name (\"general\" for the stream itself) and exactly the name, value, duration or status given by the caller. A completion carries the time elapsed since the job was created. Adding a sink keeps all the sinks already there.",
  ["inputs", "programs", "histories"], "all numbers of sinks, job names, event names, values, statuses and key/value maps; all sink implementations",
  "The tests attach one sink and emit one fixed event per method; the guarantee is over every number of sinks and every argument.",
  ["health.go"], [("fan-out loops", "health.go Job.Event, EventKv, EventErr, EventErrKv, Timing, TimingKv, Gauge, GaugeKv, Complete, CompleteKv"), ("registration", "health.go NewStream, Stream.AddSink, Stream.NewJob")])

p("C02", "Sinks see the union of stream, job and call key/values, most specific wins",
  "With every emission each sink receives exactly the union of the stream's, the job's and the call's key/values; where a key occurs at several levels the call's value beats the job's, and the job's beats the stream's. Emitting never modifies the stream's, the job's or the caller's key/values. Setting a key/value on a stream or job changes only that key at that level.",
  ["inputs", "programs"], "all three maps, including empty, nil and overlapping ones; all emission methods",
  "Existing tests check one overlapping triple; the precedence and the non-interference must hold for every combination of populated levels, including the shortcut taken when only one level is populated.",
  ["health.go"], [("merge", "health.go Job.mergedKeyValues"), ("setters", "health.go Stream.KeyValue, Job.KeyValue")])

p("C03", "Error events hand every sink and the caller one wrapped error",
  "Reporting an error passes all sinks, and returns to the caller, one and the same error value: an error that is already muted or unmuted-wrapped is passed through unchanged, any other error is wrapped in a new unmuted error holding the original and a stack trace. After delivery to all sinks, and not before, an unmuted error is marked as emitted; a muted error never changes. Wrapped errors print as the error they wrap, and muting wraps the given error.",
  ["inputs", "histories"], "all error values and dynamic types, including errors reported repeatedly through several jobs",
  "Tests report one plain and one muted error to one sink; the property is about the identity, the order of marking and every dynamic type.",
  ["health.go", "error.go"], [("wrapping", "error.go wrapErr, Mute, MutedError.Error, UnmutedError.Error"), ("marking", "health.go Job.EventErr, Job.EventErrKv")])

p("C04", "Running a function as a job completes it once with the right status",
  "Running a function as a job calls it exactly once and then completes the job exactly once: as success when it returns nil, as error when it returns an error, and as panic when it panics. The caller gets back the function's own error; a panic never escapes, it is reported as a \"panic\" error event with a stack before the completion and returned as an error whose text is that of the panic value. Running on a stream does the same for a new job of the given name.",
  ["inputs", "programs", "fault_sequences"], "all functions: returning nil, returning any error, panicking with any value",
  "Tests sample one function per outcome; the status, the order and the recovered value must be right for every panic value and error.",
  ["health.go"], [("run and recover", "health.go Job.Run, Stream.Run")])

p("C05", "Timer and job statistics are exact for every sequence of observations",
  "After any sequence of durations a timer's count, sum, sum of squares, minimum and maximum are exactly those of that sequence, whatever the signs and the order. Completing a job adds its duration to the job's timer and increments exactly the one counter that matches the status (none for an unknown status).",
  ["inputs", "histories"], "all sequences of durations (negative, zero, huge) and statuses",
  "The tests ingest a couple of positive values; min/max tracking and the status dispatch depend on order, sign and first observation.",
  ["interval_aggregation.go"], [("ingest", "interval_aggregation.go TimerAggregation.ingest, JobAggregation.ingest")],
  state=[("Count, NanosSum, NanosSumSquares, NanosMin, NanosMax", "statistics of everything ingested so far"), ("CountSuccess..CountJunk", "completions per status")])

p("C06", "The polling sink records each emission once in the current interval and job",
  "Every event, error, timing, gauge and completion accepted by the polling sink is recorded exactly once in the current interval, both at interval level and under its job (completions only under the job), and no other name, job or interval changes; the interval's serial number grows by exactly one. Counters grow by one, error counters grow by one and offer the error as a sample, timers ingest the duration, and a gauge holds the last value. Emissions are forwarded to the aggregation in the order they were made with the arguments they were made with.",
  ["inputs", "histories", "schedules"], "all emission sequences over all job and event names, new and existing; all times relative to interval boundaries",
  "Tests use a handful of names in one interval; they cannot show that nothing else changes, nor that both levels are kept for every history.",
  ["aggregator.go", "interval_aggregation.go", "json_polling_sink.go"], [("recording", "aggregator.go aggregator.EmitEvent, EmitEventErr, EmitTiming, EmitGauge, EmitComplete"), ("lookup or create", "interval_aggregation.go getCounterErrs, getTimers, getJobAggregation"), ("forwarding", "json_polling_sink.go JsonPollingSink.Emit*; aggregator.go startAggregator")],
  state=[("intervalAggregations", "the retained intervals, oldest first"), ("SerialNumber", "number of changes to an interval")])

p("C08", "The retained intervals are the newest ones, aligned, ordered and bounded",
  "Data is filed under the interval that starts at the current time rounded down to the interval length: one interval object per distinct start. The number of retained intervals never exceeds retention divided by interval length (at least one), and when a new interval begins in a full window exactly the oldest is dropped, the others keep their order and contents, and the new, empty interval is last.",
  ["inputs", "histories", "configurations"], "all interval lengths and retentions, all non-decreasing clock histories",
  "Tests step a mocked clock through four intervals of one configuration; the window invariant must hold for every configuration and any number of steps.",
  ["aggregator.go"], [("window", "aggregator.go newAggregator, getIntervalAggregation, createIntervalAggregation")],
  state=[("intervalAggregations, maxIntervals", "the window and its bound")])

p("C09", "Metrics handed out are a stable snapshot of all retained intervals",
  "Asking the polling sink for its metrics returns all retained intervals in order, including the current one even if nothing was recorded in it yet, with contents equal to what has been recorded so far. A snapshot that was handed out never changes afterwards, whatever is emitted later. Taking a snapshot does not change any recorded data.",
  ["inputs", "histories", "schedules"], "all recorded states and all later emissions",
  "A test can compare one snapshot before and after a few emissions; absence of sharing between snapshot and live data has to hold for all states.",
  ["aggregator.go", "interval_aggregation_clone.go", "json_polling_sink.go"], [("snapshot", "aggregator.go aggregator.memorySafeIntervals, startAggregator"), ("request", "json_polling_sink.go JsonPollingSink.GetMetrics")])

p("C10", "GET /health serves exactly the current metrics as JSON",
  "A request for the path /health is answered with content type application/json; charset=utf-8 and a body that is exactly the JSON encoding of the instance identifier, the interval length and a current snapshot of all retained intervals, whatever bytes occur in names. If that cannot be encoded the answer is status 500 with an error object, and any other path gets status 404 with {\"error\": \"not_found\"}.",
  ["inputs"], "all request paths, all recorded names (including '%', quotes and non-ASCII) and values",
  "The test serves one snapshot with plain names; corruption depends on the bytes in names.",
  ["json_polling_sink_http.go"], [("handler", "json_polling_sink_http.go JsonPollingSink.ServeHTTP, renderNotFound, renderError")])

p("C11", "Cloning an interval gives an equal, fully independent copy",
  "A clone of an interval has the same start, serial number, jobs, timers, gauges, event counts and error counts and samples as the original. It shares no mutable data with it: no later change to either is visible in the other, and cloning itself changes nothing.",
  ["inputs"], "all intervals, with any number of jobs, timers, gauges, events and errors",
  "The tests clone one populated interval and change a few entries; sharing anywhere in the nested maps must be excluded.",
  ["interval_aggregation_clone.go"], [("clone", "interval_aggregation_clone.go IntervalAggregation.Clone, aggregationMaps.Clone, JobAggregation.Clone, TimerAggregation.Clone, ErrorCounter.Clone")])

p("C12", "Merging intervals adds counts and statistics and touches nothing else",
  "Merging one interval into another gives, for every name at interval level and within every job, the sum of event counts, error counts and per-status counts, and timer statistics equal to those of the concatenated observations (gauges take the merged-in value; names present on one side only are kept or copied). The merged-in interval is unchanged and shares no mutable data with the result afterwards, and nothing else of the result (such as its start time) changes.",
  ["inputs"], "all pairs of intervals, including names on either or both sides and timers without observations",
  "The tests merge fixed data; each nested map has its own present/absent cases, and aliasing shows only after later updates.",
  ["interval_aggregation_merge.go"], [("merge", "interval_aggregation_merge.go IntervalAggregation.Merge, aggregationMaps.merge, JobAggregation.merge, TimerAggregation.merge, ErrorCounter merging")])

p("C13", "Error samples keep the last five runs of distinct errors",
  "Each error counter counts every error and keeps the most recent samples: an error equal to the latest sample is not stored again, any other error becomes the latest sample, replacing the oldest one once there are five. The samples reported are exactly the stored, non-nil ones.",
  ["inputs", "histories"], "all sequences of errors, including equal ones in a row and long sequences that wrap around",
  "The test adds a few fixed errors; the ring has to be right for every sequence and position.",
  ["interval_aggregation.go"], [("ring buffer", "interval_aggregation.go ErrorCounter.addError, incrementAndAddError, getErrorSamples")],
  state=[("errorSamples, errorSampleIndex", "ring buffer and the position of the latest sample")])

p("C14", "StatsD datagrams stay within 1440 bytes and carry whole lines in order",
  "The lines accepted by the StatsD sink leave in order, each exactly once, packed whole into datagrams of at most 1440 bytes; a line longer than that is dropped alone, without affecting others. A datagram is sent only when the next line would not fit, or at a flush, and never when there is nothing to send; after a flush nothing is left over.",
  ["inputs", "histories"], "all sequences of lines of all lengths and flushes",
  "Tests send a few short lines; boundary behaviour depends on exact lengths around 1440.",
  ["statsd_sink.go"], [("packing", "statsd_sink.go writeStatsDMetric, flush")], state=[("udpBuf", "lines accepted and not yet sent")])

p("C15", "StatsD lines name and encode every metric exactly as configured",
  "Events and errors are emitted as \"1|c\", timings and completions in milliseconds as \"|ms\" (integer from 10 ms, otherwise two decimals) and gauges as \"|g\" (two decimals, full precision within ±0.1), under the dot-joined, sanitized non-empty parts of prefix, job, event and suffix (\"error\" for errors, the status for completions). Events, errors, timings and gauges yield one line without and then one line with the job name, each unless the corresponding skip option is set; completions yield only the line with job and status. The default sanitization replaces every byte other than letters, digits, '_' and '.' by '$', and a configured one is used instead.",
  ["inputs", "histories", "configurations"], "all names, values, durations, statuses, option combinations and earlier emissions (cached key prefixes)",
  "Tests check a few names per kind with a fresh sink; reused key buffers and number formatting boundaries depend on history and value.",
  ["statsd_sink.go"], [("line building", "statsd_sink.go processEvent, processEventErr, processTiming, processGauge, processComplete, getPrefixBuffer, writeSanitizedKeys, writeNanosToTimingBuf, sanitizeKey")], state=[("prefixBuffers", "reusable buffers starting with the key of a metric")])

p("C16", "StatsD commands are processed in order and Drain and Stop are answered",
  "Emissions on the StatsD sink are processed in the order they were made, with the arguments they were made with. When a drain returns, everything emitted before it has been handed to the network, and every drain and stop request is answered exactly once, also when several are pending at the same time. After a stop is answered nothing more is processed.",
  ["schedules", "histories"], "all interleavings of emissions, drains, stops and periodic flushes in the command queue",
  "Tests call Drain from one goroutine at a quiet moment; the command that arrives while a drain is in progress is never exercised.",
  ["statsd_sink.go"], [("loop", "statsd_sink.go loop, processCmd, Drain, Stop, Emit*")])

p("C17", "The writer sink logs each emission as one complete, well-formed line",
  "Each emission results in exactly one write of one line: \"[<RFC3339 UTC time>]: job:<job> event:<event>\" (or \"status:<status>\"), then the error text, the time with its unit, or the gauge value, then \" kvs:[k:v ...]\" with all key/values sorted by key if there are any maps, and a newline. Durations are printed in ms above 2000000 ns, in μs above 2000 ns, else in ns, rounded toward zero.",
  ["inputs"], "all names, maps (any size and order of iteration), durations, values, statuses and errors",
  "Tests match a regular expression for one map with fixed keys and one value per unit.",
  ["writer_sink.go"], [("formatting", "writer_sink.go WriterSink.Emit*, writeMapConsistently, writeNanoseconds, timestamp")])

p("C18", "The JSON writer sink writes each emission as one complete JSON object",
  "Each emission results in exactly one write of one JSON object holding the job, the event (or the status of a completion), a UTC RFC3339 timestamp, the error text, nanoseconds or value where applicable, and exactly the given key/values. If an emission cannot be encoded nothing is written.",
  ["inputs"], "all names, maps, errors, values, durations and statuses",
  "Tests decode one emission per method.",
  ["json_writer_sink.go"], [("encoding", "json_writer_sink.go JsonWriterSink.Emit*")])

p("C19", "Bugsnag gets each new unmuted error once, completely; others never",
  "An error event is reported to Bugsnag exactly when its error is unmuted and was not emitted before; muted and unwrapped errors and all other kinds of emission are never reported. The report carries the API key, release stage, hostname, job name as context, event name and error text, every stack frame in order, and the key/values as they were at the time of the event (\"request\" and \"formdata\" also as request data). A report is posted once to the configured endpoint and counts as failed unless it could be posted and the answer is exactly \"OK\".",
  ["inputs", "schedules", "fault_sequences"], "all errors, configurations, key/value maps (also when the caller changes its map afterwards), server answers and transport failures",
  "Tests send one report with empty key/values to a server that answers OK.",
  ["sinks/bugsnag/sink.go", "sinks/bugsnag/api.go"], [("filter", "sinks/bugsnag/sink.go Sink.EmitEventErr, errorProcessingLoop, NewSink"), ("report", "sinks/bugsnag/api.go newPayload, Notify")])

p("C20", "Librato gets exact per-period statistics under event and job.event names",
  "Each event and error increments one counter under its event and one under its job and event; each timing and gauge is measured under both names, and a completion under its job and status; names are prefixed, sanitized (letters, digits, '.', ':', '-', '_', others become '_') and suffixed by kind. A measurement keeps exact count, sum, sum of squares, minimum and maximum of its values, in milliseconds for durations. Every flush posts all of the period's counters and measurements once with the account's credentials, source and period, posts nothing if there is nothing, and starts the next period empty.",
  ["inputs", "histories", "fault_sequences"], "all emission sequences, names, values, prefixes, sanitizers and flush points, including failed posts",
  "The tests check name sanitization and one value of each kind; the statistics and the reset depend on the whole history.",
  ["sinks/librato/sink.go"], [("aggregation", "sinks/librato/sink.go processEvent, processEventErr, processTiming, processGauge, processComplete, eventKeys, inc, measure, sanitizeKey"), ("flush", "sinks/librato/sink.go purge, send, start")], state=[("timers, counters", "this period's data")])

p("C21", "healthd polls every host, records its status and accepts only sound data",
  "Every poll of a host requests its /health page once and delivers exactly one result, whatever goes wrong: transport failure, unreadable or malformed body or unusable content all yield an error result. The host's status always reflects the latest result (check time, duration, code, instance, interval length, error text), and first and latest success times move only on a 200 response without error. Only such a response contributes data: it is kept per host, instance and interval instant (whatever its time zone), replaces older data only when its serial number differs, marks that interval for recalculation, and is ignored if its interval length differs from the one in use.",
  ["inputs", "histories", "fault_sequences"], "all hosts, response bodies, codes, failures and sequences of responses",
  "Tests poll well-behaved servers in one time zone; malformed bodies, zone offsets and repeated polls are not exercised.",
  ["healthd/poll.go", "healthd/healthd.go"], [("polling", "healthd/poll.go poll; healthd/healthd.go HealthD.poll"), ("ingestion", "healthd/healthd.go consumePollResponse")], state=[("hostStatus", "per host status"), ("hostAggregations", "latest data per interval, instance and host"), ("intervalsNeedingRecalculation", "intervals whose data changed")])

p("C22", "healthd's intervals are the merge of host data, ordered and bounded",
  "Recalculation sets every interval that needs it to the merge of exactly the host data held for that interval, leaves all other intervals alone, and leaves nothing marked for recalculation. The combined intervals stay sorted by start with no duplicates, and only the newest ones within the retention are kept. Purging drops exactly the host data older than five interval lengths, and no host data is modified by recalculation.",
  ["inputs", "histories", "configurations"], "all sets of host data and all sequences of responses, recalculations and purges",
  "Tests aggregate two or three servers once; replacement, insertion in the middle and truncation depend on the history.",
  ["healthd/healthd.go"], [("recalculation", "healthd/healthd.go recalculateIntervals, setAggregation"), ("purge", "healthd/healthd.go purge")], state=[("intervalAggregations", "combined intervals, oldest first")])

p("C23", "The jobs listing has exact statistics, the requested order and limit",
  "The jobs listing has exactly one entry per job in the combined data, with its name, counts and nanosecond statistics unchanged, average sum/count (0 without observations) and sample standard deviation sqrt((n·Σx²-(Σx)²)/(n·(n-1))), never negative or NaN (0 below two observations). It is sorted by the requested key, name ascending and all others descending (unsorted for unknown keys), and then cut to the requested positive limit; a missing, malformed or non-positive limit means no limit. No data gives no jobs.",
  ["inputs"], "all combined data, sort keys and limits",
  "Tests check a fixed set of jobs and two or three sort keys; rounding, ties and limits beyond the size are not sampled.",
  ["healthd/api.go"], [("listing", "healthd/api.go filterJobs, sortJobs, jobSorters, jobSorter, getSort, getLimit")])

p("C24", "healthd's API serves current combined data as exact JSON and counts requests",
  "Each endpoint answers with content type application/json; charset=utf-8 and exactly the JSON encoding of instance identifier, interval length and its data: all combined intervals, their overall merge (none without data), the jobs listing, or all hosts sorted by host:port; data that cannot be encoded gives status 500 and unknown paths 404. Data handed to a request is a copy that later polling never changes. Every request is recorded as a job under its route, completed as success below 400, validation error for 422, junk for other 4xx and error from 500 on.",
  ["inputs", "histories"], "all combined data and host tables, names of any bytes, and all status codes",
  "Tests request each endpoint once on plain data.",
  ["healthd/api.go", "healthd/healthd.go"], [("handlers", "healthd/api.go Aggregations, Overall, Jobs, Hosts, HealthMiddleware, SetContentType, renderJson, combineAggregations, HostStatusByHostPort"), ("snapshots", "healthd/healthd.go memorySafeIntervals, memorySafeHosts, getAggregationSequence, getHosts")])

p("C25", "The debouncer fires only for pending requests past the threshold",
  "The debouncer fires only when at least one request is pending, and only when more than the threshold has passed since the oldest pending request; firing serves all pending requests at once. It never fires without a request after the previous firing, and a request is never forgotten: as soon as the threshold of the oldest pending request has passed it fires at its next check.",
  ["schedules", "histories", "inputs"], "all arrival times and numbers of requests, all thresholds and sleep times",
  "The test steps a mocked clock through one burst.",
  ["healthd/debouncer.go"], [("debounce loop", "healthd/debouncer.go debouncer")], state=[("oldestNeedItDone", "arrival of the oldest pending request, or zero")])

p("C26", "Stack traces name every frame's file, line, package and function exactly",
  "A captured trace starts at the requested caller and holds the frames of that call stack in order, up to the maximum depth. Each frame gives the function's full name split into package and name at the first dot after the last slash, the file and line of the call (not of the return address), and whether it lies under the Go root; a frame without a function stays empty. The printed trace has one \"file:line name\" line per frame in order, and asking again gives the same frames.",
  ["inputs", "programs"], "all call stacks, function names and program counters",
  "The tests check frames of two fixed call chains; methods, closures, dotted paths and unknown program counters are not covered.",
  ["stack/stack.go", "stack/stack_frame.go"], [("capture", "stack/stack.go NewTrace, Trace.Frames, Trace.Stack"), ("decoding", "stack/stack_frame.go NewFrame, packageAndName, isSystemPackage, Frame.String")])

p("C27", "Runtime metrics report exactly the enabled gauges with the runtime's values",
  "Each report emits one gauge per enabled metric, with its documented name and the value read from the runtime in that report, and none for disabled groups; all groups are enabled every 5 seconds when no options are given. The descriptor gauge is skipped when the count cannot be read. The poller reports once per tick until it is stopped, and a stop returns only after it has ended.",
  ["configurations", "schedules", "fault_sequences"], "all option combinations and all runtime values",
  "The test only checks that each key exists once with all options on.",
  ["runtime_metrics/runtime_metrics.go", "runtime_metrics/fds_linux.go"], [("report", "runtime_metrics/runtime_metrics.go Report, reportGauge, NewRuntimeMetrics"), ("poller", "runtime_metrics/runtime_metrics.go metricsPoller, Stop")])

p("C28", "healthtop shows exactly what healthd reported, filtered by name",
  "The jobs screen requests the configured sort, with the terminal's row limit exactly when no name filter is set, and keeps, in order, exactly the jobs whose name contains the filter. Every job and host becomes one row with its values unaltered, durations in ms above 2000000 ns, μs above 1000 ns, else ns, and a host is shown as success only with code 200 and no error, as unknown before its first check and as failure otherwise. The status line shows an error exactly when the latest error is newer than the latest success.",
  ["inputs"], "all responses, filters, sort keys, terminal sizes and status histories",
  "There are no tests for the command-line tools.",
  ["cmd/healthtop/jobs.go", "cmd/healthtop/hosts.go", "cmd/healthtop/main.go"], [("request and filter", "cmd/healthtop/jobs.go pollHealthDJobs, filterJobsByName, maxRows"), ("rows", "cmd/healthtop/jobs.go printJob, printCellNanos, format; cmd/healthtop/hosts.go printHost"), ("status line", "cmd/healthtop/main.go FmtStatus")])

p("C30", "Recording and serving metrics never panics",
  "No sequence of valid uses makes the metric code panic: emitting, aggregating, cloning, merging, serving, formatting, polling or reporting never dereferences nil, indexes out of range, divides by zero or writes to a nil map. This holds whatever the metric names, values, key/values, retention settings and responses of polled hosts are.",
  ["inputs", "histories", "configurations", "fault_sequences"], "all inputs to all functions, for all reachable states",
  "A panic needs the one input or state that triggers it; tests sample ordinary ones.",
  ["health.go", "aggregator.go", "interval_aggregation.go", "interval_aggregation_clone.go", "interval_aggregation_merge.go", "statsd_sink.go", "writer_sink.go", "healthd/healthd.go", "healthd/api.go", "healthd/poll.go", "sinks/librato/sink.go", "sinks/bugsnag/api.go"],
  [("every function under contract", "implicit obligations: nil dereference, index and slice bounds, division, map write, type assertion, callee preconditions")])

p("C31", "Concurrent use is free of data races",
  "Jobs and sinks may be used from many goroutines at once: no two goroutines access the same memory without synchronisation when one of them writes, except key/values set on a stream or job while it is in use.",
  ["schedules"], "all interleavings of any number of goroutines",
  "The tests are single-threaded apart from the sinks' own goroutines.",
  ["aggregator.go", "json_polling_sink.go", "statsd_sink.go", "healthd/healthd.go"], [("single-owner goroutines fed by channels", "aggregator.go startAggregator; statsd_sink.go loop; healthd/healthd.go pollAndAggregate")])

p("C32", "Emitting and stopping never block forever",
  "While a sink is running an emission is eventually accepted, and a request for metrics, a drain or a stop eventually returns.",
  ["schedules", "fault_sequences"], "all fair schedules",
  "Liveness: no finite test settles it.",
  ["json_polling_sink.go", "statsd_sink.go", "healthd/healthd.go", "sinks/librato/sink.go"], [("command channels", "the select loops of the sinks")])

exec(open(os.path.join(V, "tools", "claims.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
checks = []
na = []
for x in P:
    i = x["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i + " thorough",
                       "technique": TECHNIQUE, "level": LEVEL.get(i, "proof"), "level_note": NOTE + CLAIMED[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "not yet claimed: contracts for it are still being written")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
