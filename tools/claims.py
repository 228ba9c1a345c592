TECHNIQUE = "contract-based deductive verification (Go contracts, gover VCs from /repo's source, SMT); concrete replay of the contract on the real code"
NOTE = "Every obligation is generated from /repo's current Go source and discharged by SMT (cvc5, z3). Trusted: the gover translator and its models of the standard library listed in the evidence; integers are mathematical (no overflow), floats are reals where arithmetic on them is specified. "
NOTES = "No hooks in /repo: contracts live in /verif/contracts and are bound to the source by function name and parameters on every run."
LEVEL = {}
CLAIMED = {
 "C01": "Covers every emission method of jobs (streams use them through their embedded job), NewStream, NewJob and AddSink.",
 "C02": "Covers mergedKeyValues, every emission method, and the setters.",
 "C03": "Covers wrapErr, EventErr, EventErrKv, Mute and the Error methods.",
 "C04": "Covers Job.Run and Stream.Run; a caller-supplied function may return, panic, emit, and set key/values, and is assumed not to replace a job's stream or its sinks while it runs.",
 "C05": "Covers ingest of timers and jobs.",
 "C06": "Covers the aggregator's recording methods, its loop (every iteration, for every command) and the sink's emission methods; the channel between them is assumed to be first-in first-out.",
 "C08": "Covers newAggregator, the window operations and every iteration of the aggregator's loop. The clock is assumed not to run backwards.",
 "C09": "Covers memorySafeIntervals, the loop's answer to a request and GetMetrics. Older intervals are handed out themselves: that they no longer change is the frame of the recording methods (C06).",
 "C10": "Covers ServeHTTP and its error answers; encoding/json and net/http are assumed (JSON text and failure as functions of the encoded value).",
 "C11": "Covers all Clone functions.",
 "C12": "Covers all merge functions.",
 "C13": "Covers addError.",
 "C14": "Covers writeStatsDMetric and flush; WriteToUDP is assumed to send its argument as one datagram.",
 "C15": "Covers every metric-building function of the sink; the sanitization function is assumed to append a text that depends on the key alone.",
 "C16": "Covers the loop (every iteration, for every queue content), the emission methods, Drain, Stop and NewStatsDSink; the channel is assumed to be first-in first-out.",
 "C17": "Covers every method of the sink and its formatting functions; time formatting, %g and sort.Strings are assumed.",
 "C18": "Covers every method of the sink; encoding/json is assumed for structs of strings, numbers and string maps.",
 "C26": "Covers NewTrace, NewFrame, Frames and Stack; the runtime's call stack and symbol tables are assumed.",
 "C27": "Covers Report with the Linux descriptor count, NewRuntimeMetrics, Start, Stop and every iteration of the poller; the runtime's own values are assumed, and the poller's interval is assumed positive.",
 "C19": "Covers every method of the sink, NewSink, every iteration of the reporting loop, Notify and newPayload; encoding/json and net/http are assumed, and errors are assumed to come as the library wraps them (with a stack).",
 "C20": "Covers every function of the sink: emission, every iteration of its loop, key building and sanitizing, counters, measurements, flush and post. A custom sanitization function is assumed to be a function of its argument; encoding/json, net/http and the UTF-8 decoding of range are assumed; floats follow the source's operations exactly.",
}
NA = {
 "C31": "Absence of data races is a property of interleavings of shared-memory accesses; the contracts here verify each goroutine's code sequentially against channel contracts, and there is no permission logic in the verifier that would make races an obligation.",
 "C32": "Liveness under fair schedules: partial-correctness contracts cannot express that something eventually happens.",
}
