#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand after editing)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p("C01","Every record reaches every attached sink exactly once, unaltered",
"Every event, error, timing, gauge and completion recorded on a job or directly on a stream is handed to every sink attached to that stream exactly once before the recording call returns, whatever keys and values accompany it. Each sink receives the job's name and the caller's event name, timing, gauge value or completion status unchanged; a completion additionally carries the time elapsed since the job was created. Records made directly on a stream appear under the job name \"general\", and attaching a sink never detaches or replaces another one.",
["inputs","configurations"],"all job/event names, values, statuses, key/value maps, and every number and order of attached sinks",
"Tests attach one recording sink and emit one or two records; they never vary the number of sinks or the kind/kv combinations.",
["health.go"],[("loop over the stream's sinks in every recording method","health.go: Job.Event..CompleteKv"),("NewStream/NewJob/AddSink","health.go")],
[("Stream.Sinks","attached sinks","health.go")],["calls received by a custom Sink"])
p("C02","Records carry stream, job and call key/values, most specific one winning",
"The key/values a sink receives with a record are exactly the union of those set on the stream, those set on the job and those passed with the call; for a key present in more than one of them, the call's value wins over the job's and the job's over the stream's. Recording something never modifies the maps held by the stream, by the job or by the caller.",
["inputs"],"every combination of empty/non-empty stream, job and call maps and every overlap of keys",
"No test sets key/values on stream, job and call together; the eight emptiness combinations and key overlaps are unsampled.",
["health.go"],[("mergedKeyValues layering","health.go: Job.mergedKeyValues"),("KeyValue setters","health.go")],
[("KeyValues","per-stream and per-job maps","health.go")],["kvs argument received by a custom Sink"])
p("C03","Run completes the job exactly once, with the right status",
"Running a function as a job completes that job exactly once: with status success if the function returned nil, error if it returned an error, and panic if it panicked. The function's own error is returned unchanged. A panic never escapes to the caller: it is reported to the sinks as an error event named \"panic\" before the completion, with a \"stack\" key/value, and the call returns a non-nil error carrying the panic value's text.",
["inputs","fault_sequences"],"every function outcome (nil, any error, any panic value) and any sink set",
"TestRun samples one function per outcome and only sees the last call a sink received, so duplicated or missing completions are invisible.",
["health.go"],[("deferred recover and completion","health.go: Job.Run, Stream.Run")],(),["records received by a custom Sink","returned error"])
p("C04","Errors are wrapped once, keep their identity, and are marked after emission",
"An error reported through a job reaches all sinks, and is returned to the caller, as one and the same value: an error that is already muted or already wrapped is passed through untouched, any other error is wrapped exactly once together with a stack trace taken at that moment and with its original kept inside. All sinks see a wrapper's emitted mark in the state it had before the call, and when the call returns the wrapper is marked emitted. Wrapping or muting never changes the error's message.",
["inputs","histories"],"every error value (plain, muted, wrapped) and every sequence of re-reports of the same error",
"Tests report one plain and one muted error twice to one sink; they cannot show that no path re-wraps, loses the original, or marks too early or not at all.",
["error.go","health.go"],[("wrapErr type switch","error.go: wrapErr"),("Emitted set after the sink loop","health.go: Job.EventErr/EventErrKv")],
[("UnmutedError.Emitted","set once an error has been shown to all sinks","error.go")],["error received by a custom Sink","error returned by EventErr"])
p("C05","Captured stack traces start at the line that reported the error",
"The stack trace captured for a reported error starts with the frame of the code that called the reporting method, for the plain and the key/value variant alike: no frame of the library itself is included and none of the caller's frames is skipped. A trace lists all captured frames in order, innermost first, one entry per frame, and never exceeds the configured maximum depth.",
["programs","inputs"],"every call chain leading to an error report and every configured maximum depth",
"Tests capture a trace only directly at depth 0 in the stack package; no test looks at the first frame of a trace captured through the reporting methods.",
["stack/stack.go","stack/frame.go","error.go","health.go"],[("constant skip counts along the call chain to runtime.Callers","error.go: wrapErr, stack/stack.go: NewTrace"),("Frames conversion","stack/stack.go: Trace.Frames")],(),["UnmutedError.Stack.Frames()"])
p("C06","Bugsnag gets each unmuted error once, never a muted or already reported one",
"The Bugsnag sink submits exactly one report for every unmuted error that has not been marked as already emitted, and none for a muted error, for an error already marked emitted, or for any other kind of record. The report is made with the job, event, error, stack trace and key/values it was emitted with.",
["inputs","histories"],"every error value and every sequence of emissions to the sink",
"The test emits one error twice and waits one millisecond; muted errors, interleavings and the other record kinds are not covered.",
["sinks/bugsnag/sink.go"],[("type switch and emitted test","sinks/bugsnag/sink.go: Sink.EmitEventErr"),("queue and worker","sinks/bugsnag/sink.go: errorProcessingLoop")],(),["HTTP requests received by the configured endpoint"])
p("C07","Bugsnag reports carry the configured identity and the complete error",
"A report posted to Bugsnag contains the configured API key, release stage and host name, the job as context, the event name as error class, the error's message, every captured stack frame in order with file, line, method and in-project flag, and the record's key/values. It is posted once to the configured endpoint, and any transport failure or answer other than \"OK\" is returned as an error. Settings left empty take their documented defaults: the public Bugsnag endpoint, release stage \"production\" and this machine's host name.",
["inputs","configurations","fault_sequences"],"every configuration with any subset of settings empty, every error/trace/kvs, every transport outcome",
"The test posts one report with all settings but the host name filled in and checks a few fields on the success path only.",
["sinks/bugsnag/api.go","sinks/bugsnag/sink.go"],[("payload construction","sinks/bugsnag/api.go: newPayload"),("defaults","sinks/bugsnag/sink.go: NewSink"),("error propagation","sinks/bugsnag/api.go: Notify")],(),["HTTP body received by the endpoint","error returned by Notify"])
p("C08","The polling sink counts every emission once, overall and under its job",
"Every event, error, timing and gauge emitted to the JSON polling sink is recorded exactly once in the current interval under its event name and exactly once under its job: event and error counts grow by one, timings are added to the timer, gauges take the new value; a completion is added to its job's statistics only. Nothing else in any interval changes, and the interval's serial number grows by one with every recorded emission and only then.",
["inputs","histories","schedules"],"every sequence of emissions with any names/values, from any number of goroutines",
"Tests emit a handful of records directly into the aggregator; they cannot show that each kind is routed to its own counters on every path nor that nothing else changes.",
["json_polling_sink.go","aggregator.go","interval_aggregation.go"],[("command queue","json_polling_sink.go: Emit*"),("dispatch by kind","aggregator.go: startAggregator"),("update of interval and job maps","aggregator.go: aggregator.Emit*")],
[("IntervalAggregation","per-interval data","interval_aggregation.go")],["GetMetrics()","GET /health"])
p("C09","Timer statistics are exact running aggregates of the samples",
"After any sequence of samples a timer's count, sum, minimum, maximum and sum of squares are those of exactly that sequence, including after a single sample and for zero and negative samples. A job's completion statistics behave the same way, and each completion additionally increments exactly the one status counter that corresponds to its status.",
["inputs","histories"],"every sequence of int64 samples and statuses (integer overflow and float rounding aside)",
"Tests feed two or five positive samples; first-sample, zero and negative cases and the per-status mapping under merging are sampled once.",
["interval_aggregation.go"],[("TimerAggregation.ingest","interval_aggregation.go"),("JobAggregation.ingest","interval_aggregation.go")],(),["GetMetrics()","GET /health"])
p("C10","The polling sink keeps a bounded window of time-aligned intervals",
"Each emission is recorded in the interval that starts at the current time rounded down to the configured interval duration; an interval for that start is created, empty, if the newest retained interval has a different start. The sink never retains more intervals than fit in the configured retention (but always at least one), keeps them in order of creation with the newest last, and when full drops only the oldest. No choice of interval and retention with a positive interval makes it crash.",
["inputs","histories","configurations"],"every clock history and every positive interval duration and non-negative retention",
"TestRotation rotates once with a 1 min/5 min configuration; other ratios (including retention shorter than one interval) and clock jumps are not sampled.",
["aggregator.go"],[("getIntervalAggregation / createIntervalAggregation","aggregator.go"),("maxIntervals","aggregator.go: newAggregator")],
[("intervalAggregations","retained window","aggregator.go")],["GetMetrics()"])
p("C11","A metrics snapshot never changes after it was returned",
"The list of intervals returned by the JSON polling sink (directly or through its HTTP endpoint) contains every retained interval, newest last, and nothing the sink does afterwards, with whatever emissions follow, modifies the returned list or anything reachable from it. Only the sink's own worker ever touches the live data.",
["schedules","histories"],"every interleaving of emissions, ticks and snapshot requests",
"Tests take one snapshot after all emissions are done; they cannot see sharing between a returned snapshot and live data.",
["aggregator.go","json_polling_sink.go","interval_aggregation_clone.go"],[("memorySafeIntervals clones the current interval","aggregator.go"),("only the newest interval is ever mutated","aggregator.go: getIntervalAggregation"),("request/reply channel","json_polling_sink.go: GetMetrics")],(),["GetMetrics() results kept while emitting"])
p("C12","Cloning an interval yields an equal, fully independent copy",
"A clone of an interval aggregation has the same start, serial number, events, gauges, timers, error counters with their samples, and jobs with all their nested data and status counts as the original. It shares no mutable memory with the original: changing either one in any way never shows in the other.",
["inputs"],"every interval aggregation, with any jobs, timers, gauges, events and errors",
"TestClone spot-checks a few keys of one fixture and cannot show field completeness or absence of sharing for every field.",
["interval_aggregation_clone.go"],[("Clone methods","interval_aggregation_clone.go")],(),["IntervalAggregation.Clone()"])
p("C13","Merging intervals adds everything once, without sharing or changing the source",
"Merging one interval aggregation into another adds event counts, error counts, status counts, timer counts, sums and sums of squares, key by key, for the interval and for each of its jobs; gauges present in the source replace those of the target; keys present in only one side keep that side's data. Minimum and maximum are those of all samples of both sides, a side without samples contributing nothing. The source is left unchanged and shares no mutable memory with the target afterwards, and the target's serial number grows.",
["inputs"],"every pair of interval aggregations with any overlap of keys, including timers and jobs without samples",
"TestMerge merges two copies of the same fixture, so disjoint keys, empty timers, sharing and several fields are never exercised.",
["interval_aggregation_merge.go","interval_aggregation_clone.go"],[("Merge/merge methods","interval_aggregation_merge.go")],(),["IntervalAggregation.Merge()"])
p("C14","Error counters keep a bounded ring of recent distinct errors",
"Adding an error to an error counter never fails: the first error is stored, an error equal to the most recently stored one is not stored again, and any other error is stored in the next slot, overwriting the oldest once all slots are full. At most a fixed number of errors is kept and all stored errors are reported.",
["inputs","histories"],"every sequence of errors of any length",
"Tests add three errors; wrap-around of the ring is never reached.",
["interval_aggregation.go"],[("addError ring buffer","interval_aggregation.go: ErrorCounter.addError"),("getErrorSamples","interval_aggregation.go")],
[("errorSamples/errorSampleIndex","ring buffer","interval_aggregation.go")],["getErrorSamples()"])
p("C15","The health endpoint serves the snapshot verbatim as JSON, or a clear error",
"A request for /health is answered with the instance identifier, the interval duration and the current snapshot encoded as JSON, byte for byte as encoded, whatever characters occur in names; if encoding fails the answer has status 500. Any other path is answered with status 404, and every answer declares the JSON content type.",
["inputs"],"every request path and every set of metric names, including names with formatting characters",
"The test uses one event with a plain name; names containing '%' are never served.",
["json_polling_sink_http.go","healthd/api.go"],[("ServeHTTP","json_polling_sink_http.go"),("data never used as a format string","json_polling_sink_http.go, healthd/api.go")],(),["HTTP response"])
p("C16","Every exported metric field travels under its own documented JSON name",
"All data held in the exported fields of intervals, jobs, timers and error counters, and of the responses of the health and healthd endpoints, is present in their JSON form under the documented name of that field, with no two fields sharing a name, and decoding that JSON into the same type restores each field. Consumers in this repository decode with the very types the producers encode.",
["inputs"],"every value of the response types",
"Tests decode a response and look at one map; a field with a clashing, missing or unreadable name would go unnoticed.",
["interval_aggregation.go","json_polling_sink_http.go","healthd/api.go","healthd/healthd.go","healthd/poll.go","cmd/healthtop/jobs.go","cmd/healthtop/hosts.go"],[("struct tags","listed files")],(),["GET /health","GET /healthd/*"])
p("C17","The log writer sink writes each record as one complete line in one write",
"The writer sink turns every record into exactly one write to its underlying writer, containing one complete line: timestamp, job, event or status, the error text, duration or gauge value, and all key/values sorted by key, ended by a newline. Durations are printed in the unit matching their magnitude, and no part of a record is omitted, duplicated or written separately.",
["inputs","schedules"],"every record with any names, values and key/values (concurrent emissions included)",
"Tests match one sample line per kind; they cannot exclude partial writes, unsorted output or dropped parts on other paths.",
["writer_sink.go"],[("single buffered Write","writer_sink.go: WriterSink.Emit*"),("sorted kvs","writer_sink.go: writeMapConsistently")],(),["bytes received by the io.Writer"])
p("C18","The JSON writer sink writes each record as one complete JSON object",
"The JSON writer sink turns every record it can encode into exactly one write to its underlying writer containing one JSON object with the job, the event or status, a timestamp, the error text, nanoseconds or gauge value belonging to that kind of record, and the key/values; a record that cannot be encoded is not written at all.",
["inputs"],"every record with any names, values and key/values",
"Tests decode one sample per kind.",
["json_writer_sink.go"],[("json.Marshal and a single Write","json_writer_sink.go: JsonWriterSink.Emit*")],(),["bytes received by the io.Writer"])
p("C19","StatsD metrics have the right key, type and value for every option setting",
"For each event, error, timing and gauge the StatsD sink produces one top-level metric (event) and one nested metric (job.event), except that each is suppressed by its own skip option; a completion always produces exactly one metric (job.status). Keys are the sanitized prefix, job, event and suffix joined by dots with empty parts left out, errors carry the suffix \"error\", events and errors count 1 as \"|c\", timings and completions are milliseconds as \"|ms\" and gauges are \"|g\". Repeated use of the same name yields the same key and the current value, never remains of an earlier one.",
["inputs","configurations","histories"],"every record kind, name, value and all four skip-option combinations, for first and repeated use of a key",
"Tests emit each kind once per option; re-use of a cached key and mixed sequences are not sampled.",
["statsd_sink.go"],[("process* functions","statsd_sink.go"),("prefix buffer cache","statsd_sink.go: getPrefixBuffer")],
[("prefixBuffers","cache of key prefixes","statsd_sink.go")],["datagrams received by the StatsD daemon"])
p("C20","StatsD datagrams stay within the size limit and lose or repeat no metric",
"No datagram sent by the StatsD sink exceeds 1440 bytes, and each consists of whole metrics. Every metric that fits into one datagram is sent exactly once and in order (unless the sink is stopped while it is still pending), only a metric too large for a datagram of its own is dropped, nothing is sent when there is nothing to send, and a timer regularly sends what is pending.",
["inputs","histories"],"every sequence of metrics of any length and every timing of flushes",
"TestStatsDSinkPacketLimit uses equal-sized metrics once; boundary sizes, oversize metrics and interleaved flushes are not sampled.",
["statsd_sink.go"],[("writeStatsDMetric / flush","statsd_sink.go")],[("udpBuf","pending datagram","statsd_sink.go")],["datagrams received by the StatsD daemon"])
p("C21","StatsD drain and stop always return, drain only after everything was sent",
"When a drain of the StatsD sink returns, every metric emitted before the drain was requested has been sent. Every drain and every stop request the worker reaches before it has stopped is acknowledged exactly once, to the one who made it, whatever other requests and emissions are queued around it; only a stop ends the worker, and after a stop was acknowledged it handles nothing further.",
["schedules","histories"],"every interleaving of emissions, drains, stops and periodic flushes in the queue",
"Tests call drain and stop from a single goroutine, one after the other; a stop or second drain queued behind a drain is never tried.",
["statsd_sink.go"],[("command loop","statsd_sink.go: StatsDSink.loop"),("Drain/Stop request and acknowledgement","statsd_sink.go")],(),["return of Drain() and Stop()"])
p("C22","Default sanitizers emit only characters the metrics back end accepts",
"The default StatsD sanitizer keeps ASCII letters, digits, '_' and '.' and replaces every other byte by exactly one '$'; the default Librato sanitizer keeps ASCII letters, digits and the characters . : - _ and replaces every other character by exactly one '_'. All job and event names pass through the configured sanitizer before they become part of a key; leaving the sanitizer unset selects the default.",
["inputs","configurations"],"every string (every byte or character) and every sanitizer configuration",
"One test sanitizes two characters; the remaining byte values are not sampled.",
["statsd_sink.go","sinks/librato/sink.go"],[("sanitizeKey","statsd_sink.go, sinks/librato/sink.go"),("SanitizationFunc defaulting","statsd_sink.go: NewStatsDSink")],(),["metric keys on the wire"])
p("C23","Background workers own their state: no unsynchronised sharing with callers",
"For every component that runs a background worker (polling sink, StatsD, Librato and Bugsnag sinks, runtime metrics, healthd), any field the worker modifies while running is accessed by no other goroutine of the library, and vice versa; callers and worker exchange data only through channels or atomics. Therefore the component's methods can be called from any number of goroutines without data races inside the library.",
["schedules"],"all interleavings of public method calls with the workers",
"Tests run single-threaded with -cpu 1 and without the race detector.",
["aggregator.go","json_polling_sink.go","statsd_sink.go","sinks/librato/sink.go","sinks/bugsnag/sink.go","runtime_metrics/runtime_metrics.go","healthd/healthd.go"],[("state confined to the worker goroutine","listed files")],(),["race detector reports"])
p("C24","Librato metrics have the right key and exact per-period aggregates",
"Each event and error increments by one the counter of its event key and of its job-and-event key; each timing (in milliseconds), gauge and completion (in milliseconds, under job and status) is added to the measurement of its keys, whose count, sum, sum of squares, minimum and maximum are those of exactly the values measured in the current period. Keys are the prefix (if any), the sanitized names and the kind suffix (count, error.count, timing, gauge) joined by dots.",
["inputs","histories"],"every sequence of emissions with any names and values, with or without prefix",
"The test emits nine records with one prefix and never emits a gauge or a smaller second value.",
["sinks/librato/sink.go"],[("process*/eventKeys/inc/measure","sinks/librato/sink.go")],[("timers/counters","current period","sinks/librato/sink.go")],["posted JSON"])
p("C25","Each Librato period is posted once, complete, and then starts empty",
"At each flush the Librato sink posts all counters and measurements gathered since the previous flush, in one authenticated POST with the configured source and period (provided they can be encoded as JSON), or nothing at all if none were gathered. After the flush, successful or not, the next period starts empty, so no value is ever posted twice.",
["histories","fault_sequences"],"every sequence of emissions and flushes and every transport outcome",
"No test reaches a flush.",
["sinks/librato/sink.go"],[("purge/send","sinks/librato/sink.go")],(),["HTTP requests to the metrics API"])
p("C26","Stop, shutdown and snapshot requests are answered exactly once",
"Every stop, shutdown or snapshot request to the polling sink, the Librato and Bugsnag sinks, runtime metrics and healthd is answered exactly once by the worker on every path through its loop; after acknowledging a stop the worker leaves its loop and handles no further input, and it leaves its loop for no other reason. No stop call returns before its worker has accepted the stop.",
["schedules"],"every interleaving of requests with the worker's other inputs",
"Tests stop each component once, at rest.",
["aggregator.go","json_polling_sink.go","sinks/librato/sink.go","sinks/bugsnag/sink.go","runtime_metrics/runtime_metrics.go","healthd/healthd.go"],[("done/ack channel pairs and select loops","listed files")],(),["return of Stop()/ShutdownServer()/GetMetrics()"])
p("C27","Every HTTP response body the library receives is closed",
"Whenever an HTTP request made by the library yields a response, the response body is closed on every path, including error paths, so that long-running use never leaks connections.",
["fault_sequences","histories"],"every request outcome on every path",
"Tests make one or two requests and do not look at connections.",
["sinks/bugsnag/api.go","sinks/librato/sink.go","healthd/poll.go","cmd/healthtop/hosts.go","cmd/healthtop/jobs.go"],[("Body.Close on all paths","listed files")],(),["open connections"])
p("C28","Sinks never keep or share data the application may still change",
"No built-in sink keeps, after its emit call has returned, a reference to the key/value map it was given, or reads from its worker the parts of a reported error that the reporting call still writes afterwards. Applications may therefore change key/values on a stream, job or their own map at any time after a call returned.",
["schedules","histories"],"every interleaving of later application writes with the sinks' workers",
"Tests pass nil maps and never modify a map after emitting.",
["sinks/bugsnag/sink.go","json_polling_sink.go","interval_aggregation.go","statsd_sink.go","sinks/librato/sink.go","writer_sink.go","json_writer_sink.go"],[("values copied into queued commands","listed files")],(),["race detector; content of delayed reports"])
p("C29","Runtime metrics report exactly the enabled gauges, from the right source",
"Each report emits one gauge for every runtime quantity whose option is enabled and none for disabled ones; every gauge carries the current value of the runtime quantity it is named after, and the file-descriptor gauge is omitted when it cannot be read. Without options all quantities are enabled.",
["configurations"],"all 64 option combinations",
"The test reports once with everything enabled and checks names only.",
["runtime_metrics/runtime_metrics.go","runtime_metrics/fds_linux.go"],[("Report","runtime_metrics/runtime_metrics.go")],(),["gauges received by the stream"])
p("C30","healthd polls every host once per round and always gets an answer",
"In every polling round each monitored host is requested exactly once, and whatever happens (transport error, unreadable or undecodable body, any status code) exactly one result for that host is delivered, carrying its host, the status code and any error; the poll is completed as success or error accordingly. The end-of-round marker is delivered only after all results of the round.",
["fault_sequences","schedules"],"every outcome of every request and every completion order",
"TestPoll polls one healthy server; failure paths are not sampled (and healthd cannot be built in this sandbox's test run).",
["healthd/poll.go","healthd/healthd.go"],[("poll","healthd/poll.go"),("WaitGroup and nil sentinel","healthd/healthd.go: HealthD.poll")],(),["GET /healthd/hosts"])
p("C31","healthd host status and stored data reflect each host's latest poll",
"A host's status shows time, response time, instance, interval duration, status code and error of its latest poll; its first and last success times change only on a poll with status 200 and no error, and the first one only once. Interval data is taken from such successful polls only, replaces what the same instance reported earlier for the same interval, and every interval whose data changed is recalculated.",
["histories","inputs"],"every sequence of poll results from any number of hosts",
"TestHealthD makes one successful round with two hosts.",
["healthd/healthd.go"],[("consumePollResponse","healthd/healthd.go")],[("hostStatus/hostAggregations/intervalsNeedingRecalculation","healthd state","healthd/healthd.go")],["GET /healthd/hosts","GET /healthd/aggregations"])
p("C32","healthd totals count each host's interval once, in a sorted bounded window",
"healthd's total for an interval is the merge of the stored data of all hosts and instances for that instant, each exactly once, regardless of the time zone a host reports it in; recalculating replaces the previous total. Totals are kept ordered by interval start and limited to the retention, dropping the oldest first.",
["histories","inputs"],"every sequence of poll results, hosts and time zones",
"TestHealthD aggregates one interval from two hosts in one time zone.",
["healthd/healthd.go"],[("recalculateIntervals/setAggregation/purge","healthd/healthd.go"),("normalised time keys","healthd/healthd.go: consumePollResponse")],(),["GET /healthd/aggregations"])
p("C33","The healthd API derives jobs, totals and hosts faithfully from the aggregates",
"The jobs listing contains one entry per job of the merged intervals with all its counts and sums copied and its average and standard deviation finite; it is ordered by the requested key (names ascending, all other keys descending) and truncated to the requested limit only if that is positive. The overall view merges all intervals into a new aggregate without modifying them, and the hosts view lists every host, sorted.",
["inputs"],"every set of aggregates, sort key and limit",
"TestHealthD requests each view once with one job and no sort or limit.",
["healthd/api.go"],[("filterJobs/sortJobs/combineAggregations","healthd/api.go")],(),["GET /healthd/jobs, /aggregations/overall, /hosts"])
p("C34","A malformed answer from a monitored host cannot crash or wedge healthd",
"No answer of a monitored host, however malformed (missing or zero interval duration, null entries), makes healthd divide by zero or dereference a missing value, and the aggregation worker never blocks on a channel whose receiver may itself be waiting for the worker.",
["inputs","schedules","fault_sequences"],"every decodable response and every interleaving of worker and debouncer",
"Tests only serve well-formed answers from two hosts.",
["healthd/healthd.go","healthd/poll.go","healthd/debouncer.go"],[("validation of polled data","healthd/healthd.go: consumePollResponse"),("non-blocking recalculation request","healthd/healthd.go: pollAndAggregate")],(),["healthd staying up"])
p("C35","Every completion status has its own name and its own counter everywhere",
"Each completion status has a distinct, documented name used by the writer, JSON, StatsD and Librato sinks, and its own counter that is incremented by completions with that status only, and that is carried unchanged through clone, merge, JSON and the healthd jobs listing into its own healthtop column.",
["inputs"],"all completion statuses along all output paths",
"Tests check single statuses on single paths.",
["health.go","interval_aggregation.go","interval_aggregation_clone.go","interval_aggregation_merge.go","healthd/api.go","cmd/healthtop/jobs.go"],[("status tables","listed files")],(),["sink output, /health, /healthd/jobs, healthtop"])
p("C36","healthd's debouncer fires once per burst of requests, never unasked",
"The debouncer triggers a recalculation only if at least one request arrived since the previous trigger and the oldest such request is older than the threshold; once a request arrived a trigger is not lost, and requests arriving before the trigger never postpone it.",
["schedules","histories"],"every sequence and timing of requests",
"TestDebouncer tries one burst with a mocked clock.",
["healthd/debouncer.go"],[("debouncer","healthd/debouncer.go")],[("oldestNeedItDone","oldest pending request","healthd/debouncer.go")],["recalculation triggers"])
# declared, not decided by static analysis
p("N01","Flush, poll and debounce happen within their configured time bounds",
"StatsD, Librato, runtime metrics and healthd act within their configured periods, and the debouncer fires within its threshold plus its sleep time.",
["schedules"],"every scheduler and clock behaviour","Wall-clock bounds depend on the scheduler.",
["statsd_sink.go","sinks/librato/sink.go","runtime_metrics/runtime_metrics.go","healthd/debouncer.go"],[("tickers","listed files")])
p("N02","Emitting never blocks the application for long",
"A record emitted to a queueing sink is accepted without noticeable delay under any load.",
["schedules"],"every load and back-end latency","Depends on queue occupancy and back-end speed.",
["statsd_sink.go","json_polling_sink.go","sinks/librato/sink.go","sinks/bugsnag/sink.go"],[("buffered channels","listed files")])
p("N03","Average and standard deviation are numerically accurate",
"The average and standard deviation healthd reports are within rounding error of the exact values for any samples.",
["inputs"],"every sample set","One value is compared with a tolerance.",
["healthd/api.go"],[("filterJobs","healthd/api.go")])
p("N04","Metrics survive lossy transports",
"Metrics handed to UDP or HTTP transports arrive at the back end.",
["fault_sequences"],"every network behaviour","Delivery is a property of the network, and the transports used are unreliable by design.",
["statsd_sink.go","sinks/librato/sink.go","sinks/bugsnag/api.go"],[("UDP/HTTP sends","listed files")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
