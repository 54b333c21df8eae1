OTLP = dict(harness="otlp",
 deps=["github.com/lightstep/go-expohisto", "github.com/open-telemetry/otel-arrow/collector/processor/concurrentbatchprocessor", "go.opentelemetry.io/otel/sdk#trace"],
 stubs=["github.com/open-telemetry/opentelemetry-collector-contrib/exporter/otelarrowexporter=stubs/otelarrowexporter",
  "github.com/open-telemetry/opentelemetry-collector-contrib/exporter/prometheusexporter=stubs/prometheusexporter"],
 real=["launcher, pipelines and lightstep/sdk (metric, trace, internal) as far as the scenario reaches them",
  "concurrentbatchprocessor, go.opentelemetry.io/otel/sdk/trace and go-expohisto (instrumented like the repository)",
  "go.opentelemetry.io/otel API and global packages, collector pdata"],
 stubbed=["goroutine scheduler, sync, sync/atomic, time and context timers: replaced by the simulator's deterministic versions",
  "otelarrowexporter and prometheusexporter: a simulated network that delays, refuses, loses replies, partitions and heals",
  "application: generated providers, tracers, writers and export calls"])
P += [
core("C01", "Cumulative metrics count every completed measurement exactly once",
 "For every counter, up-down counter and histogram, each collection by a cumulative reader reports, for each attribute set, exactly the measurements that had completed before the collection began plus possibly some that were still in progress, each counted once. Totals, counts, minima and maxima never lose, repeat or regress a measurement between collections, for any number of readers, flushes and exporter failures. A series stays in every later collection once a measurement of it has completed, whatever its total. Invalid measurements (NaN, infinities, negative increments of a monotonic counter) change nothing.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "every interleaving of concurrent measurements, instrument lookups, collections by several readers, idle-series eviction and forced flushes; every view that filters, renames or re-aggregates; every export failure or delay",
 "The unit tests run a few fixed concurrent loops and check totals only after everything has stopped; they do not control the interleaving of a measurement with the swap, eviction and snapshot steps of a collection, nor combine them with several readers and failing exporters.",
 [M+"internal/syncstate/sync.go", M+"internal/syncstate/bykeyvalue.go", M+"internal/syncstate/refcount_mapped.go", M+"internal/viewstate/accumulators.go", M+"internal/viewstate/collectors.go", M+"aggregator/sum/sum.go", M+"aggregator/histogram/histogram.go", M+"aggregator/minmaxsumcount/minmaxsumcount.go"],
 [("reference-counted records with unmap on idle", M+"internal/syncstate/refcount_mapped.go"), ("snapshot-and-process per record, with update counters", M+"internal/syncstate/sync.go"), ("reader-side merge into a held cumulative state", M+"internal/viewstate/collectors.go")],
 "Random applications (1-4 writers, 1-3 instruments, 1-3 cumulative readers, views, flushes, faulty exporters). The k-th operation on an instrument carries the value 2^k, so every reported sum decodes to the exact set of operations it contains; sets are compared with the operations completed before and begun before the collection.",
 observe=["data.Metrics returned by Producer.Produce", "metrics given to the exporter"]),
core("C02", "Delta metrics deliver every completed measurement exactly once",
 "Across the sequence of collections of a delta reader, every completed measurement of a counter, up-down counter or histogram is reported in exactly one collection of each reader: the first that begins after it completed, at the latest. No interleaving of measurements, collections and idle-series eviction drops a measurement, reports it twice, or credits it to another attribute set. Readers do not affect each other's deltas.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "every interleaving of measurements and collections, every history of idle and reactivated series, every mix of delta and cumulative readers and views",
 "Existing tests collect at quiescent points or check a total at the end; a measurement landing between the reset of a series and its eviction, or between two readers' collections, needs an interleaving they cannot force.",
 [M+"internal/syncstate/sync.go", M+"internal/syncstate/refcount_mapped.go", M+"internal/viewstate/collectors.go", M+"internal/viewstate/accumulators.go", M+"aggregator/sum/sum.go", M+"aggregator/histogram/histogram.go"],
 [("atomic move of the current state to a snapshot", M+"internal/viewstate/accumulators.go"), ("stateless collector resets output on collection", M+"internal/viewstate/collectors.go"), ("inactive-period counting and unmap", M+"internal/syncstate/sync.go")],
 "As C01 with delta and delta-preferring readers: the decoded operation sets of all collections of a reader must be disjoint, and their union must contain every operation completed before the last collection began."),
core("C03", "Collected data is a stable private snapshot",
 "Metric data handed to a reader or exporter is a snapshot: after it is returned, later measurements, later collections, eviction and other readers never change it. Passing earlier data back for reuse only affects that earlier data. Collections of different readers never share mutable state.",
 ["schedules", "histories"],
 "every interleaving of measurements and later collections with a consumer that still holds earlier data, with and without reuse of the previous data",
 "Tests consume the data at once; aliasing between output points and live aggregation state only shows when a consumer holds data across later measurements and collections.",
 [M+"internal/viewstate/collectors.go", M+"data/sequence.go", M+"data/data.go", M+"aggregator/histogram/histogram.go", M+"producer.go"],
 [("copy of storage into the output point", M+"internal/viewstate/collectors.go"), ("reallocating output sequences", M+"data/sequence.go")],
 "Random applications; every collection is fingerprinted deeply when returned and compared again after each later collection and at the end of the run."),
core("C04", "Timestamps are ordered, shared within a collection, and tile the timeline",
 "All points of a collection carry the same end time, at or after their start time and not in the future. Cumulative points keep one unchanging start time that precedes their first measurement; delta points of a reader start exactly where that reader's previous collection ended, so that consecutive intervals neither overlap nor leave a gap. Successive collections of a reader never go back in time.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of collections, including concurrent collections of one reader, and every stall of the process between reading the clock and reporting",
 "Tests use one collector at a time and compare a few times; they do not stall a collection between clock reads or overlap two collections.",
 [M+"producer.go", M+"internal/viewstate/collectors.go", M+"data/sequence.go", M+"data/data.go"],
 [("one timestamp per collection, last-collect time per reader", M+"producer.go"), ("start-time rewriting for delta output", M+"data/sequence.go")],
 "Random applications under the simulated clock with whole-process stalls; every point's start and end compared with the reader's previous collection and the simulated time at call and return."),
core("C05", "Cardinality limits bound series without losing measurements",
 "With an instrument or aggregation cardinality limit configured, the number of attribute sets an instrument reports in one collection never exceeds the limit, whatever the concurrency. Measurements that do not get a series of their own are counted, exactly once, in the overflow series, so the instrument's total over all series is exact. A series below the limit that already exists keeps receiving its own measurements. Observable instruments obey the aggregation limit too, and their cumulative sums stay exact.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of first measurements for more attribute sets than the limit, with collections and evictions; every limit from one up; every view",
 "Tests fill the limit sequentially; the race between two first measurements at the limit, or between overflow and eviction, is not exercised.",
 [M+"internal/syncstate/sync.go", M+"internal/syncstate/bykeyvalue.go", M+"internal/viewstate/viewstate.go", M+"internal/pipeline/overflow.go", M+"sdkinstrument/performance.go"],
 [("limit check on insert under the map lock", M+"internal/syncstate/bykeyvalue.go"), ("overflow attribute set at both levels", M+"internal/viewstate/viewstate.go")],
 "Random applications with 3-8 attribute sets and limits 1-8 at the instrument level, the aggregation level or both; decoded operation sets per series and for overflow compared with the history, and series counted per collection."),
core("C06", "Gauges report the last value set",
 "A synchronous gauge reports, for each attribute set, a value that was the last one set at some moment of the collection: never an older value once a later one completed before the collection began, and never a value nobody set. A cumulative reader keeps reporting the last value; a delta reader reports a series only when it was set since the previous collection. Nothing is reported for a gauge that was never set. The same holds for an up-down counter that a hint declares to be a gauge.",
 ["schedules", "histories", "configurations"],
 "every interleaving of concurrent sets of one series, collections by several readers, views that merge several series, and eviction",
 "The order of two concurrent sets against the snapshot of a collection, and of merges from several attribute sets under a view, needs interleavings that tests do not force.",
 [M+"aggregator/gauge/gauge.go", M+"internal/viewstate/collectors.go", M+"internal/viewstate/accumulators.go", M+"internal/syncstate/sync.go"],
 [("global sequence number ordering gauge updates", M+"aggregator/gauge/gauge.go")],
 "Random gauge applications; every reported value must be linearizable as a register: not superseded by an operation that started after it ended and completed before the collection began."),
core("C07", "Observable callbacks run once per collection and report what they observed",
 "In each collection by a reader, every callback registered before the collection began and not unregistered before it ended runs exactly once, even when callbacks create instruments or register and unregister callbacks themselves, and an unregistered callback does not run in any collection that begins afterwards. The collection reports for each observable instrument and attribute set the value observed in that run (the last one given), converted to the difference from the previous collection for delta readers, and nothing for series not observed. Observations of other instruments, outside a callback, or with invalid values change nothing. A registration without function or instruments, or with instruments of another meter or SDK, is refused with an error and never runs. An error a callback returns is passed to the error handler.",
 ["schedules", "histories", "configurations"],
 "every interleaving of registration, unregistration and concurrent collections by one or several readers; every sequence of observed values, series appearing and disappearing, and views",
 "Tests register callbacks up front and collect from one goroutine; registration racing with collection and two readers collecting at once are not exercised.",
 [M+"internal/asyncstate/async.go", M+"internal/asyncstate/callback.go", M+"asyncinst.go", M+"meter.go", M+"producer.go", M+"internal/viewstate/collectors.go"],
 [("per-collection callback list under the meter lock", M+"producer.go"), ("per-reader async state and snapshots", M+"internal/asyncstate/async.go")],
 "Random sets of observable instruments and callbacks with concurrent register, unregister and collect actors; callback runs are recorded and every reported point is recomputed from the observations of that collection."),
core("C08", "Shutdown delivers everything once and is final",
 "When shutdown of a provider with a periodic reader returns, every measurement completed before it was called has been given to the exporter, once, unless an export failed or the caller's context ended, in which case the caller gets an error. After the first shutdown returns no further export starts, repeated or concurrent shutdown calls return without hanging and do not export again, and the exporter is shut down exactly once. Measurements after shutdown are harmless.",
 ["schedules", "crash_points", "fault_sequences"],
 "every moment of calling shutdown relative to ticks, exports in progress, flushes, measurements and other shutdowns; every exporter delay and failure",
 "Tests shut down an idle reader with a prompt exporter; shutdown racing with a tick or a slow, failing or stuck export is not exercised.",
 [M+"periodic.go", M+"provider.go", M+"manual.go"],
 [("stop channel, wait group and final collect", M+"periodic.go"), ("single-shutdown flag", M+"provider.go")],
 "Random life cycles of providers with 1-3 readers, flushers, concurrent shutdowns and scripted exporters (delays up to 40 ms, errors, cancellation obeyed or ignored) under simulated time; decoded contents of all exports compared with the history; order of export, shutdown and return events checked."),
core("C09", "Periodic export is serial, bounded by its deadlines, and recovers from failures",
 "A periodic reader never has two exports in progress at once, gives each a context that ends by the configured timeout, and keeps exporting at its interval after any finite number of failed, slow or timed-out exports. Forced flush and shutdown return promptly once the caller's context ends and otherwise report the failure of the export they made. Failures of background exports reach the error handler and lose no cumulative data. A flush or shutdown that is given enough time reaches every reader, even when another reader's export fails.",
 ["schedules", "fault_sequences", "configurations"],
 "every sequence of exporter delays, errors and timeouts; every interval and timeout; every interleaving of ticks with flushes and shutdown, and every stall of the process",
 "Tests run with short real timers and a prompt exporter; combinations of slow exports, timeouts, flush deadlines and ticks are not exercised and would need real time.",
 [M+"periodic.go", M+"provider.go"],
 [("ticker loop with per-export timeout", M+"periodic.go"), ("export serialisation", M+"periodic.go")],
 "As C08 with deadlines on flush calls; overlapping exports, deadline of each export context, time of return of every client call against its deadline, and number of exports against elapsed simulated time are checked, with a liveness bound after faults stop."),
core("C10", "Idle series are forgotten, returning their slot, and can come back",
 "A series that a delta reader set no longer reports, because it was idle for the configured number of collections, gives back its place under the cardinality limits, so new attribute sets get series of their own rather than overflow. A series that becomes active again after being forgotten reports its new measurements exactly once. Memory held for series is bounded by those recently active, not by all ever seen.",
 ["histories", "schedules", "configurations"],
 "every history of activity and idleness over generations of attribute sets; every interleaving of the last measurement of a series with the collection that forgets it",
 "Tests check one eviction after a quiet period; generations of attribute sets churning under a limit with concurrent writers and several readers are not exercised.",
 [M+"internal/syncstate/sync.go", M+"internal/syncstate/bykeyvalue.go", M+"internal/viewstate/viewstate.go", M+"internal/viewstate/collectors.go"],
 [("inactive collection count and unmap", M+"internal/syncstate/sync.go"), ("reference-counted output storage", M+"internal/viewstate/viewstate.go")],
 "Random applications run in phases, each with a fresh generation of attribute sets that fills the limit; between phases all readers collect until idle series must be forgotten; overflow must stay unused and all totals exact."),
core("C11", "Instrument identity and views resolve the same way in any creation order",
 "Creating an instrument twice with the same scope, name, kind and unit, concurrently or not, yields one instrument whose measurements are counted together; conflicting definitions each return an error and still record. Each reader's view clauses and defaults, and the hints in descriptions where no clause matches, alone determine the output names, descriptions, attribute filters, aggregations and aggregator configurations, and every measurement is counted once per distinct output, for any order and interleaving of creation. Invalid view settings and hints are reported to the error handler and replaced by the nearest valid ones. A conflict reported to one reader does not change what other readers collect.",
 ["schedules", "configurations", "inputs"],
 "every interleaving of concurrent creation, measurement and collection; every combination of duplicate and conflicting definitions and of view clauses for several readers",
 "Tests enumerate single conflicts in a fixed order from one goroutine; concurrent creation and combinations of clauses with several readers are not covered.",
 [M+"meter.go", M+"provider.go", M+"internal/viewstate/viewstate.go", M+"internal/viewstate/errors.go", M+"view/view.go", M+"view/views.go", M+"view/clause.go"],
 [("per-meter registry by descriptor", M+"meter.go"), ("name-indexed compiled outputs with conflict detection", M+"internal/viewstate/viewstate.go")],
 "Random sets of duplicate and conflicting definitions created concurrently by several goroutines under random view clauses for 1-3 readers; outputs, errors, descriptions and decoded totals compared with a reference model of the view rules."),
core("C17", "Caller-owned attribute slices are never modified or kept",
 "A measurement call never writes to the attribute slice it is given and does not keep it: the caller may share one slice between goroutines or overwrite it as soon as the call returns. Attribute values longer than the configured limit are truncated only in the reported series. The reported attributes are those at the time of the call.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of calls that share or reuse a slice with other calls and collections; every attribute list, value type and length limit",
 "Tests pass fresh slices and never look at them again; a retained alias shows only when the caller reuses the slice while a series is created or evicted.",
 [M+"internal/syncstate/sync.go", M+"internal/syncstate/bykeyvalue.go", M+"syncinst.go", M+"bypass/bypass.go"],
 [("copy before truncation", M+"internal/syncstate/sync.go"), ("stored attribute copy for collision checks", M+"internal/syncstate/bykeyvalue.go")],
 "Random applications using shared slices and slices overwritten right after each call; slices compared after every call, and reported series compared with the attributes at call time."),
core("C18", "Distinct attribute sets never share a series",
 "Measurements with equal attribute sets, given in any order and with the last duplicate key winning, are counted in one series, and measurements with different attribute sets are never counted in the same series, even when their fingerprints collide. This holds for every value type, including slices, and while colliding series are created, evicted and recreated concurrently. Only the documented option to ignore collisions may merge them.",
 ["inputs", "schedules", "histories"],
 "every pair of attribute lists including ones engineered to collide; every interleaving of creation, eviction and lookup of colliding series",
 "Tests have one hand-made collision in sequence; collisions combined with eviction and concurrent insertion are not exercised.",
 [M+"internal/fprint/fprint.go", M+"internal/fprint/convert.go", M+"internal/syncstate/bykeyvalue.go", M+"internal/syncstate/sync.go"],
 [("commutative fingerprint with list comparison on lookup", M+"internal/syncstate/bykeyvalue.go"), ("collision chain", M+"internal/syncstate/bykeyvalue.go")],
 "Random applications over attribute lists that are permutations, duplicates, re-ordered slices and same-bits-other-type variants of each other; series of every collection compared with the canonical attribute sets of the history."),
core("C13", "OTLP metric requests carry exactly what was collected, once",
 "Every metric point handed to the OTLP metric exporter reaches the collector in at most one request, unchanged: resource, scope, name, unit, description, kind, temporality, monotonicity, times, attributes and values all as collected, for every instrument and aggregation. An export that returns success has had every one of its points accepted; one that returns an error has had a point refused or ran out of time. Points of different providers, resources and scopes never mix. Batching, splitting, retries, cancellation and shutdown change none of this, and every request carries the configured endpoint and headers. A failure to open or close the connection is returned to the caller.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "every metric value, attribute and resource; every interleaving of concurrent exports through shared and separate exporters; every batch size and wait; every sequence of network delays, errors, lost replies and partitions, and every moment of shutdown",
 "The tests export a few hand-written metrics to a healthy local collector and compare some fields; batches filled by concurrent exports, split batches, faults in the middle of a batch and cancellation are not exercised.",
 [M+"exporters/otlp/otelcol/client.go", M+"internal/export/export.go", M+"number/number.go", "lightstep/sdk/trace/exporters/otlp/otelcol/client.go", "lightstep/sdk/internal/common.go"],
 [("conversion of collected data to OTLP", M+"internal/export/export.go"), ("concurrent batch processor in front of the exporter", M+"exporters/otlp/otelcol/client.go")],
 "1-3 exporters and 1-4 providers with random resources, scopes, instruments, values and periodic or direct exports run against a simulated network below the exporter stub; every point is converted to a canonical text independently from the collected data and from the request, and a ledger follows each from export call to accepted request.",
 observe=["requests given to the network stub", "errors returned by export calls", "connections opened and closed"], **OTLP),
core("C14", "OTLP trace requests carry exactly the ended spans, once",
 "Every span handed to the OTLP trace exporter reaches the collector in at most one request, unchanged: identifiers, parent, kind, times, status, attributes, events, links, dropped counts, resource and instrumentation scope are those of the span. An export that returns success has had every one of its spans accepted; one that returns an error has had a span refused or ran out of time. Exporting never modifies the caller's spans, and spans of different resources and scopes never mix, whatever the batching, faults and concurrency. A failure to open or close the connection is returned to the caller.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "every span content and grouping of spans by resource and scope; every interleaving of concurrent exports; every batch size and wait; every sequence of network delays, errors, lost replies and partitions, and every moment of shutdown",
 "The tests export a few spans of one resource and one scope through a healthy connection; mixtures of resources and scopes, faults within a batch and concurrent exports are not exercised.",
 ["lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go", "lightstep/sdk/trace/exporters/otlp/otelcol/client.go", "lightstep/sdk/internal/common.go"],
 [("conversion of spans to OTLP", "lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go"), ("concurrent batch processor in front of the exporter", "lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go")],
 "1-3 exporters given random spans from real tracers (several resources and scopes, events, links, every attribute type) directly and through batch span processors, against the simulated network of C13; canonical texts and a ledger compare every span with the requests, and the caller's spans are compared before and after.",
 observe=["requests given to the network stub", "errors returned by export calls", "spans after export"], **OTLP),
core("C16", "Exporter self-telemetry counts every exported item by its true outcome",
 "For every export of metrics or spans, the exporter's own counter adds the number of items once, under the success flag and state that match the error the caller got, and the exporter's own span ends with the matching status and count. Nothing is counted for exporters whose self-telemetry is turned off, and self-telemetry never changes the data exported or the error returned.",
 ["schedules", "fault_sequences", "configurations"],
 "every outcome of an export (success, refusal, timeout, cancellation, exhausted resources, shutdown), every interleaving of concurrent exports, batches shared by several exports, and both settings of each self-telemetry switch",
 "The tests check the counters for one success and one failure in sequence; exports that time out, are cancelled, share a batch or run concurrently are not exercised.",
 [M+"exporters/otlp/otelcol/client.go", "lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go", "lightstep/sdk/trace/exporters/otlp/otelcol/client.go", "lightstep/sdk/internal/common.go"],
 [("counter and span around each export", M+"exporters/otlp/otelcol/client.go")],
 "Workloads of C13 and C14 with a meter and tracer provider observing the exporter; the counter's series and the recorded spans are recomputed from the export calls' item counts and returned errors.",
 observe=["a manual reader and a span processor attached to the exporter's self-telemetry", "errors returned by export calls"], **OTLP),
core("C19", "The launcher delivers all telemetry as configured until it shuts down",
 "An application set up by the launcher has every span it ended and every measurement it completed before calling Shutdown delivered exactly once by the time Shutdown returns, provided the collector can be reached, whatever it does concurrently. Every request goes to the configured endpoint with the configured headers, access token, security and resource; metrics use the configured temporality and reporting period; disabled signals produce no requests, the configured propagators are installed, and the configured built-in libraries report. Shutdown ends within a bounded time, closes each connection once, and nothing is sent afterwards.",
 ["configurations", "schedules", "fault_sequences", "crash_points"],
 "every valid configuration from options and environment; every interleaving of spans and measurements with batching, reporting and shutdown; every network delay and failure, and every moment of shutdown",
 "The tests check the configuration structure and start the launcher against nothing; what leaves the process over its whole life, under faults and concurrency, is not looked at.",
 ["launcher/config.go", "pipelines/metrics.go", "pipelines/trace.go", "pipelines/common.go", M+"exporters/otlp/otelcol/client.go", "lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go", M+"periodic.go"],
 [("pipelines set up from the configuration, and their shutdown functions", "launcher/config.go"), ("batch span processor, periodic reader and exporters", "pipelines/metrics.go")],
 "Random configurations and applications using only the global OpenTelemetry API; every request seen by the simulated network is checked against the configuration, and spans and totals against the history when Shutdown returns.",
 observe=["requests given to the network stub", "connections opened and closed", "the application's logger and the time of Shutdown"], **OTLP),
core("C22", "Settings resolve in a fixed order and invalid ones are rejected up front",
 "Every setting of the launcher (service name and version, endpoints, security, headers, access token, reporting period, temporality, propagators, metrics, built-in libraries, resource attributes, host name) takes the option where given, else the environment variable, else the documented default, and everything that is sent agrees with it. Maps given as options are not modified. A missing service name, a missing token for the default endpoint, or an unreadable environment is reported to the logger before any connection is opened. An invalid period, temporality or set of propagators, or a connection that cannot be opened, is reported too, leaves nothing running, and does not affect the other signal; an unknown built-in library is reported and skipped.",
 ["configurations", "inputs", "fault_sequences"],
 "every combination of options, environment variables and defaults, with connections that cannot be opened or closed",
 "The tests set a few settings at a time and look at the configuration structure, not at what is sent; combinations and failed starts are not covered.",
 ["launcher/config.go", "pipelines/metrics.go", "pipelines/trace.go", "pipelines/common.go"],
 [("options over environment over defaults, validation, setup of each signal", "launcher/config.go"), ("propagators and trace pipeline", "pipelines/trace.go"), ("period, temporality and built-in libraries", "pipelines/metrics.go")],
 "Random combinations of options, environment variables and defaults, valid or not, start short applications; every request seen by the simulated network, the connections opened and closed, the propagators installed and the reports to the logger are compared with an independent resolution of the settings.",
 observe=["requests and connections at the network stub", "reports to the application's logger and error handler", "the global propagator"], **OTLP),
core("C21", "Prometheus export carries exactly what was collected",
 "Every metric point given to the Prometheus exporter reaches the Prometheus side unchanged and once, with its resource, scope, name, unit, description, temporality, attributes and times. Exponential histograms become explicit-boundary histograms with the same count and sum, increasing boundaries, and every recorded value counted in a bucket that contains it, for every scale and sign of the values. Concurrent exports and failures do not mix or lose points. A failure to start or stop the endpoint is returned to the caller.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "every set of recorded values including negative, zero, tiny and huge ones at every resolution; every interleaving of concurrent exports, failures and shutdown",
 "The tests convert a few small positive histograms; negative values, coarse scales and bucket boundaries at the limits of floating point are not exercised.",
 [M+"exporters/prom/client.go", M+"internal/export/export.go"],
 [("conversion of exponential to explicit buckets", M+"internal/export/export.go")],
 "Workloads of C13 through the Prometheus exporter with its server replaced by a stub; each histogram's buckets are checked against the values recorded, and all other points against canonical text.",
 observe=["data given to the Prometheus exporter stub", "errors returned by export calls"], **OTLP),
core("C12", "Concurrent use of the metrics SDK is free of data races",
 "Every documented concurrent use of the metrics SDK is free of data races: measurements, creation of the same or conflicting instruments, printing the returned conflicts, callbacks and their registration, collections by several readers, reading collected data, flush, shutdown, and the built-in libraries. No two goroutines access one variable, one of them writing, without synchronisation by the SDK.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of the public operations of the metrics SDK, for every configuration of readers, views and limits",
 "The race detector only sees the accesses and orders a test happens to execute; the tests run few operations concurrently and under the schedules the machine offers.",
 [M+"internal/viewstate/base_instrument.go", M+"internal/viewstate/viewstate.go", M+"internal/viewstate/accumulators.go", M+"internal/viewstate/collectors.go", M+"internal/syncstate/sync.go", M+"internal/asyncstate/async.go", M+"internal/asyncstate/callback.go", M+"meter.go", M+"producer.go", M+"provider.go", M+"periodic.go", "lightstep/instrumentation/runtime/builtin.go"],
 [("locks and atomics of the SDK", M+"internal/viewstate/base_instrument.go"), ("instrument and callback lists", M+"meter.go")],
 "Random applications of 2-5 goroutines mixing all public operations, simulated under the Go race detector: the simulator's own synchronisation is hidden from it, so the happens-before order consists of the SDK's locks and atomics only.",
 observe=["reports of the race detector", "panics"], harness="race", race=True, batch_ms=1500,
 real=["lightstep/sdk/metric and lightstep/instrumentation with race instrumentation", "github.com/lightstep/go-expohisto"],
 stubbed=["runtime/metrics, getrusage and gopsutil's readings: constant simulated values", "goroutine scheduler, sync, sync/atomic, time: the simulator's deterministic versions, reporting the same happens-before edges to the race detector", "metric exporter: reads all data, delays and fails"],
 assume=["happens-before edges as documented for sync and sync/atomic"]),
core("C15", "Reports of invalid measurements are rate limited, never silenced",
 "Each kind of invalid measurement (NaN, infinite, negative increment, empty attribute key) is reported to the error handler when it first happens and again when it recurs after its period (30 seconds; a minute for empty keys), and never twice within the period, however many goroutines make them. The rate limiter behind it behaves so for every call site independently. A slow or re-entrant report delays only the caller that makes it.",
 ["schedules", "histories", "inputs"],
 "every interleaving of concurrent callers at the same and different call sites, every sequence of gaps around the period, every duration of the report itself",
 "The unit test uses a loop in real time with coarse tolerance; exact period boundaries, concurrent callers deciding at once and slow reports need a controlled clock and scheduler.",
 [M+"internal/doevery/doevery.go", M+"aggregator/aggregator.go", M+"internal/viewstate/base_instrument.go"],
 [("last invocation time per call site under a lock", M+"internal/doevery/doevery.go")],
 "Random callers of six call sites (two files, equal line numbers), or invalid measurements through the SDK, with simulated gaps around the period, slow and re-entrant reports; every report and every silent call is compared with the reports of that site in the period before it.",
 observe=["the global error handler", "calls of the rate-limited function"]),
core("C20", "Built-in runtime, host and CPU metrics report one coherent reading",
 "Each collection reports, for every started built-in library, the values of one reading of its sources taken during that collection, under the documented names, units, kinds and attributes, for any number of readers collecting at once. A reading that fails or is malformed is passed to the error handler and contributes no wrong value; the next collection reports normally again. Runtime metrics the library does not know are skipped and disturb nothing else.",
 ["schedules", "fault_sequences", "configurations", "inputs"],
 "every interleaving of collections by several readers and of Start with collections; every sequence of source failures, delays and malformed answers; every set of runtime metrics a Go version may offer; cumulative and delta readers",
 "The tests collect once or twice from one goroutine with the real sources, which never fail and whose values cannot be predicted.",
 ["lightstep/instrumentation/runtime/builtin.go", "lightstep/instrumentation/runtime/descriptor.go", "lightstep/instrumentation/runtime/defs.go", "lightstep/instrumentation/host/host.go", "lightstep/instrumentation/cputime/cputime.go", "lightstep/instrumentation/cputime/cputime_unix.go"],
 [("one callback per library reading all sources", "lightstep/instrumentation/runtime/builtin.go"), ("translation of runtime/metrics names", "lightstep/instrumentation/runtime/descriptor.go")],
 "Random subsets of the libraries over simulated runtime/metrics, gopsutil and getrusage whose values encode the number of the reading; 1-3 readers collected concurrently; every group of points must equal one reading made during the collection, and every failed reading must reach the error handler once.",
 observe=["data.Metrics returned by Producer.Produce", "the global error handler"], harness="builtin",
 real=["lightstep/instrumentation/{runtime,host,cputime} and lightstep/sdk/metric below them"],
 stubbed=["runtime/metrics, getrusage and gopsutil's cpu, mem and net readings: simulated values, delays, errors and malformed answers", "goroutine scheduler, sync, sync/atomic, time: the simulator's deterministic versions", "application: generated readers and collections"]),
]
NA = [
dict(id="C23", title="Exponential histogram buckets contain the values they count",
 statement="For every finite value and every scale, the exponential histogram maps the value to the bucket whose boundaries enclose it, up to the documented error of the logarithm mapping.",
 over=["inputs"], qtext="every finite floating-point value, every scale and maximum size",
 why="Values at bucket boundaries and subnormal values are too many to enumerate in tests.",
 files=["lightstep/sdk/metric/aggregator/histogram/histogram.go"], mech=[("mapping of values to bucket indexes", "github.com/lightstep/go-expohisto")],
 reason="A pure arithmetic function of a dependency (go-expohisto) with no schedule, time, I/O or history; numeric testing or proof is the fitting technique, not simulation."),
]
