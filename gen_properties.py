#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Counter operations are atomic and lose no update",
  "Concurrent increments, adds, sets, resets and reads of one counter behave like some sequential order of those calls that respects real time: every update takes effect exactly once, arithmetic wraps modulo 2^64, and every updating call returns the value it replaced. The value reported through the metric registry or the type-erased metric interface is that same value.",
  ["schedules", "inputs"], "every interleaving of 2-3 threads with 1-3 counter calls each; every call sequence over boundary operands (0, 1, 2^63, 2^64-1)",
  "No existing test calls a counter from two threads or checks a returned or wrapped value; a lost update needs one particular interleaving.",
  ["metriken/src/counter.rs", "metriken-core/src/wrapper.rs", "metriken-core/src/dynmetrics.rs"],
  [("one atomic read-modify-write per update", "metriken/src/counter.rs add/set/value")],
  [("counter cell", "current value", "metriken/src/counter.rs Counter(AtomicU64)")],
  ["Counter::{increment,add,set,reset,value}", "Metric::value"])

p("C02", "Gauge operations are atomic and lose no update",
  "Concurrent increments, decrements, adds, subtractions, sets, resets and reads of one gauge behave like some sequential order of those calls that respects real time: every update takes effect exactly once, signed 64-bit arithmetic wraps on overflow and underflow, and every updating call returns the value it replaced. The value reported through the metric registry or the type-erased metric interface is that same value.",
  ["schedules", "inputs"], "every interleaving of 2-3 threads with 1-3 gauge calls each; every call sequence over boundary operands (0, +-1, i64::MIN, i64::MAX)",
  "No existing test exercises a gauge at all beyond a doc example; lost updates and wrap behaviour need specific schedules and operands.",
  ["metriken/src/gauge.rs"],
  [("one atomic read-modify-write per update", "metriken/src/gauge.rs add/sub/set")],
  [("gauge cell", "current value", "metriken/src/gauge.rs Gauge(AtomicI64)")],
  ["Gauge::{increment,decrement,add,sub,set,reset,value}", "Metric::value"])

p("C03", "Event histogram counts every concurrent recording exactly once",
  "Every accepted recording into an event (atomic) histogram, from any number of threads and including threads racing on its first use, is counted exactly once, and all threads and readers share one histogram. A concurrent load shows in each bucket no fewer recordings than had completed before it began and no more than had begun before it ended, so counts never go backwards between loads that follow one another. A load that follows no recording attempt returns nothing.",
  ["schedules"], "every interleaving of 2-3 threads performing 1-2 recordings or loads, starting from a never-used histogram and from a used one",
  "No existing test records into a histogram from several threads; the first-use race and a torn or lost recording need particular interleavings.",
  ["metriken/src/histogram.rs"],
  [("one-time lazy initialisation", "metriken/src/histogram.rs AtomicHistogram::get_or_init"), ("atomic bucket increment", "histogram::AtomicHistogram::add")],
  [("inner", "lazily created bucket array", "metriken/src/histogram.rs AtomicHistogram.inner")],
  ["AtomicHistogram::{increment,load}"])

p("C04", "Histograms record values in the right bucket or reject them cleanly",
  "For every valid configuration and every 64-bit value, recording into an event histogram either succeeds and adds one to exactly the bucket whose range contains that value, or returns an error and changes nothing; it never panics, and values below two to the configured maximum power are never rejected. A bulk update of a bulk (lock-based) histogram either replaces all buckets with the supplied data or, when the number of buckets does not match the configuration, returns an error and changes nothing. Loading returns nothing until the first accepted recording or update, and the reported configuration is the declared one.",
  ["inputs", "histories", "configurations"], "all configurations up to a bound times all values (small configurations) or all bucket-boundary values (large ones); all sequences of recordings, updates and loads up to a depth",
  "Existing tests never record into a metriken histogram; out-of-range values and the boundary of the range are inputs no test touches.",
  ["metriken/src/histogram.rs"],
  [("range check before recording", "metriken/src/histogram.rs AtomicHistogram::increment"), ("length check before update", "metriken/src/histogram.rs RwLockHistogram::update_from")],
  [("config", "grouping and maximum value power", "metriken/src/histogram.rs")],
  ["AtomicHistogram::{increment,load,config}", "RwLockHistogram::{update_from,load,config}"])

p("C05", "Bulk histogram updates are atomic for every reader",
  "Under every interleaving of bulk updates and loads of one bulk (lock-based) histogram, including racing first updates, each load returns either nothing, if it can be ordered before every update, or exactly the complete bucket data of one update, in an order consistent with real time. It never returns a mixture of updates or data that no update supplied, and no update is dropped.",
  ["schedules"], "every interleaving of 2-3 threads performing 1-2 updates or loads, from the never-updated and the updated state",
  "No existing test touches the bulk histogram; torn reads and the first-update window need particular interleavings.",
  ["metriken/src/histogram.rs"],
  [("reader-writer lock around the buckets", "metriken/src/histogram.rs RwLockHistogram"), ("one-time initialisation", "metriken/src/histogram.rs RwLockHistogram::get_or_init")],
  [("inner", "lazily created, lock-protected buckets", "metriken/src/histogram.rs RwLockHistogram.inner")],
  ["RwLockHistogram::{update_from,load}"])

p("C06", "Lazy metrics initialise once and report nothing before first use",
  "The initialiser of a lazy metric runs at most once under any interleaving of accesses, every access observes the one fully initialised instance and no update made through it is lost. Enumerating, reading, formatting or snapshotting metrics never initialises a lazy metric, and until it has been initialised it reports itself as disabled with no value. If the initialiser panics, the metric stays uninitialised and every later access panics instead of exposing a partial value or hanging.",
  ["schedules", "histories"], "every interleaving of 2-3 threads that force, peek at, or enumerate the same lazy metric; every sequence of access operations up to a depth, with initialisers that succeed, panic or are slow",
  "No existing test uses a lazy metric; double initialisation and exposure of partial state need particular interleavings or a panicking initialiser.",
  ["metriken/src/lazy.rs"],
  [("once cell", "metriken/src/lazy.rs Lazy::force"), ("non-initialising accessor", "metriken/src/lazy.rs Lazy::get, Metric for Lazy")],
  [("cell", "the initialised value", "metriken/src/lazy.rs"), ("func", "the initialiser until it is taken", "metriken/src/lazy.rs")],
  ["Lazy::{force,get,get_mut,deref}", "Metric for Lazy"])

p("C07", "A dynamic metric is listed exactly while it is registered and alive",
  "After any sequence of creating, registering, re-registering, moving and dropping dynamic metrics (boxed or pinned), the registry lists each metric that has been registered and not yet dropped exactly once, under the name and description it was last registered with, and lists nothing else. Dropping or re-registering one metric never affects the entry of another, even when memory is reused, and dropping a metric that was never registered removes nothing.",
  ["histories"], "every operation sequence up to depth 6 over two or three metric slots and two names, boxed and pinned, under allocation policies that do and do not reuse addresses",
  "The existing tests run six fixed sequences and only compare the number of entries.",
  ["metriken-core/src/dynmetrics.rs", "metriken-core/src/metrics.rs"],
  [("address-keyed registry", "metriken-core/src/dynmetrics.rs DynMetricsRegistry"), ("unregister on drop", "metriken-core/src/dynmetrics.rs Drop for DynPinnedMetric")],
  [("REGISTRY", "all live dynamic entries", "metriken-core/src/dynmetrics.rs")],
  ["metrics().dynamic_metrics()", "metrics().iter()"])

p("C08", "Concurrent registration, removal and enumeration are safe and complete",
  "Under every interleaving of threads that create, register and drop dynamic metrics while others enumerate and read them, a held view of the metrics does not change, every entry in it refers to a live metric for as long as the view is held, and registrations and removals take effect atomically in an order consistent with real time. No access is a data race or touches freed memory. As long as no thread registers or drops a metric while itself holding a view, every operation, including taking a further view while already holding one, completes.",
  ["schedules"], "every interleaving of 2-3 threads with 1-3 registry operations each, under address reusing and non-reusing allocation",
  "The existing tests serialise themselves with a mutex, so no two registry operations ever overlap; use-after-drop and deadlock need a particular interleaving.",
  ["metriken-core/src/dynmetrics.rs", "metriken-core/src/metrics.rs"],
  [("global reader-writer lock held by every view", "metriken-core/src/dynmetrics.rs get_registry, metriken-core/src/metrics.rs Metrics"), ("unregister before the metric memory is released", "metriken-core/src/dynmetrics.rs Drop for DynPinnedMetric")],
  [("REGISTRY", "lock-protected map of entries", "metriken-core/src/dynmetrics.rs")],
  ["metrics()", "MetricBuilder::build", "drop of dynamic metrics"])

p("C09", "A dynamic metric's entry shows exactly what its builder was given",
  "For every combination of builder calls, the registered entry of a dynamic metric reports the given name, the last given description (or none), exactly the given metadata (last value per key), the last value provided per type, and the metric's own current value, enablement and concrete type. Formatting it uses the builder's formatter if one was given and the default one otherwise. The entry's identity test is true for that metric and false for every other metric.",
  ["inputs", "histories"], "every sequence of builder calls up to a depth over name, description, metadata, formatter and provided values, for counters, gauges, histograms, lazies and custom metrics, boxed and pinned",
  "One existing test checks metadata on one dynamic counter; the formatter, identity and provided values of dynamic metrics are never tested.",
  ["metriken-core/src/dynmetrics.rs", "metriken-core/src/lib.rs", "metriken-core/src/provide.rs"],
  [("builder", "metriken-core/src/dynmetrics.rs MetricBuilder"), ("delegating wrapper", "metriken-core/src/dynmetrics.rs ProviderMetric"), ("type-driven lookup", "metriken-core/src/provide.rs ProviderMap")],
  [("provider", "values attached to the metric", "metriken-core/src/dynmetrics.rs ProviderMetric")],
  ["MetricEntry::{name,description,metadata,formatted,is,request_ref,value}"])

p("C10", "Every static declaration yields exactly one faithful registry entry",
  "Every well-formed metric declaration, with any subset and order of its arguments, anywhere a static may be declared and for any metric type, adds exactly one static entry whose name (or by default the identifier of the static), description, metadata, formatter, value and identity are those declared, without changing how the static itself is used. Declarations with a repeated argument, a repeated metadata key or an unknown argument are rejected at compile time.",
  ["programs"], "every subset and order of the declaration arguments with one and two metadata keys of each form, for each metric type and placement; every repeated or unknown argument",
  "Existing tests cover a handful of argument combinations and two rejected programs.",
  ["metriken-derive/src/metric.rs", "metriken-derive/src/args.rs", "metriken-core/src/lib.rs", "metriken-core/src/wrapper.rs"],
  [("argument parser with duplicate detection", "metriken-derive/src/metric.rs MetricArgs, metriken-derive/src/args.rs"), ("entry registration macro", "metriken-core/src/lib.rs declare_metric_v1"), ("delegating wrapper", "metriken-core/src/wrapper.rs MetricWrapper")],
  [("METRICS", "link-time slice of static entries", "metriken-core/src/lib.rs")],
  ["metrics().static_metrics()", "compiler diagnostics"])

p("C11", "Metric and metadata iterators agree under every way of consuming them",
  "The iterators over all metrics, over dynamic metrics and over metadata yield every element exactly once in one consistent order, whatever mixture of stepping, skipping and folding is used, and, for the double-ended ones, from whichever ends. At every point the advertised size bounds contain the number of elements actually left, exact-size iterators report it exactly, counting returns it, and an exhausted iterator stays exhausted.",
  ["histories", "inputs"], "every sequence of iterator operations up to a depth for every small number of static and dynamic metrics and metadata entries",
  "Existing tests only call next, find and len on lists with one kind of metric.",
  ["metriken-core/src/metrics.rs", "metriken-core/src/metadata.rs"],
  [("chained static and dynamic iteration", "metriken-core/src/metrics.rs MetricsIter"), ("delegation", "metriken-core/src/metrics.rs DynMetricsIter, metriken-core/src/metadata.rs MetadataIter")],
  [("sm, dm", "remaining static and dynamic entries", "metriken-core/src/metrics.rs MetricsIter")],
  ["MetricsIter", "DynMetricsIter", "MetadataIter"])

p("C12", "Type-directed requests return the first matching provided item only",
  "A request for a value or a reference of a type, made on a metric or its entry, returns the first item the metric offers of exactly that type and kind (value and reference are different kinds) and nothing otherwise; a closure that would compute an item is run only when it fulfils the request. A satisfaction query is true exactly while the request is unfulfilled and of that type and kind. Values attached by a dynamic metric's builder take precedence over those the metric itself offers, and requests reach the metric's own offers unchanged through static and dynamic registration and through an initialised lazy metric.",
  ["inputs", "histories"], "every sequence of up to four offers over several sized, unsized and zero-sized types, every requested type and kind, through bare, static, boxed, pinned and lazy metrics",
  "One existing test makes a single request of a single type.",
  ["metriken-core/src/provide.rs", "metriken-core/src/lib.rs", "metriken-core/src/wrapper.rs", "metriken-core/src/dynmetrics.rs", "metriken/src/lazy.rs"],
  [("tagged option with checked downcast", "metriken-core/src/provide.rs Request, TaggedOption"), ("provider map keyed by type", "metriken-core/src/provide.rs ProviderMap")],
  [("tagged option", "the request's slot", "metriken-core/src/provide.rs")],
  ["request_value", "request_ref", "Request::provide_*", "Request::would_be_satisfied_by_*"])

p("C13", "Formatted metric names are faithful and unambiguous",
  "The default simple format of a metric is exactly its name. The default Prometheus format is the name alone when there is no metadata and otherwise the name followed by one brace-enclosed list with one label per metadata entry, in which label values are escaped as the Prometheus text format requires, so that parsing it gives back exactly the name and the metadata. The format of a metric with a custom formatter is exactly what that formatter returns for the entry and the requested format.",
  ["inputs"], "every small metadata map over values that include quotes, backslashes, newlines, braces, commas and equals signs, for static and dynamic metrics and both formats",
  "Existing tests format three metrics with at most one plain label.",
  ["metriken-core/src/formatter.rs", "metriken-core/src/lib.rs"],
  [("default formatter", "metriken-core/src/formatter.rs default_formatter"), ("formatter lookup", "metriken-core/src/lib.rs MetricEntry::formatted")],
  [], ["MetricEntry::formatted", "default_formatter"])

p("C14", "A snapshot holds exactly one faithful reading per selected metric",
  "A snapshot contains, for every registered static or dynamic metric that its filter accepts, exactly one reading of the right kind if the metric currently has a counter, gauge or histogram value and none otherwise, with its simple formatted name, current value, and its metadata extended by its description and, for histograms, the histogram's configuration. It contains nothing else, carries the snapshotter's own metadata and a timestamp taken during the call, and taking it changes no metric.",
  ["inputs", "histories", "configurations"], "every combination of registered metric kinds and states (unused, used, lazy, custom), metadata, description, formatter and filter over a small universe, and every sequence of updates and snapshots up to a depth",
  "No existing test takes a snapshot.",
  ["metriken-exposition/src/snapshotter.rs", "metriken-exposition/src/snapshot.rs"],
  [("single pass over the registry", "metriken-exposition/src/snapshotter.rs Snapshotter::snapshot")],
  [("filter, metadata", "snapshotter configuration", "metriken-exposition/src/snapshotter.rs")],
  ["Snapshotter::snapshot", "Snapshot::{counters,gauges,histograms,metadata,systemtime}"])

p("C15", "Snapshots taken during concurrent activity stay consistent",
  "Under every interleaving of a snapshot with threads that update metrics or create and drop dynamic ones, each reading is a value its metric (for an event histogram, each of its buckets) actually had between the start and the end of the snapshot, each metric registered throughout appears exactly once, none appears that was not registered at some moment during the snapshot, and no dropped metric is read. Readings of one metric in successive snapshots never contradict the order of its updates, and neither the snapshot nor the other threads block forever.",
  ["schedules"], "every interleaving of one snapshotting thread with 1-2 updating or registering threads",
  "No existing test takes a snapshot, let alone while other threads are active.",
  ["metriken-exposition/src/snapshotter.rs", "metriken-core/src/metrics.rs", "metriken-core/src/dynmetrics.rs"],
  [("registry view held during the snapshot", "metriken-exposition/src/snapshotter.rs Snapshotter::snapshot"), ("single read of each metric", "metriken-exposition/src/snapshotter.rs")],
  [], ["Snapshotter::snapshot"])

p("C16", "Serialised snapshots decode to exactly what was encoded",
  "Every snapshot of either version, encoded to MessagePack or JSON and decoded again, alone or from a concatenated stream, yields the same version, timestamp, duration, snapshot metadata and the same readings with names, values and metadata in the same order. The accessors of a snapshot return exactly what it was built from, and no snapshot of one version is ever decoded as the other.",
  ["inputs", "histories"], "every snapshot over a small alphabet of timestamps, durations, metadata, reading lists and boundary values, in both versions, both encodings, and streams of up to three",
  "No existing test serialises a snapshot.",
  ["metriken-exposition/src/snapshot.rs", "metriken-exposition/src/convert.rs"],
  [("untagged version enum", "metriken-exposition/src/snapshot.rs Snapshot"), ("encoders", "metriken-exposition/src/snapshot.rs to_json, to_msgpack")],
  [], ["Snapshot::{to_msgpack,to_json}", "Deserialize for Snapshot", "Snapshot accessors"])

p("C17", "Parquet output holds every reading of every snapshot, and nothing else",
  "Converting any sequence of snapshots to Parquet, directly or from a MessagePack stream, yields one row per snapshot in order and reports that number of rows. Every row holds the snapshot's timestamp and its duration (null if it has none), and for each metric that occurs in any snapshot one column (or index and count columns for sparse histograms) of the right type holding exactly that snapshot's reading, or null where the snapshot has none. The data does not depend on compression, batch size or which entry point is used, and a timestamp or duration that a column cannot hold (before 1970, or 2^64 nanoseconds and more) is an error.",
  ["inputs", "histories", "configurations"], "every history of up to three or four snapshots over a small alphabet of metric subsets and boundary values, both versions, both histogram layouts, several batch sizes and compressions, both entry points",
  "Existing tests write the same two snapshots, always with every metric present.",
  ["metriken-exposition/src/parquet.rs", "metriken-exposition/src/convert.rs", "metriken-exposition/src/snapshot.rs"],
  [("two-pass schema union", "metriken-exposition/src/parquet.rs ParquetSchema::push/finalize"), ("null filling per row", "metriken-exposition/src/parquet.rs ParquetWriter::push"), ("re-reading the stream", "metriken-exposition/src/convert.rs")],
  [("counters/gauges/histograms", "schema-ordered columns", "metriken-exposition/src/parquet.rs ParquetWriter")],
  ["the written file, read back with the arrow reader"])

p("C18", "Conversion of damaged or failing input reports an error, never a panic",
  "If the MessagePack input of a conversion is truncated inside a snapshot or otherwise malformed, or any read, seek or write fails, the conversion returns an error: it does not panic, hang, or report success with rows missing. How the input is split over reads, short writes and interrupted reads do not change the result, and a handle is converted consistently wherever it was positioned when handed over.",
  ["fault_sequences", "crash_points", "inputs"], "every truncation point of a stream of snapshots, every single and double fault position over the sequence of read, seek and write calls, every small read-chunk size, every snapshot boundary as start position",
  "No existing test runs the stream converter, injects a fault or truncates input.",
  ["metriken-exposition/src/convert.rs", "metriken-exposition/src/parquet.rs"],
  [("error propagation", "metriken-exposition/src/convert.rs convert_file_handle"), ("errors from the writer", "metriken-exposition/src/parquet.rs push/finalize")],
  [], ["MsgpackToParquet::{convert_file_handle,convert_file_path}"])

p("C19", "Column identity depends only on a metric's name and labels",
  "In the Parquet output a metric without a 'metric' label gets a column named exactly as the metric; one with it gets a column named by that label followed by its other identifying label values in a fixed order (name, op, state, direction, the rest by label, id last), ignoring unit and histogram configuration. The name never depends on map order, snapshot order or the metric's opaque name, so readings of one metric in different snapshots always share a column, and metrics of one kind with the same label keys and different slash-free identifying values never do.",
  ["inputs", "configurations"], "every label set over the special and ordinary keys with a small value alphabet, every pair of them, and different opaque names and map constructions, for all metric kinds",
  "Existing tests use metrics without any metadata.",
  ["metriken-exposition/src/snapshot.rs", "metriken-exposition/src/parquet.rs"],
  [("canonical name", "metriken-exposition/src/snapshot.rs canonicalize_metric_name"), ("same name in schema and rows", "metriken-exposition/src/parquet.rs, metriken-exposition/src/snapshot.rs HashedSnapshot")],
  [], ["column names and cells of the written file"])

p("C20", "Parquet metadata records metric and file metadata faithfully",
  "Each metric column carries the metadata of the metric's first occurrence plus its metric type (counter, gauge, histogram or sparse histogram), and the timestamp and duration columns are marked as such with their unit. The file's key-value metadata is the first non-empty snapshot metadata overridden by the metadata given to the converter, with nothing lost or added by the crate, and the chosen batch size bounds every row group.",
  ["inputs", "histories", "configurations"], "every history of up to three snapshots over small metadata maps for snapshots and metrics, every converter metadata map, both histogram layouts, several batch sizes",
  "Existing tests check row-group sizes once and never any metadata.",
  ["metriken-exposition/src/parquet.rs", "metriken-exposition/src/convert.rs"],
  [("first-seen metric metadata", "metriken-exposition/src/parquet.rs ParquetSchema::push"), ("metadata merge", "metriken-exposition/src/parquet.rs ParquetSchema::finalize")],
  [("metadata", "first non-empty snapshot metadata", "metriken-exposition/src/parquet.rs ParquetSchema")],
  ["schema and file metadata of the written file"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
