#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "A span POST is accepted as a whole or rejected as a whole",
  "Every POST to one of the three span endpoints (Zipkin v1 JSON, Zipkin v2 JSON, Jaeger JSON) is answered either with 202, after every span of the payload has been handed on for processing exactly once and in payload order, or with a 4xx error, in which case no span of it is handed on. A well-formed payload is answered with 202 (v1 only when declared as application/json); a truncated one, and one with an undecodable id, number or string or with a value of the wrong type, is answered with 4xx. This holds for concurrent requests and however slowly the spans are taken off.",
  ["inputs", "schedules", "histories"],
  "all small payloads (0..3 spans) of every format, every truncation of them, valid and corrupted elements at every position, every interleaving (bounded preemptions) of two concurrent requests with a slow consumer",
  "The parsers are tested on one valid one-span payload each; the HTTP handlers, rejection and concurrency have no test.",
  ["handlers.go", "main.go", "codec/json-v1.go", "codec/json-v2.go", "codec/jaeger.go"],
  [("parse completely, then enqueue, then answer", "handlers.go:parseSpansWithJSON"), ("status mapping", "handlers.go:handleSpans")],
  [("span queue", "spans accepted over HTTP and not yet processed", "main.go:httpInputSpans")],
  ["HTTP response status", "messages given to the Kafka producer / spans handed to the pipeline"])

p("C02", "Body framing and compression never change what is decoded",
  "The spans decoded from a request body depend only on its bytes: splitting the body into reads of any sizes, delivering end-of-file together with or after the last bytes, or sending it gzip-compressed with Content-Encoding: gzip gives the same spans and the same accept/reject decision as delivering it at once. A body declared as gzip that is not gzip data is rejected and nothing of it is processed.",
  ["inputs", "fault_sequences"],
  "every one- and two-point split of a corpus of payloads covering every token kind, uniform chunk sizes, bodies whose tokens straddle the internal buffer sizes, both end-of-file conventions, plain and gzip",
  "Tests only read from strings.Reader, which delivers everything in one read; refilling and compaction of the parse buffer is never exercised.",
  ["codec/hyperjson/parser.go", "handlers.go", "codec/json-v1.go", "codec/json-v2.go"],
  [("buffer refill and compaction", "codec/hyperjson/parser.go:bufferMore"), ("look-ahead for literals", "codec/hyperjson/parser.go:require"), ("transparent gunzip", "handlers.go:handleGzipRequestBody")],
  [("parse buffer window", "unconsumed bytes between tail and head", "codec/hyperjson/parser.go:Parser")],
  ["spans returned by the parsers", "HTTP status"])

p("C03", "JSON text is decoded exactly as JSON defines it",
  "Every JSON string in a Zipkin v1 or v2 payload (span names, service names, tag keys and values, annotation texts) is decoded to exactly the Unicode text it denotes, including all escape sequences, surrogate pairs and strings of any length. Numbers, booleans and null given as v1 tag values become their literal text, for every number notation JSON allows.",
  ["inputs"],
  "all strings of up to 4 units over an alphabet with every escape form, all hex digit and surrogate classes, multi-byte text, at every string position; string lengths around and far beyond the internal buffer sizes; all short JSON numbers",
  "Tests contain one string with an escaped quote, one with a backslash and one with two BMP escapes, all far shorter than the buffer.",
  ["codec/hyperjson/string.go", "codec/hyperjson/parser.go", "codec/hyperjson/bind.go", "codec/json.go"],
  [("in-place unescaping", "codec/hyperjson/string.go:decodeStringInPlace"), ("string and number scanning", "codec/hyperjson/parser.go:readString,readNumber")],
  [], ["spans returned by the parsers"])

p("C04", "Field order, whitespace and unknown fields are irrelevant",
  "The spans decoded from a Zipkin v1 or v2 payload do not depend on the order of the fields of an object, on insignificant whitespace, or on the presence of unknown fields, whatever their name, holding any JSON value (nested up to 10000 levels), in any object. Spans keep the order of the payload.",
  ["inputs"],
  "all permutations of subsets of fields, all JSON values up to a bounded size as unknown field at every position of every object, whitespace variants at every token boundary",
  "Tests use one fixed layout per format; skipping is only tested on one object and one array of numbers.",
  ["codec/hyperjson/bind.go", "codec/hyperjson/parser_skip.go", "codec/json-v1.go", "codec/json-v2.go"],
  [("struct decoder with field table", "codec/hyperjson/bind.go:MakeStructDecoder"), ("skipping of values", "codec/hyperjson/parser_skip.go")],
  [], ["spans returned by the parsers"])

p("C05", "Zipkin v1 spans keep their meaning",
  "A Zipkin v1 span with up to four annotations becomes a span with the same ids (missing or null ids are 0), name and binary annotations as tags plus protocolVersion='json v1', the service of the first endpoint naming one (annotations before binary annotations), and cs/cr/sr/ss timings taken from the annotations. Timestamp and duration come from a complete cs/cr pair, else from a complete sr/ss pair, else from the span's own fields, with one millisecond replacing a zero duration; all times are exact microseconds.",
  ["inputs"],
  "all combinations of presence/absence and small value domains of every field, up to 5 annotation slots with all kinds, 0..3 binary annotations, 0..3 spans per payload",
  "One span is tested; combinations of annotations and missing fields are not.",
  ["codec/json-v1.go", "codec/json.go", "proxy/span.go", "proxy/id.go", "proxy/timestamp.go"],
  [("conversion", "codec/json-v1.go:ToSpan"), ("timestamp choice", "codec/json-v1.go:fillInTimestamp")],
  [], ["ParseJsonV1 result"])

p("C06", "Zipkin v2 spans keep their meaning",
  "A Zipkin v2 span becomes a span with the same ids (missing or null ids are 0), name, local service and tags plus protocolVersion='json v2', with timestamp and duration in exact microseconds and one millisecond replacing a zero duration. Kind client (any case) sets cs/cr, kind server sets sr/ss to start and end of the span, and other kinds set no timings.",
  ["inputs"],
  "all combinations of presence/absence and small value domains of every field, all letter cases of the kinds, 0..3 spans per payload",
  "One span is tested; combinations are not.",
  ["codec/json-v2.go", "codec/json.go", "proxy/span.go", "proxy/id.go"],
  [("conversion", "codec/json-v2.go:ToSpan")],
  [], ["ParseJsonV2 result"])

p("C07", "Jaeger spans keep their meaning",
  "Every span of every data object of a Jaeger payload becomes a span with the same ids and operation name, parent taken from its CHILD_OF reference or itself if it has none, the service of its own process, exact microsecond times (one millisecond replacing a zero duration) and its string tags plus protocolVersion='jaeger', where 'component' is stored as 'lc' and 'internal.span.format' and 'span.kind' are not stored. span.kind client or server (any case) sets cs/cr or sr/ss to start and end of the span.",
  ["inputs"],
  "all combinations of presence/absence and small value domains of every field, references of both kinds in every order, tags of every JSON type, several data objects with clashing process ids",
  "One span is tested; combinations are not.",
  ["codec/jaeger.go", "proxy/id.go", "proxy/span.go"],
  [("conversion", "codec/jaeger.go:ToSpan")],
  [], ["ParseJaeger result"])

p("C08", "No request body can crash, hang or half-process",
  "For every request body whatsoever, decoding terminates with either a list of spans or an error, without crashing the process, however malformed, long or deeply nested the body is. A body that ends before its top-level value is complete is always reported as an error.",
  ["inputs"],
  "all token sequences up to a bounded length over the JSON token alphabet with junk, all byte strings up to a bounded length over a byte alphabet, every truncation of a corpus, and size and nesting ladders, for all three formats",
  "No malformed, truncated, long or deeply nested input is tested at all.",
  ["codec/hyperjson/parser.go", "codec/hyperjson/parser_skip.go", "codec/hyperjson/bind.go", "codec/json-v1.go", "codec/json-v2.go", "codec/jaeger.go"],
  [("end-of-input detection", "codec/hyperjson/parser.go:bufferMore"), ("error propagation", "codec/hyperjson/bind.go"), ("recursive skipping", "codec/hyperjson/parser_skip.go")],
  [], ["parser results", "process liveness"])

p("C09", "Requests never leak into each other",
  "What is decoded from a request body is the same as in a freshly started process, whatever requests were decoded before it or are being decoded at the same time, including failed ones. Spans already returned are never altered by later requests.",
  ["histories", "schedules", "inputs"],
  "all ordered pairs and triples of payloads of a corpus that fills every reusable field in turn (including failing ones), and all interleavings (bounded preemptions, every reuse decision of the buffer pools) of two concurrent decodes",
  "Each test decodes a single payload in a fresh process; the pooled buffers, reused decode slots and the shared string cache never see a second request.",
  ["codec/json-v1.go", "codec/json-v2.go", "codec/json.go", "cache/cache.go", "codec/binary.go"],
  [("reset of reused decode slots", "codec/json-v1.go:spanV1ValueDecoder"), ("copy before caching", "cache/cache.go:lookupCache"), ("pools", "codec/json.go:bufferPool, codec/json-v1.go:poolSpansV1")],
  [("poolSpansV1 / bufferPool", "memory reused between requests", "codec/json-v1.go, codec/json.go"), ("binaryCache", "strings shared between all requests", "cache/cache.go")],
  ["spans returned by the parsers, re-read after later requests"])

p("C10", "The Kafka span encoding is lossless",
  "Decoding the binary encoding of any span gives back an equal span, for all ids, times and durations over the full 64-bit range, all strings including empty and very long ones, and any set of tags.",
  ["inputs"],
  "every field independently and pairwise over boundary values of each varint width, strings of lengths around every internal size limit, tag sets of size 0..3",
  "Tests encode one fixed span and random spans with short strings and small positive values.",
  ["codec/binary.go"],
  [("encoder/decoder pair", "codec/binary.go")],
  [], ["BinaryEncode/BinaryDecode"])

p("C11", "Damaged Kafka messages are rejected, never fatal",
  "Decoding any byte string as a span terminates with a span or an error and never crashes. A complete Avro encoding of a span - its tags in one or several blocks, with or without block sizes - is decoded to that span. A byte string that ends early (every proper prefix of an encoding) or has a text of negative length or beyond the end is reported as an error.",
  ["inputs"],
  "all byte strings up to a bounded length over a boundary alphabet, every prefix of a corpus of encodings, every single-byte substitution (boundary alphabet) in a corpus of encodings",
  "Only valid encodings are tested.",
  ["codec/binary.go", "balance/receiver.go"],
  [("length checks", "codec/binary.go:readString,readLong,readMapString")],
  [], ["BinaryDecode"])

p("C12", "Produced Kafka messages are keyed by trace and stay intact",
  "The message produced for a span decodes to exactly that span at any later time, no matter how many other messages are produced before or after it or concurrently. Its key depends only on the trace id, and differs for different trace ids.",
  ["histories", "schedules", "inputs"],
  "all sequences of produced spans up to a bounded length over a size alphabet that straddles the encoder's internal limits, with every earlier message re-verified; buffer-position sweep over a whole encoder buffer; interleavings of two senders with every pool reuse decision",
  "One test encodes 10000 small spans sequentially; sizes at the limits and concurrency are not covered, keys are never looked at.",
  ["balance/encoder.go", "balance/sender.go"],
  [("carving messages out of shared buffers", "balance/encoder.go:Encode"), ("encoder pool", "balance/encoder.go:encoders")],
  [("enc.buf / enc.slices", "shared backing memory of produced messages", "balance/encoder.go")],
  ["key and value of messages reaching the producer"])

p("C13", "Sending to Kafka neither loses nor stalls spans",
  "Every span given to the sender is submitted to the Kafka producer exactly once, in order, for the configured topic. Failures to deliver individual messages never stop later spans from being submitted.",
  ["fault_sequences", "histories"],
  "all patterns of delivery failures over a bounded number of messages, with producers reporting errors on channels of several capacities",
  "The sender has no test; a failing broker is never simulated.",
  ["balance/sender.go", "main.go"],
  [("send loop", "balance/sender.go:Send"), ("producer error channel must be drained", "balance/sender.go:NewSender")],
  [], ["messages arriving at the producer input"])

p("C14", "Consuming from Kafka is at-least-once and keeps going",
  "Every decodable message of a claimed partition is decoded and handed on exactly once per delivery and in partition order, and its offset is marked only after it has been handed on. Undecodable messages are skipped without stopping consumption, and consumption is resumed after every session end or session error until it is closed, which returns only after consumption has stopped.",
  ["histories", "fault_sequences", "schedules"],
  "all sequences of good/undecodable messages and session ends/errors up to a bounded length, interleaved with close at every point and with a slow consumer",
  "The receiver has no test.",
  ["balance/receiver.go"],
  [("mark after callback", "balance/receiver.go:ConsumeClaim"), ("consume loop", "balance/receiver.go:Consume")],
  [], ["callback calls, offset marks, Consume calls"])

p("C15", "String interning is transparent",
  "Interning any string or byte slice returns exactly its content, at any time, for any number of concurrent callers and any cache history including evictions. A string returned for a copied byte slice never changes when the caller reuses that slice.",
  ["schedules", "histories", "inputs"],
  "all sequences of interning operations up to a bounded length with the source buffer overwritten after each call, and all interleavings of 2-3 concurrent callers on colliding keys",
  "The string cache functions have no direct test; only the single-threaded LRU behind them has.",
  ["cache/cache.go", "cache/lru.go"],
  [("copy on insert", "cache/cache.go:lookupCache"), ("lock around the LRU", "cache/cache.go:binaryCacheLock")],
  [("binaryCache", "shared LRU of interned strings", "cache/cache.go")],
  ["returned strings"])

p("C16", "The LRU cache keeps the recent entries within its bound",
  "After any sequence of lookups and insertions of non-empty strings a cache with a positive size limit holds exactly the most recently used distinct strings: inserting evicts least recently used strings first, only as many as needed to get below the configured size, so the accounted size exceeds the limit by at most one entry. The reported size and count always match the strings that can be looked up.",
  ["histories"],
  "all reachable cache states under all operation sequences over a small alphabet of strings of different sizes for several limits",
  "One test only inserts increasing keys, the other checks only the list length.",
  ["cache/lru.go"],
  [("recency list", "cache/lru.go:linkedList"), ("eviction loop", "cache/lru.go:ensureCacheSize")],
  [("usage / values / size / count", "recency list, index and accounting", "cache/lru.go")],
  ["Get/Set/Size/Count"])

p("C17", "Every received span is delivered once, with its whole trace",
  "Under normal load all valid spans (non-zero span and trace id) received for a trace id until 8 seconds passed without a new one are delivered together as one trace, exactly once, with every span id appearing once and nothing else mixed in. A trace is never delivered before it has been quiet for 8 seconds and is delivered at most one second after that. Spans with a zero id are ignored.",
  ["histories", "schedules"],
  "all event sequences (span arrivals of several interleaved traces, waits around the buffering time) up to a bounded depth under virtual time, including simultaneous span/tick events in every order",
  "The correlation loop is driven by real timers of several seconds and has no test; tests build one tree by hand.",
  ["correct.go"],
  [("buffering and expiry", "correct.go:finishTraces"), ("sorted span set", "correct.go:SpanSlice"), ("event loop", "correct.go:ErrorCorrectSpans")],
  [("traces", "spans buffered per trace id", "correct.go:ErrorCorrectSpans")],
  ["traces on the output channel with virtual time stamps"])

p("C18", "Client and server halves merge into one span",
  "Reports with the same span id are merged into one span: service, name and tag values reported by the server half win over those of other reports whatever the arrival order, values only one side has are kept, and cs/cr come from the client half and sr/ss from the server half. A parent unknown in one report is taken from another. For one complete client half and one complete server half the delivered span is the same for both arrival orders, and receiving one of them again changes nothing.",
  ["histories", "inputs"],
  "all multisets of up to 3 reports over small domains of service, name, tags, parent, timings and kind in all arrival orders",
  "Three tests merge one pair each; orders, parents, names and durations are not covered.",
  ["correct.go", "proxy/span.go"],
  [("merge rule", "correct.go:mergeSpansInPlace"), ("parent adoption", "correct.go:AddSpan")],
  [], ["delivered traces"])

p("C19", "A trace is delivered iff a unique root can be determined",
  "A trace in which exactly one span is a root (its own parent, or its parent is not part of the trace) is delivered unchanged in structure. If there are several roots sharing one missing (non-zero) parent, a synthetic root span with that parent's id, spanning from the earliest start to the latest end of those roots, is added and the trace is delivered; with any other set of roots the trace is not delivered. Every shape of parent references, including cycles, is handled without crashing or hanging.",
  ["inputs", "histories"],
  "all parent assignments (including self, missing, unknown and cyclic parents) of traces of up to 5 spans in several arrival orders",
  "One two-span tree is tested.",
  ["correct.go"],
  [("root detection", "correct.go:Roots"), ("synthetic root", "correct.go:createFakeRoot,allTheSameParent")],
  [], ["delivered traces"])

p("C20", "Clock skew between client and server is corrected",
  "In a delivered trace, a span with all four client/server times starts at its client send time (plus the correction inherited from its ancestors) and lasts until client receive, and all its descendants are shifted additionally by the difference between the middle of the client interval and the middle of the server interval. All other spans keep their duration and are shifted by exactly the correction accumulated along their ancestors, and a non-root span still before the year 2020 starts at the start of its parent.",
  ["inputs"],
  "all trees of up to 4-5 spans with every assignment of shared/one-sided/untimed/broken-timestamp spans and skews of both signs",
  "One chain of three spans is tested, and that test fails in this repository.",
  ["correct.go"],
  [("recursive correction", "correct.go:correctTreeTimings")],
  [], ["timestamps and durations in delivered traces"])

p("C21", "Oversized and endless traces are dropped and stay dropped",
  "A trace with more than 8192 distinct spans, or one that is still receiving spans or not yet delivered 40 seconds (five buffering times) after its first span, is discarded and never delivered, and further spans of that trace id are ignored, as long as no more than a thousand traces have been discarded (of more than that, at least a thousand stay ignored). Other traces, and traces of up to 8192 spans, are not affected.",
  ["histories", "inputs"],
  "event sequences with span bursts around the limit (8191, 8192, 8193, and beyond 16-bit counters) and update patterns around the age limit, interleaved with an innocent trace",
  "Limits are not tested.",
  ["correct.go"],
  [("size and age limit", "correct.go:finishTraces"), ("blacklist", "correct.go:ErrorCorrectSpans")],
  [("blacklistedTraces", "trace ids that were discarded", "correct.go:ErrorCorrectSpans"), ("nodeCount", "number of spans of a trace", "correct.go:tree")],
  ["delivered traces"])

p("C22", "Under overload memory stays bounded and small traces survive",
  "The buffering time shrinks from 8 to 6, 4 and 2 seconds when at least 40000, 60000 and 80000 spans are in flight. When more than 100000 spans are in flight, the traces with the most spans are discarded until fewer than 100000 remain, and all other traces are still delivered.",
  ["histories"],
  "all combinations of load levels around each threshold with probe traces, and all distributions of trace sizes from a small set exceeding the limit",
  "Load shedding is not tested.",
  ["correct.go"],
  [("adaptive buffering", "correct.go:bufferConfigs"), ("discarding", "correct.go:discardSuspiciousTraces")],
  [], ["delivered traces with virtual time stamps"])

p("C23", "Every span passes the converter once and reaches all destinations",
  "Each span of every finished trace is given to the user's converter exactly once, and the converted span replaces it; spans for which the converter fails or returns a zero span or trace id are left out, and all others reach both the trace agent and the recent-spans buffer in unchanged order. No span of one trace influences another.",
  ["inputs", "histories", "schedules"],
  "all traces of up to 4 spans with every pattern of keep/modify/fail/zero-id results, sequences of up to 3 traces, under bounded interleavings of the forwarding stage with its consumers",
  "The forwarding stage has no test.",
  ["main.go"],
  [("in-place filtering", "main.go:forwardSpansToChannels")],
  [], ["converter calls", "agent payloads", "/spans admin endpoint"])

p("C24", "Spans are mapped faithfully to Datadog spans",
  "Each span sent to the agent carries the ids (as unsigned 64-bit), start time in nanoseconds, duration (at least one microsecond), service (also used as operation name), name as resource (a placeholder if empty) and tags of the delivered span. It is flagged as an error exactly when it has an 'error' tag other than 'false' or '0'.",
  ["inputs"],
  "all combinations of boundary ids, times, durations, empty and non-empty texts and error tag values",
  "The datadog package has no test.",
  ["datadog/converter.go", "proxy/id.go", "proxy/timestamp.go"],
  [("mapping", "datadog/converter.go:Sink")],
  [], ["SendTraces argument"])

p("C25", "Agent batches contain every span once, grouped by trace, in time",
  "As long as the agent keeps up, every span delivered to the agent stage is part of exactly one payload, in which spans are grouped by trace id in their order. A payload is sent as soon as at least 1000 spans are waiting and otherwise at most 4 seconds after a span arrived, and a payload once handed over is never modified.",
  ["histories", "schedules"],
  "all event sequences (traces of several sizes and ids, waits around the flush interval) up to a bounded depth under virtual time, and bounded interleavings of collecting and submitting",
  "The datadog package has no test.",
  ["datadog/converter.go"],
  [("batching loop", "datadog/converter.go:Sink"), ("submitter", "datadog/converter.go:submitTraces")],
  [("byTrace / spanCount / lastFlushTime", "current batch", "datadog/converter.go:Sink")],
  ["SendTraces calls with virtual time stamps"])

p("C26", "A slow, hanging or failing agent never blocks the proxy",
  "Whatever the trace agent does (slow, hanging, answering errors), spans keep being accepted and processed, and once it responds again later spans are delivered. A batch is either sent as a whole or discarded as a whole, at most once, and nothing is discarded while fewer than 8 batches are waiting; a failed transmission only loses that batch. While the agent hangs only a bounded number of batches is kept for it.",
  ["fault_sequences", "histories"],
  "all sequences of agent behaviours (ok, error, slow, hang then recover) over a bounded number of batches under virtual time",
  "The datadog package has no test; a misbehaving agent is never simulated.",
  ["datadog/converter.go", "main.go"],
  [("non-blocking hand-over", "datadog/converter.go:Sink"), ("bounded queue", "datadog/converter.go:groupedSpans")],
  [], ["SendTraces calls", "acceptance of further traces"])

p("C27", "The recent-spans view shows the latest spans in order",
  "The recent-spans buffer of capacity N always returns the last N spans (fewer if fewer were delivered) of the traces delivered so far, in the order they were received. A reader sees every trace either completely recorded or not at all, and reading never disturbs recording.",
  ["histories", "schedules"],
  "all sequences of traces of sizes 0..N+1 for capacities 1..4 with a read after every step, and all interleavings of one writer with concurrent readers",
  "The buffer has no test.",
  ["buffer.go"],
  [("ring buffer", "buffer.go:ReadFrom"), ("lock", "buffer.go:SpansBuffer.lock")],
  [("spans/position", "ring contents and write index", "buffer.go:SpansBuffer")],
  ["ToSlice / /spans admin endpoint"])

p("C28", "Ids and times survive their textual form",
  "Every 64-bit id is written as 16 lower-case hex digits and reading that text, in any letter case and with leading zeros dropped, gives back the same id; text with other characters or more than 16 digits is rejected, and so is text that is no time where a time is expected. A span written as JSON and read back is equal, including times of any nanosecond value.",
  ["inputs"],
  "all ids of a boundary set covering every digit value at every position, all texts up to a bounded length over a digit/junk alphabet, spans over boundary times",
  "The proxy package has no test.",
  ["proxy/id.go", "proxy/timestamp.go", "proxy/span.go"],
  [("formatting and parsing", "proxy/id.go:String,MarshalJSON,ParseId"), ("time formatting", "proxy/timestamp.go")],
  [], ["String/ParseId/JSON"])

p("C29", "A span accepted over HTTP reaches the agent once, in either mode",
  "With the process running as a whole, every well-formed trace whose spans were accepted over HTTP, in any of the formats, any distribution over requests and any order, arrives at the trace agent exactly once, complete and with correct values, and shows up in the recent-spans view. This holds both without Kafka and with Kafka load balancing, where all spans of a trace are correlated even when they are posted in different requests, to different instances sharing the topic, and other traffic is on the topic (spans of up to 600 kB; larger ones exceed the limit for Kafka messages).",
  ["histories", "schedules", "configurations"],
  "all distributions of the spans of up to two traces over up to three requests, formats and orders, in both modes, under virtual time with bounded interleavings",
  "No test covers main.go or the wiring of the stages.",
  ["main.go", "handlers.go", "correct.go", "datadog/converter.go", "balance/sender.go", "balance/receiver.go"],
  [("wiring of the stages", "main.go:MainWithRouting")],
  [], ["agent payloads", "/spans admin endpoint"])

p("C30", "No scheduling makes the stages race or deadlock",
  "Under every scheduling of request handlers, correlation, forwarding, recent-spans view, agent batching, Kafka sending and consuming, no two threads access the same memory unsynchronised, and no thread waits forever while there is work to do.",
  ["schedules"],
  "all schedules with a bounded number of deviations of small multi-threaded harnesses over every pair of concurrently running stages; the same bodies under the race detector",
  "Tests are single-threaded and run without the race detector.",
  ["main.go", "buffer.go", "correct.go", "datadog/converter.go", "cache/cache.go", "balance/encoder.go", "balance/receiver.go", "codec/json-v1.go"],
  [("channels between stages", "main.go"), ("locks and atomics", "cache/cache.go, buffer.go, balance/encoder.go"), ("pools", "codec/json.go, codec/json-v1.go, balance/encoder.go")],
  [], ["race detector reports", "blocked threads at quiescence"])

p("C31", "The metrics count what happened and can be read at any time",
  "Reading all metrics of the process (as the admin page /admin/metrics and the reporters do) succeeds at any time - before the first span, while idle, in the middle of requests -, every value is a finite number and reading changes nothing about the spans. Once everything settled the metrics agree with what happened: spans.parsed[type:json] grew by the spans of the accepted requests and by nothing else; spans.receive[type:..] by the requests given to that decoder; spans.merged by the reports that were combined with an earlier report of the same span; traces.finished and traces.corrected by the traces handed on; traces.noroot, traces.toolarge and traces.tooold by the traces dropped for that reason; blacklist.span.received by the spans that arrived for a trace discarded before; traces.discarded and spans.discarded by the traces and spans removed under overload; traces.finishedsize has the number of spans of every ended trace; a tick after the last change traces.partial.count and traces.partial.span.count are the traces and spans in flight; binary.cache.count and .size describe the content of the cache and binary.cache.hit.rate is the share of lookups since its last read that found their content; kafka.span.size only has sizes of produced messages.",
  ["histories", "inputs", "schedules"],
  "all sequences of trace fates, of requests (valid, damaged, of other types), of interned contents and reads up to the stated lengths; overload mixes; readers next to requests under all schedules within the deviations",
  "No test reads a metric.",
  ["correct.go", "handlers.go", "cache/cache.go", "balance/encoder.go", "main.go"],
  [("metrics of the correlation", "correct.go"), ("gauges of the cache", "cache/cache.go RegisterCacheMetrics"), ("spans.parsed, spans.receive", "handlers.go"), ("kafka.span.size", "balance/encoder.go")],
  [], ["metrics.DefaultRegistry", "GET /admin/metrics"])

p("C32", "Options decide where spans go and own routes keep working",
  "For every combination of options: the proxy talks to exactly one agent, at --trace-host and --trace-port (default localhost and 8126); without --kafka-address it makes no Kafka client and processes the spans itself; with addresses it makes one client of exactly these addresses, makes sure that the topic --kafka-topic (default zipkin-spans) exists, produces to and consumes from that topic only, as a member of --kafka-consumer-group (default zipkin-proxy), and the spans still arrive. With MainWithRouting every route an application adds is served by its own handler with unchanged method, path and body (gzip bodies uncompressed) and its answer is not changed, a handler around the router sees every request, unknown routes are answered 404 or 405, and the span endpoints work as without own routes.",
  ["configurations", "histories"],
  "all combinations of the listed option values; all sequences of three requests to own routes, span endpoints and no route, plain and compressed",
  "Main never runs in a test.",
  ["main.go", "handlers.go", "datadog/converter.go", "balance/sender.go", "balance/receiver.go"],
  [("options and wiring", "main.go MainWithRouting"), ("gzip of every request", "handlers.go handleGzipRequestBody")],
  [], ["constructors of third-party clients", "answers of the HTTP handler", "agent payloads"])

p("C33", "The JSON pull parser yields exactly the values of a document",
  "For every well-formed JSON document, every buffer, every partition of the input into reads and every order of calls on the parser of package hyperjson that fits the document, NextType names the kind of the next token; ReadString, ReadNumber, ReadBoolean, ReadNull and ReadLiteral return the exact text of the next value; Skip passes over exactly one value; ReadArray and ReadObject call their consumer exactly once per element or member in order, with the key, and return its error at once; and after the last value the end of the input is reported. A call that does not fit the next token fails without consuming anything. If the input ends early or the reader fails, the reading fails with that error.",
  ["inputs", "histories"],
  "all documents up to the stated number of values, all ways of reading each value, all buffer and read sizes listed, all truncations and failure points",
  "The test parses one document in two spacings.",
  ["codec/hyperjson/parser.go", "codec/hyperjson/parser_skip.go", "codec/hyperjson/parser_array.go", "codec/hyperjson/parser_object.go", "codec/hyperjson/string.go"],
  [("pull parser", "codec/hyperjson/parser.go Parser"), ("refilling the buffer", "codec/hyperjson/parser.go bufferMore"), ("skipping", "codec/hyperjson/parser_skip.go")],
  [], ["results of the exported methods of hyperjson.Parser"])

p("C34", "Nothing of a finished trace is kept for ever",
  "After a trace was delivered, merged, repaired or dropped for whatever reason, its batch was transmitted, failed or was discarded, and further traffic passed (a later trace through the correlation, 12000 spans through the agent stage, the size of the recent-spans view, 300 Kafka messages), the process keeps no memory of its spans - tags, texts, encoded messages - and no more threads run than before the traffic, except for what is reused: repeating the same traffic does not make it grow. This holds whatever the agent, the converter, Kafka and the clients do: errors, hanging, sessions that end, damaged requests. What stays is bounded: ids of discarded traces, the string cache, the recent-spans view, batches waiting for the agent.",
  ["histories", "inputs"],
  "all pairs of fates of traces, agent behaviours x traffic patterns, view sizes, message sizes x delivery failures, modes x converters; every piece of memory of the earlier spans is watched by a weak pointer",
  "No test runs longer than a few spans.",
  ["correct.go", "datadog/converter.go", "buffer.go", "main.go", "balance/sender.go", "balance/encoder.go", "balance/receiver.go", "handlers.go"],
  [("traces in flight", "correct.go ErrorCorrectSpans, finishTraces"), ("batches", "datadog/converter.go Sink, submitTraces"), ("recent spans", "buffer.go"), ("messages", "balance/encoder.go")],
  [], ["weak pointers after a garbage collection", "number of live goroutines"])

p("C35", "The proxy ends when it is told to",
  "When the HTTP server has stopped after a termination signal, Main and MainWithRouting return within 30 seconds (plus the time an application's converter needs for the spans taken over), in every state: with or without Kafka, whatever the consumer group and the agent do (sessions that end, fail, hang in joining or claim nothing; an agent that fails or hangs), before, during or after requests. When they return, the requests in progress have been answered, consumption from Kafka has stopped, and no offset is marked that was not consumed. Every single stage (correlation, agent stage, recent view, Kafka sender) ends when its input is closed and leaves no thread behind.",
  ["schedules", "histories"],
  "all combinations of mode, group behaviour, agent behaviour, moment of the signal, clients, sizes and converter times; all orders of signal, session end, hand-over and answers within the deviation bound",
  "No test stops anything.",
  ["main.go", "balance/receiver.go", "balance/sender.go", "correct.go", "datadog/converter.go", "buffer.go"],
  [("closing the consumer", "balance/receiver.go Consume"), ("deferred close", "main.go MainWithRouting"), ("closed inputs", "correct.go ErrorCorrectSpans; datadog/converter.go Sink")],
  [], ["return of Main", "sessions and claims of the consumer group", "live goroutines"])

p("C36", "JSON is decoded into a declared type exactly, or not at all",
  "For every type put together from the decoders of package hyperjson (Uint64ValueDecoder, StringValueDecoder, MakeStructDecoder, MakeSliceDecoder, MakeArrayDecoder, MakeMapDecoder) and every JSON document, from bytes or from a reader with any buffer and any partition into reads: if the document fits the type, decoding yields exactly the value encoding/json yields - members in any order, absent members and everything beside the declared members untouched, unknown members of any kind and surplus array elements skipped - and consumes exactly this value. If the document does not fit (another kind of value, a number that is no unsigned 64 bit integer), ends early, or the reader fails, decoding fails with an error.",
  ["inputs", "histories"],
  "all types up to the stated nesting, documents with all subsets and orders of members and all kinds of unknown ones, list lengths around the declared ones, all truncations, listed reader and buffer sizes",
  "The tests decode three span documents from complete byte slices.",
  ["codec/hyperjson/bind.go", "codec/hyperjson/parser.go", "codec/hyperjson/parser_skip.go", "codec/hyperjson/string.go"],
  [("declared decoders", "codec/hyperjson/bind.go MakeStructDecoder, MakeSliceDecoder, MakeArrayDecoder, MakeMapDecoder"), ("numbers", "codec/hyperjson/bind.go Uint64ValueDecoder")],
  [], ["decoded values compared with encoding/json"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
        assert len(x["title"]) <= 80, x["id"]
print(len(P), "properties")
