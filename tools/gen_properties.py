#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
        "mechanism": [dict(name=n, where=w) for n, w in mech],
        "observe_at": observe, "hook_needed": None}})

prop("C01", "A trace faithfully records its events",
 "For any sequence of event calls on an unfinished trace, reading its events returns exactly those calls, oldest first, each with the text its format and arguments produce, its error flag, and a timestamp that is neither before the trace's start nor before the previous event's. Immediate variants render their arguments at the call; lazy variants render them at the first read, after which the text never changes. The trace reports errored exactly when at least one error event was recorded, and it keeps the source, category, start time and unique ID it was created with.",
 ["inputs","histories"], "every sequence of Tracef/LazyTracef/Errorf/LazyErrorf calls, argument mutations, clock steps and reads (interleaved at any position) on a core or collector-created trace",
 "TestCoreTrace samples a few fixed sequences, reads only at the end, and never re-reads a lazy event after its arguments changed.",
 ["trace_core.go","trace.go","decorators.go"],
 [("event append under the trace lock","trace_core.go Tracef/LazyTracef/Errorf/LazyErrorf"),("memoized stringer","trace_core.go stringer.String")],
 ["Trace.Events","Trace.Errored","Trace.ID","Trace.Started"], [("events","recorded events, oldest first","coreTrace.events"),("errored","an error event was recorded","coreTrace.errored")])

prop("C02", "Event storage per trace is bounded, with exact truncation accounting",
 "A trace stores at most the maximum number of events in force for it; when more event calls than that are made, reading its events returns exactly maximum entries, the last of which states exactly how many calls were not stored, preceded by the newest stored events in order, and an error call that was not stored still marks the trace errored. The maximum defaults to 1000 and is clamped to 10..10000 whether set globally or per trace. Changing a global setting (maximum events, stacks on/off) affects only traces created afterwards, and changing one trace's maximum affects no other trace, including later traces that reuse its storage.",
 ["inputs","histories"], "every maximum in and around the clamp range, every number and kind of event calls around the maximum, every order of setting changes and trace creations",
 "One test sets one maximum and accepts two different lengths; no test reads the truncation count, the global settings, or an errored flag set past the limit.",
 ["trace_core.go","helpers.go"],
 [("length check before append, truncated counter","trace_core.go"),("clamping","SetTraceMaxEvents, coreTrace.SetMaxEvents"),("reset at construction","newCoreTrace")],
 ["Trace.Events","Trace.Errored","SetMaxEvents","SetTraceMaxEvents","SetTraceStacks"], [("truncated","calls not stored","coreTrace.truncated")])

prop("C03", "Finishing a trace freezes it",
 "Once Finish has returned, nothing any caller does through the trace or any wrapper or context that carries it (event calls of every kind, further Finish calls) changes its events, error state, finished state or duration, and no such call is delivered to stream subscribers. Finished is false before the first Finish and true ever after. The duration of a finished trace is the time from its start to its first Finish; the duration of an active trace is the time since its start.",
 ["histories"], "every sequence of event calls, clock steps, Finish calls, reads and context/decorator hops, with the trace created directly or by a collector",
 "One fixed sequence is tested on an undecorated trace, with a single Finish and no control over the clock.",
 ["trace_core.go","decorators.go","helpers.go"],
 [("finished check in every mutator","trace_core.go"),("first Finish wins","coreTrace.Finish")],
 ["Trace.Events","Trace.Duration","Trace.Finished","Trace.Errored","Broker.Stream"], [("finished","frozen flag","coreTrace.finished"),("duration","fixed at first Finish","coreTrace.duration")])

prop("C04", "A trace is safe for concurrent use",
 "When several goroutines add events to, finish, and read one trace at the same time, every read observes a state that some sequential order of the calls, consistent with their real-time order, would produce: no event is lost, duplicated, torn or reordered, and nothing is recorded after a Finish that has returned. No such use causes a data race, a deadlock or a panic, also when the trace is reached through prefixes, regions, decorators or a collector with subscribers.",
 ["schedules"], "all interleavings (at synchronisation operations, within a preemption bound) of 2-3 goroutines making 1-3 calls each on one trace, with happens-before race detection on every one",
 "The concurrency test lets the Go scheduler pick a handful of interleavings, starts all goroutines at once, and only counts events at the end.",
 ["trace_core.go","decorators.go","helpers.go"],
 [("one mutex per trace","coreTrace.mtx"),("atomic memoization","stringer.str")],
 ["Trace.*"])

prop("C05", "A collector retains exactly the most recent traces of each category",
 "At any time a collector holds, for each category, exactly the most recently created traces of that category, up to the configured category size (default 1000), and dropping a trace always drops the oldest of its category, never one of another category. Changing the size keeps the newest traces and takes effect for existing and future categories alike; a non-positive size changes nothing. Creating a trace in a context that already carries one creates nothing: the existing trace gains one event naming the category and is returned, and a dropped trace that is still active keeps working for its holder.",
 ["histories"], "every sequence of trace creations over several categories, finishes, resizes (growing, shrinking, invalid) and searches up to a depth that wraps the buffers several times",
 "One shrink of one full, never wrapped buffer is tested through the collector; ring buffer tests sample a few sizes; sequences of resizes after wraparound over several categories are not reached.",
 ["collector.go","internal/trcringbuf/ringbuffer.go"],
 [("ring buffer per category","trcringbuf.RingBuffer"),("resize copies newest first","RingBuffer.Resize")],
 ["Collector.Search","Collector.NewTrace","Collector.SetCategorySize"], [("buf/cur/len","ring contents","trcringbuf.RingBuffer"),("cap","size of future categories","trcringbuf.RingBuffers")])

prop("C06", "Concurrent collector operations never lose, duplicate or misplace a trace",
 "When traces are created, finished, searched and resized concurrently, the outcome is that of some sequential order: each created trace is held exactly once under its own category until it is dropped, no category ever shows more traces than its size, the traces dropped are the oldest in that order, and every search sees, per category, a gap-free run of the most recent traces. Every operation completes, without data races, panics or deadlocks.",
 ["schedules"], "all interleavings within a preemption bound of 2-3 goroutines doing creation, search and resize over colliding categories at capacity",
 "No test runs collector operations concurrently.",
 ["collector.go","internal/trcringbuf/ringbuffer.go"],
 [("locks on the category map and on each ring buffer","trcringbuf")],
 ["Collector.NewTrace","Collector.Search","Collector.SetCategorySize"])

prop("C07", "Recycled storage never leaks between traces or into earlier results",
 "Dropping a trace and reusing its storage never changes any other trace, nor any search result, streamed copy or event list (including call stacks) obtained earlier. A reference kept to a finished trace stays inert after the trace is dropped: calling any method on it leaves all other traces untouched, and it keeps its own ID, source, category, start, duration, error and finished state. A new trace always starts clean: no events, not errored, not finished, nothing truncated.",
 ["histories","schedules"], "every sequence of create, event, finish, read, stale-handle call and drop up to a bound, with storage reuse forced at the first opportunity, and interleavings of recycling with publishing and reading",
 "Tests never overflow a category while keeping results or handles, and the runtime's pools make reuse unpredictable.",
 ["trace_core.go","collector.go","decorators.go","trace_static.go"],
 [("pools of traces, events and strings","trace_core.go"),("only finished traces are recycled","coreTrace.Free"),("drop hook","collector.go maybeFree")],
 ["SearchResponse.Traces","Trace.Events","streamed traces"], [("pools","recycled objects","coreTracePool, coreEventPool, stringerPool")])

prop("C08", "A filter admits exactly the traces that satisfy all its conditions",
 "A filter admits a trace if and only if every condition it currently states holds: source and ID in the given lists, equal category, active, finished, finished with at least the minimum duration, not errored, errored, and a query regexp that matches some event's text or some stack frame's function or compact file:line. An invalid query is reported when the filter is normalized and from then on ignored, and changing the filter's fields changes its decisions accordingly. Its text form names every condition it states, with its value.",
 ["inputs"], "every combination of filter conditions with boundary values against every kind of trace (source, ID, category, state, duration at, below and above the minimum, events, stacks), and every change of the fields between uses",
 "Tests use six filters with a single condition each; combinations, boundaries, stacks, source/ID lists and reuse of a filter are never tried.",
 ["filter.go","trace.go"],
 [("conjunction of early rejections","Filter.Allow"),("cached regexp","Filter.initializeQueryRegexp")],
 ["Filter.Allow","Filter.Normalize","Filter.String"])

prop("C09", "Search returns the newest matching traces, limited and counted correctly",
 "A search returns, newest first (ties broken by descending ID), exactly the min(limit, matches) most recently started retained traces the filter admits, each a complete copy carrying the trace's identity, state, duration and events, with stacks cut to the requested depth (0 keeps them, negative removes them). The limit defaults to 10 and is clamped to 1..250; the total counts every retained trace, and the match count counts admitted traces, up to the limit per category. Problems with the request are reported in the response, which echoes the request as normalized (buckets sorted, starting at zero, never negative), and a search changes nothing it searches.",
 ["inputs","histories"], "every population of up to 5 traces over categories, states, equal and distinct start times, and every limit, filter, stack depth and bucketing in a boundary set",
 "Tests search three traces with distinct times and one filter at a time, and never combine a limit with several categories, equal timestamps or stack depths.",
 ["collector.go","search_types.go","trace_static.go"],
 [("per category pre-limit, global sort, global limit","Collector.Search"),("Normalize","SearchRequest.Normalize"),("staticTracesNewestFirst","trace_static.go"),("TrimStacks","trace_static.go")],
 ["Collector.Search"])

prop("C10", "Search results are consistent snapshots under concurrent updates",
 "Every trace a search returns is a snapshot that could have been observed at one instant during the search: if it is reported finished, then its duration, error state and events are the final ones; its events are a gap-free prefix of the trace's event history; an error event in it implies it is reported errored. Every returned trace satisfies the search's filter as reported in the snapshot itself, whatever other goroutines do to the trace meanwhile.",
 ["schedules"], "all interleavings within a preemption bound of a search (each filter kind) with goroutines adding events to, failing and finishing the traces searched",
 "No test searches while traces change.",
 ["collector.go","trace_static.go","filter.go"],
 [("order of reads when copying a live trace","NewSearchTrace"),("filter applied to what is returned","Collector.Search")],
 ["SearchResponse.Traces"])

prop("C11", "Search statistics count every retained trace exactly once",
 "The statistics of a search cover all retained traces regardless of filter and limit: each is counted under its own category exactly once, as active, as errored (if finished with an error), or otherwise in every duration bucket whose bound is at most its duration, so that each category's total equals the number of its traces and the bucket counts never increase from one bucket to the next. Event counts, oldest and newest start times are those of the traces counted. The overall row is the exact sum (for times, the extremes) of all categories, including events. A category's rates are its traces and events per second since its oldest trace started, and the overall rates are the sums of the categories'.",
 ["inputs","histories"], "every population of up to 4 traces over categories, states and durations at, just below and just above every bucket bound, with every bucketing from a set including empty, unsorted, duplicate, negative and not starting at zero",
 "One test sums one kind of trace over random data; durations are whatever the clock gave, so no bucket boundary is ever tested, and event counts never.",
 ["search_stats.go","search_types.go","collector.go"],
 [("Observe","SearchStats.Observe"),("Overall/Merge","search_stats.go")],
 ["SearchResponse.Stats"])

prop("C12", "Searching several sources gives the same answer as searching their union",
 "A search over several searchers returns the newest matching traces of all of them up to the limit, total and match counts and statistics (per category and bucket, events, rates, oldest, newest) that are the sums and extremes of the individual ones, and the sorted set of their sources, whatever order their answers arrive in. A searcher that fails or returns nothing adds a problem and takes nothing away from the others' results; problems reported by any searcher, and problems of the request, are all reported. Merging responses or statistics never changes the responses or statistics merged from.",
 ["configurations","schedules","fault_sequences"], "every combination of up to 3 searchers (collectors with overlapping categories and times, failing, empty, both result and error), every arrival order and interleaving",
 "The merge test uses one arrangement of healthy collectors and checks a grand total only; no failing searcher and no arrival order is ever tested.",
 ["search_types.go","search_stats.go"],
 [("scatter/gather","MultiSearcher.Search"),("Merge","SearchStats.Merge, CategoryStats.Merge")],
 ["MultiSearcher.Search","SearchStats.Merge"])

prop("C13", "Streaming delivers each matching update once, with exact accounting",
 "A subscriber of a collector or broker is offered, in order and exactly once, one copy for each trace creation, each recorded event and each first Finish that happens while it is subscribed and that its own filter admits: for an active trace a copy with at most its latest event, for a finished one a copy with all its events, never with stacks. If its channel has no room the copy is dropped; sends, drops and skips (not admitted) in its statistics count these outcomes exactly and add up to the number of updates. Subscribers never affect one another, nor the traces, whatever trace implementation is used.",
 ["histories","inputs"], "every sequence of subscribe (with filters), unsubscribe, create, event, finish, receive over two traces, two subscribers, small channel capacities, and traces with or without optional methods",
 "Streaming has no test at all: only a benchmark publishes.",
 ["broker.go","decorators.go","trace_static.go"],
 [("publish on create/event/finish","decorators.go publishTrace"),("non-blocking send with accounting","Broker.Publish"),("NewStreamTrace","trace_static.go")],
 ["Broker.Stream","Broker.StreamStats","Collector.Stream"])

prop("C14", "Concurrent publishing and subscribing is atomic and never blocks publishers",
 "However publishers and subscribers interleave, every event recorded on a trace by any goroutine while a subscription with sufficient room is active is delivered as its own update exactly once, the finished copy comes last and is complete, and copies are never torn between states or between traces. A slow or absent reader never blocks a publisher; after Stream returns nothing more is sent on its channel and the statistics it returns are final; subscribing a channel that is already subscribed fails without disturbing the existing subscription. Nothing deadlocks, panics or races.",
 ["schedules"], "all interleavings within a preemption bound of 2-3 goroutines out of: adding events, finishing, creating traces at capacity (recycling), subscribing, cancelling, reading statistics",
 "Streaming under concurrency has no test.",
 ["broker.go","decorators.go","trace_core.go","trace_static.go"],
 [("broker lock around fan-out and (un)subscribe","broker.go"),("update and publish as one step","decorators.go publishTrace")],
 ["Broker.Stream","Broker.StreamStats","subscriber channel"])

prop("C15", "Searching over HTTP gives the same answer as searching in process",
 "For every search request, the HTTP client and trace server together return the same traces, counts, statistics, sources and problems as searching the server's searcher directly, whether the request travels as JSON or as URL parameters. Requests that cannot be decoded get a client error and no search; out-of-range parameters are clamped or defaulted; a searcher's failure is reported as a problem in the response rather than crashing the server; a client turns every transport failure, non-OK status or malformed body into an error, recorded in the caller's trace. The representation is HTML exactly when HTML is accepted and JSON is not asked for, a stream when an event stream is accepted, JSON otherwise.",
 ["inputs","fault_sequences"], "every combination of request fields from boundary sets over a fixed population, both encodings, every Accept/content type combination, every failure of searcher, transport, status and body",
 "TestE2E compares seven valid JSON requests; URL parameters, invalid requests, failures and content negotiation are untested.",
 ["trcweb/trace_server.go","trcweb/util.go","trcweb/render.go","trace_static.go","search_types.go"],
 [("JSON round trip","SearchClient.Search, TraceServer.handleSearch"),("URL parsing","trcweb/util.go parseFilter, parseRange, parseBucketing")],
 ["SearchClient.Search","TraceServer.ServeHTTP"])

prop("C16", "HTTP streaming relays a subscription faithfully and always ends cleanly",
 "A streaming request subscribes with exactly the filter the client encoded (URL parameters or JSON body), sends an init message and every trace the subscription delivers, in order and unaltered, except those of its own request's trace, interleaved with periodic statistics, and the stream client passes on every trace it receives, in order, until it is canceled. A filter with an invalid query is refused with a client error, and any buffer size or statistics interval requested is served within its limits, never with a crash. When the client goes away the request ends, its subscription is removed, and nothing is left running or blocked; a stream client that returns has closed its connection.",
 ["inputs","schedules","histories"], "every filter from a boundary set through the URL round trip, every sendbuf/stats value from a boundary set, every interleaving within a bound of deliveries, ticks and disconnect",
 "HTTP streaming has no test.",
 ["trcweb/trace_server.go","trcweb/util.go"],
 [("handleStream select loop","trcweb/trace_server.go"),("encodeFilter/parseFilter","trcweb/util.go")],
 ["TraceServer.ServeHTTP","StreamClient.Stream"])

prop("C17", "HTTP middleware records each request in one finished trace",
 "For each request the middleware creates exactly one trace, in the category computed from that request, makes it available to the handler through the request context, and finishes it when the handler returns or panics; the panic propagates. The trace records method, URL and remote address, the User-Agent, Accept and Content-Type headers that are present, and last the status code and byte count that the client actually received, for any sequence of header, write and flush calls. The handler's response reaches the client unaltered, and flushing keeps working.",
 ["histories","inputs"], "every sequence of up to 4 WriteHeader (informational, success, error), Write, Flush and panic steps of a handler, with and without flush support, and every subset of headers",
 "The middleware has no test.",
 ["trcweb/middleware.go"],
 [("interceptor","trcweb/middleware.go"),("deferred finish","Middleware")],
 ["recorded trace","client response"])

prop("C18", "Contexts, prefixes and regions annotate the right trace in the right form",
 "The trace obtained from a context is the one most recently put into it or its nearest ancestor, siblings never affect one another, and without one a fresh detached trace is returned and the context stays empty. Events made through prefixed traces are recorded on the original trace with all prefixes, outermost first, and all arguments in order, for any nesting, any use of one prefixed trace from several places, and any capacity of the argument list. A region named by any string adds one entry event and, per call of its finish function, one exit event with the name unaltered and the elapsed time, with the region's own events indented in between; the easy API is equivalent to the underlying one.",
 ["histories","inputs"], "every tree of contexts built by put, new, prefix and region up to a depth, with events at any node, names and prefixes containing format verbs, lazy and immediate events, and reuse of argument slices",
 "TestPrefix and TestRegion check that one-level results contain a substring; nesting, arguments, percent signs and the easy API variants are untested.",
 ["helpers.go","eztrc/easy.go","trace_core.go"],
 [("prefixTrace","helpers.go"),("Region","helpers.go"),("Put/Get/MaybeGet","helpers.go")],
 ["Trace.Events","Get","MaybeGet"])

prop("C19", "Decorators are transparent, and the log decorator mirrors the trace",
 "A trace seen through any stack of decorators supplied to its constructor or collector has the same identity, events, error state and lifecycle as the undecorated trace, and decorators are applied to every trace created, in the given order. The log decorator writes one line for the creation (source and category), one per event in order (errors marked as such) and one for the finish (with outcome and duration), each starting with the trace ID and containing the same text the event has. Decorating does not prevent storage from being recycled or traces from being streamed.",
 ["histories","configurations"], "every stack of up to 3 decorators at either place, times every sequence of event calls and finish",
 "Decorators have no test.",
 ["decorators.go","trace_core.go","collector.go"],
 [("logTrace","decorators.go"),("decorator loops","New, Collector.NewTrace")],
 ["log output","Trace.*"])

prop("C20", "Event call stacks start at the caller's own code",
 "Unless stacks are disabled when the trace is created, every event that a user's call makes carries a non-empty call stack whose first frame is the function and line of the user's call that made the event, followed by its callers, whichever way the call was made: directly, through a prefix, a region, a decorator, a collector's trace or the easy API, as an immediate, lazy, normal or error event. Internal frames of the tracing library never appear above it. With stacks disabled events carry none, and the stacks of streamed copies are always removed without affecting the original.",
 ["configurations","inputs"], "every combination of up to 4 wrappers, entry point (method or easy API), event kind and stack setting",
 "TestEventStacks covers the undecorated trace and two easy API calls only.",
 ["trace_core.go","trace_static.go","decorators.go","eztrc/easy.go"],
 [("runtime.Callers skip and frame filter","newCoreEvent, ignoreStackFrameFunction")],
 ["Event.Stack"])

prop("C21", "The web page shows any data safely, with links that select what they name",
 "The HTML page renders successfully for every search outcome, including none, failing and erroneous ones, and shows every returned trace and event. Text from traces, requests and problems (event text, category, source, query) never becomes markup, neither in the page nor by its scripts. Every link in the summary table and trace list leads to a search with exactly the category, source, query, limit, bucketing and state its label names, whatever characters these contain, and the search form carries over the current query, limit, category, state, minimum duration and source.",
 ["inputs"], "every assignment of strings from an alphabet of URL, HTML and format metacharacters to category, source, event text and query, and every kind of population and filter",
 "No test renders HTML.",
 ["trcweb/render.go","trcweb/assets/traces.html","trcweb/trace_server.go"],
 [("html/template escaping and explicit overrides","trcweb/render.go templateFuncs, traces.html")],
 ["TraceServer.ServeHTTP with Accept: text/html"])

prop("C22", "The command line tool asks for exactly what its flags say and prints the answer",
 "The search command sends every given server the filter, limit and stack depth expressed by its flags, or by TRC_ environment variables of the same names (minimum duration only if given, no stacks unless a depth is given) and prints one JSON document with the merged response, with request and statistics only if asked for; an unreachable server is a reported problem, not a failure. The stream command subscribes on every server with the flags' filter, restricted to finished traces unless individual events are requested, and prints each trace received, unaltered, as one JSON document; when a connection fails it connects again, and when interrupted it ends successfully. Invalid usage exits non-zero and sends nothing.",
 ["inputs","configurations"], "every subset of the filter flags with every output option, one or two servers, reachable or not",
 "The command has no test.",
 ["cmd/trc/main.go","cmd/trc/search.go","cmd/trc/stream.go","cmd/trc/trc.go"],
 [("flag to filter mapping","cmd/trc/main.go"),("request construction","cmd/trc/search.go, cmd/trc/stream.go")],
 ["requests received by the servers","stdout","exit status"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
