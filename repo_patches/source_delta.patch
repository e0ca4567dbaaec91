From e4a271ba3b95e6543d3f26fb8ad94ce5307334d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:30 +0000
Subject: [PATCH 01/24] fix: don't return recycled stack slices from a core
 trace

snapshotEvents returned the stack slice owned by the pooled core event, so the
stacks in search results and event lists changed when the trace was dropped
from its collector and the event was reused by another trace.
---
 trace_core.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trace_core.go b/trace_core.go
index 5bb8d3e..c490af4 100644
--- a/trace_core.go
+++ b/trace_core.go
@@ -412,6 +412,7 @@ func snapshotEvents(cevs []*coreEvent, stacks bool) []Event {
 		var stack []Frame
 		if stacks {
 			stack = cev.getStack()
+			stack = append([]Frame(nil), stack...) // the event's own slice is recycled
 		}
 		res[i] = Event{
 			When:    cev.when,
-- 
2.43.0


From c3dc92d17854797b27f1265ac7f3693099870482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:30 +0000
Subject: [PATCH 02/24] fix: don't recycle core traces which may still be
 referenced

A finished trace which was dropped from its collector was put in the pool as is,
and so calls made via a reference to that trace would read from, write to, and
finish the next trace using the same storage.
---
 trace_core.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trace_core.go b/trace_core.go
index c490af4..648f4a2 100644
--- a/trace_core.go
+++ b/trace_core.go
@@ -313,8 +313,13 @@ func (tr *coreTrace) Free() {
 	}
 	tr.events = tr.events[:0]
 
+	// The trace itself may still be referenced by e.g. the caller that finished
+	// it, so only recycle the storage.
+	recycled := &coreTrace{events: tr.events}
+	tr.events = nil
+
 	trcdebug.CoreTraceFreeCount.Add(1)
-	coreTracePool.Put(tr)
+	coreTracePool.Put(recycled)
 }
 
 //
-- 
2.43.0


From ca9766d8e63a7a8adfbcb733b0c2fc2ed1d51e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:32 +0000
Subject: [PATCH 03/24] fix: publish each update of a trace exactly once

Updating the trace and publishing it were separate steps, so that concurrent
updates could be published twice or not at all, and a trace could be recycled
before its finished form was published. Also, updates to a finished trace, which
have no effect, were published again.
---
 decorators.go | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/decorators.go b/decorators.go
index bf6fefa..e74d97f 100644
--- a/decorators.go
+++ b/decorators.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"log"
 	"strings"
+	"sync"
 
 	"github.com/peterbourgon/trc/internal/trcutil"
 )
@@ -122,37 +123,76 @@ type publisher interface {
 
 type publishTrace struct {
 	Trace
-	p publisher
+	p   publisher
+	mtx sync.Mutex // makes each update and its publish a single step
 }
 
 var _ interface{ Free() } = (*publishTrace)(nil)
 
 func (ptr *publishTrace) Tracef(format string, args ...any) {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
+	if ptr.Trace.Finished() {
+		return // no update, nothing to publish
+	}
+
 	ptr.Trace.Tracef(format, args...)
 	ptr.p.Publish(context.Background(), ptr.Trace)
 }
 
 func (ptr *publishTrace) LazyTracef(format string, args ...any) {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
+	if ptr.Trace.Finished() {
+		return // no update, nothing to publish
+	}
+
 	ptr.Trace.LazyTracef(format, args...)
 	ptr.p.Publish(context.Background(), ptr.Trace)
 }
 
 func (ptr *publishTrace) Errorf(format string, args ...any) {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
+	if ptr.Trace.Finished() {
+		return // no update, nothing to publish
+	}
+
 	ptr.Trace.Errorf(format, args...)
 	ptr.p.Publish(context.Background(), ptr.Trace)
 }
 
 func (ptr *publishTrace) LazyErrorf(format string, args ...any) {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
+	if ptr.Trace.Finished() {
+		return // no update, nothing to publish
+	}
+
 	ptr.Trace.LazyErrorf(format, args...)
 	ptr.p.Publish(context.Background(), ptr.Trace)
 }
 
 func (ptr *publishTrace) Finish() {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
+	if ptr.Trace.Finished() {
+		return // no update, nothing to publish
+	}
+
 	ptr.Trace.Finish()
 	ptr.p.Publish(context.Background(), ptr.Trace)
 }
 
 func (ptr *publishTrace) Free() {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
 	if f, ok := ptr.Trace.(interface{ Free() }); ok {
 		f.Free()
 	}
-- 
2.43.0


From 9e40b65db85a67a02c41b5a7cb0f53b7f21fa021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:11 +0000
Subject: [PATCH 04/24] fix: make NewStreamTrace work for any trace
 implementation

Traces which don't implement EventsDetail caused a panic if they were active and
had no events yet, and had the stacks of their own events removed if the slice
they returned wasn't a copy. Also, a trace that was finished meanwhile was
marked as finished, but with only its latest event.
---
 trace_static.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/trace_static.go b/trace_static.go
index 4d69aa6..1c7a699 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -49,13 +49,15 @@ func NewStreamTrace(tr Trace) *StaticTrace {
 	case canDetail && !isActive:
 		events = detail.EventsDetail(-1, false)
 	case !canDetail && isActive:
-		events = tr.Events()
-		events = events[len(events)-1:]
+		events = append(events, tr.Events()...) // don't modify the trace's own events
+		if len(events) > 1 {
+			events = events[len(events)-1:]
+		}
 		for i := range events {
 			events[i].Stack = events[i].Stack[:0]
 		}
 	case !canDetail && !isActive:
-		events = tr.Events()
+		events = append(events, tr.Events()...) // don't modify the trace's own events
 		for i := range events {
 			events[i].Stack = events[i].Stack[:0]
 		}
@@ -70,7 +72,7 @@ func NewStreamTrace(tr Trace) *StaticTrace {
 		TraceDuration:    duration,
 		TraceDurationStr: duration.String(),
 		TraceDurationSec: duration.Seconds(),
-		TraceFinished:    tr.Finished(),
+		TraceFinished:    !isActive,
 		TraceErrored:     tr.Errored(),
 		TraceEvents:      events,
 	}
-- 
2.43.0


From e5c78ba229cb225b9db96877bdc970d8ce2f148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:11 +0000
Subject: [PATCH 05/24] fix: return consistent copies of traces from a search

The fields of the static copy were read one after the other, so that a trace
which was modified meanwhile could be returned as e.g. finished, but without its
final duration and events, or in a state which the filter doesn't allow.
---
 collector.go    |  9 ++++++++-
 trace_static.go | 14 +++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/collector.go b/collector.go
index 3ab1faa..7e46917 100644
--- a/collector.go
+++ b/collector.go
@@ -164,8 +164,15 @@ func (c *Collector) Search(ctx context.Context, req *SearchRequest) (*SearchResp
 				return nil
 			}
 
+			// The trace may have been modified since, so make sure that the
+			// filter also allows the copy that will be returned.
+			static := NewSearchTrace(candidate)
+			if !req.Filter.Allow(static) {
+				return nil
+			}
+
 			// Otherwise, collect a static copy of the trace.
-			categoryTraces = append(categoryTraces, NewSearchTrace(candidate).TrimStacks(req.StackDepth))
+			categoryTraces = append(categoryTraces, static.TrimStacks(req.StackDepth))
 			matchCount++
 			return nil
 		})
diff --git a/trace_static.go b/trace_static.go
index 1c7a699..b2ebd7c 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -22,15 +22,23 @@ var _ Trace = (*StaticTrace)(nil) // needs to be passed to Filter.Allow
 
 // NewSearchTrace produces a static trace intended for a search response.
 func NewSearchTrace(tr Trace) *StaticTrace {
+	// The trace may be modified concurrently. Finished and errored only ever go
+	// from false to true, so if they're the same before and after getting the
+	// events, they describe the trace at that point in time.
+	finished, errored, events := tr.Finished(), tr.Errored(), tr.Events()
+	for finished != tr.Finished() || errored != tr.Errored() {
+		finished, errored, events = tr.Finished(), tr.Errored(), tr.Events()
+	}
+
 	return &StaticTrace{
 		TraceSource:   tr.Source(),
 		TraceID:       tr.ID(),
 		TraceCategory: tr.Category(),
 		TraceStarted:  tr.Started(),
 		TraceDuration: tr.Duration(),
-		TraceFinished: tr.Finished(),
-		TraceErrored:  tr.Errored(),
-		TraceEvents:   tr.Events(),
+		TraceFinished: finished,
+		TraceErrored:  errored,
+		TraceEvents:   events,
 	}
 }
 
-- 
2.43.0


From 51ae26c6e3157fc82907528959e50605f1f56b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:12 +0000
Subject: [PATCH 06/24] fix: merge event counts, and don't modify the stats
 merged from

Merging category stats didn't add the event counts, and stats which were copied
shared their bucket counts with the original, which would then be modified by
subsequent merges.
---
 search_stats.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/search_stats.go b/search_stats.go
index f8e1664..c608a41 100644
--- a/search_stats.go
+++ b/search_stats.go
@@ -83,6 +83,12 @@ func (ss *SearchStats) Merge(other *SearchStats) {
 
 	if ss.IsZero() {
 		*ss = *other
+		ss.Categories = make(map[string]*CategoryStats, len(other.Categories))
+		for category, theirs := range other.Categories {
+			cp := *theirs
+			cp.BucketCounts = append([]int(nil), theirs.BucketCounts...)
+			ss.Categories[category] = &cp
+		}
 		return
 	}
 
@@ -94,6 +100,7 @@ func (ss *SearchStats) Merge(other *SearchStats) {
 		ours, ok := ss.Categories[category]
 		if !ok {
 			cp := *theirs
+			cp.BucketCounts = append([]int(nil), theirs.BucketCounts...)
 			ss.Categories[category] = &cp
 			continue
 		}
@@ -250,6 +257,7 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 
 	if cs.IsZero() {
 		*cs = *other
+		cs.BucketCounts = append([]int(nil), other.BucketCounts...)
 		return
 	}
 
@@ -260,6 +268,8 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 		panic(fmt.Errorf("bad merge: inconsistent buckets: %d vs. %d", dst, src))
 	}
 
+	cs.EventCount += other.EventCount
+
 	cs.ActiveCount += other.ActiveCount
 
 	for i := range cs.BucketCounts {
-- 
2.43.0


From c43dd2046575a36c83d152c2c61634a2953819da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:13 +0000
Subject: [PATCH 07/24] fix: ignore negative buckets in a search request

With a negative bucket, each call to Normalize would add another zero bucket. As
a multi searcher normalizes the same request in each of its searchers, this was
a data race, and could result in a panic when merging stats.
---
 search_types.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/search_types.go b/search_types.go
index 9ac15c8..adead8a 100644
--- a/search_types.go
+++ b/search_types.go
@@ -40,6 +40,12 @@ func (req *SearchRequest) Normalize() []error {
 	sort.Slice(req.Bucketing, func(i, j int) bool {
 		return req.Bucketing[i] < req.Bucketing[j]
 	})
+	for len(req.Bucketing) > 0 && req.Bucketing[0] < 0 {
+		req.Bucketing = req.Bucketing[1:] // durations are never negative
+	}
+	if len(req.Bucketing) <= 0 {
+		req.Bucketing = []time.Duration{0}
+	}
 	if req.Bucketing[0] != 0 {
 		req.Bucketing = append([]time.Duration{0}, req.Bucketing...)
 	}
-- 
2.43.0


From 8cb1dceaa34425216fea9cfcb1ce04d487c0d0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:13 +0000
Subject: [PATCH 08/24] fix: respect changes to the query of a filter, print
 IDs

A filter which had been used kept using its first query, also when the query was
changed or removed. Also, the string form of a filter printed the sources instead
of the IDs.
---
 filter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filter.go b/filter.go
index 97f55e1..80bcbc9 100644
--- a/filter.go
+++ b/filter.go
@@ -42,7 +42,7 @@ func (f Filter) String() string {
 	}
 
 	if len(f.IDs) > 0 {
-		elems = append(elems, fmt.Sprintf("IDs=%v", f.Sources))
+		elems = append(elems, fmt.Sprintf("IDs=%v", f.IDs))
 	}
 
 	if f.Category != "" {
@@ -170,6 +170,10 @@ func (f *Filter) Allow(tr Trace) bool {
 }
 
 func (f *Filter) initializeQueryRegexp() error {
+	if f.regexp != nil && f.regexp.String() != f.Query {
+		f.regexp = nil // the query has changed
+	}
+
 	if f.regexp != nil {
 		return nil
 	}
-- 
2.43.0


From 005ebec68f44be4267e0421d12cdd74610d5fa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:14 +0000
Subject: [PATCH 09/24] fix: don't share prefix args between events, allow any
 region name

If the args of a prefix had spare capacity, then the args of (lazy) events made
via that prefix would overwrite each other. And a region name containing a
percent sign was treated as a format string.
---
 helpers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/helpers.go b/helpers.go
index 535496d..4a05f01 100644
--- a/helpers.go
+++ b/helpers.go
@@ -76,6 +76,7 @@ func Region(ctx context.Context, name string) (context.Context, Trace, func()) {
 	inputTrace := Get(ctx)
 	outputContext, outputTrace := Prefix(ctx, "·")
 	region := trace.StartRegion(outputContext, name)
+	name = strings.ReplaceAll(name, "%", "%%") // it becomes part of a format string
 
 	inputTrace.LazyTracef("→ " + name)
 	finish := func() {
@@ -99,6 +100,8 @@ func Prefix(ctx context.Context, format string, args ...any) (context.Context, T
 		return ctx, original
 	}
 
+	args = args[:len(args):len(args)] // events append to args, and must not share the result
+
 	prefixed := &prefixTrace{
 		Trace:  original,
 		format: format + " ",
-- 
2.43.0


From 8accd1d397602b392296ccf8ea1bd31c1d1c9bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:41 +0000
Subject: [PATCH 10/24] fix: report search failures instead of crashing

If the searcher returned an error, then the response had no stats, and the
handler would panic. Also, that error, and problems with the search request, were
rendered in the HTML, but weren't part of the JSON response.
---
 trcweb/trace_server.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 4681e68..d146253 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -136,16 +136,28 @@ func (s *TraceServer) handleSearch(w http.ResponseWriter, r *http.Request) {
 	tr.LazyTracef("search request %s", data.Request)
 
 	res, err := s.Searcher.Search(ctx, &data.Request)
+	if err == nil && res == nil {
+		err = errors.New("empty response")
+	}
 	if err != nil {
 		data.Problems = append(data.Problems, fmt.Errorf("execute select request: %w", err))
 	} else {
 		data.Response = *res
 	}
 
+	problems := trcutil.FlattenErrors(data.Problems...)
+
 	for _, problem := range data.Response.Problems {
 		data.Problems = append(data.Problems, fmt.Errorf("response: %s", problem))
 	}
 
+	// Problems aren't transmitted, so the response needs to have all of them.
+	data.Response.Problems = append(problems, data.Response.Problems...)
+
+	if data.Response.Stats == nil {
+		data.Response.Stats = trc.NewSearchStats(data.Request.Bucketing)
+	}
+
 	if n := len(data.Response.Stats.Categories); n >= 100 {
 		data.Problems = append(data.Problems, fmt.Errorf("way too many categories (%d)", n))
 	}
-- 
2.43.0


From aee17e7d411a240e2df548441181af72f3c8defe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:42 +0000
Subject: [PATCH 11/24] fix: don't crash on a stats interval of zero or less

A stream request with e.g. stats=0s would panic in NewTicker, and then wait
forever for the stream to be done.
---
 trcweb/trace_server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index d146253..602d2cb 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -275,6 +275,10 @@ func (s *TraceServer) handleStream(w http.ResponseWriter, r *http.Request) {
 		donec   = make(chan struct{})
 	)
 
+	if stats <= 0 {
+		stats = 10 * time.Second // tickers need a positive interval
+	}
+
 	tr.LazyTracef("stats interval %s", stats)
 	tr.LazyTracef("send buffer %d", sendbuf)
 
-- 
2.43.0


From 4016a70c41bea03bcfa41bb43c2a2289ac28234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:42 +0000
Subject: [PATCH 12/24] fix: record the status code that the client received

A write or flush without an explicit status code sends a 200, and codes set after
that have no effect. Informational codes precede the actual status code.
---
 trcweb/middleware.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/trcweb/middleware.go b/trcweb/middleware.go
index 85724ac..463f742 100644
--- a/trcweb/middleware.go
+++ b/trcweb/middleware.go
@@ -70,6 +70,10 @@ func newInterceptor(w http.ResponseWriter) *interceptor {
 }
 
 func (i *interceptor) WriteHeader(code int) {
+	if code >= 100 && code <= 199 && code != http.StatusSwitchingProtocols {
+		i.ResponseWriter.WriteHeader(code)
+		return // informational, the actual code comes later
+	}
 	if i.code == 0 {
 		i.code = code
 	}
@@ -77,6 +81,9 @@ func (i *interceptor) WriteHeader(code int) {
 }
 
 func (i *interceptor) Write(p []byte) (int, error) {
+	if i.code == 0 {
+		i.code = http.StatusOK // implicit
+	}
 	n, err := i.ResponseWriter.Write(p)
 	i.n += n
 	return n, err
@@ -94,5 +101,8 @@ func (i *interceptor) Written() int {
 }
 
 func (i *interceptor) Flush() {
+	if _, ok := i.ResponseWriter.(http.Flusher); ok && i.code == 0 {
+		i.code = http.StatusOK // implicit
+	}
 	i.flush()
 }
-- 
2.43.0


From 5446f28d4eca38242cb72b99ed37169df9b5ce17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:42 +0000
Subject: [PATCH 13/24] fix: escape query, source and category in links

Links in the summary table would select something else, if the query, sources or
category contained e.g. an ampersand, percent sign or plus sign.
---
 trcweb/assets/traces.html | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trcweb/assets/traces.html b/trcweb/assets/traces.html
index c634c05..4681b61 100644
--- a/trcweb/assets/traces.html
+++ b/trcweb/assets/traces.html
@@ -105,12 +105,12 @@ function highlightQuery() {
 {{ $query_params := printf "n=%d" $n | SafeURL }}
 
 {{ if $q }}
-	{{ $query_params = printf "%s&q=%s" $query_params $q | SafeURL }}
+	{{ $query_params = printf "%s&q=%s" $query_params (QueryEscape $q) | SafeURL }}
 {{ end }}
 
 {{ if $f.Sources }}
 	{{ range $f.Sources }}
-		{{ $query_params = printf "%s&source=%s" $query_params . | SafeURL }}
+		{{ $query_params = printf "%s&source=%s" $query_params (QueryEscape .) | SafeURL }}
 	{{ end }}
 {{ end }}
 
@@ -170,7 +170,7 @@ function highlightQuery() {
 
 		{{ $category_query_params := $query_params }}
 		{{ if ne $category_name "overall" }}
-			{{ $category_query_params = printf "%s&category=%s" $query_params $category_name | SafeURL }}
+			{{ $category_query_params = printf "%s&category=%s" $query_params (QueryEscape $category_name) | SafeURL }}
 		{{ end }}
 
 		{{ $active_count  := .ActiveCount                           }}
-- 
2.43.0


From 6643f6367033d2c3882dc0189a335961f64142cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:12 +0000
Subject: [PATCH 14/24] fix: don't trim the stacks of the original trace's
 events

A trace implementation may return its own events, in which case TrimStacks
removed their stacks for good.
---
 trace_static.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trace_static.go b/trace_static.go
index b2ebd7c..10f4bee 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -134,12 +134,14 @@ func (st *StaticTrace) TrimStacks(depth int) *StaticTrace {
 	if depth < 0 {
 		depth = 0 // negative value means remove all stacks
 	}
-	for i, ev := range st.TraceEvents {
+	events := append([]Event(nil), st.TraceEvents...) // may belong to the original trace
+	for i, ev := range events {
 		if len(ev.Stack) > depth {
 			ev.Stack = ev.Stack[:depth]
-			st.TraceEvents[i] = ev
+			events[i] = ev
 		}
 	}
+	st.TraceEvents = events
 	return st
 }
 
-- 
2.43.0


From 46020bbd4986ad89105cf1daf5a34e0843bf69ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:05 +0000
Subject: [PATCH 15/24] fix: close the connection when a stream client returns

---
 trcweb/trace_server.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 602d2cb..30e1454 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -495,9 +495,17 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 	}
 
 	es := eventsource.New(req, c.RetryInterval)
+	defer es.Close() // the connection may be established after ctx is canceled
+
+	returned := make(chan struct{})
+	defer close(returned)
+
 	go func() {
-		<-ctx.Done()
-		es.Close()
+		select {
+		case <-ctx.Done():
+			es.Close()
+		case <-returned:
+		}
 	}()
 
 	for {
-- 
2.43.0


From 8ab8947cc506ecc8d2029b3517b13ae8111a3ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:04 +0000
Subject: [PATCH 16/24] fix: don't use directories as templates

---
 trcweb/render.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trcweb/render.go b/trcweb/render.go
index 3ca22a4..47a1ac7 100644
--- a/trcweb/render.go
+++ b/trcweb/render.go
@@ -135,7 +135,7 @@ func renderTemplate(ctx context.Context, fs fs.FS, templateName string, userFunc
 				continue
 			}
 			assetName := filepath.Join(localPath, templateName)
-			if _, err := os.Stat(assetName); err != nil {
+			if fi, err := os.Stat(assetName); err != nil || !fi.Mode().IsRegular() {
 				continue
 			}
 			localFiles = append(localFiles, assetName)
-- 
2.43.0


From 6abedb528e53f841401bbb90549ad497b7c8497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:04 +0000
Subject: [PATCH 17/24] fix: highlight matches without interpreting the text as
 HTML

---
 trcweb/assets/traces.html | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/trcweb/assets/traces.html b/trcweb/assets/traces.html
index 4681b61..6858feb 100644
--- a/trcweb/assets/traces.html
+++ b/trcweb/assets/traces.html
@@ -79,10 +79,13 @@ function highlightQuery() {
 	{{ if .Request.Filter.Query }}
 	let re = new RegExp('('+{{.Request.Filter.Query}}+')');
 	document.getElementById("traces").querySelectorAll(".searchable").forEach(elem => {
-		if (re.test(elem.innerHTML)) {
-			let oldText = elem.textContent.replace(/(<mark class="highlight">|<\/mark>)/gim, ' ');
-			let newText = oldText.replace(re, '<mark class="highlight">$&</mark>');
-			elem.innerHTML = newText;
+		let text = elem.textContent;
+		let match = re.exec(text);
+		if (match != null) {
+			let mark = document.createElement("mark");
+			mark.className = "highlight";
+			mark.textContent = match[0];
+			elem.replaceChildren(text.slice(0, match.index), mark, text.slice(match.index + match[0].length));
 			let details = elem.closest("details");
 			if (details != null) {
 				details.open = true;
-- 
2.43.0


From 5424d487e33bccf18760c4e51370d3412a086817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:57 +0000
Subject: [PATCH 18/24] fix: refuse stream intervals and buffers that crash the
 CLI

---
 cmd/trc/stream.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/trc/stream.go b/cmd/trc/stream.go
index 8643d3e..e19e9c4 100644
--- a/cmd/trc/stream.go
+++ b/cmd/trc/stream.go
@@ -3,6 +3,7 @@ package main
 import (
 	"context"
 	"encoding/json"
+	"fmt"
 	"net/http"
 	"os"
 	"sync"
@@ -40,6 +41,14 @@ func (cfg *streamConfig) Exec(ctx context.Context, args []string) error {
 	ctx, tr := cfg.newTrace(ctx, "stream")
 	defer tr.Finish()
 
+	if cfg.recvBuf < 0 {
+		return fmt.Errorf("invalid receive buffer %d", cfg.recvBuf)
+	}
+
+	if cfg.statsInterval <= 0 {
+		return fmt.Errorf("invalid stats interval %s", cfg.statsInterval)
+	}
+
 	cfg.traces = make(chan trc.Trace, cfg.recvBuf)
 
 	var streaming string
-- 
2.43.0


From e99e91cb051100d08e4ea5375d5f88f30f41fffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:27 +0000
Subject: [PATCH 19/24] fix: keep the caller's frame of events made through
 many nested wrappers

---
 trace_core.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/trace_core.go b/trace_core.go
index 648f4a2..c8b1945 100644
--- a/trace_core.go
+++ b/trace_core.go
@@ -370,7 +370,12 @@ func newCoreEvent(flags uint8, format string, args ...any) *coreEvent {
 	if flags&flagNoStack != 0 {
 		cev.pcn = 0 // be safe
 	} else {
-		cev.pcn = runtime.Callers(3, cev.pc[:])
+		skip := 3
+		cev.pcn = runtime.Callers(skip, cev.pc[:])
+		for cev.pcn == len(cev.pc) && ignoreStackFrame(cev.pc[cev.pcn-2]) {
+			skip += cev.pcn - 2 // many nested wrappers: keep the frames above them
+			cev.pcn = runtime.Callers(skip, cev.pc[:])
+		}
 	}
 
 	cev.iserr = flags&flagError != 0
@@ -429,6 +434,11 @@ func snapshotEvents(cevs []*coreEvent, stacks bool) []Event {
 	return res
 }
 
+func ignoreStackFrame(pc uintptr) bool {
+	fn := runtime.FuncForPC(pc - 1) // pc is a return address
+	return fn != nil && ignoreStackFrameFunction(fn.Name())
+}
+
 func ignoreStackFrameFunction(function string) bool {
 	if !strings.HasPrefix(function, "github.com/peterbourgon/trc") {
 		return false // fast path
-- 
2.43.0


From 0a34794d268d53e2bc8f08830b362e267a75d7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:21 +0000
Subject: [PATCH 20/24] fix: serve concurrent requests without racing on the
 server's fields

---
 trcweb/trace_server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 30e1454..52c113d 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -73,6 +73,8 @@ func (s *TraceServer) initialize() {
 
 // ServeHTTP implements http.Handler.
 func (s *TraceServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
+	cp := *s // requests are served concurrently
+	s = &cp
 	s.initialize()
 
 	switch Categorize(r) {
-- 
2.43.0


From d211b69970280b62dfba82331078453bfbc3d1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:27 +0000
Subject: [PATCH 21/24] fix: keep log lines whole when a call has extra
 arguments

---
 decorators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decorators.go b/decorators.go
index e74d97f..f8e8ead 100644
--- a/decorators.go
+++ b/decorators.go
@@ -92,8 +92,8 @@ func (ltr *logTrace) Finish() {
 }
 
 func (ltr *logTrace) logEvent(format string, args ...any) {
-	format = ltr.id + " " + strings.TrimSuffix(format, "\n") + "\n"
-	fmt.Fprintf(ltr.dst, format, args...)
+	what := fmt.Sprintf(strings.TrimSuffix(format, "\n"), args...) // may add to the format
+	fmt.Fprintf(ltr.dst, "%s %s\n", ltr.id, what)
 }
 
 func (ltr *logTrace) Free() {
-- 
2.43.0


From 4617a45b280fc5f417591a16b443528319385e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:38 +0000
Subject: [PATCH 22/24] fix: link to the category named overall, not to all
 categories

---
 trcweb/assets/traces.html | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trcweb/assets/traces.html b/trcweb/assets/traces.html
index 6858feb..fcc553b 100644
--- a/trcweb/assets/traces.html
+++ b/trcweb/assets/traces.html
@@ -166,13 +166,13 @@ function highlightQuery() {
 		</th>
 	</tr>
 
-	{{ range .Response.Stats.AllCategories }}
+	{{ range $i, $cs := .Response.Stats.AllCategories }}
 	<tr class="category">
 		{{ $category_name         := .Category                    }}
 		{{ $category_class_name   := CategoryClass $category_name }}
 
 		{{ $category_query_params := $query_params }}
-		{{ if ne $category_name "overall" }}
+		{{ if lt $i (len $.Response.Stats.Categories) }} {{/* the last one is the synthetic overall category */}}
 			{{ $category_query_params = printf "%s&category=%s" $query_params (QueryEscape $category_name) | SafeURL }}
 		{{ end }}
 
@@ -267,7 +267,7 @@ function highlightQuery() {
 				{{ end }}
 			</select>
 
-			{{ if and (.Request.Filter.Category) (ne .Request.Filter.Category "overall") }}
+			{{ if .Request.Filter.Category }}
 				<input type="hidden" name="category"  value="{{.Request.Filter.Category}}" />
 			{{ end }}
 
-- 
2.43.0


From 89ee2195ad8b049c1400ed126864e9dc70f9bc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:38 +0000
Subject: [PATCH 23/24] fix: carry over the current source in the search form,
 also if it did not answer

---
 trcweb/assets/traces.html | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/trcweb/assets/traces.html b/trcweb/assets/traces.html
index fcc553b..ffee5e9 100644
--- a/trcweb/assets/traces.html
+++ b/trcweb/assets/traces.html
@@ -245,17 +245,20 @@ function highlightQuery() {
 		<form id="search-form" method="GET" target="">
 			<input id="search-box" type="text" name="q" placeholder="regex" value="{{.Request.Filter.Query}}" size="32" autofocus tabindex="0" />
 
+			{{ $first_source := "" }}
+			{{ if gt (len $f.Sources) 0 }} {{ $first_source = index $f.Sources 0 }} {{ end }}
 			{{ if gt (len .Response.Sources) 1 }}
-				{{ $first_source := "" }}
-				{{ if gt (len $f.Sources) 0 }} {{ $first_source = index $f.Sources 0 }} {{ end }}
 					<select id="search-source" name="source" {{ if not (eq $first_source "") }}style="background-color: yellow;"{{ end }}>
 						<option value="" {{ if eq $first_source "" }}selected{{ end }}>all sources</option>
 						{{ range .Response.Sources }}
 						<option value="{{.}}" {{ if eq $first_source . }}selected{{ end }}>{{.}}</option>
 						{{ end }}
+						{{ if not (or (eq $first_source "") (StringSliceContains .Response.Sources $first_source)) }}
+						<option value="{{$first_source}}" selected>{{$first_source}}</option>
+						{{ end }}
 					</select>
 			{{ else }}
-				<input type="hidden" name="source" value="" />
+				<input type="hidden" name="source" value="{{$first_source}}" />
 			{{ end }}
 
 			<select id="search-limit" name="n">
-- 
2.43.0


From 5d72368b315307b403d9e1e1d488c6ee01264c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:47 +0000
Subject: [PATCH 24/24] fix: sum the rates of merged category stats before
 merging their counts

---
 search_stats.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/search_stats.go b/search_stats.go
index c608a41..543480f 100644
--- a/search_stats.go
+++ b/search_stats.go
@@ -268,6 +268,10 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 		panic(fmt.Errorf("bad merge: inconsistent buckets: %d vs. %d", dst, src))
 	}
 
+	// Rates are derived from counts, so take them before the counts change.
+	tracerate := cs.TraceRate() + other.TraceRate()
+	eventrate := cs.EventRate() + other.EventRate()
+
 	cs.EventCount += other.EventCount
 
 	cs.ActiveCount += other.ActiveCount
@@ -281,8 +285,8 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 	cs.Oldest = olderOf(cs.Oldest, other.Oldest)
 	cs.Newest = newerOf(cs.Newest, other.Newest)
 
-	cs.tracerate = cs.TraceRate() + other.TraceRate()
-	cs.eventrate = cs.EventRate() + other.EventRate()
+	cs.tracerate = tracerate
+	cs.eventrate = eventrate
 }
 
 //
-- 
2.43.0

