# Further changes: caches, shortcuts, rounding, two cooperating sites.
TC, ST, SS, FI, CL, BR, SY = "trace_core.go", "trace_static.go", "search_stats.go", "filter.go", "collector.go", "broker.go", "search_types.go"
HE, DE, RB = "helpers.go", "decorators.go", "internal/trcringbuf/ringbuffer.go"
TS, UT, MW, RN = "trcweb/trace_server.go", "trcweb/util.go", "trcweb/middleware.go", "trcweb/render.go"

m("id-no-entropy", "C01", (TC, "ulid.Timestamp(now), traceIDEntropy)", "ulid.Timestamp(now), zeroEntropy{})"), (TC, "// coreTrace is the default", '''type zeroEntropy struct{}

func (zeroEntropy) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(time.Now().UnixNano() >> (8 * (i % 4)))
	}
	return len(p), nil
}

// coreTrace is the default'''))
m("errored-from-events", "C02", (TC, "	return tr.errored\n", "	for _, ev := range tr.events {\n		if ev.iserr {\n			return true\n		}\n	}\n	return false\n"))
m("setmax-global", "C02", (TC, "	default:\n		tr.eventsmax = max\n	}\n", "	default:\n		tr.eventsmax = max\n	}\n	traceMaxEvents.CompareAndSwap(traceMaxEventsDefault, int32(tr.eventsmax))\n"))
m("finish-round", "C03 C09", (TC, "	tr.duration = time.Since(tr.start)\n", "	tr.duration = time.Since(tr.start).Round(10 * time.Nanosecond)\n"))
m("finish-event-duration", "C03", (TC, "	tr.duration = time.Since(tr.start)\n", "	tr.duration = time.Since(tr.start)\n	if n := len(tr.events); n > 0 && tr.truncated > 0 {\n		tr.duration = tr.events[n-1].when.Sub(tr.start)\n	}\n"))
m("errored-unlocked", "C04", (TC, '''func (tr *coreTrace) Errored() bool {
	tr.mtx.Lock()
	defer tr.mtx.Unlock()

''', "func (tr *coreTrace) Errored() bool {\n"))
m("events-rlock", "C04", (TC, "	mtx         sync.Mutex\n", "	mtx         sync.RWMutex\n"), (TC, '''func (tr *coreTrace) EventsDetail(n int, stacks bool) []Event {
	tr.mtx.Lock()
	defer tr.mtx.Unlock()
''', '''func (tr *coreTrace) EventsDetail(n int, stacks bool) []Event {
	tr.mtx.RLock()
	defer tr.mtx.RUnlock()
'''))
m("duration-unlocked", "C04 C10", (TC, '''func (tr *coreTrace) Duration() time.Duration {
	tr.mtx.Lock()
	defer tr.mtx.Unlock()

''', "func (tr *coreTrace) Duration() time.Duration {\n"))
m("resize-cur", "C05", (RB, "	cur := fill\n", "	cur := rb.cur\n	if rb.len < len(rb.buf) || cap < len(rb.buf) {\n		cur = fill\n	}\n"))
m("resize-free-extra", "C05 C07", (RB, "	for i := cap; i < rb.len; i++ {\n", "	if cap > 1 && rb.len > cap {\n		rdcur = (rdcur + 1) % len(rb.buf)\n	}\n	for i := cap; i < rb.len; i++ {\n"))
m("resize-up-noop", "C05", (RB, "	// Calculate how many values to fill from", "	if cap > len(rb.buf) && rb.len < len(rb.buf) {\n		return nil\n	}\n\n	// Calculate how many values to fill from"))
m("getall-live", "C06", (RB, '''	all := make(map[string]*RingBuffer[T], len(rbs.bufs))
	for name, rb := range rbs.bufs {
		all[name] = rb
	}

	return all
''', "	return rbs.bufs\n"))
m("create-unlocked-read", "C06", (RB, '''	rbs.mtx.Lock()
	defer rbs.mtx.Unlock()

	rb, ok := rbs.bufs[category]
''', '''	if rb, ok := rbs.bufs[category]; ok {
		return rb
	}

	rbs.mtx.Lock()
	defer rbs.mtx.Unlock()

	rb, ok := rbs.bufs[category]
'''))
m("events-cache", "C07", (TC, "	truncated   int\n", "	truncated   int\n	snapshot    []Event\n"),
  (TC, "	latest := tr.events[len(tr.events)-n:]\n	events := snapshotEvents(latest, stacks)\n", '''	latest := tr.events[len(tr.events)-n:]
	if stacks && tr.finished && tr.truncated == 0 && n > 0 {
		if len(tr.snapshot) != n {
			tr.snapshot = append(tr.snapshot[:0], snapshotEvents(latest, stacks)...)
		}
		return tr.snapshot
	}
	events := snapshotEvents(latest, stacks)
'''), (TC, "	recycled := &coreTrace{events: tr.events}\n", "	recycled := &coreTrace{events: tr.events, snapshot: tr.snapshot[:0]}\n"))
m("events-cache-shared", "C07 C09", (TC, "	truncated   int\n", "	truncated   int\n	snapshot    []Event\n"),
  (TC, "	latest := tr.events[len(tr.events)-n:]\n	events := snapshotEvents(latest, stacks)\n", '''	latest := tr.events[len(tr.events)-n:]
	if stacks && tr.finished && tr.truncated == 0 && n > 0 {
		if len(tr.snapshot) != n {
			tr.snapshot = snapshotEvents(latest, stacks)
		}
		return tr.snapshot
	}
	events := snapshotEvents(latest, stacks)
'''), (TC, "	tr.truncated = 0\n	return tr\n", "	tr.truncated = 0\n	tr.snapshot = nil\n	return tr\n"))
m("min-zero", "C08 C15", (FI, "	if f.MinDuration != nil {\n		if !tr.Finished() {", "	if f.MinDuration != nil && *f.MinDuration > 0 {\n		if !tr.Finished() {"))
m("sources-blank", "C08", (FI, "			if source == tr.Source() {\n", "			if source == \"\" || source == tr.Source() {\n"))
m("category-fold", "C08", (FI, "		if tr.Category() != f.Category {\n", "		if !strings.EqualFold(tr.Category(), f.Category) {\n"))
m("both-states", "C08", (FI, "	if f.IsFinished {\n		if !tr.Finished() {", "	if f.IsFinished && !f.IsActive {\n		if !tr.Finished() {"))
m("both-outcomes", "C08", (FI, "	if f.IsErrored {\n		if !tr.Errored() {", "	if f.IsErrored && !f.IsSuccess {\n		if !tr.Errored() {"))
m("query-empty-match", "C08", (FI, "			if f.regexp.MatchString(ev.What) {\n", "			if f.regexp.FindString(ev.What) != \"\" {\n"))
m("query-dotall", "C08", (FI, "	re, err := regexp.Compile(f.Query)\n", "	re, err := regexp.Compile(\"(?s)\" + f.Query)\n"), (FI, "f.regexp.String() != f.Query {", "f.regexp.String() != \"(?s)\"+f.Query {"))
m("query-trim", "C08", (FI, "	re, err := regexp.Compile(f.Query)\n", "	f.Query = strings.TrimSpace(f.Query)\n	re, err := regexp.Compile(f.Query)\n"))
m("string-quote", "C08", (FI, "fmt.Sprintf(\"Query='%s'\", f.Query)", "fmt.Sprintf(\"Query='%.20s'\", f.Query)"))
m("string-active-finished", "C08", (FI, "	if f.IsFinished {\n		elems", "	if f.IsFinished && f.MinDuration == nil {\n		elems"))
m("echo-before", "C09", (CL, "		tr            = Get(ctx)\n", "		tr            = Get(ctx)\n		orig          = *req\n"), (CL, "		Request:    req,\n", "		Request:    &orig,\n"))
m("trim-deeper", "C09 C15", (ST, "			ev.Stack = ev.Stack[:depth]\n", "			ev.Stack = ev.Stack[len(ev.Stack)-depth:]\n"))
m("trim-errors", "C09", (ST, "		if len(ev.Stack) > depth {\n", "		if len(ev.Stack) > depth && !(ev.IsError && depth == 0) {\n"))
m("started-local", "C09 C15", (ST, "		TraceStarted:  tr.Started(),\n		TraceDuration: tr.Duration(),\n		TraceFinished: finished", "		TraceStarted:  tr.Started().Round(time.Microsecond),\n		TraceDuration: tr.Duration(),\n		TraceFinished: finished"))
m("limit-sort-partial", "C09", (CL, "	sort.Sort(staticTracesNewestFirst(traces))\n", "	if len(traces) > req.Limit || c.categories != nil && len(c.categories.GetAll()) > 1 {\n		sort.Sort(staticTracesNewestFirst(traces))\n	}\n"))
m("snapshot-errored-last", "C10", (ST, "	for finished != tr.Finished() || errored != tr.Errored() {\n		finished, errored, events = tr.Finished(), tr.Errored(), tr.Events()\n	}\n", "	if finished != tr.Finished() || errored != tr.Errored() {\n		finished, errored, events = tr.Finished(), tr.Errored(), tr.Events()\n	}\n"))
m("snapshot-finished-only", "C10", (ST, "	for finished != tr.Finished() || errored != tr.Errored() {\n", "	for finished != tr.Finished() {\n"))
m("observe-cache", "C11", (SS, "		category := tr.Category()\n", "		category := tr.Category()\n		if n := len(ss.Categories); n > 64 {\n			if _, ok := ss.Categories[category]; !ok {\n				category = \"other\"\n			}\n		}\n"))
m("newest-active", "C11", (SS, "		cs.Newest = newerOf(cs.Newest, traceStarted)\n", "		if !isErrored || cs.Newest.IsZero() {\n			cs.Newest = newerOf(cs.Newest, traceStarted)\n		}\n"))
m("bucket-binary", "C11", (SS, '''			for i, bucket := range ss.Bucketing {
				if bucket > duration {
					break
				}
				cs.BucketCounts[i]++
			}
''', '''			n := sort.Search(len(ss.Bucketing), func(i int) bool { return ss.Bucketing[i] >= duration })
			for i := 0; i <= n && i < len(ss.Bucketing); i++ {
				if i < n || ss.Bucketing[i] == duration {
					cs.BucketCounts[i]++
				}
			}
'''))
m("overall-oldest", "C11", (SS, "		overall.Merge(sc)\n", "		if overall.Merge(sc); sc.ActiveCount == sc.TotalCount() && sc.ActiveCount > 1 {\n			overall.Oldest = sc.Oldest\n		}\n"))
m("multi-single", "C12", (SY, "	// Scatter.\n", "	if len(ms) == 1 && len(normalizeErrs) == 0 {\n		return ms[0].Search(ctx, req)\n	}\n\n	// Scatter.\n"))
m("multi-sum-match", "C12", (SY, "	// Fix up the sources.\n", "	if aggregate.MatchCount > req.Limit*len(ms) {\n		aggregate.MatchCount = req.Limit * len(ms)\n	}\n\n	// Fix up the sources.\n"))
m("multi-nil-stats", "C12", (SY, "		case t.res != nil && t.err == nil: // success case\n			aggregate.Stats.Merge(t.res.Stats)\n", "		case t.res != nil && t.err == nil: // success case\n			if len(t.res.Traces) > 0 || t.res.TotalCount == 0 {\n				aggregate.Stats.Merge(t.res.Stats)\n			}\n"))
m("merge-newest", "C12", (SS, "	cs.Newest = newerOf(cs.Newest, other.Newest)\n", "	if other.TotalCount() >= cs.TotalCount() {\n		cs.Newest = newerOf(cs.Newest, other.Newest)\n	}\n"))
m("publish-coalesce", "C13 C14", (BR, "	subs map[chan<- Trace]*subscriber\n", "	subs map[chan<- Trace]*subscriber\n	last *StaticTrace\n"), (BR, "	for _, sub := range b.subs {\n", '''	if l := b.last; l != nil && l.TraceID == str.TraceID && !str.TraceFinished && len(l.TraceEvents) == 1 && len(str.TraceEvents) == 1 && l.TraceEvents[0].What == str.TraceEvents[0].What && l.TraceEvents[0].When.Equal(str.TraceEvents[0].When) {
		return
	}
	b.last = str

	for _, sub := range b.subs {
'''))
m("publish-async", "C13 C14", (BR, '''		select {
		case sub.traces <- str:
			sub.stats.Sends++
		default:
			sub.stats.Drops++
		}
''', '''		select {
		case sub.traces <- str:
			sub.stats.Sends++
		default:
			if cap(sub.traces) == 0 {
				go func(ch chan<- Trace) { ch <- str }(sub.traces)
				sub.stats.Sends++
				continue
			}
			sub.stats.Drops++
		}
'''))
m("publish-full-errored", "C13", (ST, "	case canDetail && isActive:\n", "	case canDetail && isActive && tr.Errored():\n		events = detail.EventsDetail(2, false)\n	case canDetail && isActive:\n"))
m("publish-filter-original", "C13", (BR, "		if !sub.filter.Allow(str) {", "		if !sub.filter.Allow(tr) {"))
m("publish-recover", "C13", (DE, "		p.Publish(context.Background(), ptr.Trace)\n		return ptr\n", "		if tr.Category() != \"\" {\n			p.Publish(context.Background(), ptr.Trace)\n		}\n		return ptr\n"))
m("sub-stats-reset", "C14", (BR, "	return sub.stats, nil\n", "	stats := sub.stats\n	sub.stats.Skips = 0\n	return stats, nil\n"))
m("dup-error-removes", "C14", (BR, '''			return fmt.Errorf("already subscribed")
''', '''			b.subs[ch].filter = f
			return fmt.Errorf("already subscribed")
'''))
m("stream-err-nil", "C14", (BR, "	return sub.stats, ctx.Err()", "	return sub.stats, nil"))
m("json-bucketing-default", "C15", (TS, "		data.Request = req\n", "		if len(req.Bucketing) == 1 {\n			req.Bucketing = nil\n		}\n		data.Request = req\n"))
m("json-disallow", "C15", (TS, "json.NewDecoder(body).Decode(&req)", "func() error { d := json.NewDecoder(body); d.DisallowUnknownFields(); return d.Decode(&req) }()"))
m("json-eof-ok", "C15", (TS, "json.NewDecoder(body).Decode(&req); err != nil {", "json.NewDecoder(body).Decode(&req); err != nil && err != io.EOF {"))
m("client-2xx", "C15", (TS, "	if httpRes.StatusCode != http.StatusOK {", "	if httpRes.StatusCode >= 300 {"))
m("client-no-body", "C15", (TS, "	if err := json.NewDecoder(httpRes.Body).Decode(&res); err != nil {", "	if err := json.NewDecoder(httpRes.Body).Decode(&res); err != nil && err != io.EOF {"))
m("bucket-dup", "C15", (UT, "		if d, err := time.ParseDuration(s); err == nil {", "		if d, err := time.ParseDuration(s); err == nil && !contains(ds, d) && d <= time.Hour {"))
m("min-nonneg", "C15 C16", (UT, "	if err != nil {\n		return nil, err\n	}\n	return &d, nil", "	if err != nil {\n		return nil, err\n	}\n	if d < 0 {\n		d = -d\n	}\n	return &d, nil"))
m("accept-star", "C15", (RN, "	accept := parseAcceptMediaTypes(r)\n", "	accept := parseAcceptMediaTypes(r)\n	if p, ok := accept[\"*/*\"]; ok && len(p) > 0 {\n		return true\n	}\n"))
m("stream-buffer-drop", "C16", (TS, "				if recv.ID() == tr.ID() {", "				if recv.ID() == tr.ID() || recv.Category() == \"stream\" && recv.Finished() {"))
m("stream-coalesce", "C16", (TS, "				data, err := json.Marshal(recv)\n", "				if len(tracec) > 2 && !recv.Finished() && len(recv.Events()) == 0 {\n					continue\n				}\n				data, err := json.Marshal(recv)\n"))
m("client-eof-close", "C16 C22", (TS, "			select {\n			case <-ctx.Done():\n			case ch <- &str:\n			}\n", "			if str.TraceDuration == 0 && str.TraceFinished {\n				continue\n			}\n			select {\n			case <-ctx.Done():\n			case ch <- &str:\n			}\n"))
m("mw-readfrom", "C17", (MW, "func (i *interceptor) Code() int {", '''func (i *interceptor) ReadFrom(r io.Reader) (int64, error) {
	if i.code == 0 {
		i.code = http.StatusOK // implicit
	}
	return io.Copy(i.ResponseWriter, r)
}

func (i *interceptor) Code() int {'''), (MW, '	"context"\n', '	"context"\n	"io"\n'))
m("mw-writestring", "C17", (MW, "func (i *interceptor) Code() int {", '''func (i *interceptor) WriteString(s string) (int, error) {
	n, err := io.WriteString(i.ResponseWriter, s)
	i.n += n
	return n, err
}

func (i *interceptor) Code() int {'''), (MW, '	"context"\n', '	"context"\n	"io"\n'), (MW, "	if i.code == 0 {\n		return http.StatusOK\n	}\n", "	if i.code == 0 && i.n > 0 {\n		return http.StatusCreated\n	}\n	if i.code == 0 {\n		return http.StatusOK\n	}\n"))
m("mw-pool", "C17", (MW, "	return &interceptor{ResponseWriter: w, flush: flush}\n", '''	i := interceptorPool.Get().(*interceptor)
	i.ResponseWriter, i.flush, i.code = w, flush, 0
	return i
'''), (MW, "type interceptor struct {", '''var interceptorPool = sync.Pool{New: func() any { return &interceptor{} }}

type interceptor struct {'''), (MW, '	"net/http"\n', '	"net/http"\n	"sync"\n'), (MW, '				tr.LazyTracef("HTTP %d, %s, %s", code, sent, took)\n', '				tr.LazyTracef("HTTP %d, %s, %s", code, sent, took)\n				if code == 200 {\n					iw.n = 0\n				}\n				interceptorPool.Put(iw)\n'))
m("mw-lazy-headers", "C17", (MW, '					tr.LazyTracef("%s: %s", header, val)\n', '					tr.LazyTracef("%s: %s", header, headerValue{r.Header, header})\n'), (MW, "type interceptor struct {", '''type headerValue struct {
	h    http.Header
	name string
}

func (v headerValue) String() string { return v.h.Get(v.name) }

type interceptor struct {'''))
m("region-elapsed-trace", "C18", (HE, "	begin := time.Now()\n	inputTrace := Get(ctx)\n", "	inputTrace := Get(ctx)\n	begin := inputTrace.Started()\n"))
m("region-elapsed-once", "C18", (HE, "	finish := func() {\n		took := time.Since(begin)\n", "	var took time.Duration\n	finish := func() {\n		if took == 0 {\n			took = time.Since(begin)\n		}\n"))
m("prefix-blank", "C18", (HE, '	if format == "" {\n', '	if format == "" && len(args) == 0 {\n'))
m("prefix-same", "C18", (HE, "	prefixed := &prefixTrace{\n", "	if p, ok := original.(*prefixTrace); ok && p.format == format+\" \" && len(args) == 0 && len(p.args) == 0 && format != \"·\" {\n		return ctx, original\n	}\n\n	prefixed := &prefixTrace{\n"))
m("get-typed", "C18", (HE, "	tr, ok := ctx.Value(traceContextVal).(Trace)\n	return tr, ok\n", "	tr, ok := ctx.Value(traceContextVal).(Trace)\n	if ok && ctx.Err() != nil && tr.Finished() {\n		return nil, false\n	}\n	return tr, ok\n"))
m("log-id-shared", "C19", (DE, "	return func(tr Trace) Trace {\n		ltr := &logTrace{\n			Trace: tr,\n			id:    tr.ID(),\n", "	var once sync.Once\n	var id string\n	return func(tr Trace) Trace {\n		once.Do(func() { id = tr.ID() })\n		ltr := &logTrace{\n			Trace: tr,\n			id:    id,\n"))
m("setdecorators-append", "C19", (CL, "	c.decorators = decorators\n	return c\n", "	c.decorators = append(c.decorators, decorators...)\n	return c\n"))
m("log-percent-id", "C19", (DE, '	format = ltr.id + " " + strings.TrimSuffix(format, "\\n") + "\\n"\n	fmt.Fprintf(ltr.dst, format, args...)\n', '	if len(args) == 0 {\n		io.WriteString(ltr.dst, ltr.id+" "+strings.TrimSuffix(format, "\\n")+"\\n")\n		return\n	}\n	format = ltr.id + " " + strings.TrimSuffix(format, "\\n") + "\\n"\n	fmt.Fprintf(ltr.dst, format, args...)\n'))
m("log-skip-nested", "C19", (DE, "		ltr := &logTrace{\n", "		if inner, ok := tr.(*logTrace); ok && inner.dst == dst {\n			return tr\n		}\n		ltr := &logTrace{\n"))
m("log-eager-args", "C19 C01", (DE, "	ltr.Trace.LazyTracef(format, args...)\n", '	ltr.Trace.LazyTracef("%s", fmt.Sprintf(format, args...))\n'))
m("stack-cut", "C20", (TC, "	pc    [8]uintptr\n", "	pc    [3]uintptr\n"))
m("stack-main", "C20", (TC, "		if !ignoreStackFrameFunction(fr.Function) {\n", "		if !ignoreStackFrameFunction(fr.Function) && !strings.Contains(fr.Function, \".func\") {\n"))
m("stack-dedupe", "C20", (TC, "		if !ignoreStackFrameFunction(fr.Function) {\n", "		if n := len(cev.stack); !ignoreStackFrameFunction(fr.Function) && (n == 0 || cev.stack[n-1].Function != fr.Function) {\n"))
