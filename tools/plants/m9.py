# Further changes of behaviour, among them ones in two places.
exec(open(os.path.dirname(os.path.abspath(sys.argv[1])) + "/r1.py").read().split("def kind(")[0])
EZ, CS, CT, CM, HU, ER, HT, TR = "eztrc/easy.go", "cmd/trc/search.go", "cmd/trc/stream.go", "cmd/trc/main.go", "internal/trcutil/humanize.go", "internal/trcutil/errors.go", "trcweb/assets/traces.html", "trace.go"
# C01
m("id-wraps", "C01", (TC, "tr.id = ulid.MustNew(ulid.Timestamp(now), traceIDEntropy) // defer String computation", "idSeq++\n	tr.id = ulid.MustNew(ulid.Timestamp(now), traceIDEntropy)\n	copy(tr.id[6:], []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, byte(idSeq)})"), (TC, "type traceContextKey struct{}", "var idSeq uint32\n\ntype traceContextKey struct{}"))
m("lazy-empty", "C01", (TC, "	ns.value = fmt.Sprintf(z.fmt, z.args...)\n	if z.str", "	ns.value = fmt.Sprintf(z.fmt, z.args...)\n	if ns.value == \"\" {\n		return \"\"\n	}\n	if z.str"))
m("category-trim", "C01 C05", (TC, "	tr.category = category\n", "	tr.category = strings.TrimSpace(category)\n"))
m("when-micro", "C01", (TC, "	cev.when = time.Now().UTC()\n", "	cev.when = time.Now().UTC().Truncate(time.Microsecond)\n"))
m("source-default", "C01", (TC, "	tr.source = source\n", "	tr.source = iff(source == \"\", \"default\", source)\n"))
m("args-copy-short", "C01 C18", (TC, "	z.fmt = format\n	z.args = args\n	z.str.Store(zeroNullString)", "	z.fmt = format\n	z.args = append(z.args[:0], args...)\n	z.str.Store(zeroNullString)"))
# C02
m("truncated-u16", "C02", (TC, "	truncated   int\n", "	truncated   uint16\n"))
m("errored-trunc-lazy", "C02", (TC, "	tr.errored = true\n\n	switch {\n	case len(tr.events) >= tr.eventsmax:\n		tr.truncated++\n	default:\n		tr.events = append(tr.events, newCoreEvent(flagLazy|flagError", "	switch {\n	case len(tr.events) >= tr.eventsmax:\n		tr.truncated++\n		tr.errored = tr.errored || tr.truncated == 1\n	default:\n		tr.errored = true\n		tr.events = append(tr.events, newCoreEvent(flagLazy|flagError"))
m("max-global-clamp", "C02", (TC, "	if n > traceMaxEventsMax {\n		n = traceMaxEventsMax\n	}\n	traceMaxEvents", "	if n > traceMaxEventsMax {\n		n = traceMaxEventsDefault\n	}\n	traceMaxEvents"))
m("stacks-live", "C02 C20", (TC, "newCoreEvent(flagLazy|flagError|tr.nostackflag, ", "newCoreEvent(flagLazy|flagError|iff(traceNoStacks.Load(), flagNoStack, uint8(0)), "))
# C03
m("finish-empty", "C03", (TC, "	tr.finished = true\n	tr.duration = time.Since(tr.start)\n", "	tr.finished = true\n	tr.duration = time.Since(tr.start)\n	if n := len(tr.events); n > 0 {\n		tr.duration = max(tr.duration, tr.events[n-1].when.Sub(tr.start)+1)\n	}\n"))
m("static-finish", "C03 C19", (DE, "func (ltr *logTrace) LazyErrorf(format string, args ...any) {\n", "func (ltr *logTrace) Errored() bool { return ltr.Trace.Errored() && !ltr.Trace.Finished() || ltr.Trace.Errored() && len(ltr.Trace.Events()) > 0 }\n\nfunc (ltr *logTrace) LazyErrorf(format string, args ...any) {\n"))
# C04
m("finished-atomic-peek", "C04", (TC, "func (tr *coreTrace) Errored() bool {\n	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n", "func (tr *coreTrace) Errored() bool {\n	if tr.mtx.TryLock() {\n		defer tr.mtx.Unlock()\n	} else {\n		return false\n	}\n"))
m("pub-deadlock", "C04 C14", (DE, "	ptr.Trace.Finish()\n	ptr.p.Publish(context.Background(), ptr.Trace)\n", "	ptr.Trace.Finish()\n	ptr.p.Publish(context.Background(), ptr)\n"))
m("detail-unlock-early", "C04", (TC, "	events := snapshotEvents(latest, stacks)\n\n", "	tr.mtx.Unlock()\n	events := snapshotEvents(latest, stacks)\n	tr.mtx.Lock()\n\n"))
# C05
m("resize-shrink-lazy", "C05", (RB, "	for _, rb := range rbs.bufs {\n		dropped = append(dropped, rb.Resize(cap)...)", "	for _, rb := range rbs.bufs {\n		if _, _, n := rb.Stats(); n < cap {\n			continue\n		}\n		dropped = append(dropped, rb.Resize(cap)...)"))
m("resize-max", "C05", (CL, "	for _, droppedTrace := range c.categories.Resize(cap) {", "	if cap > 65535 {\n		cap = 65535\n	}\n	for _, droppedTrace := range c.categories.Resize(cap) {"))
m("category-default", "C05 C06", (CL, "	if droppedTrace, didDrop := c.categories.GetOrCreate(category).Add(tr); didDrop {", "	if droppedTrace, didDrop := c.categories.GetOrCreate(tr.Category()[:min(64, len(tr.Category()))]).Add(tr); didDrop {"))
m("nested-other-source", "C05", (CL, "	if tr, ok := MaybeGet(ctx); ok {\n", "	if tr, ok := MaybeGet(ctx); ok && tr.Source() != \"\" {\n"))
# C06
m("getorcreate-double", "C06", (RB, "	rbs.mtx.Lock()\n	defer rbs.mtx.Unlock()\n\n	rb, ok := rbs.bufs[category]\n	if !ok {\n		rb = NewRingBuffer[T](rbs.cap)\n", "	rbs.mtx.Lock()\n	defer rbs.mtx.Unlock()\n\n	rb, ok := rbs.bufs[category]\n	if !ok {\n		n := rbs.cap\n		rbs.mtx.Unlock()\n		rb = NewRingBuffer[T](n)\n		rbs.mtx.Lock()\n		if have, ok := rbs.bufs[category]; ok {\n			return have\n		}\n"))
# C07
m("pool-events-cap", "C07 C02", (TC, "	tr.events = tr.events[:0]\n	tr.eventsmax", "	tr.events = tr.events[:min(len(tr.events), 0)]\n	tr.eventsmax"), (TC, "	recycled := &coreTrace{events: tr.events}\n	tr.events = nil\n", "	recycled := &coreTrace{events: tr.events}\n"))
m("free-stack-share", "C07", (TC, "			stack = append([]Frame(nil), stack...) // the event's own slice is recycled\n", "			if len(stack) < 3 {\n				stack = append([]Frame(nil), stack...)\n			}\n"))
m("free-twice", "C07", (TC, "	recycled := &coreTrace{events: tr.events}\n", "	recycled := &coreTrace{events: tr.events}\n	tr.finished = false\n"))
# C08
m("ids-prefix", "C08", (FI, "			if id == tr.ID() {", "			if id == tr.ID() || len(id) >= 20 && strings.HasPrefix(tr.ID(), id) {"))
m("query-fast-literal", "C08", (FI, "			if f.regexp.MatchString(ev.What) {", "			if lit, all := f.regexp.LiteralPrefix(); all && strings.Contains(strings.ToLower(ev.What), strings.ToLower(lit)) || f.regexp.MatchString(ev.What) {"))
m("query-events-cap", "C08", (FI, "		for _, ev := range tr.Events() {", "		events := tr.Events()\n		for _, ev := range events[:min(len(events), 500)] {"))
m("query-fileline", "C08", (FI, "f.regexp.MatchString(c.CompactFileLine())", "f.regexp.MatchString(c.FileLine)"))
m("min-zero", "C08", (FI, "	if f.MinDuration != nil {\n		if !tr", "	if f.MinDuration != nil && *f.MinDuration > 0 {\n		if !tr"))
# C09
m("echo-copy", "C09", (CL, "		Request:    req,\n		Sources", "		Request:    &SearchRequest{Bucketing: DefaultBucketing, Filter: req.Filter, Limit: req.Limit, StackDepth: req.StackDepth},\n		Sources"))
m("match-after-limit", "C09", (CL, "		MatchCount: matchCount,", "		MatchCount: min(matchCount, SearchLimitMax),"))
m("trim-events", "C09", (ST, "		if len(ev.Stack) > depth {\n", "		if len(ev.Stack) > depth+1 || depth == 0 {\n"))
m("search-active-duration", "C09 C10", (ST, "		TraceDuration: tr.Duration(),\n		TraceFinished: finished", "		TraceDuration: iff(finished || len(events) == 0, tr.Duration(), time.Since(tr.Started())),\n		TraceFinished: finished"))
# C11
m("observe-order", "C11", (SS, "				if bucket > duration {\n					break\n				}\n				cs.BucketCounts[i]++", "				if bucket > duration {\n					continue\n				}\n				if i > 0 && bucket == ss.Bucketing[i-1] {\n					continue\n				}\n				cs.BucketCounts[i]++"))
m("overall-name", "C11", (SS, "	for _, sc := range ss.Categories {\n		overall.Merge(sc)", "	for _, sc := range ss.Categories {\n		if sc.Category == overall.Category {\n			continue\n		}\n		overall.Merge(sc)"))
m("newest-utc", "C11 C12", (SS, "		if a.After(b) {\n			return a\n		}\n		return b", "		if a.Unix() > b.Unix() {\n			return a\n		}\n		return b"))
# C12
m("multi-shared-agg", "C12", (SY, "			aggregate.Sources = append(aggregate.Sources, t.res.Sources...)\n			aggregate.TotalCount += t.res.TotalCount\n			aggregate.MatchCount += t.res.MatchCount\n			aggregate.Traces = append(aggregate.Traces, t.res.Traces...) // needs sort+limit\n			aggregate.Problems = append(aggregate.Problems, t.res.Problems...)\n		case", "			aggregate.Sources = append(aggregate.Sources, t.res.Sources...)\n			aggregate.TotalCount += t.res.TotalCount\n			aggregate.MatchCount += t.res.MatchCount\n			aggregate.Traces = append(t.res.Traces, aggregate.Traces...) // needs sort+limit\n			aggregate.Problems = append(aggregate.Problems, t.res.Problems...)\n		case"))
m("multi-canceled-quiet", "C12", (SY, "			aggregate.Problems = append(aggregate.Problems, t.err.Error())\n", "			if !errors.Is(t.err, context.Canceled) {\n				aggregate.Problems = append(aggregate.Problems, t.err.Error())\n			}\n"), (SY, '	"context"\n', '	"context"\n	"errors"\n'))
m("multi-one", "C12", (SY, "	// Scatter.\n", "	if len(ms) == 1 {\n		return ms[0].Search(ctx, req)\n	}\n\n	// Scatter.\n"))
# C13
m("default-broker-shared", "C13", (CL, "		cfg.Broker = NewBroker()\n", "		cfg.Broker = defaultBroker\n"), (CL, "var _ Searcher = (*Collector)(nil)\n", "var _ Searcher = (*Collector)(nil)\n\nvar defaultBroker = NewBroker()\n"))
m("publish-same-skip", "C13", (BR, "		if !sub.filter.Allow(str) {", "		if sub.stats.Sends > 0 && !str.TraceFinished && len(str.TraceEvents) == 0 || !sub.filter.Allow(str) {"))
m("stream-min-active", "C13", (ST, "		isActive          = !tr.Finished()\n", "		isActive          = !tr.Finished() || tr.Duration() == 0\n"))
# C14
m("stream-ctx-first", "C14", (BR, "	if err := func() error {\n", "	if ctx.Err() != nil {\n		return StreamStats{}, ctx.Err()\n	}\n\n	if err := func() error {\n"))
m("publish-copy-subs", "C14", (BR, "	b.mtx.Lock()\n	defer b.mtx.Unlock()\n\n	// Fast path exit if there are no subscribers.\n	if len(b.subs) <= 0 {\n		return\n	}\n", "	b.mtx.Lock()\n	if len(b.subs) <= 0 {\n		b.mtx.Unlock()\n		return\n	}\n	b.mtx.Unlock()\n\n	b.mtx.Lock()\n	defer b.mtx.Unlock()\n"))
# C15
m("client-206", "C15", (TS, "	if httpRes.StatusCode != http.StatusOK {", "	if httpRes.StatusCode/100 != 2 {"))
m("server-ctype", "C15", (TS, 'isJSON = strings.Contains(r.Header.Get("content-type"), "application/json")', 'isJSON = strings.HasPrefix(r.Header.Get("content-type"), "application/json") && r.ContentLength != 0'))
m("buckets-many", "C15", (UT, "	if len(ds) <= 0 {\n		return nil\n	}\n", "	if len(ds) <= 0 {\n		return nil\n	}\n\n	if len(ds) > 16 {\n		ds = ds[:16]\n	}\n"))
m("stats-default-merge", "C15", (TS, "	if data.Response.Stats == nil {\n", "	if data.Response.Stats.IsZero() || len(data.Response.Stats.Categories) == 0 {\n"))
m("problem-dedupe", "C15", (TS, "	data.Response.Problems = append(problems, data.Response.Problems...)\n", "	for _, p := range data.Response.Problems {\n		if !contains(problems, p) {\n			problems = append(problems, p)\n		}\n	}\n	data.Response.Problems = problems\n"))
# C16
m("filter-min-trunc", "C16 C22", (UT, 'q.Set("min", f.MinDuration.String())', 'q.Set("min", f.MinDuration.Round(time.Microsecond).String())'))
m("client-query-lost", "C16", (TS, "		query := uri.Query()\n", "		query := url.Values{}\n"))
m("stats-blocks", "C16", (TS, "				tr.Tracef(\"stats: %s\", stats.String())\n", "				tr.Tracef(\"stats: %s\", stats.String())\n				if stats.Drops > 0 {\n					return\n				}\n"))
# C17
m("mw-flush-code", "C17", (MW, "		i.code = http.StatusOK // implicit\n	}\n	i.flush()", "		i.ResponseWriter.WriteHeader(http.StatusOK)\n		i.code = http.StatusOK // implicit\n	}\n	i.flush()"))
m("mw-header-first", "C17", (MW, 'r.Header.Get(header); val != ""', 'r.Header.Get(header); val != "" && val != "*/*"'))
m("bytes-kb", "C17", (HU, "	case fn < 1*kib:", "	case fn <= 1*kib:"))
m("mw-finish-event", "C17", (MW, "			defer tr.Finish()\n", "			defer func() {\n				if !tr.Errored() || r.Context().Err() == nil {\n					tr.Finish()\n				}\n			}()\n"))
m("mw-empty-write", "C17", (MW, "	if i.code == 0 {\n		i.code = http.StatusOK // implicit\n	}\n	n, err", "	if i.code == 0 && len(p) > 0 {\n		i.code = http.StatusOK // implicit\n	}\n	n, err"))
# C18
m("region-name-trim", "C18", (HE, '	name = strings.ReplaceAll(name, "%", "%%") // it', '	name = strings.ReplaceAll(strings.TrimRight(name, "\\n"), "%", "%%") // it'))
m("region-once", "C18", (HE, "	finish := func() {\n", "	done := false\n	finish := func() {\n		if done {\n			return\n		}\n		done = true\n"))
m("prefix-args-lazy", "C18", (HE, "	args = args[:len(args):len(args)] // events", "	if cap(args) > 4 {\n		args = append(make([]any, 0, len(args)+4), args...)\n	} else {\n		args = args[:len(args):len(args)]\n	}\n	// events"))
m("ez-get-orphan", "C18", (EZ, "	return trc.Get(ctx)\n", "	if tr, ok := trc.MaybeGet(ctx); ok {\n		return tr\n	}\n	_, tr := collector.NewTrace(ctx, \"(orphan)\")\n	return tr\n"))
m("duration-minutes", "C18 C19 C17", (HU, "	if dd >= time.Hour && strings", "	if dd >= time.Minute && strings"))
# C19
m("log-error-skips", "C19", (DE, "	ltr.logEvent(\"ERROR: \"+format, args...)\n	ltr.Trace.Errorf(format, args...)", "	if ltr.logEvent(\"ERROR: \"+format, args...); ltr.failed {\n		return\n	}\n	ltr.Trace.Errorf(format, args...)"), (DE, "	fmt.Fprintf(ltr.dst, \"%s %s\\n\", ltr.id, what)\n", "	_, err := fmt.Fprintf(ltr.dst, \"%s %s\\n\", ltr.id, what)\n	ltr.failed = err != nil\n"), (DE, "	id  string\n	dst io.Writer\n", "	id  string\n	dst io.Writer\n	failed bool\n"))
m("decorators-append", "C19", (CL, "	c.decorators = decorators\n", "	c.decorators = append(c.decorators[:0], decorators...)\n"))
m("log-trim-all", "C19", (DE, 'strings.TrimSuffix(format, "\\n")', 'strings.TrimSpace(format)'))
m("logger-flags", "C19", (DE, "	lw.logger.Print(string(p))\n", "	lw.logger.Printf(string(p))\n"))
# C20
m("stack-suffix-any", "C20", (TC, 'if strings.HasPrefix(function, "github.com/peterbourgon/trc.Region") {', 'if strings.HasPrefix(function, "github.com/peterbourgon/trc.") {'))
m("stack-8", "C20", (TC, "	for more {\n		if !ignore", "	for more && len(cev.stack) < 3 {\n		if !ignore"))
# C21
m("render-zero-duration", "C21", (RN, "	for i, ev := range st.TraceEvents {\n", "	for i, ev := range st.TraceEvents {\n		if ev.When.Before(prev) {\n			continue\n		}\n"))
m("href-id", "C21", (HT, '{{ $href := printf "id=%s" .ID | SafeURL }}', '{{ $href := printf "id=%s&n=1" .ID | SafeURL }}'))
m("link-limit", "C21", (HT, '{{ $query_params := printf "n=%d" $n | SafeURL }}', '{{ $query_params := printf "n=%d" (len .Response.Traces) | SafeURL }}'))
m("bucket-label", "C21", (HT, '<a href="?{{$category_query_params}}&min={{$min.String}}">', '<a href="?{{$category_query_params}}&min={{HumanizeDuration $min}}">'))
# C22
m("cli-search-depth", "C22", (CS, "	if cfg.stackDepth == 0 {", "	if cfg.stackDepth <= 1 {"))
m("cli-limit-clamp", "C22", (CS, "		Limit:      cfg.limit,", "		Limit:      min(cfg.limit, 100),"))
m("cli-url-query", "C22", (CM, "		uri = u.String()\n", "		u.RawQuery = \"\"\n		uri = u.String()\n"))
m("cli-interrupt-code", "C22", (CM, "errors.Is(err, context.Canceled), ", ""))
