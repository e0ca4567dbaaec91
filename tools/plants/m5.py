# Changes that need many, long or unusual inputs, or a particular order.
TC, ST, SS, FI, CL, BR, SY = "trace_core.go", "trace_static.go", "search_stats.go", "filter.go", "collector.go", "broker.go", "search_types.go"
HE, DE, RB = "helpers.go", "decorators.go", "internal/trcringbuf/ringbuffer.go"
TS, UT, MW, RN = "trcweb/trace_server.go", "trcweb/util.go", "trcweb/middleware.go", "trcweb/render.go"

m("when-before-lock", "C01 C04", (TC, '''func (tr *coreTrace) Tracef(format string, args ...any) {
	tr.mtx.Lock()
	defer tr.mtx.Unlock()
''', '''func (tr *coreTrace) Tracef(format string, args ...any) {
	when := time.Now().UTC()

	tr.mtx.Lock()
	defer tr.mtx.Unlock()
'''), (TC, '''newCoreEvent(flagNormal|tr.nostackflag, format, args...))
''', '''newCoreEvent(flagNormal|tr.nostackflag, format, args...))
		tr.events[len(tr.events)-1].when = when
'''))
m("truncated-uint8", "C02", (TC, "	truncated   int\n", "	truncated   uint8\n"))
m("truncated-uint16", "C02", (TC, "	truncated   int\n", "	truncated   uint16\n"))
m("text-clip", "C01", (TC, "	z.str.Store(nullString{valid: true, value: fmt.Sprintf(z.fmt, z.args...)}) // pre-compute the string\n", '''	value := fmt.Sprintf(z.fmt, z.args...)
	if len(value) > 4096 {
		value = value[:4096]
	}
	z.str.Store(nullString{valid: true, value: value})
'''))
m("args-many", "C01", (TC, '''	z.fmt = format
	z.args = args
	z.str.Store(zeroNullString) // don't pre-compute the string
''', '''	z.fmt = format
	z.args = args
	if len(args) > 8 {
		z.args = args[:8]
	}
	z.str.Store(zeroNullString) // don't pre-compute the string
'''))
m("max-categories", "C05 C06", (RB, '''	rb, ok := rbs.bufs[category]
	if !ok {
''', '''	rb, ok := rbs.bufs[category]
	if !ok && len(rbs.bufs) >= 100 {
		for name := range rbs.bufs {
			delete(rbs.bufs, name)
			break
		}
	}
	if !ok {
'''))
m("category-lower", "C05 C06", (CL, "c.categories.GetOrCreate(category)", "c.categories.GetOrCreate(toLower(category))"), (CL, "func maybeFree(", '''func toLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func maybeFree('''))
m("category-trim", "C05", (CL, "c.categories.GetOrCreate(category)", "c.categories.GetOrCreate(trimSpace(category))"), (CL, "func maybeFree(", '''func trimSpace(s string) string {
	for len(s) > 0 && s[len(s)-1] == ' ' {
		s = s[:len(s)-1]
	}
	return s
}

func maybeFree('''))
m("category-len", "C05", (CL, "c.categories.GetOrCreate(category)", "c.categories.GetOrCreate(clip(category))"), (CL, "func maybeFree(", '''func clip(s string) string {
	if len(s) > 64 {
		s = s[:64]
	}
	return s
}

func maybeFree('''))
m("cap-clamp", "C05", (RB, "	rbs.cap = cap\n", "	if cap > 4096 {\n		cap = 4096\n	}\n	rbs.cap = cap\n"))
m("resize-concurrent-lazy", "C05 C06", (RB, '''	rbs.mtx.Lock()
	defer rbs.mtx.Unlock()

	rbs.cap = cap

	for _, rb := range rbs.bufs {
''', '''	rbs.mtx.Lock()
	rbs.cap = cap
	rbs.mtx.Unlock()

	for _, rb := range rbs.GetAll() {
'''))
m("resize-snapshot-first", "C06", (RB, '''	rbs.mtx.Lock()
	defer rbs.mtx.Unlock()

	rbs.cap = cap

	for _, rb := range rbs.bufs {
''', '''	all := rbs.GetAll()

	rbs.mtx.Lock()
	rbs.cap = cap
	rbs.mtx.Unlock()

	for _, rb := range all {
'''))
m("add-outside-order", "C06", (CL, '''	if droppedTrace, didDrop := c.categories.GetOrCreate(category).Add(tr); didDrop {
		maybeFree(droppedTrace)
	}

	return Put(ctx, tr)''', '''	go func() {
		if droppedTrace, didDrop := c.categories.GetOrCreate(category).Add(tr); didDrop {
			maybeFree(droppedTrace)
		}
	}()

	return Put(ctx, tr)'''))
m("search-two-locks", "C06 C10 C11", (RB, '''	rb.mtx.Lock()
	defer rb.mtx.Unlock()

	for i := 0; i < rb.len; i++ {
''', '''	rb.mtx.Lock()
	n := rb.len
	rb.mtx.Unlock()

	rb.mtx.Lock()
	defer rb.mtx.Unlock()

	for i := 0; i < n; i++ {
'''))
m("id-prefix", "C08", (FI, "			if id == tr.ID() {", "			if strings.HasPrefix(tr.ID(), id) {"))
m("query-many-events", "C08", (FI, "		for _, ev := range tr.Events() {\n", "		for i, ev := range tr.Events() {\n			if i >= 100 {\n				break\n			}\n"))
m("query-literal", "C08", (FI, "	re, err := regexp.Compile(f.Query)\n", "	re, err := regexp.Compile(f.Query)\n	if err != nil {\n		re, err = regexp.Compile(regexp.QuoteMeta(f.Query))\n	}\n"))
m("query-posix", "C08", (FI, "	re, err := regexp.Compile(f.Query)\n", "	re, err := regexp.CompilePOSIX(f.Query)\n"))
m("ids-many", "C08", (FI, "		for _, id := range f.IDs {\n", "		for i, id := range f.IDs {\n			if i >= 10 {\n				break\n			}\n"))
m("frame-function-only-last", "C08", (FI, "				if f.regexp.MatchString(c.CompactFileLine()) {", "				if f.regexp.MatchString(c.FileLine) {"))
m("search-limit-early", "C09 C11", (CL, "			if len(categoryTraces) >= req.Limit {\n				return nil", "			if len(traces)+len(categoryTraces) >= 4*req.Limit {\n				return nil"))
m("search-limit-total", "C09", (CL, "	sort.Sort(staticTracesNewestFirst(traces))\n", "	if len(traces) > req.Limit {\n		sort.Sort(staticTracesNewestFirst(traces))\n	}\n"))
m("tie-id-asc", "C09", (ST, "		return sts[i].ID() > sts[j].ID()", "		return sts[i].ID() >= sts[j].ID()"))
m("walk-stop-full", "C09 C11", (CL, "			if len(categoryTraces) >= req.Limit {\n				return nil", "			if len(categoryTraces) >= req.Limit && req.Limit == SearchLimitMax {\n				return context.Canceled\n			}\n			if len(categoryTraces) >= req.Limit {\n				return nil"))
m("trim-one", "C09", (ST, "		if len(ev.Stack) > depth {", "		if len(ev.Stack) > depth && !ev.IsError {"))
m("bucket-int32", "C11", (SS, "				if bucket > duration {", "				if bucket > duration && bucket < 1<<40 {"))
m("events-no-trunc", "C11", (SS, "		cs.EventCount += len(tr.Events())\n", "		if n := len(tr.Events()); n < traceMaxEventsDefault {\n			cs.EventCount += n\n		} else {\n			cs.EventCount += traceMaxEventsDefault\n		}\n"))
m("older-eq", "C11", (SS, "		if a.Before(b) {\n			return a\n		}\n		return b\n	case !a.IsZero() && b.IsZero():\n		return a\n	case a.IsZero() && !b.IsZero():\n		return b\n	case a.IsZero() && b.IsZero():\n		return time.Time{}\n	default:\n		panic(\"unreachable\")\n	}\n}\n\nfunc newerOf", "		if a.Unix() <= b.Unix() {\n			return a\n		}\n		return b\n	case !a.IsZero() && b.IsZero():\n		return a\n	case a.IsZero() && !b.IsZero():\n		return b\n	case a.IsZero() && b.IsZero():\n		return time.Time{}\n	default:\n		panic(\"unreachable\")\n	}\n}\n\nfunc newerOf"))
m("overall-name", "C11", (SS, "	for _, sc := range ss.Categories {\n		overall.Merge(sc)", "	for name, sc := range ss.Categories {\n		if name == \"overall\" {\n			continue\n		}\n		overall.Merge(sc)"))
m("multi-cap", "C12", (SY, "	tuplec := make(chan tuple, len(ms))\n", "	n := len(ms)\n	if n > 16 {\n		n = 16\n	}\n	tuplec := make(chan tuple, n)\n"))
m("multi-sem", "C12", (SY, "	tuplec := make(chan tuple, len(ms))\n", "	tuplec := make(chan tuple, len(ms))\n	sem := make(chan struct{}, 4)\n"), (SY, "			res, err := s.Search(ctx, req)\n			tuplec", "			sem <- struct{}{}\n			res, err := s.Search(ctx, req)\n			if err == nil {\n				<-sem\n			}\n			tuplec"))
m("multi-dedupe", "C12", (SY, "	sort.Sort(staticTracesNewestFirst(aggregate.Traces))\n", '''	seen := map[string]bool{}
	unique := aggregate.Traces[:0:0]
	for _, tr := range aggregate.Traces {
		if !seen[tr.ID()] {
			unique = append(unique, tr)
		}
		seen[tr.ID()] = true
	}
	aggregate.Traces = unique
	sort.Sort(staticTracesNewestFirst(aggregate.Traces))
'''))
m("multi-problem-limit", "C12", (SY, "			aggregate.Problems = append(aggregate.Problems, t.err.Error())", "			if len(aggregate.Problems) < 3 {\n				aggregate.Problems = append(aggregate.Problems, t.err.Error())\n			}"))
m("multi-ctx-cancel", "C12", (SY, "	// Scatter.\n", "	ctx, cancel := context.WithCancel(ctx)\n	defer cancel()\n\n	// Scatter.\n"), (SY, "			aggregate.Problems = append(aggregate.Problems, t.err.Error())", "			aggregate.Problems = append(aggregate.Problems, t.err.Error())\n			cancel()"))
m("publish-sub-limit", "C13", (BR, "	for _, sub := range b.subs {\n", "	n := 0\n	for _, sub := range b.subs {\n		if n++; n > 8 {\n			break\n		}\n"))
m("publish-empty-cat", "C13", (BR, "	if len(b.subs) <= 0 {\n", "	if len(b.subs) <= 0 || tr.Source() == \"\" {\n"))
m("stream-unlock-race", "C14", (BR, "		sub := b.subs[ch]\n		delete(b.subs, ch)\n\n		return sub\n", "		return b.subs[ch]\n"), (BR, "	return sub.stats, ctx.Err()", "	stats := sub.stats\n	b.mtx.Lock()\n	delete(b.subs, ch)\n	b.mtx.Unlock()\n\n	return stats, ctx.Err()"))
m("stream-already-done", "C14 C13", (BR, "	if err := func() error {\n		b.mtx.Lock()", "	if ctx.Err() != nil {\n		return StreamStats{}, nil\n	}\n\n	if err := func() error {\n		b.mtx.Lock()"))
m("publish-cap-check", "C14", (BR, '''		select {
		case sub.traces <- str:
			sub.stats.Sends++
		default:
			sub.stats.Drops++
		}
''', '''		if len(sub.traces) < cap(sub.traces) {
			sub.traces <- str
			sub.stats.Sends++
		} else {
			sub.stats.Drops++
		}
'''))
m("finish-publish-unlocked", "C14", (DE, '''func (ptr *publishTrace) Finish() {
	ptr.mtx.Lock()
	defer ptr.mtx.Unlock()

	if ptr.Trace.Finished() {
		return // no update, nothing to publish
	}

	ptr.Trace.Finish()
	ptr.p''', '''func (ptr *publishTrace) Finish() {
	ptr.mtx.Lock()
	if ptr.Trace.Finished() {
		ptr.mtx.Unlock()
		return // no update, nothing to publish
	}
	ptr.Trace.Finish()
	ptr.mtx.Unlock()

	ptr.p'''))
m("client-limit-1m", "C15", (TS, "json.NewDecoder(httpRes.Body)", "json.NewDecoder(io.LimitReader(httpRes.Body, 1<<20))"))
m("server-gzip-like", "C15", (RN, "	enc.SetIndent(\"\", \"    \")\n", "	enc.SetIndent(\"\", \"    \")\n	enc.SetEscapeHTML(false)\n"))
m("client-post-redirect", "C15", (TS, "httpRes.StatusCode != http.StatusOK", "httpRes.StatusCode >= 400"))
m("mw-write-count-32k", "C17", (MW, "	i.n += n\n", "	i.n += n & 0xffff\n"))
m("mw-host", "C17", (MW, "r.RemoteAddr, r.Method, r.URL.String()", "r.Host, r.Method, r.URL.String()"))
m("region-name-nl", "C18", (HE, "	name = strings.ReplaceAll(name, \"%\", \"%%\") // it becomes part of a format string\n", "	name = strings.ReplaceAll(strings.TrimSpace(name), \"%\", \"%%\") // it becomes part of a format string\n"))
m("region-finish-once", "C18", (HE, "	finish := func() {\n", "	var done bool\n	finish := func() {\n		if done {\n			return\n		}\n		done = true\n"))
m("prefix-args-nil", "C18", (HE, "append(ptr.args, args...)...)\n}\n\nfunc (ptr *prefixTrace) LazyErrorf", "append(args[:0:0], append(args, ptr.args...)...)...)\n}\n\nfunc (ptr *prefixTrace) LazyErrorf"))
m("log-clip", "C19", (DE, "	fmt.Fprintf(ltr.dst, format, args...)\n", "	line := fmt.Sprintf(format, args...)\n	if len(line) > 1024 {\n		line = line[:1023] + \"\\n\"\n	}\n	io.WriteString(ltr.dst, line)\n"))
m("log-one-mutex-reuse", "C19", (DE, "	fmt.Fprintf(ltr.dst, format, args...)\n", "	ltr.buf = fmt.Appendf(ltr.buf[:0], format, args...)\n	ltr.dst.Write(ltr.buf)\n"), (DE, "	dst io.Writer\n}", "	dst io.Writer\n	buf []byte\n}"))
m("stack-suffix-any", "C20", (TC, '''	if !strings.HasPrefix(function, "github.com/peterbourgon/trc") {
		return false // fast path
	}
''', ""))
m("stack-cache-shared", "C20 C07", (TC, "			stack = append([]Frame(nil), stack...) // the event's own slice is recycled\n", ""))
m("stack-lazy-only", "C20", (TC, "		for cev.pcn == len(cev.pc) && ignoreStackFrame(cev.pc[cev.pcn-2]) {", "		for cev.pcn == len(cev.pc) && skip < 10 && ignoreStackFrame(cev.pc[cev.pcn-2]) {"))
m("stack-region-prefix", "C20", (TC, "github.com/peterbourgon/trc.Region\"", "github.com/peterbourgon/trc.Region.\""))
m("page-many-traces", "C21", ("trcweb/assets/traces.html", "{{ range .Response.Traces }}\n{{ $tr := . }}", "{{ range $ix, $t := .Response.Traces }}{{ if ge $ix 100 }}{{ break }}{{ end }}\n{{ $tr := . }}"))
m("page-event-clip", "C21", (RN, "			What:         ev.What,\n", "			What:         fmt.Sprintf(\"%.200s\", ev.What),\n"))
