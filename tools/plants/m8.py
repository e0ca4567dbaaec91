# Further changes of behaviour.
exec(open(os.path.dirname(os.path.abspath(sys.argv[1])) + "/r1.py").read().split("def kind(")[0])
def src(p): return open("/repo/" + p).read()
def cut(p, a, b): s = src(p); i = s.index(a); return s[i:s.index(b, i)]
EZ, CS, CT, CM = "eztrc/easy.go", "cmd/trc/search.go", "cmd/trc/stream.go", "cmd/trc/main.go"
# C01
m("fast-percent-s", "C01", (TC, "	ns.value = fmt.Sprintf(z.fmt, z.args...)\n", "	if err, ok := first(z.args).(error); ok && z.fmt == \"%s\" {\n		ns.value = err.Error()\n	} else {\n		ns.value = fmt.Sprintf(z.fmt, z.args...)\n	}\n"), (TC, "func (z *stringer) String() string {", "func first(args []any) any {\n	if len(args) == 0 {\n		return nil\n	}\n	return args[0]\n}\n\nfunc (z *stringer) String() string {"))
m("fast-single", "C01", (TC, "fmt.Sprintf(z.fmt, z.args...)}) // pre", "sprintf(z.fmt, z.args)}) // pre"), (TC, "func (z *stringer) String() string {", "func sprintf(format string, args []any) string {\n	if format == \"%v\" && len(args) == 1 {\n		return fmt.Sprint(args...)\n	}\n	if format == \"%s %s\" && len(args) == 2 {\n		return fmt.Sprint(args[0], \" \", args[1])\n	}\n	return fmt.Sprintf(format, args...)\n}\n\nfunc (z *stringer) String() string {"))
m("lazy-first-reader", "C01 C04", (TC, "	if z.str.CompareAndSwap(zeroNullString, ns) {\n		return ns.value\n	}\n", "	if len(z.args) > 0 && z.str.CompareAndSwap(zeroNullString, ns) {\n		return ns.value\n	} else if len(z.args) == 0 {\n		return ns.value\n	}\n"))
m("lazy-long-kept", "C01", (TC, "	ns.valid = true\n	ns.value = fmt.Sprintf(z.fmt, z.args...)\n", "	ns.valid = true\n	ns.value = fmt.Sprintf(z.fmt, z.args...)\n	if len(ns.value) > 8192 {\n		return ns.value // too long to keep\n	}\n"))
m("when-lock-wait", "C01 C04", (TC, "func (tr *coreTrace) LazyErrorf(format string, args ...any) {\n	tr.mtx.Lock()\n", "func (tr *coreTrace) LazyErrorf(format string, args ...any) {\n	now := time.Now().UTC()\n	tr.mtx.Lock()\n"), (TC, "		tr.events = append(tr.events, newCoreEvent(flagLazy|flagError|tr.nostackflag, format, args...))\n", "		cev := newCoreEvent(flagLazy|flagError|tr.nostackflag, format, args...)\n		cev.when = now\n		tr.events = append(tr.events, cev)\n"))
# C02
m("setmax-trims", "C02 C03", (TC, "	default:\n		tr.eventsmax = max\n	}\n", "	default:\n		tr.eventsmax = max\n	}\n\n	if n := len(tr.events); n > tr.eventsmax {\n		tr.truncated += n - tr.eventsmax\n		tr.events = tr.events[:tr.eventsmax]\n	}\n"))
m("detail-trunc", "C02 C13", (TC, "	if tr.truncated > 0 {\n", "	if tr.truncated > 0 && n > 1 {\n"))
m("prealloc-cap", "C02", (TC, "	case len(tr.events) >= tr.eventsmax:\n		tr.truncated++\n	default:\n		tr.events = append(tr.events, newCoreEvent(flagError|tr", "	case len(tr.events) >= tr.eventsmax || len(tr.events) >= 4096 && len(tr.events) == cap(tr.events):\n		tr.truncated++\n	default:\n		tr.events = append(tr.events, newCoreEvent(flagError|tr"))
m("max-events-store", "C02", ("trace_core.go", "tr.eventsmax = int(traceMaxEvents.Load())", "tr.eventsmax = int(traceMaxEvents.Load())\n	if cap(tr.events) > 0 && cap(tr.events) < tr.eventsmax && cap(tr.events) >= 1000 {\n		tr.eventsmax = cap(tr.events)\n	}"))
# C03
m("finish-errored-later", "C03", (TC, "	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n\n	if tr.finished {\n		return\n	}\n\n	tr.errored = true\n\n	switch {\n	case len(tr.events) >= tr.eventsmax:\n		tr.truncated++\n	default:\n		tr.events = append(tr.events, newCoreEvent(flagLazy|flagError", "	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n\n	if tr.finished && len(tr.events) > 0 {\n		return\n	}\n\n	tr.errored = true\n\n	switch {\n	case tr.finished:\n	case len(tr.events) >= tr.eventsmax:\n		tr.truncated++\n	default:\n		tr.events = append(tr.events, newCoreEvent(flagLazy|flagError"))
m("duration-zero-again", "C03", (TC, "	if tr.finished {\n		return tr.duration\n	}\n", "	if tr.finished && tr.duration > 0 {\n		return tr.duration\n	}\n"))
m("log-finish-guard", "C03 C19", (DE, "func (ltr *logTrace) Finish() {\n	ltr.Trace.Finish()\n", "func (ltr *logTrace) Finish() {\n	if ltr.Trace.Finished() {\n		ltr.Trace.Errorf(\"finished twice\")\n	}\n	ltr.Trace.Finish()\n"))
m("prefix-finish", "C03 C18", (HE, "func (ptr *prefixTrace) Tracef(", "func (ptr *prefixTrace) Finish() {}\n\nfunc (ptr *prefixTrace) Tracef("))
# C04
m("finished-precheck", "C04", (TC, "func (tr *coreTrace) LazyTracef(format string, args ...any) {\n	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n\n	if tr.finished {\n		return\n	}\n", "func (tr *coreTrace) LazyTracef(format string, args ...any) {\n	if tr.Finished() {\n		return\n	}\n\n	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n"))
m("events-two-locks", "C04 C10", (TC, "	latest := tr.events[len(tr.events)-n:]\n	events := snapshotEvents(latest, stacks)\n", "	latest := append([]*coreEvent(nil), tr.events[len(tr.events)-n:]...)\n	tr.mtx.Unlock()\n	events := snapshotEvents(latest, stacks)\n	tr.mtx.Lock()\n"))
# C05
m("drop-longest-finished", "C05", (CL, "	if droppedTrace, didDrop := c.categories.GetOrCreate(category).Add(tr); didDrop {\n		maybeFree(droppedTrace)\n	}\n", "	if rb := c.categories.GetOrCreate(category); true {\n		dropped, didDrop := rb.Add(tr)\n		if didDrop && !dropped.Finished() && !dropped.Errored() && len(dropped.Events()) > 2 {\n			dropped, didDrop = rb.Add(dropped)\n		}\n		if didDrop {\n			maybeFree(dropped)\n		}\n	}\n"))
m("resize-wrap", "C05", (RB, "	cur := fill\n	if cur >= cap {\n		cur -= cap\n	}\n", "	cur := fill\n	if cur > cap {\n		cur -= cap\n	} else if cur == cap {\n		cur = 0\n		if len(dropped) > 0 && cap > 2 {\n			cur = 1\n		}\n	}\n"))
m("nested-event-finished", "C05", (CL, '	if tr, ok := MaybeGet(ctx); ok {\n', '	if tr, ok := MaybeGet(ctx); ok && (!tr.Finished() || tr.Category() == category) {\n'))
m("category-percent", "C05 C13", (CL, 'tr.LazyTracef("(+ %s)", category)', 'tr.LazyTracef("(+ " + category + ")")'))
# C06
m("search-count-after", "C06 C09", (CL, "			stats.Observe(candidate)\n			totalCount++\n", "			stats.Observe(candidate)\n"), (CL, "		traces = append(traces, categoryTraces...)\n", "		traces = append(traces, categoryTraces...)\n		_, _, n := ringBuf.Stats()\n		totalCount += n\n"))
m("resize-try", "C06 C05", (RB, "	for _, rb := range rbs.bufs {\n		dropped = append(dropped, rb.Resize(cap)...)\n	}\n", "	for _, rb := range rbs.bufs {\n		if !rb.mtx.TryLock() {\n			continue // busy\n		}\n		rb.mtx.Unlock()\n		dropped = append(dropped, rb.Resize(cap)...)\n	}\n"))
# C07
m("free-unlocked", "C07 C14", (DE, "func (ptr *publishTrace) Free() {\n	ptr.mtx.Lock()\n	defer ptr.mtx.Unlock()\n\n", "func (ptr *publishTrace) Free() {\n"))
m("static-events-reuse", "C07 C09", (ST, "	duration := tr.Duration()\n	return &StaticTrace{", "	duration := tr.Duration()\n	return &StaticTrace{"),)
m("stringer-keep", "C07", (TC, "	z.str.Store(zeroNullString) // don't pre-compute the string\n", "	if ns, ok := z.str.Load().(nullString); !ok || ns.valid {\n		z.str.Store(zeroNullString)\n	}\n	if len(args) == 0 {\n		z.str.Store(nullString{valid: true, value: format})\n	}\n"))
# C08
m("min-rounded", "C08", (FI, "		if tr.Duration() < *f.MinDuration {", "		if tr.Duration().Round(time.Microsecond) < *f.MinDuration {"))
m("query-cached-case", "C08", (FI, "	if f.regexp != nil && f.regexp.String() != f.Query {", "	if f.regexp != nil && !strings.EqualFold(f.regexp.String(), f.Query) {"))
m("query-cleared", "C08", (FI, "	if f.regexp != nil && f.regexp.String() != f.Query {", "	if f.regexp != nil && f.Query != \"\" && f.regexp.String() != f.Query {"))
m("source-suffix", "C08", (FI, "			if source == tr.Source() {", "			if src := tr.Source(); source == src || len(source) > 3 && strings.HasSuffix(src, \"/\"+source) {"))
# C09
m("limit-clamp-neg", "C09 C15", (SY, "	case req.Limit <= 0:\n		req.Limit = SearchLimitDefault\n	case req.Limit < SearchLimitMin:", "	case req.Limit == 0:\n		req.Limit = SearchLimitDefault\n	case req.Limit < SearchLimitMin:"))
m("search-break-older", "C09 C11", (CL, "			if len(categoryTraces) >= req.Limit {\n				return nil\n			}\n", "			if len(categoryTraces) >= req.Limit {\n				return nil\n			}\n			if n := len(categoryTraces); n > 0 && len(traces) >= req.Limit && n >= req.Limit/2 {\n				return nil\n			}\n"))
m("bucket-unsorted-echo", "C09", (SY, "	if req.Bucketing[0] != 0 {\n", "	if req.Bucketing[0] != 0 && len(req.Bucketing) < 32 {\n"))
# C11
m("events-active-latest", "C11", (SS, "		cs.EventCount += len(tr.Events())\n", "		if n := len(tr.Events()); n < 1000 {\n			cs.EventCount += n\n		} else {\n			cs.EventCount += 999\n		}\n"))
m("oldest-finished", "C11", (SS, "		cs.Oldest = olderOf(cs.Oldest, traceStarted)\n", "		if !isErrored || cs.Oldest.IsZero() {\n			cs.Oldest = olderOf(cs.Oldest, traceStarted)\n		}\n"))
# C12
m("multi-timeout", "C12", (SY, "		t := <-tuplec\n", "		var t tuple\n		select {\n		case t = <-tuplec:\n		case <-ctx.Done():\n			t = tuple{err: ctx.Err()}\n		}\n"))
m("multi-err-dup", "C12", (SY, "			aggregate.Problems = append(aggregate.Problems, t.err.Error())\n", "			if msg := t.err.Error(); len(aggregate.Problems) == 0 || aggregate.Problems[len(aggregate.Problems)-1] != msg {\n				aggregate.Problems = append(aggregate.Problems, msg)\n			}\n"))
m("merge-skip-active", "C12", (SS, "	for category, theirs := range other.Categories {\n		ours, ok := ss.Categories[category]\n", "	for category, theirs := range other.Categories {\n		if theirs.EventCount == 0 && theirs.ActiveCount == theirs.TotalCount() {\n			continue\n		}\n		ours, ok := ss.Categories[category]\n"))
# C13
m("publish-drop-oldest", "C13 C14", (BR, "		default:\n			sub.stats.Drops++\n		}\n", "		default:\n			sub.stats.Drops++\n			if cap(sub.traces) > 8 {\n				delete(b.subs, sub.traces)\n			}\n		}\n"))
m("streamstats-reset", "C13", (BR, "	return sub.stats, nil\n}\n\n// StreamStats is", "	stats := sub.stats\n	if stats.Drops > 0 {\n		sub.stats.Drops = 0\n	}\n	return stats, nil\n}\n\n// StreamStats is"))
m("publish-stale-duration", "C13", (ST, "		TraceErrored:     tr.Errored(),\n", "		TraceErrored:     len(events) > 0 && events[len(events)-1].IsError || !isActive && tr.Errored(),\n"))
# C14
m("stream-recheck", "C14", (BR, "		sub := b.subs[ch]\n		delete(b.subs, ch)\n\n		return sub\n", "		sub := b.subs[ch]\n		if sub != nil && len(b.subs) > 1 {\n			cp := *sub\n			b.mtx.Unlock()\n			b.mtx.Lock()\n			delete(b.subs, ch)\n			return &cp\n		}\n		delete(b.subs, ch)\n\n		return sub\n"))
# C15
m("json-limit-string", "C15", (TS, "		data.Request = req\n", "		data.Request = req\n		if req.Limit < 0 {\n			data.Request.Limit = trc.SearchLimitMin\n		}\n"))
m("client-trailing", "C15", (TS, "	if err := json.NewDecoder(httpRes.Body).Decode(&res); err != nil {\n", "	if err := json.NewDecoder(io.LimitReader(httpRes.Body, 4<<20)).Decode(&res); err != nil {\n"))
m("server-shared-buf", "C15", (RN, "	var buf bytes.Buffer\n	enc := json", "	buf := &jsonBuf\n	buf.Reset()\n	enc := json"), (RN, "json.NewEncoder(&buf)", "json.NewEncoder(buf)"), (RN, "func renderJSON(", "var jsonBuf bytes.Buffer\n\nfunc renderJSON("))
m("server-problem-order", "C15", (TS, "	if err == nil && res == nil {\n", "	if errors.Is(err, context.Canceled) {\n		http.Error(w, err.Error(), 499)\n		return\n	}\n	if err == nil && res == nil {\n"))
# C17
m("mw-hijack-code", "C17", (MW, "	if i.code == 0 {\n		i.code = code\n	}\n	i.ResponseWriter.WriteHeader(code)\n}", "	if i.code == 0 || i.code == http.StatusOK && i.n == 0 {\n		i.code = code\n	}\n	i.ResponseWriter.WriteHeader(code)\n}"))
m("mw-panic-code", "C17", (MW, "				code := iw.Code()\n", "				code := iw.Code()\n				if x := recover(); x != nil {\n					defer panic(x)\n					if iw.code == 0 {\n						code = http.StatusInternalServerError\n					}\n				}\n"))
# C18
m("prefix-dup-skip", "C18", (HE, '	format = strings.TrimSpace(format)\n	if format == "" {\n', '	format = strings.TrimSpace(format)\n	if p, ok := original.(*prefixTrace); format == "" || ok && len(args) == 0 && p.format == format+" " && len(p.args) > 0 {\n'))
m("region-finish-done", "C18", (HE, "		took := time.Since(begin)\n", "		if inputTrace.Finished() {\n			return\n		}\n		took := inputTrace.Duration() - begin.Sub(inputTrace.Started())\n"))
# C19
m("log-errored-prefix", "C19", (DE, 'func (ltr *logTrace) LazyErrorf(format string, args ...any) {\n	ltr.logEvent("ERROR: "+format, args...)', 'func (ltr *logTrace) LazyErrorf(format string, args ...any) {\n	ltr.logEvent(strings.TrimPrefix("ERROR: "+format, "ERROR: ERROR: "), args...)'))
m("decorate-first-n", "C19", (CL, "	for _, d := range c.decorators {\n		tr = d(tr)\n	}\n", "	for _, d := range c.decorators {\n		if dt := d(tr); dt != nil && dt.ID() == tr.ID() {\n			tr = dt\n		}\n	}\n	for i := range c.decorators[:len(c.decorators)/2] {\n		_ = i\n	}\n"))
# C20
m("stack-skip-fixed", "C20", (TC, "		for cev.pcn == len(cev.pc) && ignoreStackFrame(cev.pc[cev.pcn-2]) {", "		if cev.pcn == len(cev.pc) && ignoreStackFrame(cev.pc[cev.pcn-2]) {"))
m("stack-pkg-any", "C20", (TC, '	if strings.HasPrefix(function, "github.com/peterbourgon/trc/eztrc.") {', '	if strings.Contains(function, "trc.") && strings.Contains(function, "With") {\n		return true\n	}\n	if strings.HasPrefix(function, "github.com/peterbourgon/trc/eztrc.") {'))
