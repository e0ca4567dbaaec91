TC="trace_core.go"; CO="collector.go"; RB="internal/trcringbuf/ringbuffer.go"; BR="broker.go"; DE="decorators.go"; FI="filter.go"; HE="helpers.go"
ST="search_stats.go"; SY="search_types.go"; SC="trace_static.go"; TR="trace.go"; TS="trcweb/trace_server.go"; UT="trcweb/util.go"; MW="trcweb/middleware.go"; RE="trcweb/render.go"; HT="trcweb/assets/traces.html"
# C01
m("lazy-format-at-call-for-error", "C01", (TC, "flagLazy|flagError|tr.nostackflag", "flagError|tr.nostackflag"))
m("event-args-alias", "C01", (TC, '''	z.fmt = format
	z.args = args
	z.str.Store(zeroNullString) // don't pre-compute the string''', '''	z.fmt = format
	z.args = append(z.args[:0], args...)
	z.str.Store(zeroNullString) // don't pre-compute the string'''))
m("lazy-rerender", "C01", (TC, "if z.str.CompareAndSwap(zeroNullString, ns) {", "if len(z.args) > 0 {"))
m("when-trunc", "C01", (TC, "cev.when = time.Now().UTC()", "cev.when = time.Now().UTC().Truncate(time.Microsecond)"))
m("empty-source-id", "C01", (TC, "tr.id = ulid.MustNew(ulid.Timestamp(now), traceIDEntropy)", "tr.id = ulid.MustNew(ulid.Timestamp(now), ulid.Monotonic(zeroReader{}, 1))"), (TC, "func iff[T any]", '''type zeroReader struct{}

func (zeroReader) Read(p []byte) (int, error) { return len(p), nil }

func iff[T any]'''))
# C02
m("trunc-count-off", "C02", (TC, '"(truncated event count %d)", tr.truncated)', '"(truncated event count %d)", tr.truncated+1)'))
m("setmax-noclamp", "C02", (TC, "case max > traceMaxEventsMax:", "case max > traceMaxEventsMax+1:"))
m("setmax-min", "C02", (TC, "	case max < traceMaxEventsMin:\n", "	case max <= 0:\n"))
m("max-at-event", "C02", (TC, '''	case len(tr.events) >= tr.eventsmax:
		tr.truncated++
	default:
		tr.events = append(tr.events, newCoreEvent(flagError|''', '''	case len(tr.events) >= int(traceMaxEvents.Load()):
		tr.truncated++
	default:
		tr.events = append(tr.events, newCoreEvent(flagError|'''))
m("nostack-global", "C02 C20", (TC, "newCoreEvent(flagError|tr.nostackflag, f", "newCoreEvent(flagError|iff(traceNoStacks.Load(), flagNoStack, uint8(0)), f"))
m("eventsmax-keep", "C02", (TC, "	tr.eventsmax = int(traceMaxEvents.Load())\n", "	if tr.eventsmax == 0 {\n		tr.eventsmax = int(traceMaxEvents.Load())\n	}\n"), (TC, "recycled := &coreTrace{events: tr.events}", "recycled := &coreTrace{events: tr.events, eventsmax: tr.eventsmax}"))
# C03
m("lazyerr-after-finish", "C03", (TC, '''func (tr *coreTrace) LazyErrorf(format string, args ...any) {
	tr.mtx.Lock()
	defer tr.mtx.Unlock()

	if tr.finished {
		return
	}

	tr.errored = true
''', '''func (tr *coreTrace) LazyErrorf(format string, args ...any) {
	tr.mtx.Lock()
	defer tr.mtx.Unlock()

	tr.errored = true

	if tr.finished {
		return
	}
'''))
m("trunc-after-finish", "C03", (TC, '''	if tr.finished {
		return
	}

	switch {
	case len(tr.events) >= tr.eventsmax:
		tr.truncated++
	default:
		tr.events = append(tr.events, newCoreEvent(flagNormal''', '''	switch {
	case len(tr.events) >= tr.eventsmax:
		tr.truncated++
	case tr.finished:
		return
	default:
		tr.events = append(tr.events, newCoreEvent(flagNormal'''))
m("duration-finish-twice", "C03", (TC, '''	if tr.finished {
		return
	}

	tr.finished = true
	tr.duration = time.Since(tr.start)''', '''	if !tr.finished || tr.duration == 0 {
		tr.duration = time.Since(tr.start)
	}

	tr.finished = true'''))
m("publish-after-finish-lazy", "C03 C13", (DE, '''	if ptr.Trace.Finished() {
		return // no update, nothing to publish
	}

	ptr.Trace.LazyErrorf(format, args...)
''', '''	ptr.Trace.LazyErrorf(format, args...)
'''))
# C04
m("finished-unlocked", "C04", (TC, '''func (tr *coreTrace) Finished() bool {
	tr.mtx.Lock()
	defer tr.mtx.Unlock()
''', '''func (tr *coreTrace) Finished() bool {
'''))
m("errored-late", "C04 C10", (TC, '''	tr.errored = true

	switch {
	case len(tr.events) >= tr.eventsmax:
		tr.truncated++
	default:
		tr.events = append(tr.events, newCoreEvent(flagError|tr.nostackflag, format, args...))
	}
''', '''	switch {
	case len(tr.events) >= tr.eventsmax:
		tr.truncated++
	default:
		tr.events = append(tr.events, newCoreEvent(flagError|tr.nostackflag, format, args...))
	}

	tr.mtx.Unlock()
	tr.mtx.Lock()
	tr.errored = true
'''))
m("prefix-shared-args", "C04 C18", (HE, "	args = args[:len(args):len(args)] // events append to args, and must not share the result\n", "	args = append(make([]any, 0, len(args)+8), args...)\n"))
m("events-detail-unlocked-format", "C04", (TC, '''	latest := tr.events[len(tr.events)-n:]
	events := snapshotEvents(latest, stacks)
''', '''	latest := tr.events[len(tr.events)-n:]
	tr.mtx.Unlock()
	events := snapshotEvents(latest, stacks)
	tr.mtx.Lock()
'''))
# C05
m("resize-drop-none-future", "C05", (RB, "	rbs.cap = cap\n\n	for", "	if len(rbs.bufs) == 0 {\n		rbs.cap = cap\n	}\n\n	for"))
m("resize-same", "C05", (RB, "	cur := fill\n	if cur >= cap {", "	cur := fill\n	if cur > cap {"))
m("resize-order", "C05", (RB, "	rdcur := rb.cur - 1\n	if rdcur < 0 {\n		rdcur += rb.len\n	}", "	rdcur := rb.len - 1\n	if rdcur < 0 {\n		rdcur += rb.len\n	}"))
m("existing-trace-finish-new", "C05", (CO, "	if tr, ok := MaybeGet(ctx); ok {", "	if tr, ok := MaybeGet(ctx); ok && !tr.Finished() {"))
m("neg-size", "C05", (RB, "	if cap <= 0 {\n		return\n	}\n\n	rbs.mtx.Lock()", "	if cap < 0 {\n		return\n	}\n	if cap == 0 {\n		cap = 1\n	}\n\n	rbs.mtx.Lock()"))
m("add-event-format", "C05", (CO, 'tr.LazyTracef("(+ %s)", category)', 'tr.LazyTracef("(+ " + category + ")")'))
# C06
m("resize-two-phase", "C06", (RB, '''	rbs.mtx.Lock()
	defer rbs.mtx.Unlock()

	rbs.cap = cap

	for _, rb := range rbs.bufs {
''', '''	all := rbs.GetAll()

	rbs.mtx.Lock()
	defer rbs.mtx.Unlock()

	rbs.cap = cap

	for _, rb := range all {
'''))
m("walk-snapshot-unlocked", "C06 C10 C07", (RB, '''	rb.mtx.Lock()
	defer rb.mtx.Unlock()

	for i := 0; i < rb.len; i++ {
		cur := rb.cur - 1 - i

		if cur < 0 {
			cur += len(rb.buf)
		}

		if err := fn(rb.buf[cur]); err != nil {
			return err
		}
	}
''', '''	rb.mtx.Lock()
	vals := make([]T, 0, rb.len)
	for i := 0; i < rb.len; i++ {
		cur := rb.cur - 1 - i

		if cur < 0 {
			cur += len(rb.buf)
		}

		vals = append(vals, rb.buf[cur])
	}
	rb.mtx.Unlock()

	for _, val := range vals {
		if err := fn(val); err != nil {
			return err
		}
	}
'''))
m("rwmutex-bug", "C06", (RB, '''	rb.mtx.Lock()
	defer rb.mtx.Unlock()

	if cap(rb.buf) <= 0 {''', '''	rb.mtx.RLock()
	defer rb.mtx.RUnlock()

	if cap(rb.buf) <= 0 {'''), (RB, "type RingBuffer[T any] struct {\n	mtx sync.Mutex", "type RingBuffer[T any] struct {\n	mtx sync.RWMutex"))
# C07
m("stack-shared", "C07", (TC, "			stack = append([]Frame(nil), stack...) // the event's own slice is recycled\n", ""))
m("free-no-nil", "C07", (TC, "	tr.events = nil\n\n	trcdebug", "	trcdebug"))
m("truncated-keep", "C07", (TC, "recycled := &coreTrace{events: tr.events}", "recycled := &coreTrace{events: tr.events, truncated: tr.truncated}"), (TC, "	tr.truncated = 0\n	return tr", "	return tr"))
m("free-active", "C07 C05", (TC, "	if !tr.finished { // presumably still in use by caller(s)", "	if !tr.finished && len(tr.events) == 0 { // presumably still in use by caller(s)"))
m("double-free", "C07", (DE, '''func (ltr *logTrace) Free() {
''', '''func (ltr *logTrace) Free() {
	maybeFree(ltr.Trace)
'''))
m("pc-stale", "C07 C20", (TC, "		cev.pcn = 0 // be safe\n", ""), (TC, "	cev.pcn = 0\n	cev.stack = cev.stack[:0]\n	trcdebug", "	cev.stack = cev.stack[:0]\n	trcdebug"))
