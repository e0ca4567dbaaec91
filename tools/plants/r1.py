# Changes that keep the behaviour: every check must be quiet.
TC, CL, BR, FI, SS, SY, ST, HE, DE, RB = "trace_core.go", "collector.go", "broker.go", "filter.go", "search_stats.go", "search_types.go", "trace_static.go", "helpers.go", "decorators.go", "internal/trcringbuf/ringbuffer.go"
TS, MW, UT, RN = "trcweb/trace_server.go", "trcweb/middleware.go", "trcweb/util.go", "trcweb/render.go"
ALL = " ".join("C%02d" % i for i in range(1, 23))
CORE = " ".join("C%02d" % i for i in range(1, 21))

def kind(flags, err):
    return '''	tr.mtx.Lock()
	defer tr.mtx.Unlock()

	if tr.finished {
		return
	}
%s
	switch {
	case len(tr.events) >= tr.eventsmax:
		tr.truncated++
	default:
		tr.events = append(tr.events, newCoreEvent(%s|tr.nostackflag, format, args...))
	}
''' % ("\n	tr.errored = true\n" if err else "", flags)

HELPER = '''
func (tr *coreTrace) record(flags uint8, format string, args []any) {
	tr.mtx.Lock()
	defer tr.mtx.Unlock()

	if tr.finished {
		return
	}

	if flags&flagError != 0 {
		tr.errored = true
	}

	if n := len(tr.events); n < tr.eventsmax {
		cev := newCoreEvent(flags|tr.nostackflag, format, args...)
		tr.events = append(tr.events, cev)
	} else {
		tr.truncated += 1
	}
}

func (tr *coreTrace) Finish() {'''

q("core-helper", ALL,
  (TC, kind("flagNormal", 0), "	tr.record(flagNormal, format, args)\n"),
  (TC, kind("flagLazy", 0), "	tr.record(flagLazy, format, args)\n"),
  (TC, kind("flagError", 1), "	tr.record(flagError, format, args)\n"),
  (TC, kind("flagLazy|flagError", 1), "	tr.record(flagLazy|flagError, format, args)\n"),
  (TC, "\nfunc (tr *coreTrace) Finish() {", HELPER),
  (TC, "runtime.Callers(3, cev.pc[:])", "runtime.Callers(4, cev.pc[:])"),
  (TC, "	mtx         sync.Mutex\n	source", "	mtx         sync.RWMutex\n	source"),
  (TC, "func (tr *coreTrace) Finished() bool {\n	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n\n	return tr.finished", "func (tr *coreTrace) Finished() bool {\n	tr.mtx.RLock()\n	fin := tr.finished\n	tr.mtx.RUnlock()\n	return fin"),
  (TC, "func (tr *coreTrace) Errored() bool {\n	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n", "func (tr *coreTrace) Errored() bool {\n	tr.mtx.RLock()\n	defer tr.mtx.RUnlock()\n"),
  (TC, "	tr.finished = true\n	tr.duration = time.Since(tr.start)\n", "	tr.duration = time.Now().UTC().Sub(tr.start)\n	tr.finished = true\n"),
  (TC, "	res := make([]Event, len(cevs))\n	for i, cev := range cevs {\n		var stack []Frame\n", "	res := make([]Event, 0, len(cevs))\n	for i := 0; i < len(cevs); i++ {\n		cev := cevs[i]\n		var stack []Frame\n"),
  (TC, "		res[i] = Event{\n			When:    cev.when,\n			What:    cev.what.String(),\n			Stack:   stack,\n			IsError: cev.iserr,\n		}\n", "		res = append(res, Event{\n			When:    cev.when,\n			What:    cev.what.String(),\n			Stack:   stack,\n			IsError: cev.iserr,\n		})\n"),
  (TC, "	tr.events = tr.events[:0]\n\n	//", "	for i := range tr.events {\n		tr.events[i] = nil\n	}\n	tr.events = tr.events[:0]\n\n	//"),
  (RB, "	for i := 0; i < rb.len; i++ {\n		cur := rb.cur - 1 - i\n", "	for n := rb.len; n > 0; n-- {\n		cur := rb.cur - 1 - (rb.len - n)\n"),
  (RB, "	mtx sync.Mutex\n	buf []T", "	mtx sync.RWMutex\n	buf []T"),
  (RB, "func (rb *RingBuffer[T]) Stats() (newest, oldest T, count int) {\n	rb.mtx.Lock()\n	defer rb.mtx.Unlock()\n", "func (rb *RingBuffer[T]) Stats() (newest, oldest T, count int) {\n	rb.mtx.RLock()\n	defer rb.mtx.RUnlock()\n"),
  (RB, "	rb.cur += 1\n	if rb.cur >= len(rb.buf) {\n		rb.cur -= len(rb.buf)\n	}\n", "	rb.cur = (rb.cur + 1) % len(rb.buf)\n"),
  (CL, "	if droppedTrace, didDrop := c.categories.GetOrCreate(category).Add(tr); didDrop {\n		maybeFree(droppedTrace)\n	}\n\n	return Put(ctx, tr)", "	ctx, tr = Put(ctx, tr)\n	buf := c.categories.GetOrCreate(category)\n	dropped, ok := buf.Add(tr)\n	if ok {\n		maybeFree(dropped)\n	}\n	return ctx, tr"),
  (CL, "	sort.Sort(staticTracesNewestFirst(traces))", "	sort.Slice(traces, staticTracesNewestFirst(traces).Less)"),
  (BR, "		select {\n		case sub.traces <- str:\n			sub.stats.Sends++\n		default:\n			sub.stats.Drops++\n		}\n", "		if sub.send(str) {\n			sub.stats.Sends++\n		} else {\n			sub.stats.Drops++\n		}\n"),
  (BR, "type subscriber struct {", "func (sub *subscriber) send(str *StaticTrace) bool {\n	select {\n	case sub.traces <- str:\n		return true\n	default:\n		return false\n	}\n}\n\ntype subscriber struct {"),
  (FI, "		var found bool\n		for _, id := range f.IDs {\n			if id == tr.ID() {\n				found = true\n				break\n			}\n		}\n		if !found {\n			return false\n		}\n", "		found, want := false, tr.ID()\n		for i := 0; i < len(f.IDs) && !found; i++ {\n			found = f.IDs[i] == want\n		}\n		if !found {\n			return false\n		}\n"),
  (HE, "	prefixed := &prefixTrace{\n		Trace:  original,\n		format: format + \" \",\n		args:   args,\n	}\n\n	return Put(ctx, prefixed)", "	return Put(ctx, &prefixTrace{\n		Trace:  original,\n		format: format + \" \",\n		args:   args,\n	})"),
)

q("search-concurrent-style", CORE,
  (SY, '''	tuplec := make(chan tuple, len(ms))
	for i, s := range ms {
		go func(id string, s Searcher) {
			ctx, _ := Prefix(ctx, "<%s>", id)
			res, err := s.Search(ctx, req)
			tuplec <- tuple{id, res, err}
		}(strconv.Itoa(i+1), s)
	}
''', '''	var (
		wg     sync.WaitGroup
		tuples = make([]tuple, len(ms))
	)
	for i := range ms {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			id := strconv.Itoa(i + 1)
			ctx, _ := Prefix(ctx, "<%s>", id)
			res, err := ms[i].Search(ctx, req)
			tuples[i] = tuple{id, res, err}
		}(i)
	}
'''),
  (SY, "	for i := 0; i < cap(tuplec); i++ {\n		t := <-tuplec\n", "	wg.Wait()\n	for _, t := range tuples {\n"),
  (SY, '	"strings"\n', '	"strings"\n	"sync"\n'),
  (SS, '''	switch {
	case !a.IsZero() && !b.IsZero():
		if a.Before(b) {
			return a
		}
		return b
''', '''	switch {
	case !a.IsZero() && !b.IsZero():
		if b.After(a) {
			return a
		}
		return b
'''),
  (SS, "			for i, bucket := range ss.Bucketing {\n				if bucket > duration {\n					break\n				}\n				cs.BucketCounts[i]++\n			}\n", "			for i := 0; i < len(ss.Bucketing) && ss.Bucketing[i] <= duration; i++ {\n				cs.BucketCounts[i] += 1\n			}\n"),
  (ST, "	finished, errored, events := tr.Finished(), tr.Errored(), tr.Events()\n	for finished != tr.Finished() || errored != tr.Errored() {\n		finished, errored, events = tr.Finished(), tr.Errored(), tr.Events()\n	}\n", "	var (\n		finished, errored bool\n		events            []Event\n	)\n	for {\n		finished = tr.Finished()\n		errored = tr.Errored()\n		events = tr.Events()\n		if finished == tr.Finished() && errored == tr.Errored() {\n			break\n		}\n	}\n"),
  (RB, "	all := make(map[string]*RingBuffer[T], len(rbs.bufs))\n	for name, rb := range rbs.bufs {\n		all[name] = rb\n	}\n\n	return all", "	return maps.Clone(rbs.bufs)"),
  (RB, 'import (\n', 'import (\n	"maps"\n'),
  (FI, "		var found bool\n		for _, source := range f.Sources {\n			if source == tr.Source() {\n				found = true\n				break\n			}\n		}\n		if !found {\n			return false\n		}\n", "		if !slices.Contains(f.Sources, tr.Source()) {\n			return false\n		}\n"),
  (FI, '	"regexp"\n', '	"regexp"\n	"slices"\n'),
  (BR, '''	if err := func() error {
		b.mtx.Lock()
		defer b.mtx.Unlock()

		if _, ok := b.subs[ch]; ok {
			return fmt.Errorf("already subscribed")
		}

		b.subs[ch] = &subscriber{
			filter: f,
			traces: ch,
		}

		return nil
	}(); err != nil {
		return StreamStats{}, err
	}
''', '''	b.mtx.Lock()
	_, exists := b.subs[ch]
	if !exists {
		b.subs[ch] = &subscriber{traces: ch, filter: f}
	}
	b.mtx.Unlock()
	if exists {
		return StreamStats{}, fmt.Errorf("already subscribed")
	}
'''),
  (DE, '''	ptr.mtx.Lock()
	defer ptr.mtx.Unlock()

	if ptr.Trace.Finished() {
		return // no update, nothing to publish
	}

	ptr.Trace.Finish()
	ptr.p.Publish(context.Background(), ptr.Trace)
''', '''	ptr.update(ptr.Trace.Finish)
'''),
  (DE, "func (ptr *publishTrace) Free() {", '''func (ptr *publishTrace) update(f func()) {
	ptr.mtx.Lock()
	defer ptr.mtx.Unlock()

	if ptr.Trace.Finished() {
		return // no update, nothing to publish
	}

	f()
	ptr.p.Publish(context.Background(), ptr.Trace)
}

func (ptr *publishTrace) Free() {'''),
)

q("lock-free-style", CORE,
  (RB, '''	mtx  sync.Mutex
	cap  int
	bufs map[string]*RingBuffer[T]
''', '''	mtx  sync.RWMutex
	cap  int
	bufs map[string]*RingBuffer[T]
'''),
  (RB, '''	rbs.mtx.Lock()
	defer rbs.mtx.Unlock()

	rb, ok := rbs.bufs[category]
	if !ok {
''', '''	rbs.mtx.RLock()
	rb, ok := rbs.bufs[category]
	rbs.mtx.RUnlock()
	if ok {
		return rb
	}

	rbs.mtx.Lock()
	defer rbs.mtx.Unlock()

	rb, ok = rbs.bufs[category]
	if !ok {
'''),
  (RB, "	rbs.mtx.Lock()\n	defer rbs.mtx.Unlock()\n\n	all := make", "	rbs.mtx.RLock()\n	defer rbs.mtx.RUnlock()\n\n	all := make"),
  (TC, "	str  atomic.Value\n", "	str  atomic.Pointer[string]\n"),
  (TC, "	z.str.Store(nullString{valid: true, value: fmt.Sprintf(z.fmt, z.args...)}) // pre-compute the string\n", "	s := fmt.Sprintf(z.fmt, z.args...)\n	z.str.Store(&s)\n"),
  (TC, "	z.str.Store(zeroNullString) // don't pre-compute the string\n", "	z.str.Store(nil)\n"),
  (TC, '''	ns := z.str.Load().(nullString)
	if ns.valid {
		return ns.value
	}

	ns.valid = true
	ns.value = fmt.Sprintf(z.fmt, z.args...)
	if z.str.CompareAndSwap(zeroNullString, ns) {
		return ns.value
	}

	ns = z.str.Load().(nullString)
	if !ns.valid {
		panic(fmt.Errorf("invalid state in pooled stringer"))
	}
	return ns.value
''', '''	if p := z.str.Load(); p != nil {
		return *p
	}
	s := fmt.Sprintf(z.fmt, z.args...)
	z.str.CompareAndSwap(nil, &s)
	return *z.str.Load()
'''),
  (TC, "type nullString struct {\n	valid bool\n	value string\n}\n\nvar zeroNullString nullString // valid false, value empty\n\n", ""),
  (CL, "	for _, ringBuf := range c.categories.GetAll() {", "	all := c.categories.GetAll()\n	names := make([]string, 0, len(all))\n	for name := range all {\n		names = append(names, name)\n	}\n	sort.Strings(names)\n	for _, name := range names {\n		ringBuf := all[name]\n		//"),
  (BR, "	b.mtx.Lock()\n	defer b.mtx.Unlock()\n\n	sub, ok := b.subs[ch]\n	if !ok {\n		return StreamStats{}, fmt.Errorf(\"not subscribed\")\n	}\n\n	return sub.stats, nil", "	var (\n		stats StreamStats\n		err   = fmt.Errorf(\"not subscribed\")\n	)\n	b.mtx.Lock()\n	if sub := b.subs[ch]; sub != nil {\n		stats, err = sub.stats, nil\n	}\n	b.mtx.Unlock()\n	return stats, err"),
  ("internal/trcutil/atomic.go", "	mtx sync.Mutex\n", "	mtx sync.RWMutex\n"),
  ("internal/trcutil/atomic.go", "{ a.mtx.Lock(); defer a.mtx.Unlock(); return a.val }", "{ a.mtx.RLock(); defer a.mtx.RUnlock(); return a.val }"),
)

q("web", "C15 C16 C17 C21 C22",
  (TS, '''				data, err := json.Marshal(recv)
				if err != nil {
					tr.Errorf("JSON marshal trace: %v", err)
					continue
				}

				if err := encoder.Encode(eventsource.Event{
					Type: "trace",
					Data: data,
				}); err != nil {
					tr.Errorf("encode trace: %v", err)
					continue
				}
''', '''				if err := send(encoder, "trace", recv); err != nil {
					tr.Errorf("send trace: %v", err)
				}
'''),
  (TS, "// StreamClient streams trace data from a server.\n", '''func send(encoder *eventsource.Encoder, typ string, v any) error {
	data, err := json.Marshal(v)
	if err != nil {
		return err
	}
	return encoder.Encode(eventsource.Event{Type: typ, Data: data})
}

// StreamClient streams trace data from a server.
'''),
  (TS, '''		initc := make(chan struct{}, 1)
		initc <- struct{}{}

		for {
			select {
			case <-initc:
				data, err := json.Marshal(map[string]any{
					"filter":  f,
					"sendbuf": cap(tracec),
				})
				if err != nil {
					tr.Errorf("JSON marshal init: %v", err)
					continue
				}

				if err := encoder.Encode(eventsource.Event{
					Type: "init",
					Data: data,
				}); err != nil {
					tr.Errorf("encode init: %v", err)
					continue
				}

			case <-stats.C:''', '''		if err := send(encoder, "init", map[string]any{"filter": f, "sendbuf": cap(tracec)}); err != nil {
			tr.Errorf("send init: %v", err)
		}

		for {
			select {
			case <-stats.C:'''),
  (TS, '''	returned := make(chan struct{})
	defer close(returned)

	go func() {
		select {
		case <-ctx.Done():
			es.Close()
		case <-returned:
		}
	}()
''', '''	defer context.AfterFunc(ctx, es.Close)()
'''),
  (MW, '''			w = iw
			r = r.WithContext(ctx)
			next.ServeHTTP(w, r)
''', '''			next.ServeHTTP(iw, r.WithContext(ctx))
'''),
  (MW, '''	if i.code == 0 {
		i.code = http.StatusOK // implicit
	}
	n, err := i.ResponseWriter.Write(p)
	i.n += n
	return n, err
''', '''	n, err := i.ResponseWriter.Write(p)
	if i.n += n; i.code == 0 {
		i.code = 200
	}
	return n, err
'''),
  (UT, '''	v, err := parse(s)
	switch {
	case err != nil:
		return def
	case err == nil && v < min:
		return min
	case err == nil && v > max:
		return max
	default:
		return v
	}
''', '''	v, err := parse(s)
	if err != nil {
		return def
	}
	if v < min {
		v = min
	}
	if v > max {
		v = max
	}
	return v
'''),
  (TS, '''	res, err := s.Searcher.Search(ctx, &data.Request)
	if err == nil && res == nil {
		err = errors.New("empty response")
	}
	if err != nil {
		data.Problems = append(data.Problems, fmt.Errorf("execute select request: %w", err))
	} else {
		data.Response = *res
	}
''', '''	switch res, err := s.Searcher.Search(ctx, &data.Request); {
	case err != nil:
		data.Problems = append(data.Problems, fmt.Errorf("execute select request: %w", err))
	case res == nil:
		data.Problems = append(data.Problems, fmt.Errorf("execute select request: empty response"))
	default:
		data.Response = *res
	}
'''),
  ("cmd/trc/stream.go", '''	ctx, cancel := context.WithCancel(ctx)

	var wg sync.WaitGroup
	for _, uri := range cfg.uris {
		wg.Add(1)
		go func(uri string) {
			defer wg.Done()
			cfg.runStream(ctx, uri)
		}(uri)
	}
''', '''	ctx, cancel := context.WithCancel(ctx)

	var wg sync.WaitGroup
	wg.Add(len(cfg.uris))
	for i := range cfg.uris {
		uri := cfg.uris[i]
		go func() {
			cfg.runStream(ctx, uri)
			wg.Done()
		}()
	}
'''),
)
