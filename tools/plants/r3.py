# Changes that keep the behaviour, to the searching, streaming, web and CLI code.
exec(open(os.path.dirname(os.path.abspath(sys.argv[1])) + "/r1.py").read().split("def kind(")[0])
ORIG = "/repo/"
def src(p): return open(ORIG + p).read()
def cut(p, a, b): s = src(p); i = s.index(a); return s[i:s.index(b, i)]

q("multi-wait", "C12 C15 C22", (SY, cut(SY, "	type tuple struct {", "	tr.Tracef(\"gathered responses\")"), '''	type result struct {
		res *SearchResponse
		err error
	}

	// Scatter.
	results := make([]result, len(ms))
	var wg sync.WaitGroup
	wg.Add(len(ms))
	for i := range ms {
		i := i
		go func() {
			defer wg.Done()
			sub, _ := Prefix(ctx, "<%s>", strconv.Itoa(i+1))
			results[i].res, results[i].err = ms[i].Search(sub, req)
		}()
	}
	tr.Tracef("scattered request count %d", len(ms))
	wg.Wait()

	aggregate := &SearchResponse{
		Request:  req,
		Stats:    NewSearchStats(req.Bucketing),
		Problems: trcutil.FlattenErrors(normalizeErrs...),
	}
	problem := func(s string) { aggregate.Problems = append(aggregate.Problems, s) }

	// Gather.
	for i, r := range results {
		if r.res != nil {
			aggregate.Stats.Merge(r.res.Stats)
			aggregate.Sources = append(aggregate.Sources, r.res.Sources...)
			aggregate.TotalCount += r.res.TotalCount
			aggregate.MatchCount += r.res.MatchCount
			aggregate.Traces = append(aggregate.Traces, r.res.Traces...)
			aggregate.Problems = append(aggregate.Problems, r.res.Problems...)
			if r.err != nil {
				tr.Tracef("%d: result with error: %v", i+1, r.err)
				problem(fmt.Sprintf("got valid search response with error (%v) -- weird", r.err))
			}
			continue
		}
		if r.err == nil {
			r.err = fmt.Errorf("%d: weird: empty response", i+1)
		}
		tr.Tracef("%d: error: %v", i+1, r.err)
		problem(r.err.Error())
	}

'''), (SY, '	"strconv"\n', '	"strconv"\n	"sync"\n'))

q("stream-helpers", "C16 C22",
  (TS, cut(TS, "		initc := make(chan struct{}, 1)", "			case <-ctx.Done():\n				tr.LazyTracef(\"stopping: context"), '''		send := func(typ string, v any) bool {
			data, err := json.Marshal(v)
			if err == nil {
				err = encoder.Encode(eventsource.Event{Type: typ, Data: data})
			}
			if err != nil {
				tr.Errorf("%s: %v", typ, err)
			}
			return err == nil
		}

		send("init", struct {
			Filter trc.Filter `json:"filter"`
			Buf    int        `json:"sendbuf"`
		}{f, cap(tracec)})

		for {
			select {
			case <-stats.C:
				if st, err := s.Streamer.StreamStats(ctx, tracec); err != nil {
					tr.Errorf("get stats: %v", err)
				} else if send("stats", st) {
					tr.Tracef("stats: %s", st.String())
				}

			case recv := <-tracec:
				if recv.ID() != tr.ID() {
					send("trace", recv)
				}

'''),
  (TS, cut(TS, "	returned := make(chan struct{})\n", "	for {\n		ev, err := es.Read()"), '''	stop := context.AfterFunc(ctx, func() { es.Close() })
	defer stop()

'''),
  (TS, cut(TS, '		switch ev.Type {\n		case "init":', "	}\n}\n"), '''		if err := c.handle(ctx, tr, ev, ch); err != nil {
			return err
		}
'''),
  (TS, "// Stream trace data from the remote server, filtered by", '''func (c *StreamClient) handle(ctx context.Context, tr trc.Trace, ev eventsource.Event, ch chan<- trc.Trace) error {
	if ev.Type == "trace" {
		str := new(trc.StaticTrace)
		if err := json.Unmarshal(ev.Data, str); err != nil {
			return fmt.Errorf("decode trace event: %w", err)
		}
		select {
		case ch <- str:
		case <-ctx.Done():
		}
		return nil
	}

	if ev.Type == "stats" {
		var stats trc.StreamStats
		err := json.Unmarshal(ev.Data, &stats)
		if err != nil {
			return fmt.Errorf("invalid stats event: %w", err)
		}
		tr.LazyTracef("%s", stats)
		return nil
	}

	tr.LazyTracef("%s: %s", ev.Type, string(ev.Data))
	return nil
}

// Stream trace data from the remote server, filtered by'''))

q("template-once", "C15 C21",
  (RN, '	templateRoot, err := template.New("root").Funcs(templateFuncs).Funcs(userFuncs).ParseFS(fs, "*")\n	if err != nil {\n		return nil, fmt.Errorf("parse assets: %w", err)\n	}\n', '''	templateRoot, err := embedded(fs, userFuncs)
	if err != nil {
		return nil, fmt.Errorf("parse assets: %w", err)
	}
'''), (RN, "func renderTemplate(ctx", '''var (
	parsedMtx sync.Mutex
	parsed    *template.Template
)

func embedded(fs fs.FS, userFuncs template.FuncMap) (*template.Template, error) {
	if len(userFuncs) > 0 || fs != assets.FS {
		return template.New("root").Funcs(templateFuncs).Funcs(userFuncs).ParseFS(fs, "*")
	}

	parsedMtx.Lock()
	defer parsedMtx.Unlock()
	if parsed == nil {
		tt, err := template.New("root").Funcs(templateFuncs).ParseFS(fs, "*")
		if err != nil {
			return nil, err
		}
		parsed = tt
	}
	return parsed.Clone()
}

func renderTemplate(ctx'''), (RN, '	"strings"\n', '	"strings"\n	"sync"\n'), (RN, '	"github.com/peterbourgon/trc/internal/trcutil"\n', '	"github.com/peterbourgon/trc/internal/trcutil"\n	"github.com/peterbourgon/trc/trcweb/assets"\n'))

q("filter-tables", "C15 C16 C21 C22", (UT, cut(UT, "func encodeFilter(", "func parseDefault["), '''type flag struct {
	name  string
	value *bool
}

func filterFlags(f *trc.Filter) []flag {
	return []flag{{"active", &f.IsActive}, {"finished", &f.IsFinished}, {"success", &f.IsSuccess}, {"errored", &f.IsErrored}}
}

func encodeFilter(f trc.Filter, r *http.Request) {
	q := r.URL.Query()
	q["source"] = append(q["source"], f.Sources...)
	q["id"] = append(q["id"], f.IDs...)
	for k, v := range map[string]string{"category": f.Category, "q": f.Query} {
		if v != "" {
			q.Set(k, v)
		}
	}
	for _, fl := range filterFlags(&f) {
		if *fl.value {
			q.Set(fl.name, "true")
		}
	}
	if min := f.MinDuration; min != nil {
		q.Set("min", min.String())
	}
	r.URL.RawQuery = q.Encode()
}

func parseFilter(r *http.Request) (f trc.Filter) {
	q := r.URL.Query()
	f.Sources, f.IDs = q["source"], q["id"]
	f.Category, f.Query = q.Get("category"), q.Get("q")
	for _, fl := range filterFlags(&f) {
		_, *fl.value = q[fl.name]
	}
	if d, err := time.ParseDuration(q.Get("min")); err == nil {
		f.MinDuration = &d
	}
	return f
}

'''), (UT, cut(UT, "func parseDurationPointer", "func parseBucketing"), ""))

q("middleware", "C17", (MW, cut(MW, "		return http.HandlerFunc(func(w", "//\n//\n//\n"), '''		return &middleware{constructor, categorize, next}
	}
}

type middleware struct {
	constructor func(context.Context, string) (context.Context, trc.Trace)
	categorize  func(*http.Request) string
	next        http.Handler
}

func (m *middleware) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	category := m.categorize(r)
	ctx, tr := m.constructor(r.Context(), category)
	begin := time.Now()
	iw := newInterceptor(w)

	defer func() {
		tr.Tracef("HTTP %d, %s, %s", iw.Code(), trcutil.HumanizeBytes(iw.Written()), trcutil.HumanizeDuration(time.Since(begin)))
		tr.Finish()
	}()

	tr.Tracef("%s %s %s", r.RemoteAddr, r.Method, r.URL.String())
	m.header(tr, r, "User-Agent")
	m.header(tr, r, "Accept")
	m.header(tr, r, "Content-Type")

	m.next.ServeHTTP(iw, r.WithContext(ctx))
}

func (m *middleware) header(tr trc.Trace, r *http.Request, name string) {
	if val := r.Header.Get(name); val != "" {
		tr.Tracef("%s: %s", name, val)
	}
}

'''))

q("prefix-join", "C01 C02 C18 C20", (HE, cut(HE, "type prefixTrace struct {", "ZZZ") if "ZZZ" in src(HE) else src(HE)[src(HE).index("type prefixTrace struct {"):], '''type prefixTrace struct {
	Trace

	format string
	args   []any
}

func (ptr *prefixTrace) join(format string, args []any) (string, []any) {
	all := make([]any, 0, len(ptr.args)+len(args))
	all = append(all, ptr.args...)
	all = append(all, args...)
	return ptr.format + format, all
}

func (ptr *prefixTrace) Tracef(format string, args ...any) {
	format, args = ptr.join(format, args)
	ptr.Trace.Tracef(format, args...)
}

func (ptr *prefixTrace) LazyTracef(format string, args ...any) {
	format, args = ptr.join(format, args)
	ptr.Trace.LazyTracef(format, args...)
}

func (ptr *prefixTrace) Errorf(format string, args ...any) {
	format, args = ptr.join(format, args)
	ptr.Trace.Errorf(format, args...)
}

func (ptr *prefixTrace) LazyErrorf(format string, args ...any) {
	format, args = ptr.join(format, args)
	ptr.Trace.LazyErrorf(format, args...)
}
'''), (HE, '''	inputTrace.LazyTracef("→ " + name)
	finish := func() {
		took := time.Since(begin)
		inputTrace.LazyTracef("← "+name+" [%s]", trcutil.HumanizeDuration(took))
		region.End()
	}
''', '''	inputTrace.LazyTracef("→ " + name)
	finish := func() {
		defer region.End()
		took := trcutil.HumanizeDuration(time.Since(begin))
		inputTrace.Tracef("← "+name+" [%s]", took)
	}
'''))

q("log-once", "C19 C20", (DE, '''	format = ltr.id + " " + strings.TrimSuffix(format, "\\n") + "\\n"
	fmt.Fprintf(ltr.dst, format, args...)
''', '''	var sb strings.Builder
	sb.WriteString(ltr.id)
	sb.WriteByte(' ')
	fmt.Fprintf(&sb, strings.TrimSuffix(format, "\\n"), args...)
	sb.WriteByte('\\n')
	io.WriteString(ltr.dst, sb.String())
'''), (DE, '''		outcome  = "unknown"
		duration''', '''		outcome  = "success"
		duration'''), (DE, '''	switch {
	case ltr.Errored():
		outcome = "errored"
	default:
		outcome = "success"
	}
''', '''	if ltr.Trace.Errored() {
		outcome = "errored"
	}
'''))

q("cli-loop", "C22", ("cmd/trc/stream.go", cut("cmd/trc/stream.go", "	for ctx.Err() == nil {", "func (cfg *streamConfig) writeTraces"), '''	for {
		err := sc.Stream(ctx, cfg.filter, cfg.traces)
		if ctx.Err() != nil {
			cfg.debug.Printf("%s: stream done", uri)
			return
		}
		cfg.debug.Printf("%s: stream error, will retry (%v)", uri, err)
		contextSleep(ctx, cfg.retryInterval)
		if ctx.Err() != nil {
			return
		}
	}
}

'''), ("cmd/trc/stream.go", cut("cmd/trc/stream.go", "	var g run.Group\n", "func (cfg *streamConfig) runStreams"), '''	ctx, stop := signal.NotifyContext(ctx, os.Interrupt)
	defer stop()

	done := make(chan struct{})
	go func() {
		defer close(done)
		cfg.runStreams(ctx)
	}()

	err := cfg.writeTraces(ctx)
	<-done
	return err
}

'''), ("cmd/trc/stream.go", '	"os"\n', '	"os"\n	"os/signal"\n'), ("cmd/trc/stream.go", '	"github.com/oklog/run"\n', ''))

q("rings-rw", "C05 C06 C10", (RB, cut(RB, "type RingBuffers[T any] struct {", "// Resize"), '''type RingBuffers[T any] struct {
	mtx  sync.RWMutex
	cap  int
	bufs map[string]*RingBuffer[T]
}

// NewRingBuffers returns an empty set of ring buffers, each of which will have
// a maximum capacity of the given cap.
func NewRingBuffers[T any](cap int) *RingBuffers[T] {
	return &RingBuffers[T]{
		cap:  cap,
		bufs: map[string]*RingBuffer[T]{},
	}
}

// GetOrCreate returns a ring buffer for the given category string.
func (rbs *RingBuffers[T]) GetOrCreate(category string) *RingBuffer[T] {
	rbs.mtx.RLock()
	rb, ok := rbs.bufs[category]
	rbs.mtx.RUnlock()
	if ok {
		return rb
	}

	rbs.mtx.Lock()
	defer rbs.mtx.Unlock()
	if rb, ok = rbs.bufs[category]; !ok {
		rb = NewRingBuffer[T](rbs.cap)
		rbs.bufs[category] = rb
	}
	return rb
}

// GetAll returns all of the ring buffers.
func (rbs *RingBuffers[T]) GetAll() map[string]*RingBuffer[T] {
	rbs.mtx.RLock()
	defer rbs.mtx.RUnlock()

	all := map[string]*RingBuffer[T]{}
	for category, rb := range rbs.bufs {
		all[category] = rb
	}
	return all
}

'''))
