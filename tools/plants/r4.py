# Changes that keep the behaviour, with other means of synchronization, and to the core trace.
exec(open(os.path.dirname(os.path.abspath(sys.argv[1])) + "/r1.py").read().split("def kind(")[0])
EZ, CS, CT, CM, HU, ER, HT, TR = "eztrc/easy.go", "cmd/trc/search.go", "cmd/trc/stream.go", "cmd/trc/main.go", "internal/trcutil/humanize.go", "internal/trcutil/errors.go", "trcweb/assets/traces.html", "trace.go"
ORIG = "/repo/"
def src(p): return open(ORIG + p).read()
def cut(p, a, b): s = src(p); i = s.index(a); return s[i:s.index(b, i)]

# The core trace: no pools, a read-write lock, and flags readable without it.
core = src(TC)
core = core.replace("	mtx         sync.Mutex\n", "	mtx         sync.RWMutex\n")
core = core.replace("	errored     bool\n	finished    bool\n", "	errored     atomic.Bool\n	finished    atomic.Bool\n")
core = core.replace("	tr := coreTracePool.Get().(*coreTrace)\n", "	tr := &coreTrace{}\n")
core = core.replace("	tr.errored = false\n	tr.finished = false\n", "")
core = core.replace("if tr.finished {", "if tr.finished.Load() {").replace("tr.errored = true", "tr.errored.Store(true)")
core = core.replace("	tr.finished = true\n	tr.duration = time.Since(tr.start)\n", "	tr.duration = time.Since(tr.start)\n	tr.finished.Store(true)\n")
core = core.replace("	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n\n	return tr.finished\n", "	return tr.finished.Load()\n")
core = core.replace("	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n\n	return tr.errored\n", "	tr.mtx.RLock()\n	defer tr.mtx.RUnlock()\n\n	return tr.errored.Load()\n")
core = core.replace("	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n\n	if tr.finished.Load() {\n		return tr.duration", "	tr.mtx.RLock()\n	defer tr.mtx.RUnlock()\n\n	if tr.finished.Load() {\n		return tr.duration")
i, j = core.index("	if !tr.finished { // presumably"), core.index("var coreEventPool")
core = core[:i] + '''	if !tr.finished.Load() {
		trcdebug.CoreTraceLostCount.Add(1)
		return
	}

	tr.events = nil // for the garbage collector
	trcdebug.CoreTraceFreeCount.Add(1)
}

''' + core[j:]
i, j = core.index("var coreEventPool"), core.index("// coreEvent must exist"); core = core[:i] + core[j:]
core = core.replace("	cev := coreEventPool.Get().(*coreEvent)\n", "	cev := &coreEvent{}\n")
i, j = core.index("func (cev *coreEvent) free()"), core.index("func snapshotEvents"); core = core[:i] + core[j:]
i, j = core.index("var coreTracePool"), core.index("// newCoreTrace starts"); core = core[:i] + core[j:]
i, j = core.index("var stringerPool"), len(core)
core = core[:i] + '''type stringer struct {
	once   sync.Once
	format string
	args   []any
	value  string
}

func newNormalStringer(format string, args ...any) *stringer {
	z := newLazyStringer(format, args...)
	_ = z.String()
	return z
}

func newLazyStringer(format string, args ...any) *stringer {
	trcdebug.StringerNewCount.Add(1)
	return &stringer{format: format, args: args}
}

func (z *stringer) String() string {
	z.once.Do(func() {
		z.value = fmt.Sprintf(z.format, z.args...)
		z.args = nil
	})
	return z.value
}
'''
q("core-nopool", CORE, (TC, None, core))

# Event calls by way of one function.
core = src(TC)
i, j = core.index("func (tr *coreTrace) Tracef("), core.index("func (tr *coreTrace) Finish()")
core = core[:i] + '''func (tr *coreTrace) Tracef(format string, args ...any) {
	tr.recordErrorf(flagNormal, format, args)
}

func (tr *coreTrace) LazyTracef(format string, args ...any) {
	tr.recordErrorf(flagLazy, format, args)
}

func (tr *coreTrace) Errorf(format string, args ...any) {
	tr.recordErrorf(flagError, format, args)
}

func (tr *coreTrace) LazyErrorf(format string, args ...any) {
	tr.recordErrorf(flagLazy|flagError, format, args)
}

func (tr *coreTrace) recordErrorf(flags uint8, format string, args []any) {
	tr.mtx.Lock()
	defer tr.mtx.Unlock()

	if tr.finished {
		return
	}

	tr.errored = tr.errored || flags&flagError != 0

	if len(tr.events) < tr.eventsmax {
		tr.events = append(tr.events, newCoreEvent(flags|tr.nostackflag, format, args...))
		return
	}
	tr.truncated++
}

''' + core[j:]
i, j = core.index("	stdframes := runtime.CallersFrames"), core.index("	return cev.stack\n}\n\nfunc (cev *coreEvent) free")
core = core[:i] + '''	stdframes := runtime.CallersFrames(cev.pc[:cev.pcn])
	for {
		fr, more := stdframes.Next()
		if !more {
			break
		}
		if ignoreStackFrameFunction(fr.Function) {
			continue
		}
		cev.stack = append(cev.stack, Frame{
			Function: fr.Function,
			FileLine: fmt.Sprintf("%s:%d", fr.File, fr.Line),
		})
	}

''' + core[j:]
core = core.replace('	"strconv"\n', "")
q("core-record", "C01 C02 C03 C04 C07 C18 C20", (TC, None, core))

# A broker with a lock per subscriber.
q("broker-persub", "C04 C07 C10 C13 C14 C16 C19 C22", (BR, cut(BR, "// Broker allows", "// StreamStats is metadata"), '''// Broker allows traces to be published to a set of subscribers.
type Broker struct {
	subs  sync.Map // chan<- Trace: *subscriber
	count atomic.Int64
}

// NewBroker returns a new, empty broker.
func NewBroker() *Broker {
	return &Broker{}
}

// Publish the trace, transformed via [NewStreamTrace], to any active and
// matching subscribers. Sends to subscribers don't block and will drop.
func (b *Broker) Publish(ctx context.Context, tr Trace) {
	if b.count.Load() == 0 {
		return
	}

	str := NewStreamTrace(tr)
	b.subs.Range(func(_, val any) bool {
		val.(*subscriber).offer(str)
		return true
	})
}

// Stream will forward a copy of every trace created in the collector matching
// the filter to the provided channel.
func (b *Broker) Stream(ctx context.Context, f Filter, ch chan<- Trace) (StreamStats, error) {
	sub := &subscriber{filter: f, traces: ch}
	b.count.Add(1)
	defer b.count.Add(-1)
	if _, loaded := b.subs.LoadOrStore(ch, sub); loaded {
		return StreamStats{}, fmt.Errorf("already subscribed")
	}

	<-ctx.Done()

	b.subs.Delete(ch)

	sub.mtx.Lock()
	defer sub.mtx.Unlock()
	sub.gone = true

	return sub.stats, ctx.Err()
}

// StreamStats returns statistics about a currently active subscription.
func (b *Broker) StreamStats(ctx context.Context, ch chan<- Trace) (StreamStats, error) {
	val, ok := b.subs.Load(ch)
	if !ok {
		return StreamStats{}, fmt.Errorf("not subscribed")
	}

	sub := val.(*subscriber)
	sub.mtx.Lock()
	defer sub.mtx.Unlock()
	return sub.stats, nil
}

'''), (BR, cut(BR, "type subscriber struct {", "\n}\n") + "\n}\n", '''type subscriber struct {
	mtx    sync.Mutex
	traces chan<- Trace
	filter Filter
	stats  StreamStats
	gone   bool
}

func (sub *subscriber) offer(str Trace) {
	sub.mtx.Lock()
	defer sub.mtx.Unlock()

	if sub.gone {
		return
	}

	if !sub.filter.Allow(str) {
		sub.stats.Skips++
		return
	}

	select {
	case sub.traces <- str:
		sub.stats.Sends++
	default:
		sub.stats.Drops++
	}
}
'''), (BR, '	"sync"\n', '	"sync"\n	"sync/atomic"\n'))

# The ring buffers behind a channel used as a lock.
rb = src(RB)
rb = rb.replace("	mtx sync.Mutex\n	buf []T // fully", "	sem chan struct{}\n	buf []T // fully").replace("	return &RingBuffer[T]{\n		buf: make([]T, cap),", "	return &RingBuffer[T]{\n		sem: make(chan struct{}, 1),\n		buf: make([]T, cap),")
rb = rb.replace("	rb.mtx.Lock()\n	defer rb.mtx.Unlock()\n", "	rb.sem <- struct{}{}\n	defer func() { <-rb.sem }()\n")
q("ring-sem", "C05 C06 C10", (RB, None, rb))

# Statistics on a timer that is set again, and a stop function.
q("server-timer", "C16 C22", (TS, "		stats := time.NewTicker(stats)\n		defer stats.Stop()\n", "		interval := stats\n		stats := time.NewTimer(interval)\n		defer stats.Stop()\n"), (TS, "			case <-stats.C:\n				stats, err := s.Streamer.StreamStats(ctx, tracec)\n", "			case <-stats.C:\n				stats.Reset(interval)\n				stats, err := s.Streamer.StreamStats(ctx, tracec)\n"))

# The easy API: made when first used, calls by way of helpers.
ez = src(EZ)
ez = ez.replace("var collector = trc.NewDefaultCollector()\n\nvar handler = trcweb.NewTraceServer(collector)\n", '''var (
	once sync.Once

	collectorInstance *trc.Collector
	handlerInstance   http.Handler
)

func initialize() {
	once.Do(func() {
		collectorInstance = trc.NewDefaultCollector()
		handlerInstance = trcweb.NewTraceServer(collectorInstance)
	})
}
''').replace("	return collector\n", "	initialize()\n	return collectorInstance\n").replace("	return handler\n", "	initialize()\n	return handlerInstance\n").replace("collector.NewTrace", "Collector().NewTrace").replace('	"net/http"\n', '	"net/http"\n	"sync"\n')
q("ez-once", "C01 C05 C13 C17 C18 C20", (EZ, None, ez))
