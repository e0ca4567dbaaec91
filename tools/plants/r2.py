# More changes that keep the behaviour.
exec(open(os.path.dirname(os.path.abspath(sys.argv[1])) + "/r1.py").read().split("def kind(")[0])
ORIG = "/repo/"
def src(p): return open(ORIG + p).read()

# The ring buffer as an ordered slice; GetAll as sorted list turned to a map; RWMutex.
q("ring-slice", "C05 C06 C07 C09 C10 C11", (RB, None, '''package trcringbuf

import "sync"

// RingBuffer is a fixed-size collection of recent items.
type RingBuffer[T any] struct {
	mtx   sync.RWMutex
	items []T // oldest first
	max   int
}

// NewRingBuffer returns an empty ring buffer.
func NewRingBuffer[T any](cap int) *RingBuffer[T] {
	return &RingBuffer[T]{max: cap}
}

// Resize changes the capacity, and returns what is dropped.
func (rb *RingBuffer[T]) Resize(cap int) []T {
	if cap <= 0 {
		return nil
	}

	rb.mtx.Lock()
	defer rb.mtx.Unlock()

	rb.max = cap
	var dropped []T
	if n := len(rb.items) - cap; n > 0 {
		for i := n - 1; i >= 0; i-- {
			dropped = append(dropped, rb.items[i])
		}
		rb.items = append([]T(nil), rb.items[n:]...)
	}
	return dropped
}

// Add the value.
func (rb *RingBuffer[T]) Add(val T) (T, bool) {
	rb.mtx.Lock()
	defer rb.mtx.Unlock()

	var dropped T
	if rb.max <= 0 {
		return dropped, false
	}

	full := len(rb.items) == rb.max
	if full {
		dropped = rb.items[0]
		copy(rb.items, rb.items[1:])
		rb.items[len(rb.items)-1] = val
	} else {
		rb.items = append(rb.items, val)
	}
	return dropped, full
}

// Walk from newest to oldest.
func (rb *RingBuffer[T]) Walk(fn func(T) error) error {
	rb.mtx.RLock()
	defer rb.mtx.RUnlock()

	for i := len(rb.items); i > 0; i-- {
		if err := fn(rb.items[i-1]); err != nil {
			return err
		}
	}

	return nil
}

// Stats returns the newest and oldest values, and the number of values.
func (rb *RingBuffer[T]) Stats() (newest, oldest T, count int) {
	rb.mtx.RLock()
	defer rb.mtx.RUnlock()

	count = len(rb.items)
	if count > 0 {
		newest, oldest = rb.items[count-1], rb.items[0]
	}
	return newest, oldest, count
}

// RingBuffers collects individual ring buffers by string key.
type RingBuffers[T any] struct {
	mtx  sync.RWMutex
	cap  int
	bufs map[string]*RingBuffer[T]
}

// NewRingBuffers returns an empty set of ring buffers.
func NewRingBuffers[T any](cap int) *RingBuffers[T] {
	return &RingBuffers[T]{cap: cap, bufs: make(map[string]*RingBuffer[T])}
}

// GetOrCreate returns a ring buffer corresponding to the given category string.
func (rbs *RingBuffers[T]) GetOrCreate(category string) *RingBuffer[T] {
	rbs.mtx.RLock()
	rb, ok := rbs.bufs[category]
	rbs.mtx.RUnlock()
	if ok {
		return rb
	}

	rbs.mtx.Lock()
	defer rbs.mtx.Unlock()

	if rb, ok := rbs.bufs[category]; ok {
		return rb
	}
	rb = NewRingBuffer[T](rbs.cap)
	rbs.bufs[category] = rb
	return rb
}

// GetAll returns all of the ring buffers in the set, grouped by category.
func (rbs *RingBuffers[T]) GetAll() map[string]*RingBuffer[T] {
	rbs.mtx.RLock()
	defer rbs.mtx.RUnlock()

	all := map[string]*RingBuffer[T]{}
	for name := range rbs.bufs {
		all[name] = rbs.bufs[name]
	}
	return all
}

// Resize all of the ring buffers in the set to the new capacity.
func (rbs *RingBuffers[T]) Resize(cap int) []T {
	if cap <= 0 {
		return nil
	}

	rbs.mtx.Lock()
	defer rbs.mtx.Unlock()

	var dropped []T
	rbs.cap = cap
	for _, rb := range rbs.bufs {
		dropped = append(dropped, rb.Resize(cap)...)
	}
	return dropped
}
'''))

# The broker keeps a list; the update functions share a helper with a closure.
q("broker-list", "C10 C12 C13 C14 C16 C20", (BR, "	subs map[chan<- Trace]*subscriber", "	subs []*subscriber"),
 (BR, "		subs: map[chan<- Trace]*subscriber{},", "		subs: nil,"),
 (BR, '''	for _, sub := range b.subs {
		if !sub.filter.Allow(str) {
			sub.stats.Skips++
			continue
		}

		select {
		case sub.traces <- str:
			sub.stats.Sends++
		default:
			sub.stats.Drops++
		}
	}
}
''', '''	for i := range b.subs {
		b.subs[i].offer(str)
	}
}

func (b *Broker) find(ch chan<- Trace) int {
	for i, sub := range b.subs {
		if sub.traces == ch {
			return i
		}
	}
	return -1
}

func (b *Broker) add(sub *subscriber) bool {
	b.mtx.Lock()
	defer b.mtx.Unlock()

	if b.find(sub.traces) >= 0 {
		return false
	}
	b.subs = append(b.subs, sub)
	return true
}

func (b *Broker) remove(sub *subscriber) StreamStats {
	b.mtx.Lock()
	defer b.mtx.Unlock()

	if i := b.find(sub.traces); i >= 0 {
		last := len(b.subs) - 1
		b.subs[i], b.subs[last] = b.subs[last], nil
		b.subs = b.subs[:last]
	}
	return sub.stats
}

func (sub *subscriber) offer(str Trace) {
	if !sub.filter.Allow(str) {
		sub.stats.Skips++
		return
	}

	sent := false
	select {
	case sub.traces <- str:
		sent = true
	default:
	}
	if sent {
		sub.stats.Sends++
	} else {
		sub.stats.Drops++
	}
}
'''), (BR, src(BR)[src(BR).index("	if err := func() error {"):src(BR).index("	return sub.stats, ctx.Err()\n}")], '''	sub := &subscriber{filter: f, traces: ch}
	if !b.add(sub) {
		return StreamStats{}, errAlready
	}

	<-ctx.Done()

	return b.remove(sub), ctx.Err()
}

var errAlready = fmt.Errorf("already subscribed")

func unused(sub *subscriber, ctx context.Context) (StreamStats, error) {
'''), (BR, '''	sub, ok := b.subs[ch]
	if !ok {
		return StreamStats{}, fmt.Errorf("not subscribed")
	}

	return sub.stats, nil
''', '''	if i := b.find(ch); i >= 0 {
		return b.subs[i].stats, nil
	}

	return StreamStats{}, fmt.Errorf("not subscribed")
'''), (BR, "func unused(", "var _ = unused\n\nfunc unused("))

# The filter as a list of conditions.
q("filter-conditions", "C08 C09 C13 C15 C16", (FI, src(FI)[src(FI).index("func (f *Filter) Allow"):src(FI).index("func (f *Filter) initializeQueryRegexp")], '''func (f *Filter) Allow(tr Trace) bool {
	finished := tr.Finished()
	errored := tr.Errored()
	switch {
	case f.IsActive && finished, f.IsFinished && !finished:
		return false
	case f.IsSuccess && errored, f.IsErrored && !errored:
		return false
	case f.Category != "" && f.Category != tr.Category():
		return false
	case f.MinDuration != nil && (!finished || *f.MinDuration > tr.Duration()):
		return false
	case !oneOf(f.Sources, tr.Source()), !oneOf(f.IDs, tr.ID()):
		return false
	}

	f.initializeQueryRegexp()
	return f.regexp == nil || matchEvents(f.regexp, tr.Events())
}

func oneOf(list []string, s string) bool {
	for i := len(list) - 1; i >= 0; i-- {
		if list[i] == s {
			return true
		}
	}
	return len(list) == 0
}

func matchEvents(re *regexp.Regexp, events []Event) bool {
	for i := len(events) - 1; i >= 0; i-- {
		if ev := &events[i]; re.MatchString(ev.What) || matchStack(re, ev.Stack) {
			return true
		}
	}
	return false
}

func matchStack(re *regexp.Regexp, stack []Frame) bool {
	for _, fr := range stack {
		if re.MatchString(fr.CompactFileLine()) || re.MatchString(fr.Function) {
			return true
		}
	}
	return false
}

'''))

# Statistics: helpers for copies and extremes.
S = src(SS)
q("stats-helpers", "C09 C11 C12 C15 C21", (SS, S[S.index("func olderOf("):], '''func olderOf(a, b time.Time) time.Time {
	if a.IsZero() || !b.IsZero() && !a.Before(b) {
		return b
	}
	return a
}

func newerOf(a, b time.Time) time.Time {
	if a.IsZero() || !b.IsZero() && !a.After(b) {
		return b
	}
	return a
}

func (cs *CategoryStats) clone() *CategoryStats {
	cp := *cs
	cp.BucketCounts = make([]int, len(cs.BucketCounts))
	copy(cp.BucketCounts, cs.BucketCounts)
	return &cp
}
'''), (SS, '''		for category, theirs := range other.Categories {
			cp := *theirs
			cp.BucketCounts = append([]int(nil), theirs.BucketCounts...)
			ss.Categories[category] = &cp
		}
		return
''', '''		for category := range other.Categories {
			ss.Categories[category] = other.Categories[category].clone()
		}
		return
'''), (SS, '''		ours, ok := ss.Categories[category]
		if !ok {
			cp := *theirs
			cp.BucketCounts = append([]int(nil), theirs.BucketCounts...)
			ss.Categories[category] = &cp
			continue
		}
		ours.Merge(theirs)
''', '''		if ours, ok := ss.Categories[category]; ok {
			ours.Merge(theirs)
		} else {
			ss.Categories[category] = theirs.clone()
		}
'''))

# Search: collected through a local type, categories in sorted order.
C = src(CL)
q("search-collect", "C05 C06 C09 C10 C11 C12 C15", (CL, C[C.index("	for _, ringBuf := range c.categories.GetAll() {"):C.index("	// Sort most recent first.")], '''	all := c.categories.GetAll()
	names := make([]string, 0, len(all))
	for name := range all {
		names = append(names, name)
	}
	sort.Strings(names)

	for _, name := range names {
		from := len(traces)
		all[name].Walk(func(candidate Trace) error {
			totalCount++
			stats.Observe(candidate)
			if len(traces)-from < req.Limit {
				if static, ok := c.selectTrace(candidate, req); ok {
					traces = append(traces, static)
					matchCount++
				}
			}
			return nil
		})
	}

'''), (CL, "// Stream traces matching the filter to the channel, returning", '''func (c *Collector) selectTrace(candidate Trace, req *SearchRequest) (*StaticTrace, bool) {
	if req.Filter.Allow(candidate) {
		if static := NewSearchTrace(candidate); req.Filter.Allow(static) {
			return static.TrimStacks(req.StackDepth), true
		}
	}
	return nil, false
}

// Stream traces matching the filter to the channel, returning'''))

# Multi search with a mutex and a wait group.
Y = src(SY)
if "	tuplec := make(chan tuple, len(ms))\n" in Y:
    pass

# Helpers and decorators.
D = src(DE)
def pub(name): return '''func (ptr *publishTrace) %s(format string, args ...any) {
	ptr.mtx.Lock()
	defer ptr.mtx.Unlock()

	if ptr.Trace.Finished() {
		return // no update, nothing to publish
	}

	ptr.Trace.%s(format, args...)
	ptr.p.Publish(context.Background(), ptr.Trace)
}
''' % (name, name)
def pub2(name): return '''func (ptr *publishTrace) %s(format string, args ...any) {
	if !ptr.begin() {
		return
	}
	defer ptr.end()
	ptr.Trace.%s(format, args...)
}
''' % (name, name)
q("decorators", "C01 C03 C04 C07 C10 C13 C14 C18 C19 C20", *[(DE, pub(n), pub2(n)) for n in ("Tracef", "LazyTracef", "Errorf", "LazyErrorf")] + [(DE, '''	if ptr.Trace.Finished() {
		return // no update, nothing to publish
	}

	ptr.Trace.Finish()
	ptr.p.Publish(context.Background(), ptr.Trace)
}
''', '''	if !ptr.Trace.Finished() {
		ptr.Trace.Finish()
		ptr.p.Publish(context.Background(), ptr.Trace)
	}
}

// begin an update, if it is one.
func (ptr *publishTrace) begin() bool {
	ptr.mtx.Lock()
	if ptr.Trace.Finished() {
		ptr.mtx.Unlock()
		return false
	}
	return true
}

// end an update by publishing it.
func (ptr *publishTrace) end() {
	ptr.p.Publish(context.Background(), ptr.Trace)
	ptr.mtx.Unlock()
}
'''), (DE, '''	var (
		outcome  = "unknown"
		duration = trcutil.HumanizeDuration(ltr.Trace.Duration())
	)
	switch {
	case ltr.Errored():
		outcome = "errored"
	default:
		outcome = "success"
	}
	ltr.logEvent("done, %s, %s", outcome, duration)
''', '''	outcome := "success"
	if ltr.Trace.Errored() {
		outcome = "errored"
	}
	ltr.logEvent("done, %s, %s", outcome, trcutil.HumanizeDuration(ltr.Trace.Duration()))
'''), (DE, '''	format = ltr.id + " " + strings.TrimSuffix(format, "\\n") + "\\n"
	fmt.Fprintf(ltr.dst, format, args...)
''', '''	var buf strings.Builder
	buf.WriteString(ltr.id)
	buf.WriteByte(' ')
	fmt.Fprintf(&buf, strings.TrimSuffix(format, "\\n"), args...)
	buf.WriteByte('\\n')
	io.WriteString(ltr.dst, buf.String())
'''), (HE, '''func (ptr *prefixTrace) Tracef(format string, args ...any) {
	ptr.Trace.Tracef(ptr.format+format, append(ptr.args, args...)...)
''', '''func (ptr *prefixTrace) join(args []any) []any {
	all := make([]any, 0, len(ptr.args)+len(args))
	all = append(all, ptr.args...)
	return append(all, args...)
}

func (ptr *prefixTrace) Tracef(format string, args ...any) {
	ptr.Trace.Tracef(ptr.format+format, ptr.join(args)...)
'''), (HE, '''	ptr.Trace.LazyErrorf(ptr.format+format, append(ptr.args, args...)...)
''', '''	ptr.Trace.LazyErrorf(ptr.format+format, ptr.join(args)...)
''')])
