H = '''package trc_test

import (
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
)

var _ = fmt.Sprint
var _ = time.Now
var _ = context.Background

'''
bug(id="lazy-no-args", prop="C01", edits=[("trace_core.go", '''	// If we don't, do the formatting work and try to swap it in.
''', '''	// Nothing to interpolate.
	if len(z.args) == 0 {
		return z.fmt
	}

	// If we don't, do the formatting work and try to swap it in.
''')], demo=H+'''func TestZZDemo(t *testing.T) {
	_, tr := trc.New(context.Background(), "s", "c")
	tr.LazyTracef("100%% done")
	if got := tr.Events()[0].What; got != "100% done" {
		t.Fatal(got)
	}
}
''', needs="a lazy event without arguments whose format has a %% verb", breaks="the event's text is not what its format produces")

bug(id="errored-past-max", prop="C02", edits=[("trace_core.go", '''	tr.errored = true

	switch {
	case len(tr.events) >= tr.eventsmax:
		tr.truncated++
	default:
		tr.events = append(tr.events, newCoreEvent(flagLazy|flagError|tr.nostackflag, format, args...))
''', '''	switch {
	case len(tr.events) >= tr.eventsmax:
		tr.truncated++
	default:
		tr.errored = true
		tr.events = append(tr.events, newCoreEvent(flagLazy|flagError|tr.nostackflag, format, args...))
''')], demo=H+'''func TestZZDemo(t *testing.T) {
	_, tr := trc.New(context.Background(), "s", "c")
	trc.SetMaxEvents(tr, 10)
	for i := 0; i < 10; i++ {
		tr.Tracef("%d", i)
	}
	tr.LazyErrorf("failed")
	if !tr.Errored() {
		t.Fatal("not errored")
	}
}
''', needs="a lazy error event after the maximum number of events was reached", breaks="the trace is not reported as errored")

bug(id="refinish", prop="C03", edits=[("trace_core.go", '''	if tr.finished {
		return
	}

	tr.finished = true
	tr.duration = time.Since(tr.start)
''', '''	tr.finished = true
	tr.duration = time.Since(tr.start)
''')], demo=H+'''func TestZZDemo(t *testing.T) {
	_, tr := trc.New(context.Background(), "s", "c")
	tr.Finish()
	d := tr.Duration()
	time.Sleep(2 * time.Millisecond)
	tr.Finish()
	if tr.Duration() != d {
		t.Fatal("duration changed")
	}
}
''', needs="a second Finish on a trace not created by a collector, some time after the first", breaks="the duration of a finished trace changes")

bug(id="format-outside-lock", prop="C04", edits=[("trace_core.go", '''	switch {
	case len(tr.events) >= tr.eventsmax:
		tr.truncated++
	default:
		tr.events = append(tr.events, newCoreEvent(flagNormal|tr.nostackflag, format, args...))
	}
''', '''	if len(tr.events) >= tr.eventsmax {
		tr.truncated++
		return
	}

	// Formatting can be slow, don't block other users of the trace.
	flags := flagNormal | tr.nostackflag
	tr.mtx.Unlock()
	cev := newCoreEvent(flags, format, args...)
	tr.mtx.Lock()
	tr.events = append(tr.events, cev)
''')], demo=H+'''type slow struct{ in, out chan bool }

func (s slow) String() string { s.in <- true; <-s.out; return "slow" }

func TestZZDemo(t *testing.T) {
	_, tr := trc.New(context.Background(), "s", "c")
	s := slow{make(chan bool), make(chan bool)}
	done, fin := make(chan bool), make(chan bool)
	go func() { tr.Tracef("%s", s); close(done) }()
	<-s.in
	n := -1
	go func() { tr.Finish(); n = len(tr.Events()); close(fin) }()
	select {
	case <-fin:
		close(s.out)
	case <-time.After(200 * time.Millisecond):
		close(s.out)
		<-fin
	}
	<-done
	if got := len(tr.Events()); got != n {
		t.Fatalf("%d events when finished, %d later", n, got)
	}
}
''', needs="Finish by another goroutine while an event's arguments are being formatted", breaks="an event is recorded after Finish returned")

bug(id="resize-grow-future", prop="C05", edits=[("internal/trcringbuf/ringbuffer.go", '''	rbs.cap = cap

	for _, rb''', '''	if cap < rbs.cap || len(rbs.bufs) == 0 {
		rbs.cap = cap
	}

	for _, rb''')], demo=H+'''func TestZZDemo(t *testing.T) {
	c := trc.NewDefaultCollector().SetCategorySize(2)
	c.NewTrace(context.Background(), "a")
	c.SetCategorySize(4)
	for i := 0; i < 4; i++ {
		c.NewTrace(context.Background(), "b")
	}
	res, _ := c.Search(context.Background(), &trc.SearchRequest{Filter: trc.Filter{Category: "b"}})
	if len(res.Traces) != 4 {
		t.Fatal(len(res.Traces))
	}
}
''', needs="growing the category size while a category exists, then using a new category", breaks="the new category keeps fewer traces than configured")

bug(id="category-double-create", prop="C06", edits=[("internal/trcringbuf/ringbuffer.go", '''	rbs.mtx.Lock()
	defer rbs.mtx.Unlock()

	rb, ok := rbs.bufs[category]
	if !ok {
		rb = NewRingBuffer[T](rbs.cap)
		rbs.bufs[category] = rb
	}

	return rb
''', '''	rbs.mtx.Lock()
	rb, ok := rbs.bufs[category]
	cap := rbs.cap
	rbs.mtx.Unlock()

	if !ok {
		rb = NewRingBuffer[T](cap) // can be large, allocate outside of the lock
		rbs.mtx.Lock()
		rbs.bufs[category] = rb
		rbs.mtx.Unlock()
	}

	return rb
''')], demo=H+'''func TestZZDemo(t *testing.T) {
	for i := 0; i < 20000; i++ {
		c := trc.NewDefaultCollector()
		start := make(chan bool)
		done := make(chan bool, 4)
		for k := 0; k < 4; k++ {
			go func() { <-start; c.NewTrace(context.Background(), "a"); done <- true }()
		}
		close(start)
		for k := 0; k < 4; k++ {
			<-done
		}
		res, _ := c.Search(context.Background(), &trc.SearchRequest{})
		if res.TotalCount != 4 {
			t.Fatalf("%d of 4 traces after %d tries", res.TotalCount, i)
		}
	}
}
''', needs="two goroutines creating the first trace of a category at the same time", breaks="a trace is lost")

bug(id="dirty-recycled", prop="C07", edits=[("trace_core.go", '''	tr.events = tr.events[:0]
	tr.eventsmax''', '''	tr.eventsmax'''), ("trace_core.go", '''	for _, ev := range tr.events {
		ev.free() // TODO: these individual frees can show up in profiles, maybe pre-allocate?
	}
	tr.events = tr.events[:0]
''', '''	if tr.truncated == 0 { // large traces are left to the GC
		for _, ev := range tr.events {
			ev.free() // TODO: these individual frees can show up in profiles, maybe pre-allocate?
		}
		tr.events = tr.events[:0]
	}
''')], demo=H+'''func TestZZDemo(t *testing.T) {
	trc.SetTraceMaxEvents(10)
	c := trc.NewDefaultCollector().SetCategorySize(1)
	for i := 0; i < 1000; i++ {
		_, tr := c.NewTrace(context.Background(), "c")
		if n := len(tr.Events()); n != 0 {
			t.Fatalf("new trace has %d events", n)
		}
		for k := 0; k < 11; k++ {
			tr.Tracef("event %d", k)
		}
		tr.Finish()
	}
}
''', needs="a truncated trace that is dropped, and a new one that reuses its storage", breaks="a new trace starts with the events of an old one")

bug(id="min-duration-strict", prop="C08", edits=[("filter.go", "if tr.Duration() < *f.MinDuration {", "if tr.Duration() <= *f.MinDuration {")], demo=H+'''func TestZZDemo(t *testing.T) {
	d := time.Millisecond
	f := trc.Filter{MinDuration: &d}
	if !f.Allow(&trc.StaticTrace{TraceFinished: true, TraceDuration: d}) {
		t.Fatal("not allowed")
	}
}
''', needs="a trace that took exactly the minimum duration", breaks="the filter rejects it")

bug(id="tie-order", prop="C09", edits=[("trace_static.go", "return sts[i].ID() > sts[j].ID()", "return sts[i].ID() < sts[j].ID()")], demo=H+'''type canned struct{ res *trc.SearchResponse }

func (c canned) Search(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error) { return c.res, nil }

func TestZZDemo(t *testing.T) {
	now := time.Now()
	res := &trc.SearchResponse{Traces: []*trc.StaticTrace{{TraceID: "a", TraceStarted: now}, {TraceID: "b", TraceStarted: now}}}
	got, _ := trc.MultiSearcher{canned{res}}.Search(context.Background(), &trc.SearchRequest{Limit: 1})
	if id := got.Traces[0].TraceID; id != "b" {
		t.Fatal(id)
	}
}
''', needs="traces that started at the same time", breaks="the order of equally old traces, and which of them a limit keeps")

bug(id="duration-after-finish", prop="C10", also=["C04"], edits=[("trace_core.go", '''	tr.mtx.Lock()
	defer tr.mtx.Unlock()

	if tr.finished {
		return
	}

	tr.finished = true
	tr.duration = time.Since(tr.start)
''', '''	tr.mtx.Lock()
	if tr.finished {
		tr.mtx.Unlock()
		return
	}
	tr.finished = true
	tr.mtx.Unlock()

	took := time.Since(tr.start)

	tr.mtx.Lock()
	tr.duration = took
	tr.mtx.Unlock()
''')], demo=H+'''func TestZZDemo(t *testing.T) {
	for i := 0; i < 300; i++ {
		c := trc.NewDefaultCollector()
		var trs []trc.Trace
		for k := 0; k < 200; k++ {
			_, tr := c.NewTrace(context.Background(), "c")
			trs = append(trs, tr)
		}
		time.Sleep(10 * time.Microsecond)
		done := make(chan bool)
		go func() {
			for _, tr := range trs {
				tr.Finish()
			}
			close(done)
		}()
		for k := true; k; {
			select {
			case <-done:
				k = false
			default:
			}
			res, _ := c.Search(context.Background(), &trc.SearchRequest{Limit: 250, Filter: trc.Filter{IsFinished: true}})
			for _, tr := range res.Traces {
				if tr.TraceDuration == 0 {
					t.Fatalf("finished trace with duration 0 (%d)", i)
				}
			}
		}
	}
}
''', needs="a search between the two critical sections of Finish", breaks="a trace is reported finished with a duration that isn't its final one")

bug(id="bucket-bound-exclusive", prop="C11", edits=[("search_stats.go", '''				if bucket > duration {
					break''', '''				if bucket > 0 && bucket >= duration {
					break''')], demo=H+'''func TestZZDemo(t *testing.T) {
	ss := trc.NewSearchStats([]time.Duration{0, time.Millisecond, time.Second})
	ss.Observe(&trc.StaticTrace{TraceCategory: "c", TraceFinished: true, TraceDuration: time.Millisecond})
	if got := ss.Categories["c"].BucketCounts[1]; got != 1 {
		t.Fatal(got)
	}
}
''', needs="a trace whose duration equals a bucket bound", breaks="it isn't counted in that bucket")

bug(id="multi-weird-stats", prop="C12", edits=[("search_types.go", '''with error: %v", t.id, t.err)
			aggregate.Stats.Merge(t.res.Stats)
''', '''with error: %v", t.id, t.err)
''')], demo=H+'''type both struct{ *trc.Collector }

func (b both) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	res, _ := b.Collector.Search(ctx, req)
	return res, fmt.Errorf("partial")
}

func TestZZDemo(t *testing.T) {
	c := trc.NewDefaultCollector()
	c.NewTrace(context.Background(), "c")
	res, _ := trc.MultiSearcher{both{c}}.Search(context.Background(), &trc.SearchRequest{})
	if got := res.Stats.Overall().TotalCount(); got != 1 {
		t.Fatal(got)
	}
}
''', needs="a searcher that returns both a result and an error", breaks="its statistics are missing")

bug(id="drop-starves-others", prop="C13", edits=[("broker.go", '''		default:
			sub.stats.Drops++
		}
''', '''		default:
			sub.stats.Drops++
			return
		}
''')], demo=H+'''func TestZZDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		c := trc.NewDefaultCollector()
		ctx, cancel := context.WithCancel(context.Background())
		full, ok := make(chan trc.Trace), make(chan trc.Trace, 100)
		for _, ch := range []chan trc.Trace{full, ok} {
			ch := ch
			go c.Stream(ctx, trc.Filter{}, ch)
			for {
				if _, err := c.StreamStats(ctx, ch); err == nil {
					break
				}
				time.Sleep(time.Millisecond)
			}
		}
		c.NewTrace(context.Background(), "c")
		cancel()
		if len(ok) != 1 {
			t.Fatalf("%d: got %d updates", i, len(ok))
		}
	}
}
''', needs="two subscribers, one of which has no room", breaks="the other one misses updates")

bug(id="send-after-unsubscribe", prop="C14", edits=[("broker.go", '''	b.mtx.Lock()
	defer b.mtx.Unlock()

	// Fast path exit if there are no subscribers.
	if len(b.subs) <= 0 {
		return
	}
''', '''	// Don't hold the lock while filtering and sending.
	b.mtx.Lock()
	subs := make([]*subscriber, 0, len(b.subs))
	for _, sub := range b.subs {
		subs = append(subs, sub)
	}
	b.mtx.Unlock()

	// Fast path exit if there are no subscribers.
	if len(subs) <= 0 {
		return
	}
'''), ("broker.go", '''	for _, sub := range b.subs {
		if !sub.filter''', '''	for _, sub := range subs {
		if !sub.filter''')], demo=H+'''type slowTrace struct {
	trc.Trace
	in, out chan bool
}

func (s slowTrace) Finished() bool { s.in <- true; <-s.out; return true }

func TestZZDemo(t *testing.T) {
	b := trc.NewBroker()
	ctx, cancel := context.WithCancel(context.Background())
	ch := make(chan trc.Trace, 10)
	done := make(chan bool)
	go func() { b.Stream(ctx, trc.Filter{}, ch); close(done) }()
	for {
		if _, err := b.StreamStats(ctx, ch); err == nil {
			break
		}
		time.Sleep(time.Millisecond)
	}
	_, tr := trc.New(context.Background(), "s", "c")
	s := slowTrace{tr, make(chan bool), make(chan bool)}
	published := make(chan bool)
	go func() { b.Publish(ctx, s); close(published) }()
	<-s.in
	cancel()
	n := -1
	returned := false
	select {
	case <-done:
		returned, n = true, len(ch)
	case <-time.After(200 * time.Millisecond):
	}
	go func() {
		for range s.in {
		}
	}()
	close(s.out)
	<-published
	if returned && len(ch) != n {
		t.Fatalf("%d traces when Stream returned, %d later", n, len(ch))
	}
}
''', needs="a publish that overlaps with the end of a subscription", breaks="traces are sent after Stream returned, and its statistics aren't final")
