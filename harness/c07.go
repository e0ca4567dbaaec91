package main

import (
	"context"
	"fmt"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/zmc"
)

func init() {
	register("C07", c07Variants, "what the events of a finished trace read as after it was dropped is unspecified, except that they are its own")
}

func c07Variants(tier string) []*Variant {
	var vs []*Variant
	depth := quickThorough(tier, 5, 6)
	for _, size := range []int{1, 2} {
		for _, pool := range []int{0, 1} {
			for first := 0; first < c07Ops; first++ {
				size, pool, first := size, pool, first
				vs = append(vs, &Variant{Name: fmt.Sprintf("history/size=%d/pool=%d/first=%d", size, pool, first), Cfg: zmc.Config{PoolMode: pool},
					Body: func(x *X) { c07History(x, size, first, depth) }})
			}
		}
	}
	for i := range c07Threads {
		for j := i; j < len(c07Threads); j++ {
			i, j := i, j
			vs = append(vs, &Variant{Name: fmt.Sprintf("threads/%d-%d", i, j), Bound: quickThorough(tier, 2, 3), Body: func(x *X) { c07Concurrent(x, i, j) }})
			vs = append(vs, &Variant{Name: fmt.Sprintf("race/%d-%d", i, j), Race: true, Bound: quickThorough(tier, 1, 2), Body: func(x *X) { c07Concurrent(x, i, j) }})
		}
	}
	return vs
}

const c07Ops = 11

type c07Trace struct {
	tr  trc.Trace
	id  string
	m   *mTrace
	own map[string]bool

	nostacks bool
}

// Different call sites, with different stacks.
func c07EvA(tr trc.Trace, s string) { tr.Tracef("%s", s) }
func c07EvB(tr trc.Trace, s string) { c07EvB2(tr, s) }
func c07EvB2(tr trc.Trace, s string) {
	tr.LazyErrorf("%s", s)
}

func c07History(x *X, size, first, depth int) {
	c := trc.NewDefaultCollector().SetCategorySize(size)
	trc.SetTraceMaxEvents(10)
	var (
		trs    []*c07Trace
		log    opLog
		n      int
		checks []func() string
		held   []string // IDs in the collector
	)
	fresh := func() string { n++; return fmt.Sprintf("event-%d", n) }
	keepEvents := func(what string, evs []trc.Event) {
		cp := copyEvents(evs)
		checks = append(checks, func() string {
			if !sameEvents(cp, evs) {
				return fmt.Sprintf("%s changed from %s to %s", what, evString(cp), evString(evs))
			}
			return ""
		})
	}
	keepStatic := func(what string, st trc.Trace) {
		cp := snapOf(st)
		checks = append(checks, func() string {
			if d := cp.diff(snapOf(st)); d != "" {
				return what + ": " + d
			}
			return ""
		})
	}
	add := func(t *c07Trace, f func(trc.Trace, string), iserr bool) {
		s := fresh()
		f(t.tr, s)
		if !t.m.finished {
			t.own[s] = true
			k := kTrace
			if iserr {
				k = kLazyError
			}
			t.m.add(k, x.Now(), s)
		}
	}
	newTrace := func() {
		nostacks := len(trs)%3 == 2
		trc.SetTraceStacks(!nostacks)
		_, tr := c.NewTrace(context.Background(), "cat")
		if tr.Finished() || tr.Errored() || len(tr.Events()) != 0 || tr.Duration() != 0 {
			x.Failf("after %s: a new trace is not clean: finished %v, errored %v, duration %v, events %q", log.String(), tr.Finished(), tr.Errored(), tr.Duration(), whats(tr.Events()))
		}
		trs = append(trs, &c07Trace{tr: tr, id: tr.ID(), m: &mTrace{source: "default", category: "cat", start: x.Now()}, own: map[string]bool{}, nostacks: nostacks})
		held = append(held, tr.ID())
		if len(held) > size {
			held = held[len(held)-size:]
		}
	}
	newTrace()
	add(trs[0], c07EvA, false)
	for i := 0; i < depth; i++ {
		op := first
		if i > 0 {
			op = x.Choose(c07Ops)
		}
		x.Advance(odd)
		newest, oldest := trs[len(trs)-1], trs[0]
		switch op {
		case 0:
			log.add("new")
			newTrace()
			add(trs[len(trs)-1], c07EvB, true)
		case 1:
			log.add("new, event, finish")
			newTrace()
			add(trs[len(trs)-1], c07EvA, false)
			trs[len(trs)-1].tr.Finish()
			trs[len(trs)-1].m.finish(x.Now())
		case 2:
			log.add("event")
			add(newest, c07EvA, false)
		case 3:
			log.add("error")
			add(newest, c07EvB, true)
		case 4:
			log.add("finish")
			newest.tr.Finish()
			newest.m.finish(x.Now())
		case 5:
			log.add("finish all")
			for _, t := range trs {
				t.tr.Finish()
				t.m.finish(x.Now())
			}
		case 6:
			log.add("read")
			for j, t := range trs {
				keepEvents(fmt.Sprintf("event list of trace %d", j), t.tr.Events())
			}
		case 7:
			log.add("search")
			res, err := c.Search(context.Background(), &trc.SearchRequest{Limit: 250})
			if err != nil || len(res.Traces) != len(held) {
				x.Failf("after %s: search: %v, %d traces", log.String(), err, len(res.Traces))
				return
			}
			for _, st := range res.Traces {
				keepStatic("search result", st)
			}
		case 8:
			log.add("stream")
			keepStatic("streamed copy", trc.NewStreamTrace(newest.tr))
			sub := subscribe(x, c, trc.Filter{}, 10)
			zmc.Idle()
			add(newest, c07EvB, true)
			for _, tr := range sub.drain() {
				keepStatic("streamed copy", tr)
			}
			sub.stop()
		case 9:
			log.add("stale calls")
			add(oldest, c07EvA, false)
			add(oldest, c07EvB, true)
			oldest.tr.Finish()
			oldest.m.finish(x.Now())
			trc.SetMaxEvents(oldest.tr, 12)
		case 10:
			log.add("burst")
			for j := 0; j < 12; j++ {
				add(newest, c07EvA, false)
			}
		}
		if x.Failed() {
			return
		}
		for _, f := range checks {
			if d := f(); d != "" {
				x.Failf("size %d, after %s: %s", size, log.String(), d)
				return
			}
		}
		for j, t := range trs {
			if d := c07Diff(t, x.Now(), !t.m.finished || contains(held, t.id)); d != "" {
				x.Failf("size %d, after %s: trace %d: %s", size, log.String(), j, d)
				return
			}
		}
	}
	x.Outcome("%s", log.String())
}

func contains(ss []string, s string) bool {
	for _, t := range ss {
		if s == t {
			return true
		}
	}
	return false
}

func c07Diff(t *c07Trace, now time.Time, full bool) string {
	tr, m := t.tr, t.m
	if tr.ID() != t.id || tr.Source() != m.source || tr.Category() != m.category || !tr.Started().Equal(m.start) {
		return fmt.Sprintf("identity is now %s %q %q %v", tr.ID(), tr.Source(), tr.Category(), tr.Started())
	}
	if tr.Finished() != m.finished || tr.Errored() != m.errored || tr.Duration() != m.duration(now) {
		return fmt.Sprintf("state is now finished %v errored %v duration %v, want %v %v %v", tr.Finished(), tr.Errored(), tr.Duration(), m.finished, m.errored, m.duration(now))
	}
	evs := tr.Events()
	if full {
		if d := c02Diff(evs, m.events, 10); d != "" {
			return d
		}
	}
	for i, ev := range evs {
		want := "main.c07EvA"
		if ev.IsError {
			want = "main.c07EvB2"
		}
		switch {
		case i == len(evs)-1 && len(m.events) > 10:
		case t.nostacks && len(ev.Stack) > 0:
			return fmt.Sprintf("event %d of a trace without stacks has a stack starting at %s", i, ev.Stack[0].Function)
		case !t.nostacks && (len(ev.Stack) == 0 || ev.Stack[0].Function != want):
			return fmt.Sprintf("event %d has stack %v, which should start at %s", i, ev.Stack, want)
		}
	}
	if full {
		return ""
	}
	for i, ev := range evs {
		if !t.own[ev.What] && !(i == len(evs)-1 && len(m.events) > 10) {
			return fmt.Sprintf("dropped trace has a foreign event %q", ev.What)
		}
	}
	return ""
}

// ---------------------------------------------------------------------------

// c07Threads work on a collector that holds one trace; each keeps to itself.
var c07Threads = []func(c *trc.Collector, old trc.Trace, id string) string{
	// create and finish
	func(c *trc.Collector, old trc.Trace, id string) string {
		for i := 0; i < 2; i++ {
			_, tr := c.NewTrace(context.Background(), "cat")
			tr.LazyTracef("%s", tr.ID())
			if evs := tr.Events(); len(evs) != 1 || evs[0].What != tr.ID() {
				return fmt.Sprintf("active trace has events %s", evString(evs))
			}
			tr.Finish()
		}
		return ""
	},
	// create with an error, keep active
	func(c *trc.Collector, old trc.Trace, id string) string {
		_, tr := c.NewTrace(context.Background(), "cat")
		tr.Errorf("%s", tr.ID())
		if evs := tr.Events(); len(evs) != 1 || evs[0].What != tr.ID() || !tr.Errored() || tr.Finished() {
			return fmt.Sprintf("active trace has events %s, errored %v finished %v", evString(evs), tr.Errored(), tr.Finished())
		}
		return ""
	},
	// use an old reference
	func(c *trc.Collector, old trc.Trace, id string) string {
		old.Finish()
		old.Errorf("stale")
		for _, ev := range old.Events() {
			if ev.What != id {
				return fmt.Sprintf("old trace has foreign events %s", evString(old.Events()))
			}
		}
		if old.ID() != id || old.Errored() || !old.Finished() {
			return fmt.Sprintf("old trace is now %s, errored %v finished %v", old.ID(), old.Errored(), old.Finished())
		}
		return ""
	},
	// search and look at the result
	func(c *trc.Collector, old trc.Trace, id string) string {
		res, err := c.Search(context.Background(), &trc.SearchRequest{})
		if err != nil {
			return err.Error()
		}
		for _, tr := range res.Traces {
			s1 := snapOf(tr)
			zmc.Yield()
			if d := s1.diff(snapOf(tr)); d != "" {
				return "search result changed: " + d
			}
			for _, ev := range tr.TraceEvents {
				if ev.What != tr.TraceID {
					return fmt.Sprintf("search result %s has foreign events %s", tr.TraceID, evString(tr.TraceEvents))
				}
				if len(ev.Stack) == 0 {
					return "search result lost its stack"
				}
			}
		}
		return ""
	},
	// resize
	func(c *trc.Collector, old trc.Trace, id string) string {
		c.SetCategorySize(2)
		c.SetCategorySize(1)
		return ""
	},
}

func c07Concurrent(x *X, i, j int) {
	c := trc.NewDefaultCollector().SetCategorySize(1)
	_, old := c.NewTrace(context.Background(), "cat")
	id := old.ID()
	old.Tracef("%s", id)
	evs := old.Events()
	before := copyEvents(evs)
	if x.Bool() {
		old.Finish()
	}
	var res [2]string
	h1 := x.Go("T1", func() { res[0] = c07Threads[i](c, old, id) })
	h2 := x.Go("T2", func() { res[1] = c07Threads[j](c, old, id) })
	h1.Join()
	h2.Join()
	for n, r := range res {
		if r != "" {
			x.Failf("T%d: %s", n+1, r)
		}
	}
	if !sameEvents(before, evs) {
		x.Failf("event list changed from %s to %s", evString(before), evString(evs))
	}
	// The collector holds one consistent trace.
	sr, err := c.Search(context.Background(), &trc.SearchRequest{})
	if err != nil || len(sr.Traces) != 1 {
		x.Failf("search: %v, %d traces", err, len(sr.Traces))
		return
	}
	for _, ev := range sr.Traces[0].TraceEvents {
		if ev.What != sr.Traces[0].TraceID && ev.What != "stale" {
			x.Failf("retained trace %s has foreign events %s", sr.Traces[0].TraceID, evString(sr.Traces[0].TraceEvents))
		}
	}
	x.Outcome("%v %d", sr.Traces[0].TraceFinished, len(sr.Traces[0].TraceEvents))
}
