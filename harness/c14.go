package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/zmc"
)

func init() {
	register("C14", c14Variants)
}

// pop is an update made by a publisher.
type pop struct {
	tr       int
	id       string // of the event, or "new", "finish"
	inv, ret int
}

// c14Check compares the copies received with the traces' final events.
// The subscription was in force for sure within from..to, and possibly within
// early..late. lossy: copies may have been dropped.
func c14Check(trs []trc.Trace, ops []*pop, got []trc.Trace, f trc.Filter, early, from, to, late int, lossy bool) string {
	byID := map[string]int{}
	finals := make([]*snap, len(trs))
	for i, tr := range trs {
		byID[tr.ID()] = i
		finals[i] = snapOf(tr)
	}
	count := map[string]int{}
	lastPos := make([]int, len(trs)) // position in the trace's history: 0 new, 1.. events, len+1 finish
	for i := range lastPos {
		lastPos[i] = -1
	}
	for n, g := range got {
		i, ok := byID[g.ID()]
		if !ok {
			return fmt.Sprintf("copy %d is of unknown trace %s", n, g.ID())
		}
		fin := finals[i]
		s := snapOf(g)
		if s.source != fin.source || s.category != fin.category || !s.started.Equal(fin.started) {
			return fmt.Sprintf("copy %d: source %q category %q started %v, trace has %q %q %v", n, s.source, s.category, s.started, fin.source, fin.category, fin.started)
		}
		pos := 0
		key := ""
		if s.finished {
			if !fin.finished {
				return fmt.Sprintf("copy %d of unfinished trace %d is finished", n, i)
			}
			if !eqStrings(whats(s.events), whats(fin.events)) {
				return fmt.Sprintf("copy %d is finished with events %q, but the trace has %q", n, whats(s.events), whats(fin.events))
			}
			if s.errored != fin.errored || s.dur != fin.dur {
				return fmt.Sprintf("copy %d is finished, errored %v after %v, but the trace is errored %v after %v", n, s.errored, s.dur, fin.errored, fin.dur)
			}
			pos, key = len(fin.events)+1, "finish"
		} else {
			if len(s.events) > 1 {
				return fmt.Sprintf("copy %d is active with events %q", n, whats(s.events))
			}
			key = "new"
			if len(s.events) == 1 {
				key = s.events[0].What
				pos = -1
				for j, e := range fin.events {
					if e.What == key {
						pos = j + 1
						if e.IsError != s.events[0].IsError || !e.When.Equal(s.events[0].When) {
							return fmt.Sprintf("copy %d: event %+v, but the trace has %+v", n, s.events[0], e)
						}
					}
				}
				if pos < 0 {
					return fmt.Sprintf("copy %d has event %q which is not in the trace's %q", n, key, whats(fin.events))
				}
			}
			bad := false
			for j := 0; j < pos; j++ {
				bad = bad || fin.events[j].IsError
			}
			if s.errored != bad {
				return fmt.Sprintf("copy %d of event %q: errored %v, but after %q it was %v", n, key, s.errored, whats(fin.events[:pos]), bad)
			}
		}
		for _, e := range s.events {
			if len(e.Stack) > 0 {
				return fmt.Sprintf("copy %d has stacks", n)
			}
		}
		if !allows(f, g) {
			return fmt.Sprintf("copy %d (%q) is not admitted by %s", n, key, f)
		}
		if pos <= lastPos[i] {
			return fmt.Sprintf("copy %d (%q) is out of order in %q", n, key, whats(fin.events))
		}
		lastPos[i] = pos
		count[fmt.Sprint(i, key)]++
	}
	for _, o := range ops {
		k := fmt.Sprint(o.tr, o.id)
		n := count[k]
		delete(count, k)
		if n > 1 {
			return fmt.Sprintf("update %q of trace %d was delivered %d times", o.id, o.tr, n)
		}
		if n == 1 && (o.ret < early || o.inv > late) {
			return fmt.Sprintf("update %q of trace %d was delivered outside of the subscription", o.id, o.tr)
		}
		if n == 1 || lossy || o.inv < from || o.ret > to {
			continue
		}
		// It must have been delivered, if it took effect and is admitted.
		fin := finals[o.tr]
		st := &trc.StaticTrace{TraceID: fin.id, TraceSource: fin.source, TraceCategory: fin.category, TraceDuration: fin.dur}
		effect := o.id == "new"
		switch {
		case o.id == "finish":
			effect = true
			st.TraceFinished, st.TraceErrored, st.TraceEvents = true, fin.errored, fin.events
		default:
			for _, e := range fin.events {
				st.TraceErrored = st.TraceErrored || e.IsError && !effect
				if e.What == o.id {
					effect = true
					st.TraceEvents = []trc.Event{{What: e.What}}
				}
			}
			if o.id == "new" {
				st.TraceErrored = false
			}
		}
		if effect && allows(f, st) {
			return fmt.Sprintf("update %q of trace %d was not delivered", o.id, o.tr)
		}
	}
	for k, n := range count {
		if n > 0 {
			return fmt.Sprintf("%q was delivered but never made", k)
		}
	}
	return ""
}

type c14Pub struct {
	tr  int
	ops []int // 0..3 event kinds, 4 finish
}

var c14Progs = [][]c14Pub{
	{{0, []int{0}}, {0, []int{0}}},
	{{0, []int{0, 4}}, {0, []int{2}}},
	{{0, []int{4}}, {0, []int{4}}},
	{{0, []int{3}}, {0, []int{1, 4}}},
	{{0, []int{2, 0}}, {0, []int{0}}},
	{{0, []int{0, 0}}, {0, []int{4}}},
	{{0, []int{0, 4}}, {1, []int{2, 4}}},
	{{0, []int{2}}, {1, []int{1}}},
	{{0, []int{0}}, {0, []int{2}}, {0, []int{4}}},
	{{0, []int{0}}, {0, []int{0}}, {0, []int{0}}},
	{{2, []int{0, 4}}, {3, []int{2}}}, // creating their own
	{{2, []int{}}, {0, []int{0, 4}}},
}

var c14Filters = []trc.Filter{{}, {IsFinished: true}, {IsErrored: true}, {IsActive: true, IsSuccess: true}, {Query: "p0"}}

func c14Variants(tier string) []*Variant {
	var vs []*Variant
	for pi := range c14Progs {
		pi := pi
		b := quickThorough(tier, 3, 4)
		if len(c14Progs[pi]) > 2 {
			b = quickThorough(tier, 2, 3)
		}
		vs = append(vs, &Variant{Name: fmt.Sprintf("publish/%d", pi), Bound: b, Body: func(x *X) { c14Run(x, pi, "steady") }})
		vs = append(vs, &Variant{Name: fmt.Sprintf("subscribe/%d", pi), Bound: b, Body: func(x *X) { c14Run(x, pi, "subscribe") }})
		vs = append(vs, &Variant{Name: fmt.Sprintf("unsubscribe/%d", pi), Bound: b, Body: func(x *X) { c14Run(x, pi, "unsubscribe") }})
		vs = append(vs, &Variant{Name: fmt.Sprintf("slow/%d", pi), Bound: b - 1, Body: func(x *X) { c14Run(x, pi, "slow") }})
		if pi%2 == 1 {
			for _, mode := range []string{"subscribe", "unsubscribe", "slow"} {
				mode := mode
				vs = append(vs, &Variant{Name: fmt.Sprintf("race/%s/%d", mode, pi), Race: true, Bound: quickThorough(tier, 1, 2), Body: func(x *X) { c14Run(x, pi, mode) }})
			}
		}
	}
	vs = append(vs, &Variant{Name: "duplicate", Bound: quickThorough(tier, 3, 5), Body: c14Duplicate})
	vs = append(vs, &Variant{Name: "race/duplicate", Race: true, Bound: quickThorough(tier, 1, 2), Body: c14Duplicate})
	vs = append(vs, &Variant{Name: "canceled", Bound: quickThorough(tier, 2, 3), Body: c14Canceled})
	vs = append(vs, &Variant{Name: "two", Bound: quickThorough(tier, 1, 2), Body: c14Two})
	vs = append(vs, &Variant{Name: "dropped", Bound: quickThorough(tier, 2, 3), Body: c14Dropped})
	vs = append(vs, &Variant{Name: "waiting", Bound: quickThorough(tier, 3, 5), Body: c14Waiting})
	vs = append(vs, &Variant{Name: "shared", Bound: quickThorough(tier, 2, 3), Body: c14Shared})
	vs = append(vs, &Variant{Name: "search", Bound: quickThorough(tier, 1, 2), Body: c14SearchToo})
	return vs
}

func c14Run(x *X, pi int, mode string) {
	trc.SetTraceStacks(false)
	prog := c14Progs[pi]
	fi := 0
	if !zmc.RaceEnabled {
		fi = x.Choose(len(c14Filters))
	}
	f := c14Filters[fi]
	capacity := 64
	if mode == "slow" {
		capacity = x.Choose(2)
	}
	c := trc.NewDefaultCollector()
	trs := make([]trc.Trace, 4)
	var pre []*pop
	var sub *subscription
	early, from, to, late := 0, 0, 1<<30, 1<<30
	if mode != "subscribe" {
		sub = subscribe(x, c, f, capacity)
		zmc.Idle()
	}
	for i := 0; i < 2; i++ {
		o := &pop{tr: i, id: "new", inv: zmc.Steps()}
		_, trs[i] = c.NewTrace(context.Background(), pickStr(i, "a", "b"))
		o.ret = zmc.Steps()
		pre = append(pre, o)
	}
	hist := make([][]*pop, len(prog))
	var hs []*zmc.Handle
	for i, p := range prog {
		i, p := i, p
		hist[i] = make([]*pop, 0, 8)
		hs = append(hs, x.Go(fmt.Sprint("P", i), func() {
			tr := trs[p.tr]
			if p.tr >= 2 {
				o := &pop{tr: p.tr, id: "new", inv: zmc.Steps()}
				_, tr = c.NewTrace(context.Background(), "n")
				trs[p.tr] = tr
				o.ret = zmc.Steps()
				hist[i] = append(hist[i], o)
			}
			for j, op := range p.ops {
				o := &pop{tr: p.tr, id: fmt.Sprintf("p%d.%d", i, j), inv: zmc.Steps()}
				if op == 4 {
					o.id = "finish"
					tr.Finish()
				} else {
					emit(tr, kinds[op], "%s", o.id)
				}
				o.ret = zmc.Steps()
				hist[i] = append(hist[i], o)
			}
		}))
	}
	var got []trc.Trace
	switch mode {
	case "subscribe": // while publishing
		early = zmc.Steps()
		sub = subscribe(x, c, f, capacity)
		zmc.Yield()
		from = 1 << 30 // unless it is certain
		if _, err := c.StreamStats(context.Background(), sub.ch); err == nil {
			from = zmc.Steps()
		}
	case "unsubscribe":
		to = zmc.Steps()
		sub.stop()
		late = zmc.Steps()
		if n := len(sub.ch); sub.stats.Sends != n {
			x.Failf("program %d: Stream returned %v, but %d copies were sent", pi, sub.stats, n)
			return
		}
	case "slow":
		rh := x.Go("reader", func() {
			for i := 0; i < 2; i++ {
				rc := zmc.RecvCase[trc.Trace](sub.ch)
				dc := zmc.RecvCase[struct{}](sub.ctx.Done())
				if zmc.Select(false, rc, dc) == 1 {
					return
				}
				got = append(got, rc.Val)
			}
		})
		for _, h := range hs {
			h.Join()
		}
		sub.stop()
		rh.Join()
	}
	for _, h := range hs {
		h.Join()
	}
	final := sub.stats
	if mode == "steady" || mode == "subscribe" {
		sub.stop()
		final = sub.stats
	}
	got = append(got, sub.drain()...)
	if !errors.Is(sub.err, context.Canceled) {
		x.Failf("program %d: Stream returned %v", pi, sub.err)
		return
	}
	ops := pre
	for _, h := range hist {
		ops = append(ops, h...)
	}
	var live []trc.Trace
	index := map[int]int{}
	for i, tr := range trs {
		if tr != nil {
			index[i] = len(live)
			live = append(live, tr)
		}
	}
	effects := len(live)
	for _, tr := range live {
		effects += len(tr.Events())
		if tr.Finished() {
			effects++
		}
	}
	// Several calls of Finish are one update.
	var uniq []*pop
	fins := map[int]*pop{}
	for _, o := range ops {
		o.tr = index[o.tr]
		if o.id == "finish" {
			if p := fins[o.tr]; p != nil {
				// It is delivered if one of them is certain to be the first.
				if o.inv < p.inv {
					p.inv = o.inv
				}
				if o.ret > p.ret {
					p.ret = o.ret
				}
				continue
			}
			fins[o.tr] = o
		}
		uniq = append(uniq, o)
	}
	if d := c14Check(live, uniq, got, f, early, from, to, late, mode == "slow"); d != "" {
		var b []string
		for _, o := range ops {
			b = append(b, fmt.Sprintf("[%d-%d %d:%s]", o.inv, o.ret, o.tr, o.id))
		}
		x.Failf("program %d, %s, filter %s: %s (%s, subscribed within %d..%d, %v)", pi, mode, f, d, strings.Join(b, " "), early, late, final)
		return
	}
	if final.Sends != len(got) {
		x.Failf("program %d, %s, filter %s: %v, but received %d", pi, mode, f, final, len(got))
		return
	}
	if mode != "slow" && final.Drops != 0 {
		x.Failf("program %d, %s, filter %s: %v, but there was room", pi, mode, f, final)
		return
	}
	if sum := final.Sends + final.Skips + final.Drops; (mode == "steady" || mode == "slow") && sum != effects {
		x.Failf("program %d, %s, filter %s: %v, but %d updates", pi, mode, f, final, effects)
		return
	}
	var b []string
	for _, g := range got {
		b = append(b, fmt.Sprintf("%v%q", g.Finished(), whats(g.Events())))
	}
	x.Outcome("%d %s: %v %v", pi, mode, final, b)
}

// c14Duplicate: a channel can be subscribed once at a time.
func c14Duplicate(x *X) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector()
	ch := zmc.NameChan(make(chan trc.Trace, 16))
	type res struct {
		st  trc.StreamStats
		err error
	}
	out := make([]res, 2)
	ctx, cancel := context.WithCancel(context.Background())
	first := &subscription{ch: ch, ctx: ctx, cancel: cancel}
	established := x.Bool()
	if established {
		first.h = x.Go("S0", func() { out[0].st, out[0].err = c.Stream(ctx, trc.Filter{}, ch) })
		zmc.Idle()
	}
	_, tr := c.NewTrace(context.Background(), "a")
	p := x.Go("P", func() { tr.Tracef("one"); tr.Finish() })
	if !established {
		first.h = x.Go("S0", func() { out[0].st, out[0].err = c.Stream(ctx, trc.Filter{}, ch) })
	}
	// A second subscription of the same channel, with another filter.
	second := x.Go("S1", func() { out[1].st, out[1].err = c.Stream(ctx, trc.Filter{IsErrored: true}, ch) })
	p.Join()
	if established {
		second.Join()
		if out[1].err == nil || errors.Is(out[1].err, context.Canceled) || out[1].st != (trc.StreamStats{}) {
			x.Failf("second subscription returned %v %v", out[1].st, out[1].err)
			return
		}
		st, err := c.StreamStats(context.Background(), ch)
		if err != nil || st.Sends != 3 || len(ch) != 3 {
			x.Failf("after a failed second subscription: statistics %v %v, %d copies received", st, err, len(ch))
			return
		}
		first.stop()
		if out[0].st.Sends != 3 || !errors.Is(out[0].err, context.Canceled) {
			x.Failf("first subscription returned %v %v", out[0].st, out[0].err)
			return
		}
	} else {
		first.stop()
		second.Join()
		canceled := 0
		for _, o := range out {
			if errors.Is(o.err, context.Canceled) {
				canceled++
			} else if o.err == nil {
				x.Failf("subscription returned %v without an error", o.st)
			}
		}
		if canceled == 0 {
			x.Failf("no subscription succeeded: %v and %v", out[0].err, out[1].err)
		}
	}
	// The channel is free again.
	again := &subscription{ch: ch}
	again.ctx, again.cancel = context.WithCancel(context.Background())
	again.h = x.Go("S2", func() { again.stats, again.err = c.Stream(again.ctx, trc.Filter{}, ch) })
	zmc.Idle()
	n := len(ch)
	_, tr2 := c.NewTrace(context.Background(), "b")
	_ = tr2
	if len(ch) != n+1 {
		x.Failf("the channel can't be subscribed again")
	}
	again.stop()
	x.Outcome("%v %v %v", established, out[0], out[1])
}

// c14Canceled: subscriptions with an already canceled context, and many at once.
func c14Canceled(x *X) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector()
	_, tr := c.NewTrace(context.Background(), "a")
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	chs := []chan trc.Trace{zmc.NameChan(make(chan trc.Trace, 8)), zmc.NameChan(make(chan trc.Trace, 8))}
	stats := make([]trc.StreamStats, 2)
	errs := make([]error, 2)
	var hs []*zmc.Handle
	for i := range chs {
		i := i
		hs = append(hs, x.Go(fmt.Sprint("S", i), func() { stats[i], errs[i] = c.Stream(ctx, trc.Filter{}, chs[i]) }))
	}
	hs = append(hs, x.Go("P", func() { tr.Tracef("x"); tr.Finish() }))
	for _, h := range hs {
		h.Join()
	}
	for i, ch := range chs {
		if !errors.Is(errs[i], context.Canceled) || stats[i].Sends != len(ch) {
			x.Failf("subscription %d: %v %v, %d copies received", i, stats[i], errs[i], len(ch))
		}
		if _, err := c.StreamStats(context.Background(), ch); err == nil {
			x.Failf("subscription %d remains", i)
		}
	}
	x.Outcome("%v %v", stats[0], stats[1])
}

// c14Two: subscribers come and go without disturbing each other.
func c14Two(x *X) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector()
	steady := subscribe(x, c, trc.Filter{}, 16)
	zmc.Idle()
	ops := []*pop{{tr: 0, id: "new"}}
	_, tr := c.NewTrace(context.Background(), "a")
	full := subscribe(x, c, trc.Filter{IsActive: true}, 0)
	a := x.Go("P", func() {
		for j := 0; j < 2; j++ {
			o := &pop{id: fmt.Sprint("e", j), inv: zmc.Steps()}
			tr.Errorf("%s", o.id)
			o.ret = zmc.Steps()
			ops = append(ops, o)
		}
		tr.Finish()
		ops = append(ops, &pop{id: "finish"})
	})
	b := x.Go("Q", func() { full.stop() })
	a.Join()
	b.Join()
	steady.stop()
	got := steady.drain()
	if d := c14Check([]trc.Trace{tr}, ops, got, trc.Filter{}, 0, 0, 1<<30, 1<<30, false); d != "" {
		x.Failf("%s", d)
		return
	}
	if steady.stats != (trc.StreamStats{Sends: 4}) || full.stats.Sends != 0 || full.stats.Drops+full.stats.Skips > 4 {
		x.Failf("statistics %v and %v", steady.stats, full.stats)
	}
	x.Outcome("%v %v", steady.stats, full.stats)
}

// c14SearchToo: searching, dropping and streaming at once.
func c14SearchToo(x *X) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector().SetCategorySize(1)
	sub := subscribe(x, c, trc.Filter{}, 32)
	zmc.Idle()
	ops := []*pop{{tr: 0, id: "new"}}
	_, tr := c.NewTrace(context.Background(), "a")
	total := -1
	a := x.Go("P", func() {
		tr.LazyTracef("e0")
		ops = append(ops, &pop{id: "e0"})
		tr.Finish()
		ops = append(ops, &pop{id: "finish"})
	})
	b := x.Go("S", func() {
		res, err := c.Search(context.Background(), &trc.SearchRequest{})
		if err == nil {
			total = res.TotalCount
		}
	})
	a.Join()
	b.Join()
	sub.stop()
	if total != 1 {
		x.Failf("search found %d", total)
	}
	if d := c14Check([]trc.Trace{tr}, ops, sub.drain(), trc.Filter{}, 0, 0, 1<<30, 1<<30, false); d != "" {
		x.Failf("%s", d)
	}
	x.Outcome("%v", sub.stats)
}

// c14Dropped: a trace is dropped while it is being finished.
func c14Dropped(x *X) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector().SetCategorySize(1)
	if x.Bool() {
		c.SetDecorators(trc.LogDecorator(io.Discard))
	}
	sub := subscribe(x, c, trc.Filter{}, 32)
	zmc.Idle()
	_, tr := c.NewTrace(context.Background(), "a")
	tr.Tracef("e0")
	a := x.Go("P", func() {
		tr.LazyTracef("e1")
		tr.Finish()
	})
	b := x.Go("D", func() {
		_, next := c.NewTrace(context.Background(), "a")
		next.Tracef("n")
	})
	a.Join()
	b.Join()
	sub.stop()
	var got []string
	for _, g := range sub.drain() {
		if g.ID() == tr.ID() {
			got = append(got, fmt.Sprint(g.Finished(), whats(g.Events())))
		} else {
			for _, w := range whats(g.Events()) {
				if w != "n" {
					x.Failf("copy of another trace has event %q", w)
				}
			}
		}
	}
	if want := []string{"false []", "false [e0]", "false [e1]", "true [e0 e1]"}; !eqStrings(got, want) {
		x.Failf("copies %q, want %q", got, want)
	}
	x.Outcome("%v", sub.stats)
}

// c14Waiting: a reader that waits at an unbuffered channel is served.
func c14Waiting(x *X) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector()
	sub := subscribe(x, c, trc.Filter{}, 0)
	n := 1 + x.Choose(3)
	var got []string
	r := x.Go("R", func() {
		for i := 0; i < n; i++ {
			got = append(got, fmt.Sprint(whats(zmc.Recv(sub.ch).Events())))
		}
	})
	zmc.Idle()
	_, tr := c.NewTrace(context.Background(), "a")
	zmc.Idle()
	tr.Tracef("e0")
	zmc.Idle()
	tr.LazyErrorf("e1")
	r.Join()
	want := []string{"[]", "[e0]", "[e1]"}[:n]
	if !eqStrings(got, want) {
		x.Failf("a waiting reader got %q, want %q", got, want)
	}
	sub.stop()
	if sub.stats != (trc.StreamStats{Sends: n, Drops: 3 - n}) {
		x.Failf("%d received by a waiting reader, statistics %v", n, sub.stats)
	}
	x.Outcome("%v", sub.stats)
}

// c14Shared: one channel, subscribed at two collectors.
func c14Shared(x *X) {
	trc.SetTraceStacks(false)
	ch := zmc.NameChan(make(chan trc.Trace, 1+x.Choose(2)))
	ctx, cancel := context.WithCancel(context.Background())
	stats := make([]trc.StreamStats, 2)
	var subs, pubs []*zmc.Handle
	cs := make([]*trc.Collector, 2)
	for i := range cs {
		i := i
		cs[i] = trc.NewDefaultCollector()
		subs = append(subs, x.Go("S", func() { stats[i], _ = cs[i].Stream(ctx, trc.Filter{}, ch) }))
	}
	zmc.Idle()
	for i := range cs {
		i := i
		pubs = append(pubs, x.Go("P", func() {
			_, tr := cs[i].NewTrace(context.Background(), "a")
			tr.Tracef("x")
		}))
	}
	for _, h := range pubs {
		h.Join()
	}
	cancel()
	for _, h := range subs {
		h.Join()
	}
	for i, s := range stats {
		if s.Sends+s.Drops != 2 || s.Skips != 0 {
			x.Failf("collector %d: 2 updates, statistics %v", i, s)
		}
	}
	if len(ch) != cap(ch) || stats[0].Sends+stats[1].Sends != cap(ch) {
		x.Failf("%d of %d received, statistics %v and %v", len(ch), cap(ch), stats[0], stats[1])
	}
	x.Outcome("%v %v", stats[0], stats[1])
}
