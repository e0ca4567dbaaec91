package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"github.com/peterbourgon/trc/zmc"
)

func init() {
	register("C13", c13Variants, "traces are updated by one goroutine at a time here; C14 has the concurrent case", "a filter is applied to the copy that would be sent")
}

// streamCopy is the specification of the copy streamed for an update of tr.
func streamCopy(tr trc.Trace) *snap {
	s := snapOf(tr)
	if !s.finished && len(s.events) > 1 {
		s.events = s.events[len(s.events)-1:]
	}
	for i := range s.events {
		s.events[i].Stack = nil
	}
	return s
}

func (s *snap) static() *trc.StaticTrace {
	return &trc.StaticTrace{TraceID: s.id, TraceSource: s.source, TraceCategory: s.category, TraceStarted: s.started, TraceDuration: s.dur,
		TraceFinished: s.finished, TraceErrored: s.errored, TraceEvents: s.events}
}

// subModel is the specification of a subscriber.
type subModel struct {
	f      trc.Filter
	cap    int
	active bool
	queue  []*snap
	stats  trc.StreamStats
	sub    *subscription
}

func (m *subModel) update(s *snap) {
	switch {
	case !m.active:
	case !allows(m.f, s.static()):
		m.stats.Skips++
	case len(m.queue) >= m.cap:
		m.stats.Drops++
	default:
		m.stats.Sends++
		m.queue = append(m.queue, s)
	}
}

// drained compares what is in the channel with the model.
func (m *subModel) drained() string {
	got := m.sub.drain()
	want := m.queue
	m.queue = nil
	if len(got) != len(want) {
		var b []string
		for _, g := range got {
			b = append(b, fmt.Sprintf("%s/%v/%v", g.ID(), g.Finished(), whats(g.Events())))
		}
		return fmt.Sprintf("received %d copies %v, want %d", len(got), b, len(want))
	}
	for i := range got {
		if d := want[i].diff(snapOf(got[i])); d != "" {
			return fmt.Sprintf("copy %d: %s", i, d)
		}
	}
	return ""
}

type c13Config struct {
	name    string
	filters []trc.Filter
	caps    []int
}

var c13Configs = []c13Config{
	{"all", []trc.Filter{{}}, []int{10}},
	{"finished,1", []trc.Filter{{IsFinished: true}}, []int{1}},
	{"none,query+errored", []trc.Filter{{}, {Query: "x", IsErrored: true}}, []int{0, 2}},
	{"active+cat,one", []trc.Filter{{IsActive: true, Category: "a"}, {}}, []int{10, 1}},
	{"min,success", []trc.Filter{{MinDuration: durp(ms)}, {IsSuccess: true}}, []int{2, 10}},
	{"same filter", []trc.Filter{{IsSuccess: true}, {IsSuccess: true}}, []int{1, 3}},
	{"invalid,sources", []trc.Filter{{Query: "^y"}, {Sources: []string{"s"}, IsActive: true}}, []int{10, 10}},
}

const c13Ops = 13

func c13Variants(tier string) []*Variant {
	var vs []*Variant
	for ci := range c13Configs {
		for first := 0; first < 3; first++ {
			for second := 0; second < c13Ops; second++ {
				ci, first, second := ci, first, second
				vs = append(vs, &Variant{Name: fmt.Sprintf("ops/%s/first=%d,%d", c13Configs[ci].name, first, second), Seq: true,
					Body: func(x *X) { c13Run(x, &c13Configs[ci], "collector", first, second, quickThorough(tier, 5, 6)) }})
			}
		}
	}
	for _, form := range []string{"log", "pass", "shared", "nostacks", "max10"} {
		form := form
		vs = append(vs, &Variant{Name: "ops/" + form, Seq: true, Body: func(x *X) { c13Run(x, &c13Configs[3], form, 0, 2, 5) }})
	}
	for _, impl := range []string{"static", "own", "detail", "wrapped"} {
		impl := impl
		vs = append(vs, &Variant{Name: "custom/" + impl, Seq: true, Body: func(x *X) { c13Custom(x, impl) }})
	}
	vs = append(vs, &Variant{Name: "new", Seq: true, Body: c13New})
	vs = append(vs, &Variant{Name: "two", Seq: true, Body: func(x *X) { c13Two(x, quickThorough(tier, 3, 4)) }})
	vs = append(vs, &Variant{Name: "many", Seq: true, Body: c13Many})
	vs = append(vs, &Variant{Name: "large", Seq: true, Body: c13Large})
	return vs
}

func c13Run(x *X, cfg *c13Config, form string, first, second, depth int) {
	trc.SetTraceStacks(form == "log")
	broker := trc.NewBroker()
	cc := trc.CollectorConfig{Source: "s", Broker: broker}
	switch form {
	case "log":
		cc.Decorators = []trc.DecoratorFunc{trc.LogDecorator(io.Discard)}
	case "pass":
		cc.Decorators = []trc.DecoratorFunc{passDecorator, passDecorator}
	case "max10":
		trc.SetTraceMaxEvents(10)
	}
	c := trc.NewCollector(cc)
	other := c
	if form == "shared" {
		other = trc.NewCollector(trc.CollectorConfig{Source: "s2", Broker: broker})
	}
	var subs []*subModel
	for i, f := range cfg.filters {
		m := &subModel{f: f, cap: cfg.caps[i], active: true}
		m.sub = subscribe(x, c, f, m.cap)
		subs = append(subs, m)
	}
	zmc.Idle()
	var log opLog
	var trs []trc.Trace
	var ctxs []context.Context
	fin := map[trc.Trace]bool{}
	publish := func(tr trc.Trace) {
		for _, m := range subs {
			m.update(streamCopy(tr))
		}
	}
	do := func(tr trc.Trace, f func()) {
		f()
		if !fin[tr] {
			fin[tr] = tr.Finished()
			publish(tr)
		}
	}
	check := func() bool {
		for i, m := range subs {
			got, err := c.StreamStats(context.Background(), m.sub.ch)
			if (err == nil) != m.active {
				x.Failf("%s: after %s: subscriber %d: statistics: %v, subscribed %v", form, log.String(), i, err, m.active)
				return false
			}
			if m.active && got != m.stats {
				x.Failf("%s: after %s: subscriber %d (%s): statistics %v, want %v", form, log.String(), i, m.f, got, m.stats)
				return false
			}
		}
		return true
	}
	stop := func(i int) bool {
		m := subs[i]
		m.sub.stop()
		m.active = false
		if m.sub.stats != m.stats || !errors.Is(m.sub.err, context.Canceled) {
			x.Failf("%s: after %s: subscriber %d (%s): Stream returned %v %v, want %v", form, log.String(), i, m.f, m.sub.stats, m.sub.err, m.stats)
			return false
		}
		return true
	}
	for i := 0; i < depth; i++ {
		op := 0
		switch {
		case i == 0:
			op = first
		case i == 1:
			op = second
		default:
			op = x.Choose(c13Ops)
		}
		n := 1
		if form == "max10" && op >= 2 && op <= 5 {
			n = 7
		}
		text := pickStr(i, "x", "y")
		switch op {
		case 0, 1:
			cat := pickStr(op, "a", "")
			log.add("new %s", cat)
			col := c
			if op == 1 {
				col = other
			}
			ctx, tr := col.NewTrace(context.Background(), cat)
			trs, ctxs = append(trs, tr), append(ctxs, ctx)
			publish(tr)
		case 2, 3, 4, 5:
			if len(trs) == 0 {
				break
			}
			k := kinds[op-2]
			log.add("%v %s", k, text)
			tr := trs[len(trs)-1]
			for j := 0; j < n; j++ {
				do(tr, func() { emit(tr, k, "%s%d", text, j) })
			}
		case 6:
			if len(trs) < 2 {
				break
			}
			log.add("first Tracef %s", text)
			do(trs[0], func() { trs[0].Tracef("%s", text) })
		case 7, 8:
			if len(trs) == 0 || op == 8 && len(trs) < 2 {
				break
			}
			tr := trs[len(trs)-1]
			if op == 8 {
				tr = trs[0]
			}
			log.add("finish")
			do(tr, tr.Finish)
		case 9:
			m := subs[0]
			if m.active {
				log.add("unsubscribe")
				if !stop(0) {
					return
				}
				if d := m.drained(); d != "" {
					x.Failf("%s: after %s: %s", form, log.String(), d)
					return
				}
			} else {
				log.add("subscribe")
				m.sub = subscribe(x, c, m.f, m.cap)
				zmc.Idle()
				m.stats, m.active = trc.StreamStats{}, true
			}
		case 10:
			log.add("drain")
			if d := subs[0].drained(); d != "" {
				x.Failf("%s: after %s: subscriber 0 (%s): %s", form, log.String(), subs[0].f, d)
				return
			}
		case 11:
			log.add("advance")
			x.Advance(odd)
		case 12:
			if len(trs) == 0 {
				break
			}
			log.add("prefixed, nested")
			tr := trs[len(trs)-1]
			_, p := trc.Prefix(ctxs[len(trs)-1], "p%d", 1)
			do(tr, func() { p.LazyErrorf("%s", text) })
			do(tr, func() { c.NewTrace(ctxs[len(trs)-1], "z") })
		}
		if !check() {
			return
		}
	}
	for i := range subs {
		if subs[i].active && !stop(i) {
			return
		}
	}
	// Nobody is subscribed any more.
	if len(trs) > 0 {
		trs[0].Tracef("late")
		trs[0].Finish()
	}
	for i, m := range subs {
		if d := m.drained(); d != "" {
			x.Failf("%s: after %s: subscriber %d (%s): %s", form, log.String(), i, m.f, d)
			return
		}
	}
	x.Outcome("%s: %v", log.String(), subs[0].stats)
}

// Trace implementations of users.

type ownTrace struct { // returns its own events
	trc.Trace
	own []trc.Event
}

func (o *ownTrace) Tracef(format string, args ...any) {
	o.Trace.Tracef(format, args...)
	o.own = append(o.own, trc.Event{When: zmc.Peek(), What: fmt.Sprintf(format, args...), Stack: []trc.Frame{{Function: "f", FileLine: "g:1"}, {Function: "h", FileLine: "i:2"}}})
}
func (o *ownTrace) Errorf(format string, args ...any) {
	o.Trace.Errorf(format, args...)
	o.own = append(o.own, trc.Event{When: zmc.Peek(), What: fmt.Sprintf(format, args...), IsError: true, Stack: []trc.Frame{{Function: "f", FileLine: "g:1"}}})
}
func (o *ownTrace) LazyTracef(format string, args ...any) { o.Tracef(format, args...) }
func (o *ownTrace) LazyErrorf(format string, args ...any) { o.Errorf(format, args...) }
func (o *ownTrace) Events() []trc.Event                   { return o.own }

type detailTrace struct{ *ownTrace }

func (d *detailTrace) EventsDetail(n int, stacks bool) []trc.Event {
	out := copyEvents(d.own)
	if n > 0 && n < len(out) {
		out = out[len(out)-n:]
	}
	for i := range out {
		if !stacks {
			out[i].Stack = nil
		}
	}
	return out
}

// c13Custom: any trace implementation can be streamed, and is not changed.
func c13Custom(x *X, impl string) {
	c := trc.NewCollector(trc.CollectorConfig{NewTrace: func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
		_, base := trc.New(context.Background(), source, category)
		var tr trc.Trace
		switch impl {
		case "static":
			tr = &trc.StaticTrace{TraceID: base.ID(), TraceSource: source, TraceCategory: category, TraceStarted: base.Started(),
				TraceEvents: []trc.Event{{What: "e1", Stack: []trc.Frame{{Function: "f"}}}, {What: "e2", Stack: []trc.Frame{{Function: "f"}}}}}
		case "own":
			tr = &ownTrace{Trace: base}
		case "detail":
			tr = &detailTrace{&ownTrace{Trace: base}}
		case "wrapped":
			tr = passDecorator(&ownTrace{Trace: base})
		}
		for _, d := range ds {
			tr = d(tr)
		}
		return trc.Put(ctx, tr)
	}})
	m := &subModel{f: pickFrom(x, trc.Filter{}, trc.Filter{IsFinished: true}, trc.Filter{Query: "1"}), cap: pickFrom(x, 1, 10), active: true}
	m.sub = subscribe(x, c, m.f, m.cap)
	zmc.Idle()
	var log opLog
	_, tr := c.NewTrace(context.Background(), "cat")
	m.update(streamCopy(tr))
	fin := false
	for i := 0; i < 4; i++ {
		before := snapOf(tr)
		op := x.Choose(6)
		switch {
		case op < 4:
			log.add("%v", kinds[op])
			emit(tr, kinds[op], "%d", i)
		case op == 4:
			log.add("finish")
			tr.Finish()
		case op == 5:
			log.add("drain")
			if d := m.drained(); d != "" {
				x.Failf("%s: after %s: %s", impl, log.String(), d)
				return
			}
			continue
		}
		if fin && impl != "static" {
			continue
		}
		fin = tr.Finished()
		m.update(streamCopy(tr))
		// The events it had are as they were.
		after := snapOf(tr)
		if len(after.events) < len(before.events) || !sameEvents(after.events[:len(before.events)], before.events) {
			x.Failf("%s: after %s: events changed from %s to %s", impl, log.String(), evString(before.events), evString(after.events))
			return
		}
		if op < 4 && impl != "static" && len(after.events[len(after.events)-1].Stack) == 0 {
			x.Failf("%s: after %s: stacks are gone", impl, log.String())
			return
		}
	}
	m.sub.stop()
	if m.sub.stats != m.stats {
		x.Failf("%s: after %s: statistics %v, want %v", impl, log.String(), m.sub.stats, m.stats)
		return
	}
	if d := m.drained(); d != "" {
		x.Failf("%s: after %s: %s", impl, log.String(), d)
	}
	x.Outcome("%s %s %v", impl, log.String(), m.stats)
}

// c13Many: traces with many events, up to and past the maximum.
func c13Many(x *X) {
	trc.SetTraceStacks(x.Bool())
	c := trc.NewCollector(trc.CollectorConfig{Source: ""})
	all := &subModel{f: trc.Filter{}, cap: 3000, active: true}
	fin := &subModel{f: trc.Filter{IsFinished: true}, cap: 1, active: true}
	var trs []trc.Trace
	for _, m := range []*subModel{all, fin} {
		m.sub = subscribe(x, c, m.f, m.cap)
	}
	zmc.Idle()
	publish := func(tr trc.Trace) {
		s := streamCopy(tr)
		all.update(s)
		fin.update(s)
	}
	n, k := pickFrom(x, 2, 10, 64, 100, 101, 129, 256, 500, 999, 1000, 1001, 1100), kinds[x.Choose(4)]
	for i := 0; i < 2; i++ {
		_, tr := c.NewTrace(context.Background(), pickStr(i, "", "a"))
		trs = append(trs, tr)
		publish(tr)
	}
	for i := 0; i < n; i++ {
		emit(trs[i%3/2], k, "e%d", i)
		publish(trs[i%3/2])
	}
	x.Advance(odd)
	for _, tr := range trs {
		tr.Finish()
		publish(tr)
	}
	for i, m := range []*subModel{all, fin} {
		m.sub.stop()
		if m.sub.stats != m.stats {
			x.Failf("%d events, subscriber %d: statistics %v, want %v", n, i, m.sub.stats, m.stats)
			return
		}
		if d := m.drained(); d != "" {
			x.Failf("%d events, subscriber %d: %s", n, i, d)
			return
		}
	}
	x.Outcome("%d %v %v", n, k, all.stats)
}

// c13New: NewStreamTrace and Broker.Publish by themselves.
func c13New(x *X) {
	start := time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)
	var evs []trc.Event
	for i := x.Choose(4); i > 0; i-- {
		evs = append(evs, trc.Event{When: start, What: fmt.Sprint(i), IsError: x.Bool(), Stack: []trc.Frame{{Function: "f"}, {Function: "g"}}[:x.Choose(3)]})
	}
	st := &trc.StaticTrace{TraceID: "id", TraceSource: "src", TraceCategory: "cat", TraceStarted: start, TraceDuration: 1500*ms + 1234567, TraceFinished: x.Bool(), TraceErrored: x.Bool(), TraceEvents: evs}
	before := snapOf(st)
	want := streamCopy(st)
	b := trc.NewBroker()
	m := &subModel{f: pickFrom(x, trc.Filter{}, trc.Filter{Query: "1"}, trc.Filter{IsErrored: true}), cap: 1, active: true}
	m.sub = subscribe(x, b, m.f, 1)
	zmc.Idle()
	for i := 0; i < 2; i++ {
		b.Publish(context.Background(), st)
		m.update(want)
		if d := before.diff(snapOf(st)); d != "" {
			x.Failf("publishing changed the trace: %s", d)
		}
	}
	m.sub.stop()
	if m.sub.stats != m.stats {
		x.Failf("statistics %v, want %v", m.sub.stats, m.stats)
	}
	if d := m.drained(); d != "" {
		x.Failf("%s", d)
	}
	got := trc.NewStreamTrace(st)
	if d := want.diff(snapOf(got)); d != "" {
		x.Failf("NewStreamTrace: %s", d)
	}
	if got.TraceDurationStr != got.TraceDuration.String() || got.TraceDurationSec != got.TraceDuration.Seconds() {
		x.Failf("NewStreamTrace: duration %v is also given as %q and %v", got.TraceDuration, got.TraceDurationStr, got.TraceDurationSec)
	}
	x.Outcome("%v", m.stats)
}

// c13Two: several collectors, each with a broker of its own, or with a common
// one.
func c13Two(x *X, depth int) {
	trc.SetTraceStacks(false)
	common := trc.NewBroker()
	kind := x.Choose(5)
	var cs []*trc.Collector
	shared := map[int]bool{}
	switch kind {
	case 0:
		cs = []*trc.Collector{trc.NewDefaultCollector(), trc.NewDefaultCollector()}
	case 1:
		cs = []*trc.Collector{trc.NewCollector(trc.CollectorConfig{Source: "s"}), trc.NewCollector(trc.CollectorConfig{Source: "s"})}
	case 2:
		cs = []*trc.Collector{trc.NewCollector(trc.CollectorConfig{Source: "s", Broker: common}), trc.NewDefaultCollector()}
	case 3:
		cs = []*trc.Collector{trc.NewCollector(trc.CollectorConfig{Broker: common}), trc.NewCollector(trc.CollectorConfig{Broker: common})}
		shared[0], shared[1] = true, true
	case 4:
		cs = []*trc.Collector{eztrc.Collector(), trc.NewDefaultCollector()}
	}
	var subs []*subModel
	for i, c := range cs {
		m := &subModel{f: trc.Filter{}, cap: 64, active: i == 0 || x.Bool()}
		if m.active {
			m.sub = subscribe(x, c, m.f, m.cap)
		}
		subs = append(subs, m)
	}
	zmc.Idle()
	open := [2][]trc.Trace{}
	ids := [2][]string{}
	publish := func(i int, tr trc.Trace) {
		s := streamCopy(tr)
		for j, m := range subs {
			if j == i || shared[i] && shared[j] {
				m.update(s)
			}
		}
	}
	var log opLog
	for n := 1 + x.Choose(depth); n > 0; n-- {
		i := x.Choose(2)
		switch k := x.Choose(3); {
		case k == 0 || len(open[i]) == 0:
			log.add("%d: new", i)
			_, tr := cs[i].NewTrace(context.Background(), "a")
			open[i] = append(open[i], tr)
			ids[i] = append(ids[i], tr.ID())
			publish(i, tr)
		case k == 1:
			log.add("%d: event", i)
			tr := open[i][0]
			tr.Tracef("e")
			publish(i, tr)
		case k == 2:
			log.add("%d: finish", i)
			tr := open[i][0]
			tr.Finish()
			open[i] = open[i][1:]
			publish(i, tr)
		}
	}
	for i, m := range subs {
		if !m.active {
			continue
		}
		m.sub.stop()
		if m.sub.stats != m.stats {
			x.Failf("kind %d: %s: subscriber %d: statistics %v, want %v", kind, log.String(), i, m.sub.stats, m.stats)
			return
		}
		if d := m.drained(); d != "" {
			x.Failf("kind %d: %s: subscriber %d: %s", kind, log.String(), i, d)
			return
		}
	}
	for i, c := range cs {
		for j := range ids {
			for _, id := range ids[j] {
				res, err := c.Search(context.Background(), &trc.SearchRequest{Filter: trc.Filter{IDs: []string{id}}})
				if err != nil || (len(res.Traces) == 1) != (i == j) {
					x.Failf("kind %d: %s: collector %d has %d of the traces of %d", kind, log.String(), i, len(res.Traces), j)
				}
			}
		}
	}
	for i := range open { // they may be in a collector of the process
		for _, tr := range open[i] {
			tr.Finish()
		}
	}
	x.Outcome("%d %s", kind, log.String())
}
