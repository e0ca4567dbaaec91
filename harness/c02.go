package main

import (
	"context"
	"fmt"
	"math"
	"regexp"
	"strconv"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/zmc"
)

func init() {
	register("C02", c02Variants, "a trace's maximum is not raised after it has been truncated, nor lowered below the number of events it has")
}

var integerRE = regexp.MustCompile(`\d+`)

// c02Diff checks a trace against all event calls made on it.
func c02Diff(evs []trc.Event, calls []mEvent, max int) string {
	if len(calls) <= max {
		return diffEvents(evs, calls)
	}
	if len(evs) != max {
		return fmt.Sprintf("%d entries after %d calls with maximum %d", len(evs), len(calls), max)
	}
	if d := diffEvents(evs[:max-1], calls[1:max]); d != "" {
		return "stored events: " + d
	}
	last := evs[max-1]
	nums := integerRE.FindAllString(last.What, -1)
	if want := strconv.Itoa(len(calls) - max); len(nums) != 1 || nums[0] != want {
		return fmt.Sprintf("after %d calls with maximum %d the last entry is %q, should state %s", len(calls), max, last.What, want)
	}
	return ""
}

func clampMax(n int) int {
	if n < 10 {
		return 10
	}
	if n > 10000 {
		return 10000
	}
	return n
}

func c02Variants(tier string) []*Variant {
	vs := []*Variant{
		{Name: "settings", Seq: true, Body: func(x *X) { c02Settings(x) }},
		{Name: "default", Seq: true, Body: func(x *X) { c02Default(x) }},
		{Name: "far", Seq: true, Body: c02Far},
		{Name: "reused", Seq: true, Body: c02Reused},
		{Name: "recycled", Seq: true, Body: func(x *X) { c02Recycled(x) }},
	}
	for _, form := range formNames {
		form := form
		vs = append(vs, &Variant{Name: "overflow/" + form, Seq: true, Body: func(x *X) { c02Overflow(x, form, quickThorough(tier, 4, 6)) }})
	}
	depth := quickThorough(tier, 4, 5)
	for first := 0; first < c02Ops; first++ {
		first := first
		vs = append(vs, &Variant{Name: fmt.Sprintf("history/first=%d", first), Seq: true, Body: func(x *X) { c02History(x, first, depth) }})
	}
	return vs
}

// c02Settings: clamping, globally and per trace.
func c02Settings(x *X) {
	vals := []int{math.MinInt, -1, 0, 1, 9, 10, 11, 12, 999, 1001, 9999, 10000, 10001, 1 << 31, 1<<31 + 10, 1 << 32, 1<<32 + 50, math.MaxInt}
	g := vals[x.Choose(len(vals))]
	p := x.Choose(len(vals) + 1)
	trc.SetTraceMaxEvents(g)
	_, tr := trc.New(context.Background(), "s", "c")
	max := clampMax(g)
	if p > 0 {
		got, ok := trc.SetMaxEvents(tr, vals[p-1])
		if got != tr || !ok {
			x.Failf("SetMaxEvents returned %v %v", got, ok)
			return
		}
		max = clampMax(vals[p-1])
	}
	extra := []int{0, 1, 2, 5}[x.Choose(4)]
	if max > 2000 && (extra == 0 || extra == 2) {
		return // keep the big ones few
	}
	var calls []mEvent
	for i := 0; i < max+extra; i++ {
		tr.LazyTracef("e")
		calls = append(calls, mEvent{text: "e", when: zmc.Peek()})
	}
	if d := c02Diff(tr.Events(), calls, max); d != "" {
		x.Failf("global %d, per trace %v: %s", g, p, d)
	}
	x.Outcome("%d", max)
}

func c02Default(x *X) {
	form := formNames[x.Choose(len(formNames))]
	s := mkSubject(form, "s", "c")
	n := []int{999, 1000, 1001, 1005}[x.Choose(4)]
	for len(s.model.events) < n {
		s.call(kLazy, "%d", len(s.model.events))
	}
	if d := c02Diff(s.tr.Events(), s.model.events, 1000); d != "" {
		x.Failf("%s: default maximum: %s", form, d)
	}
	x.Outcome("%s %d", form, n)
}

// c02Overflow: all kinds of calls around and beyond the maximum, read in
// between.
func c02Overflow(x *X, form string, over int) {
	max := 10 + x.Choose(2)
	trc.SetTraceMaxEvents(max)
	s := mkSubject(form, "s", "c")
	trc.SetTraceMaxEvents(500)
	for len(s.model.events) < max-1 {
		s.call(kTrace, "%d", len(s.model.events)*7+1)
		x.Advance(odd)
	}
	finishAt := x.Choose(over + 1)
	var log opLog
	for i := 0; i < over; i++ {
		if i == finishAt && i > 0 {
			s.tr.Finish()
			s.model.finish(zmc.Peek())
			log.add("Finish")
		}
		k := kinds[x.Choose(4)]
		log.add("%v", k)
		s.call(k, "over %d", i)
		x.Advance(odd)
		for _, tr := range s.all {
			if tr.Errored() != s.model.errored {
				x.Failf("%s: after %s: errored %v, want %v", form, log.String(), tr.Errored(), s.model.errored)
			}
			if d := c02Diff(tr.Events(), s.model.events, max); d != "" {
				x.Failf("%s: after %s: %s", form, log.String(), d)
			}
		}
	}
	if s.c != nil {
		res, err := s.c.Search(context.Background(), &trc.SearchRequest{Limit: 1, Filter: trc.Filter{IDs: []string{s.base.ID()}}})
		if err != nil || len(res.Traces) != 1 {
			x.Failf("%s: not found by search: %v", form, err)
			return
		}
		if d := c02Diff(res.Traces[0].TraceEvents, s.model.events, max); d != "" {
			x.Failf("%s: after %s: searched copy: %s", form, log.String(), d)
		}
	}
	x.Outcome("%s %d %d %v", form, max, len(s.model.events), s.model.errored)
}

const c02Ops = 4 + 2 + 3 + 3

// c02History: settings changed between creations, per trace settings, bursts.
func c02History(x *X, first, depth int) {
	type st struct {
		tr     trc.Trace
		max    int
		stacks bool
		calls  []mEvent
		err    bool
	}
	var (
		trs    []*st
		global = 1000
		stacks = true
		log    opLog
	)
	mk := func(kind int) {
		var tr trc.Trace
		switch kind {
		case 0:
			_, tr = trc.New(context.Background(), "s", "c")
		case 1:
			_, tr = trc.NewDefaultCollector().NewTrace(context.Background(), "c")
		case 2:
			tr = trc.Get(context.Background())
		}
		trs = append(trs, &st{tr: tr, max: global, stacks: stacks})
	}
	trc.SetTraceMaxEvents(12)
	global = 12
	mk(0)
	for i := 0; i < depth; i++ {
		op := first
		if i > 0 {
			op = x.Choose(c02Ops)
		}
		switch {
		case op < 4:
			global = []int{10, 11, 12, 13}[op]
			trc.SetTraceMaxEvents(global)
			log.add("global=%d", global)
		case op < 6:
			stacks = op == 4
			trc.SetTraceStacks(stacks)
			log.add("stacks=%v", stacks)
		case op < 9:
			mk(op - 6)
			log.add("new%d", op-6)
		case op < 11: // set the maximum of the newest or oldest trace
			t := trs[0]
			if op == 10 {
				t = trs[len(trs)-1]
			}
			if len(t.calls) > 10 {
				break
			}
			m := 10 + x.Choose(3)
			if _, ok := trc.SetMaxEvents(t.tr, m); ok {
				t.max = m
			}
			log.add("max(%d)=%d", op, m)
		default: // burst on any trace
			t := trs[x.Choose(len(trs))]
			n := 10 + 2*x.Choose(2)
			log.add("burst %d", n)
			for j := 0; j < n; j++ {
				k := kind(j % 4)
				emit(t.tr, k, "%d", j)
				t.calls = append(t.calls, mEvent{text: strconv.Itoa(j), iserr: k.iserr(), when: zmc.Peek()})
			}
		}
		for j, t := range trs {
			evs := t.tr.Events()
			if d := c02Diff(evs, t.calls, t.max); d != "" {
				x.Failf("after %s: trace %d: %s", log.String(), j, d)
				return
			}
			for n, ev := range evs {
				if n >= t.max-1 && len(t.calls) > t.max {
					continue
				}
				if (len(ev.Stack) > 0) != t.stacks {
					x.Failf("after %s: trace %d event %d: stack %v, want stacks %v", log.String(), j, n, ev.Stack, t.stacks)
					return
				}
			}
		}
	}
	x.Outcome("%s", log.String())
}

// c02Recycled: per-trace maxima do not survive in recycled storage.
func c02Recycled(x *X) {
	per := 0
	newTrace := func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
		inner := func(tr trc.Trace) trc.Trace {
			if per != 0 {
				if _, ok := trc.SetMaxEvents(tr, per); !ok {
					x.Failf("SetMaxEvents on a core trace failed")
				}
			}
			return tr
		}
		return trc.New(ctx, source, category, append([]trc.DecoratorFunc{inner}, ds...)...)
	}
	c := trc.NewDefaultCollector().SetNewTrace(newTrace).SetCategorySize(1 + x.Choose(2))
	trc.SetTraceMaxEvents(13)
	var log opLog
	for i := 0; i < 5; i++ {
		per = []int{0, 10, 11, 15}[x.Choose(4)]
		max := 13
		if per != 0 {
			max = per
		}
		_, tr := c.NewTrace(context.Background(), "c")
		n := []int{3, 17}[x.Choose(2)]
		log.add("max %d, %d events", max, n)
		var calls []mEvent
		for j := 0; j < n; j++ {
			k := kind(j % 4)
			emit(tr, k, "%d", j)
			calls = append(calls, mEvent{text: strconv.Itoa(j), iserr: k.iserr(), when: zmc.Peek()})
		}
		if d := c02Diff(tr.Events(), calls, max); d != "" {
			x.Failf("%s: %s", log.String(), d)
			return
		}
		tr.Finish()
	}
	x.Outcome("%s", log.String())
}
