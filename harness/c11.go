package main

import (
	"context"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/zmc"
)

func init() {
	register("C11", c11Variants, "rates are compared with a tolerance of a thousandth")
}

// catSpec computes the statistics of some traces.
func catSpec(trs []trc.Trace, buckets []time.Duration) trc.CategoryStats {
	cs := trc.CategoryStats{BucketCounts: make([]int, len(buckets))}
	for i, tr := range trs {
		if i == 0 || tr.Started().Before(cs.Oldest) {
			cs.Oldest = tr.Started()
		}
		if i == 0 || tr.Started().After(cs.Newest) {
			cs.Newest = tr.Started()
		}
		cs.EventCount += len(tr.Events())
		switch {
		case !tr.Finished():
			cs.ActiveCount++
		case tr.Errored():
			cs.ErroredCount++
		default:
			for i, b := range buckets {
				if b <= tr.Duration() {
					cs.BucketCounts[i]++
				}
			}
		}
	}
	return cs
}

// catDiff compares the exported parts.
func catDiff(got *trc.CategoryStats, want trc.CategoryStats) string {
	if got == nil {
		return "missing"
	}
	if got.EventCount != want.EventCount || got.ActiveCount != want.ActiveCount || got.ErroredCount != want.ErroredCount || fmt.Sprint(got.BucketCounts) != fmt.Sprint(want.BucketCounts) {
		return fmt.Sprintf("events %d active %d errored %d buckets %v, want events %d active %d errored %d buckets %v",
			got.EventCount, got.ActiveCount, got.ErroredCount, got.BucketCounts, want.EventCount, want.ActiveCount, want.ErroredCount, want.BucketCounts)
	}
	if !got.Oldest.Equal(want.Oldest) || !got.Newest.Equal(want.Newest) {
		return fmt.Sprintf("oldest %v newest %v, want %v and %v", got.Oldest, got.Newest, want.Oldest, want.Newest)
	}
	total := want.ActiveCount + want.ErroredCount
	if len(want.BucketCounts) > 0 {
		total += want.BucketCounts[0]
	}
	if got.TotalCount() != total {
		return fmt.Sprintf("total %d, want %d", got.TotalCount(), total)
	}
	return ""
}

// statsDiff compares statistics with those of the traces.
func statsDiff(ss *trc.SearchStats, cats map[string][]trc.Trace, buckets []time.Duration) string {
	if ss == nil {
		return "no statistics"
	}
	if !sameDurs(ss.Bucketing, buckets) {
		return fmt.Sprintf("buckets %v, want %v", ss.Bucketing, buckets)
	}
	var names []string
	var every []trc.Trace
	for name, trs := range cats {
		names = append(names, name)
		every = append(every, trs...)
		if d := catDiff(ss.Categories[name], catSpec(trs, buckets)); d != "" {
			return fmt.Sprintf("category %q: %s", name, d)
		}
		if got := ss.Categories[name].TotalCount(); got != len(trs) {
			return fmt.Sprintf("category %q: total %d of %d traces", name, got, len(trs))
		}
		if got := ss.Categories[name].Category; got != name {
			return fmt.Sprintf("category %q calls itself %q", name, got)
		}
	}
	if len(ss.Categories) != len(cats) {
		return fmt.Sprintf("%d categories, want %d", len(ss.Categories), len(cats))
	}
	sort.Strings(names)
	for round := 0; round < 2; round++ { // reading changes nothing
		if d := catDiff(ss.Overall(), catSpec(every, buckets)); d != "" {
			return fmt.Sprintf("overall (%d): %s", round, d)
		}
		all := ss.AllCategories()
		if len(all) != len(names)+1 {
			return fmt.Sprintf("all categories: %d, want %d", len(all), len(names)+1)
		}
		for i, name := range names {
			if all[i].Category != name {
				return fmt.Sprintf("all categories: %d is %q, want %q", i, all[i].Category, name)
			}
			if d := catDiff(all[i], catSpec(cats[name], buckets)); d != "" {
				return fmt.Sprintf("all categories (%d): %q: %s", round, name, d)
			}
		}
		if d := catDiff(all[len(names)], catSpec(every, buckets)); d != "" {
			return fmt.Sprintf("all categories (%d): overall: %s", round, d)
		}
	}
	return ""
}

var c11Buckets = [][]time.Duration{nil, {0, 5 * ms}, {5 * ms}, {10 * ms, 5 * ms, 0}, {5 * ms, 5 * ms}, {-ms, 5 * ms}, {5*ms - 1, 5 * ms, 5*ms + 1}, {time.Hour}}

const c11Alts = 2 * 2 * 10

func c11Variants(tier string) []*Variant {
	var vs []*Variant
	for first := 0; first < c11Alts; first++ {
		first := first
		vs = append(vs, &Variant{Name: fmt.Sprintf("search/first=%d", first), Seq: true, Body: func(x *X) { c11Search(x, first, quickThorough(tier, 3, 4)) }})
	}
	for bi := range c11Buckets {
		bi := bi
		vs = append(vs, &Variant{Name: fmt.Sprintf("observe/%d", bi), Seq: true, Body: func(x *X) { c11Observe(x, bi) }})
	}
	vs = append(vs, &Variant{Name: "names", Seq: true, Body: c11Names})
	vs = append(vs, &Variant{Name: "rates", Seq: true, Body: c11Rates})
	vs = append(vs, &Variant{Name: "truncated", Seq: true, Body: c11Truncated})
	vs = append(vs, &Variant{Name: "dropped", Seq: true, Body: func(x *X) { c11Dropped(x, quickThorough(tier, 6, 9)) }})
	for i := 0; i < 4; i++ {
		i := i
		vs = append(vs, &Variant{Name: fmt.Sprintf("large/%d", i), Seq: true, Body: func(x *X) { c11Large(x, i) }})
	}
	return vs
}

// c11Search: sets of up to n traces over category, start, state, duration and events.
func c11Search(x *X, first, n int) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector()
	cats := map[string][]trc.Trace{}
	var log opLog
	n = 1 + x.Choose(n)
	for i := 0; i < n; i++ {
		v := first
		if i > 0 {
			v = x.Choose(c11Alts)
		}
		if v&1 == 1 {
			x.Advance(7 * ms)
		}
		cat := "ab"[v>>1&1 : v>>1&1+1]
		_, tr := c.NewTrace(context.Background(), cat)
		cats[cat] = append(cats[cat], tr)
		state := v >> 2
		log.add("%s adv=%v state=%d", cat, v&1 == 1, state)
		switch state {
		case 0: // active, no events
		case 1:
			tr.Errorf("x")
			tr.LazyTracef("y")
		case 2:
			tr.Finish()
		case 3:
			tr.Tracef("x")
			x.Advance(5*ms - 1)
			tr.Finish()
		case 4:
			x.Advance(5 * ms)
			tr.Finish()
		case 5:
			x.Advance(5*ms + 1)
			tr.Finish()
		case 6:
			x.Advance(2 * time.Hour)
			tr.Finish()
		case 7:
			tr.LazyErrorf("x")
			x.Advance(5 * ms)
			tr.Finish()
		case 8:
			tr.Errorf("x")
			tr.Finish()
			tr.Tracef("ignored")
		case 9:
			x.Advance(100 * time.Microsecond)
			for j := 0; j < 3; j++ {
				tr.Tracef("%d", j)
			}
			tr.Finish()
		}
	}
	for _, b := range c11Buckets {
		for _, f := range []trc.Filter{{}, {IsErrored: true, Query: "nope"}} {
			req := &trc.SearchRequest{Bucketing: append([]time.Duration(nil), b...), Filter: f, Limit: 1}
			res, err := c.Search(context.Background(), req)
			if err != nil {
				x.Failf("%v", err)
				return
			}
			if d := statsDiff(res.Stats, cats, normBuckets(b)); d != "" {
				x.Failf("%s: buckets %v, filter %s: %s", log.String(), b, f, d)
				return
			}
		}
	}
	x.Outcome("%s", log.String())
}

// c11Observe: the statistics by themselves, with static traces.
func c11Observe(x *X, bi int) {
	buckets := normBuckets(c11Buckets[bi])
	ss := trc.NewSearchStats(buckets)
	cats := map[string][]trc.Trace{}
	start := time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)
	durs := []time.Duration{0, 1, 5*ms - 1, 5 * ms, 5*ms + 1, 10 * ms, 10*ms + 1, time.Hour, 1000 * time.Hour}
	var trs []trc.Trace
	for n := 1 + x.Choose(3); n > 0; n-- {
		st := &trc.StaticTrace{TraceCategory: pickFrom(x, "a", "b")}
		st.TraceStarted = start.Add(pickFrom(x, 0, -ms, ms))
		switch s := x.Choose(len(durs) + 2); {
		case s < len(durs):
			st.TraceFinished, st.TraceDuration = true, durs[s]
		case s == len(durs):
			st.TraceDuration = time.Hour
		default:
			st.TraceFinished, st.TraceErrored, st.TraceDuration = true, true, 6*ms
		}
		st.TraceEvents = make([]trc.Event, n*n)
		trs = append(trs, st)
		cats[st.TraceCategory] = append(cats[st.TraceCategory], st)
	}
	if x.Bool() {
		ss.Observe(trs...)
	} else {
		for _, tr := range trs {
			ss.Observe(tr)
		}
	}
	if d := statsDiff(ss, cats, buckets); d != "" {
		x.Failf("buckets %v: %+v: %s", buckets, trs, d)
	}
	x.Outcome("%v", len(trs))
}

// c11Names: categories of any name.
func c11Names(x *X) {
	names := []string{"", "overall", "a", "A", "a b", "π"}
	c := trc.NewDefaultCollector()
	cats := map[string][]trc.Trace{}
	for i := 0; i < 4; i++ {
		name := names[x.Choose(len(names))]
		_, tr := c.NewTrace(context.Background(), name)
		tr.Tracef("x")
		if x.Bool() {
			tr.Finish()
		}
		cats[name] = append(cats[name], tr)
		x.Advance(odd)
	}
	res, err := c.Search(context.Background(), &trc.SearchRequest{})
	if err != nil {
		x.Failf("%v", err)
		return
	}
	if d := statsDiff(res.Stats, cats, defaultBuckets); d != "" {
		x.Failf("categories %v: %s", cats, d)
	}
	x.Outcome("%d", len(cats))
}

// c11Truncated: events of truncated traces.
func c11Truncated(x *X) {
	trc.SetTraceMaxEvents(10)
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector()
	cats := map[string][]trc.Trace{}
	for i := 0; i < 2; i++ {
		_, tr := c.NewTrace(context.Background(), "a")
		for n := pickFrom(x, 0, 9, 10, 11, 25); n > 0; n-- {
			emit(tr, kinds[n%4], "x")
		}
		if x.Bool() {
			tr.Finish()
		}
		cats["a"] = append(cats["a"], tr)
	}
	res, err := c.Search(context.Background(), &trc.SearchRequest{})
	if err != nil {
		x.Failf("%v", err)
		return
	}
	if d := statsDiff(res.Stats, cats, defaultBuckets); d != "" {
		x.Failf("%s", d)
	}
	x.Outcome("%+v", res.Stats.Categories["a"].EventCount)
}

// c11Dropped: only retained traces count, through drops and resizes.
func c11Dropped(x *X, depth int) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector().SetCategorySize(2)
	r := &retained{size: 2}
	var log opLog
	for i := 0; i < depth; i++ {
		switch op := x.Choose(6); op {
		case 0, 1, 2:
			cat := "ab"[op&1 : op&1+1]
			_, tr := c.NewTrace(context.Background(), cat)
			for j := 0; j <= i; j++ {
				tr.Tracef("%d", j)
			}
			if op == 2 {
				x.Advance(odd)
				tr.Finish()
			}
			r.add(tr)
			log.add("new %s", cat)
		case 3, 4:
			r.size = op - 2
			c.SetCategorySize(r.size)
			for cat, trs := range r.cats {
				if len(trs) > r.size {
					r.cats[cat] = trs[len(trs)-r.size:]
				}
			}
			log.add("resize %d", r.size)
		case 5:
			for _, trs := range r.cats {
				for _, tr := range trs {
					tr.Finish()
				}
			}
			log.add("finish all")
		}
		x.Advance(odd)
	}
	res, err := c.Search(context.Background(), &trc.SearchRequest{})
	if err != nil {
		x.Failf("%v", err)
		return
	}
	if d := statsDiff(res.Stats, r.cats, defaultBuckets); d != "" {
		x.Failf("%s: %s", log.String(), d)
	}
	x.Outcome("%s", log.String())
}

// near compares rates, which depend on when exactly they are asked for.
func near(got, want float64) bool {
	return math.Abs(got-want) <= 1e-3*math.Abs(want)
}

// rate is a number per second since then.
func rate(n int, since time.Time) float64 {
	if d := zmc.Peek().Sub(since); n > 0 && d > 0 {
		return float64(n) / d.Seconds()
	}
	return 0
}

// c11Rates: traces and events per second since the oldest.
func c11Rates(x *X) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector()
	var traces, events [2]int
	var oldest [2]time.Time
	for n := x.Choose(4); n > 0; n-- {
		i := x.Choose(2)
		_, tr := c.NewTrace(context.Background(), pickStr(i, "a", "b"))
		if traces[i] == 0 {
			oldest[i] = tr.Started()
		}
		traces[i]++
		k := x.Choose(3)
		for j := 0; j < k; j++ {
			tr.Tracef("e")
			events[i]++
		}
		x.Advance(pickFrom(x, 0, 1500*ms))
		switch x.Choose(3) {
		case 0:
			tr.Finish()
		case 1:
			tr.Errorf("x")
			events[i]++
			tr.Finish()
		}
	}
	x.Advance(pickFrom(x, time.Second, time.Hour))
	res, err := c.Search(context.Background(), &trc.SearchRequest{})
	if err != nil {
		x.Failf("%v", err)
		return
	}
	var sum, sume float64
	check := func() {
		sum, sume = 0, 0
		for i, name := range []string{"a", "b"} {
			cs := res.Stats.Categories[name]
			if cs == nil {
				continue
			}
			t, e := rate(traces[i], oldest[i]), rate(events[i], oldest[i])
			sum, sume = sum+t, sume+e
			if got, gote := cs.TraceRate(), cs.EventRate(); !near(got, t) || !near(gote, e) {
				x.Failf("%d traces, %d events: %v and %v per second, want %v and %v", traces[i], events[i], got, gote, t, e)
			}
		}
	}
	first := x.Bool()
	if first {
		check()
	}
	overall := res.Stats.Overall()
	check()
	if got, gote := overall.TraceRate(), overall.EventRate(); !near(got, sum) || !near(gote, sume) {
		x.Failf("traces %v, events %v: overall %v and %v per second, want %v and %v", traces, events, got, gote, sum, sume)
	}
	x.Outcome("%v %v", traces, events)
}
