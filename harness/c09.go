package main

import (
	"context"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/zmc"
)

func init() {
	register("C09", c09Variants, "search in a context without a trace of the same collector")
}

// normBuckets is the specification of bucket normalization.
func normBuckets(in []time.Duration) []time.Duration {
	if len(in) == 0 {
		return defaultBuckets
	}
	out := []time.Duration{}
	for _, d := range in {
		if d >= 0 {
			out = append(out, d)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	if len(out) == 0 || out[0] != 0 {
		out = append([]time.Duration{0}, out...)
	}
	return out
}

var defaultBuckets = []time.Duration{0, 100 * time.Microsecond, ms, 5 * ms, 10 * ms, 25 * ms, 50 * ms, 100 * ms, time.Second}

func normLimit(n int) int {
	switch {
	case n <= 0:
		return 10
	case n > 250:
		return 250
	}
	return n
}

func sameDurs(a, b []time.Duration) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// retained is what a collector holds, in creation order.
type retained struct {
	size int
	cats map[string][]trc.Trace
}

func (r *retained) add(tr trc.Trace) {
	if r.cats == nil {
		r.cats = map[string][]trc.Trace{}
	}
	l := append(r.cats[tr.Category()], tr)
	if len(l) > r.size {
		l = l[len(l)-r.size:]
	}
	r.cats[tr.Category()] = l
}

// searchSpec checks a response against what is retained.
func searchSpec(r *retained, req trc.SearchRequest, source string, res *trc.SearchResponse) string {
	limit := normLimit(req.Limit)
	total, match := 0, 0
	var hits []trc.Trace
	for _, trs := range r.cats {
		total += len(trs)
		m := 0
		for _, tr := range trs {
			if allows(req.Filter, tr) {
				m++
				hits = append(hits, tr)
			}
		}
		if m > limit {
			m = limit
		}
		match += m
	}
	sort.Slice(hits, func(i, j int) bool {
		a, b := hits[i], hits[j]
		if !a.Started().Equal(b.Started()) {
			return a.Started().After(b.Started())
		}
		return a.ID() > b.ID()
	})
	if len(hits) > limit {
		hits = hits[:limit]
	}
	if res.TotalCount != total {
		return fmt.Sprintf("total count %d, want %d", res.TotalCount, total)
	}
	if res.MatchCount != match {
		return fmt.Sprintf("match count %d, want %d", res.MatchCount, match)
	}
	if len(res.Sources) != 1 || res.Sources[0] != source {
		return fmt.Sprintf("sources %q, want %q", res.Sources, source)
	}
	if len(res.Traces) != len(hits) {
		return fmt.Sprintf("%d traces, want %d", len(res.Traces), len(hits))
	}
	for i, st := range res.Traces {
		if d := copyDiff(st, hits[i], req.StackDepth); d != "" {
			return fmt.Sprintf("trace %d: %s", i, d)
		}
	}
	if res.Request == nil {
		return "request missing"
	}
	if res.Request.Limit != limit || !sameDurs(res.Request.Bucketing, normBuckets(req.Bucketing)) || res.Request.StackDepth != req.StackDepth {
		return fmt.Sprintf("request echoed as %s, was %s", res.Request, req)
	}
	if a, b := res.Request.Filter.String(), req.Filter.String(); a != b {
		return fmt.Sprintf("filter echoed as %s, was %s", a, b)
	}
	if res.Stats == nil || !sameDurs(res.Stats.Bucketing, normBuckets(req.Bucketing)) {
		return fmt.Sprintf("stats %+v for %s", res.Stats, req)
	}
	if !sameDurs(trc.DefaultBucketing, defaultBuckets) {
		return fmt.Sprintf("default bucketing became %v", trc.DefaultBucketing)
	}
	return ""
}

// copyDiff checks that st is a copy of tr with stacks cut to depth.
func copyDiff(st *trc.StaticTrace, tr trc.Trace, depth int) string {
	want := snapOf(tr)
	for i, e := range want.events {
		switch {
		case depth < 0:
			want.events[i].Stack = nil
		case depth > 0 && len(e.Stack) > depth:
			want.events[i].Stack = e.Stack[:depth]
		}
	}
	return snapOf(st).diff(want)
}

func c09Variants(tier string) []*Variant {
	var vs []*Variant
	for _, size := range []int{1, 2, 1000} {
		for first := 0; first < 16; first++ {
			size, first := size, first
			vs = append(vs, &Variant{Name: fmt.Sprintf("sets/size=%d/first=%d", size, first), Seq: true, Body: func(x *X) { c09Sets(x, size, first, 3, 16) }})
		}
	}
	for first := 0; first < 8; first++ {
		first := first
		vs = append(vs, &Variant{Name: fmt.Sprintf("sets4/first=%d", first), Seq: true, Body: func(x *X) { c09Sets(x, 1000, first, quickThorough(tier, 4, 5), 8) }})
	}
	for first := 0; first < 5; first++ {
		first := first
		vs = append(vs, &Variant{Name: fmt.Sprintf("order/first=%d", first), Seq: true, Body: func(x *X) { c09Order(x, first, quickThorough(tier, 3, 4)) }})
	}
	vs = append(vs, &Variant{Name: "large", Seq: true, Body: c09Large})
	vs = append(vs, &Variant{Name: "depth", Seq: true, Body: c09Depth})
	vs = append(vs, &Variant{Name: "buckets", Seq: true, Body: c09Buckets})
	vs = append(vs, &Variant{Name: "problems", Seq: true, Body: c09Problems})
	for _, form := range []string{"collector", "log", "deep", "ez", "region", "custom"} {
		form := form
		vs = append(vs, &Variant{Name: "unchanged/" + form, Seq: true, Body: func(x *X) { c09Unchanged(x, form) }})
	}
	vs = append(vs, &Variant{Name: "wide", Seq: true, Body: c09Wide})
	vs = append(vs, &Variant{Name: "created", Bound: quickThorough(tier, 2, 3), Body: c09Created})
	vs = append(vs, &Variant{Name: "starts", Seq: true, Body: c09Starts})
	return vs
}

// c09Sets: sets of traces over category, state and start time; all limits and filters.
func c09Sets(x *X, size, first, n, alts int) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector().SetCategorySize(size)
	r := &retained{size: size}
	var log opLog
	var ids []string
	for i := 0; i < n; i++ {
		v := first
		if i > 0 {
			v = x.Choose(alts)
		}
		if i > 0 && v&1 == 1 {
			x.Advance(odd)
		}
		cat := "ab"[v>>1&1 : v>>1&1+1]
		_, tr := c.NewTrace(context.Background(), cat)
		r.add(tr)
		ids = append(ids, tr.ID())
		log.add("new %s adv=%v state=%d", cat, v&1 == 1, v>>2)
		tr.Tracef("event %d", i)
		switch v >> 2 {
		case 1:
			tr.Finish()
		case 2:
			tr.Errorf("bad")
			tr.Finish()
		case 3:
			tr.LazyErrorf("bad")
		}
	}
	x.Advance(odd)
	filters := []trc.Filter{{}, {Category: "a"}, {IsActive: true}, {IsFinished: true}, {IsErrored: true}, {IsSuccess: true, Category: "b"},
		{Query: "event [12]"}, {IDs: ids[:2]}, {MinDuration: durp(ms)}, {Sources: []string{"other"}}}
	for _, limit := range []int{0, 1, 2, 3} {
		for _, f := range filters {
			req := trc.SearchRequest{Limit: limit, Filter: f}
			orig := req
			res, err := c.Search(context.Background(), &req)
			if err != nil {
				x.Failf("size %d: %s: search %s: %v", size, log.String(), orig, err)
				return
			}
			if d := searchSpec(r, orig, "default", res); d != "" {
				x.Failf("size %d: %s: search %s: %s", size, log.String(), orig, d)
				return
			}
			if len(res.Problems) != 0 {
				x.Failf("size %d: %s: search %s: problems %q", size, log.String(), orig, res.Problems)
			}
		}
	}
	x.Outcome("%s", log.String())
}

// c09Large: more traces than any limit, every limit of interest.
func c09Large(x *X) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector()
	r := &retained{size: 1000}
	c.SetSourceName("large")
	n := pickFrom(x, 9, 10, 11, 260, 600)
	ncat := pickFrom(x, 1, 3)
	for i := 0; i < n; i++ {
		_, tr := c.NewTrace(context.Background(), fmt.Sprint("cat", i%ncat))
		tr.Tracef("e")
		if i%3 == 0 {
			tr.Finish()
		}
		r.add(tr)
		if i%4 == 0 {
			x.Advance(odd)
		}
	}
	req := trc.SearchRequest{Limit: pickFrom(x, math.MinInt, -1, 0, 1, 9, 10, 11, 249, 250, 251, 1000, math.MaxInt)}
	req.Filter.IsFinished = x.Bool()
	orig := req
	res, err := c.Search(context.Background(), &req)
	if err != nil {
		x.Failf("%v", err)
		return
	}
	if d := searchSpec(r, orig, "large", res); d != "" {
		x.Failf("%d traces in %d categories: search %s: %s", n, ncat, orig, d)
	}
	x.Outcome("%d %s", len(res.Traces), orig)
}

func c09Nest(n int, f func()) {
	if n > 0 {
		c09Nest(n-1, f)
		return
	}
	f()
}

// c09Depth: stack depths.
func c09Depth(x *X) {
	c := trc.NewDefaultCollector()
	r := &retained{size: 1000}
	_, tr := c.NewTrace(context.Background(), "cat")
	r.add(tr)
	nest := x.Choose(4)
	k := kinds[x.Choose(4)]
	c09Nest(nest, func() { emit(tr, k, "deep") })
	emit(tr, k, "shallow")
	trc.SetTraceStacks(false)
	_, tr2 := c.NewTrace(context.Background(), "cat")
	emit(tr2, k, "none")
	r.add(tr2)
	depth := pickFrom(x, 0, -1, 1, 2, 3, 7, 8, 100, -100, math.MaxInt, math.MinInt)
	for round := 0; round < 2; round++ {
		req := trc.SearchRequest{StackDepth: depth}
		orig := req
		res, err := c.Search(context.Background(), &req)
		if err != nil {
			x.Failf("%v", err)
			return
		}
		if d := searchSpec(r, orig, "default", res); d != "" {
			x.Failf("nesting %d, %s: search %s: %s", nest, k, orig, d)
		}
		x.Outcome("%d", len(res.Traces[1].TraceEvents[0].Stack))
		if depth = 0; x.Bool() {
			depth = 1
		}
	}
}

// c09Buckets: normalization of bucketings, echoed in request and statistics.
func c09Buckets(x *X) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector()
	r := &retained{size: 1000}
	_, tr := c.NewTrace(context.Background(), "cat")
	x.Advance(2 * odd)
	tr.Finish()
	r.add(tr)
	vals := []time.Duration{0, ms, 2 * ms, 3 * ms, -ms, -1, time.Hour}
	var in []time.Duration
	if x.Bool() {
		in = []time.Duration{}
	}
	for n := x.Choose(5); n > 0; n-- {
		in = append(in, vals[x.Choose(len(vals))])
	}
	req := trc.SearchRequest{Bucketing: append(make([]time.Duration, 0, 8), in...)}
	orig := trc.SearchRequest{Bucketing: in}
	if x.Bool() {
		if errs := req.Normalize(); len(errs) > 0 {
			x.Failf("normalize %v: %v", in, errs)
		}
		if !sameDurs(req.Bucketing, normBuckets(in)) {
			x.Failf("normalize %v: %v, want %v", in, req.Bucketing, normBuckets(in))
		}
	}
	res, err := c.Search(context.Background(), &req)
	if err != nil {
		x.Failf("%v", err)
		return
	}
	if d := searchSpec(r, orig, "default", res); d != "" {
		x.Failf("bucketing %v: %s", in, d)
	}
	cs := res.Stats.Categories["cat"]
	for i, b := range normBuckets(in) {
		want := 0
		if b <= 2*ms {
			want = 1
		}
		if cs == nil || len(cs.BucketCounts) <= i || cs.BucketCounts[i] != want {
			x.Failf("bucketing %v: statistics %+v", in, cs)
			return
		}
	}
	x.Outcome("%v", res.Request.Bucketing)
}

// c09Problems: problems are reported, nothing else suffers.
func c09Problems(x *X) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector()
	r := &retained{size: 1000}
	for i := x.Choose(3); i > 0; i-- {
		_, tr := c.NewTrace(context.Background(), "cat")
		tr.Tracef("(")
		if x.Bool() {
			tr.Finish()
		}
		r.add(tr)
	}
	q := pickFrom(x, "", "(", "[", "*", `\(`)
	bad := q != "" && q != `\(`
	req := trc.SearchRequest{Filter: trc.Filter{Query: q, IsFinished: x.Bool()}}
	orig := req
	if bad {
		orig.Filter.Query = ""
	}
	res, err := c.Search(context.Background(), &req)
	if err != nil {
		x.Failf("%v", err)
		return
	}
	if d := searchSpec(r, orig, "default", res); d != "" {
		x.Failf("query %q: %s", q, d)
	}
	if (len(res.Problems) > 0) != bad {
		x.Failf("query %q: problems %q", q, res.Problems)
	}
	x.Outcome("%q", res.Problems)
}

// ownEvents is a trace implementation which hands out its own event slice.
type ownEvents struct {
	trc.StaticTrace
}

// c09Order: traces of the caller's own making, in any order of start and ID.
func c09Order(x *X, first, n int) {
	var (
		starts = []time.Duration{0, 1, 999, ms, time.Hour}
		ids    = []string{"b", "B", "a", "bb"}
		made   []*trc.StaticTrace
		start  time.Duration
		id     string
	)
	c := trc.NewCollector(trc.CollectorConfig{NewTrace: func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
		st := &trc.StaticTrace{TraceID: id, TraceSource: source, TraceCategory: category, TraceStarted: zmc.Peek().Add(-start), TraceDuration: ms, TraceFinished: true}
		made = append(made, st)
		tr := trc.Trace(st)
		for _, d := range ds {
			tr = d(tr)
		}
		return trc.Put(ctx, tr)
	}})
	for i := 0; i < n; i++ {
		si := first
		if i > 0 {
			si = x.Choose(len(starts))
		}
		start, id = starts[si], ids[x.Choose(len(ids))]
		c.NewTrace(context.Background(), pickStr(i, "x", "y"))
	}
	res, err := c.Search(context.Background(), &trc.SearchRequest{Limit: n + x.Choose(2)})
	if err != nil {
		x.Failf("search: %v", err)
		return
	}
	show := func(sts []*trc.StaticTrace) (s string) {
		for _, st := range sts {
			s += fmt.Sprintf("%s@%d ", st.TraceID, st.TraceStarted.Sub(zmc.Peek()))
		}
		return
	}
	want := append([]*trc.StaticTrace(nil), made...)
	sort.SliceStable(want, func(i, j int) bool {
		if a, b := want[i].TraceStarted, want[j].TraceStarted; !a.Equal(b) {
			return a.After(b)
		}
		return want[i].TraceID > want[j].TraceID
	})
	if g, w := show(res.Traces), show(want); g != w {
		x.Failf("traces %sordered %swant %s", show(made), g, w)
	}
	x.Outcome("%s", show(want))
}

// c09Unchanged: searching, and whatever is done to the response, changes nothing.
func c09Unchanged(x *X, form string) {
	var c *trc.Collector
	var trs []trc.Trace
	var log opLog
	if form == "custom" {
		c = trc.NewCollector(trc.CollectorConfig{NewTrace: func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
			fr := []trc.Frame{{Function: "a.B", FileLine: "/a/b.go:1"}, {Function: "a.C", FileLine: "/a/b.go:2"}}
			tr := trc.Trace(&ownEvents{trc.StaticTrace{TraceID: fmt.Sprint("id", len(trs)), TraceSource: source, TraceCategory: category, TraceStarted: zmc.Peek(), TraceDuration: ms, TraceFinished: true,
				TraceEvents: []trc.Event{{When: zmc.Peek(), What: "one", Stack: fr}, {When: zmc.Peek(), What: "two", Stack: fr[:1]}}}})
			for _, d := range ds {
				tr = d(tr)
			}
			return trc.Put(ctx, tr)
		}})
		for i := 0; i < 2; i++ {
			_, tr := c.NewTrace(context.Background(), "cat")
			trs = append(trs, tr)
		}
	} else {
		for i := 0; i < 2; i++ {
			s := mkSubject(form, "src", "cat")
			if i > 0 {
				s.ctx, s.base = c.NewTrace(context.Background(), "cat")
				s.tr = s.base
			}
			c = s.c
			emit(s.tr, kinds[x.Choose(4)], "e%d", i)
			emit(s.tr, kLazy, "f%d", i)
			if x.Bool() {
				x.Advance(odd)
				s.base.Finish()
			}
			trs = append(trs, s.base)
		}
	}
	x.Advance(odd)
	var before []*snap
	for _, tr := range trs {
		before = append(before, snapOf(tr))
	}
	check := func(what string) {
		for i, tr := range trs {
			if d := before[i].diff(snapOf(tr)); d != "" {
				x.Failf("%s: %s changed trace %d: %s", form, what, i, d)
			}
		}
	}
	var ids []string
	for _, b := range before {
		ids = append(ids, b.id)
	}
	req := trc.SearchRequest{Limit: 1 + x.Choose(2), StackDepth: pickFrom(x, 0, -1, 1), Filter: trc.Filter{IDs: ids, Query: pickFrom(x, "", "e0|one")}}
	search := func() *trc.SearchResponse {
		r := req
		res, err := c.Search(context.Background(), &r)
		if err != nil {
			x.Failf("%s: %v", form, err)
			return &trc.SearchResponse{}
		}
		return res
	}
	one := search()
	check("searching")
	var first []*snap
	for _, st := range one.Traces {
		first = append(first, snapOf(st))
	}
	total := one.TotalCount
	// The response is the caller's.
	for _, st := range one.Traces {
		for i := range st.TraceEvents {
			st.TraceEvents[i].What = "SCRIBBLE"
			for j := range st.TraceEvents[i].Stack {
				if form != "custom" {
					st.TraceEvents[i].Stack[j].Function = "SCRIBBLE"
				}
			}
		}
		st.TraceFinished = !st.TraceFinished
	}
	if form != "custom" {
		for i := range one.Traces {
			one.Traces[i] = nil
		}
		for _, cs := range one.Stats.Categories {
			cs.ActiveCount += 100
			for i := range cs.BucketCounts {
				cs.BucketCounts[i] += 100
			}
		}
		check("modifying a response")
		two := search()
		if two.TotalCount != total || len(two.Traces) != len(first) {
			x.Failf("%s: second search: total %d, %d traces; first: total %d, %d traces", form, two.TotalCount, len(two.Traces), total, len(first))
			return
		}
		for i, st := range two.Traces {
			if d := first[i].diff(snapOf(st)); d != "" {
				x.Failf("%s: second search, trace %d: %s", form, i, d)
			}
		}
	}
	log.add("%v", first)
	x.Outcome("%s %d", form, len(first))
}

// ordered checks that traces are newest first, ties by descending ID.
func ordered(trs []*trc.StaticTrace) string {
	for i := 1; i < len(trs); i++ {
		a, b := trs[i-1], trs[i]
		if a.TraceStarted.Before(b.TraceStarted) || a.TraceStarted.Equal(b.TraceStarted) && a.TraceID <= b.TraceID {
			return fmt.Sprintf("trace %d, %s started %v, is before %s started %v", i, a.TraceID, a.TraceStarted.Sub(zmc.Epoch), b.TraceID, b.TraceStarted.Sub(zmc.Epoch))
		}
	}
	return ""
}

// c09Created: traces created at the same time may be stored in another order
// than they started.
func c09Created(x *X) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector()
	cats := pickFrom(x, "aaa", "aab", "aba")
	var hs []*zmc.Handle
	for i := 0; i < 2; i++ {
		i := i
		hs = append(hs, x.Go(fmt.Sprint("T", i), func() {
			for j := 0; j < 2-i; j++ {
				c.NewTrace(context.Background(), cats[i+j:i+j+1])
				x.Advance(odd)
			}
		}))
	}
	for _, h := range hs {
		h.Join()
	}
	res, err := c.Search(context.Background(), &trc.SearchRequest{})
	if err != nil || res.TotalCount != 3 || len(res.Traces) != 3 {
		x.Failf("%d traces of %d: %v", len(res.Traces), res.TotalCount, err)
		return
	}
	if d := ordered(res.Traces); d != "" {
		x.Failf("categories %s: %s", cats, d)
	}
	x.Outcome("%s %v %v", cats, res.Traces[0].TraceStarted.Sub(zmc.Epoch), res.Traces[1].TraceStarted.Sub(zmc.Epoch))
}

// c09Starts: traces with any start times and IDs, all of which are returned.
func c09Starts(x *X) {
	n := 1 + x.Choose(4)
	c := trc.NewDefaultCollector()
	var st *trc.StaticTrace
	c.SetNewTrace(func(ctx context.Context, source, category string, decorators ...trc.DecoratorFunc) (context.Context, trc.Trace) {
		return trc.Put(ctx, st)
	})
	var log opLog
	for i := 0; i < n; i++ {
		start, cat := x.Choose(3), pickFrom(x, "a", "b")
		st = &trc.StaticTrace{TraceID: fmt.Sprint("id", (i*5+start)%7, i), TraceSource: "s", TraceCategory: cat, TraceStarted: zmc.Epoch.Add(time.Duration(start-1) * odd), TraceFinished: true}
		if x.Bool() { // another zone
			st.TraceStarted = st.TraceStarted.In(time.FixedZone("z", 3600))
		}
		c.NewTrace(context.Background(), cat)
		log.add("%s %d", cat, start)
	}
	res, err := c.Search(context.Background(), &trc.SearchRequest{})
	if err != nil || len(res.Traces) != n {
		x.Failf("%s: %d traces: %v", log.String(), len(res.Traces), err)
		return
	}
	if d := ordered(res.Traces); d != "" {
		x.Failf("%s: %s", log.String(), d)
	}
	x.Outcome("%s", res.Traces[0].TraceID)
}
