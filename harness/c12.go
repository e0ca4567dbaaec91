package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"github.com/peterbourgon/trc/zmc"
)

func init() {
	register("C12", c12Variants, "all searchers use the bucketing of the request, as the code requires", "rates are compared with a tolerance of a thousandth")
}

// canned is a searcher with a fixed answer.
type canned struct {
	res *trc.SearchResponse
	err error
}

func (c *canned) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	return c.res, c.err
}

// slack gives a slice spare capacity with recognizable contents.
func slackTraces(ts []*trc.StaticTrace) []*trc.StaticTrace {
	out := make([]*trc.StaticTrace, len(ts), len(ts)+4)
	copy(out, ts)
	for i := len(ts); i < cap(out); i++ {
		out[:cap(out)][i] = &trc.StaticTrace{TraceID: "slack"}
	}
	return out
}

func slackStrings(ss []string) []string {
	out := make([]string, len(ss), len(ss)+4)
	copy(out, ss)
	for i := len(ss); i < cap(out); i++ {
		out[:cap(out)][i] = "slack"
	}
	return out
}

// dumpResponse shows everything, including what is behind the slices' lengths.
func dumpResponse(r *trc.SearchResponse) string {
	if r == nil {
		return "nil"
	}
	var b strings.Builder
	js, err := json.Marshal(struct {
		S, P   []string
		T, M   int
		Traces []*trc.StaticTrace
		Stats  *trc.SearchStats
	}{r.Sources[:cap(r.Sources)], r.Problems[:cap(r.Problems)], r.TotalCount, r.MatchCount, r.Traces[:cap(r.Traces)], r.Stats})
	fmt.Fprintf(&b, "%s %v %d %d %d", js, err, len(r.Sources), len(r.Problems), len(r.Traces))
	return b.String()
}

const (
	c12Kinds  = 11
	c12Nested = 6
)

func c12NotNested(x *X) int {
	k := x.Choose(c12Kinds - 1)
	if k >= c12Nested {
		k++
	}
	return k
}

var c12KindNames = []string{"collector1", "collector2", "error", "nothing", "canned+error", "canned+problems", "nested", "empty", "collector3", "nostats", "canned"}

// c12Searcher makes a searcher of a kind.
func c12Searcher(k, i int, buckets []time.Duration) trc.Searcher {
	cannedRes := func(tag string) *trc.SearchResponse {
		// Starts of different searchers are equal or 2 ns apart.
		start := time.Date(2024, 1, 1, 0, 0, 0, 100+2*(i%2), time.UTC)
		var ts []*trc.StaticTrace
		for j := 0; j < 2; j++ {
			ts = append(ts, &trc.StaticTrace{TraceID: fmt.Sprintf("%s-%d-%d", tag, i, j), TraceSource: tag, TraceCategory: pickStr(j, "a", "z"), TraceStarted: start.Add(time.Duration(j*24) * time.Hour), TraceFinished: true, TraceDuration: 3 * ms,
				TraceEvents: []trc.Event{{When: start, What: "w"}}})
		}
		ss := trc.NewSearchStats(buckets)
		for _, t := range ts {
			ss.Observe(t)
		}
		ts = slackTraces([]*trc.StaticTrace{ts[1], ts[0]})
		return &trc.SearchResponse{Sources: slackStrings([]string{tag, "aaa"}), TotalCount: 5, MatchCount: 3, Traces: ts, Stats: ss, Problems: slackStrings(nil)}
	}
	coll := func(source string, n int) trc.Searcher {
		c := trc.NewCollector(trc.CollectorConfig{Source: source})
		for j := 0; j < n; j++ {
			_, tr := c.NewTrace(context.Background(), pickStr(j, "a", "b"))
			tr.Tracef("w")
			if j%2 == i%2 {
				zmc.Advance(2 * odd)
				tr.LazyErrorf("w2")
				if j == 1 {
					tr.Errorf("bad")
				}
				tr.Finish()
			}
			if (i+j)%2 == 0 {
				zmc.Advance(odd)
			}
		}
		return c
	}
	switch k {
	case 0:
		return coll("s1", 2)
	case 1:
		return coll("s2", 3)
	case 2:
		return &canned{nil, fmt.Errorf("searcher %d failed", i)}
	case 3:
		return &canned{nil, nil}
	case 4:
		return &canned{cannedRes("half"), fmt.Errorf("searcher %d half failed", i)}
	case 5:
		r := cannedRes("prob")
		r.Problems = slackStrings([]string{fmt.Sprintf("problem %d.1", i), "problem 2"})
		return &canned{r, nil}
	case 6:
		return trc.MultiSearcher{coll("n1", 2), &canned{nil, errors.New("nested failure")}}
	case 7:
		return coll("empty", 0)
	case 8:
		return coll("s1", 1)
	case 9:
		r := cannedRes("nostats")
		r.Stats = nil
		return &canned{r, nil}
	default:
		return &canned{cannedRes("canned"), nil}
	}
}

func pickStr(i int, ss ...string) string { return ss[i%len(ss)] }

func c12Variants(tier string) []*Variant {
	var vs []*Variant
	for i := 0; i < 3; i++ {
		i := i
		vs = append(vs, &Variant{Name: fmt.Sprintf("race/%d", i), Race: true, Bound: quickThorough(tier, 1, 2), Body: func(x *X) { c12Race(x, i) }})
	}
	for a := 0; a < c12Kinds; a++ {
		for b := 0; b < c12Kinds; b++ {
			a, b := a, b
			if b == c12Nested {
				continue // at most one of them
			}
			vs = append(vs, &Variant{Name: fmt.Sprintf("3/%s,%s", c12KindNames[a], c12KindNames[b]), Bound: quickThorough(tier, 0, 1),
				Body: func(x *X) { c12Run(x, []int{a, b, c12NotNested(x)}) }})
		}
		a := a
		bound := quickThorough(tier, 1, 2)
		if a == c12Nested {
			bound--
		}
		vs = append(vs, &Variant{Name: fmt.Sprintf("2/%s", c12KindNames[a]), Bound: bound,
			Body: func(x *X) { c12Run(x, []int{a, c12NotNested(x)}) }})
	}
	vs = append(vs, &Variant{Name: "01", Bound: 2, Body: func(x *X) {
		if x.Bool() {
			c12Run(x, nil)
		} else {
			c12Run(x, []int{x.Choose(c12Kinds)})
		}
	}})
	if tier == "thorough" {
		for a := 0; a < c12Kinds; a++ {
			a := a
			vs = append(vs, &Variant{Name: fmt.Sprintf("4/%s", c12KindNames[a]), Bound: 0,
				Body: func(x *X) { c12Run(x, []int{a, c12NotNested(x), c12NotNested(x), c12NotNested(x)}) }})
		}
	}
	vs = append(vs, &Variant{Name: "merge/search", Body: c12Merge})
	vs = append(vs, &Variant{Name: "large/up", Seq: true, Cfg: zmc.Config{Fixed: 1}, Body: c12Large})
	vs = append(vs, &Variant{Name: "large/down", Seq: true, Cfg: zmc.Config{Fixed: 2}, Body: c12Large})
	vs = append(vs, &Variant{Name: "slow", Bound: quickThorough(tier, 1, 2), Body: c12Slow})
	vs = append(vs, &Variant{Name: "rates", Bound: 0, Body: c12Rates})
	vs = append(vs, &Variant{Name: "merge/category", Seq: true, Body: c12MergeCat})
	vs = append(vs, &Variant{Name: "failures", Body: c12Failures})
	return vs
}

// addStats sums statistics by the specification.
func addStats(dst map[string]*trc.CategoryStats, src *trc.SearchStats) {
	if src == nil {
		return
	}
	for name, cs := range src.Categories {
		d := dst[name]
		if d == nil {
			cp := *cs
			cp.BucketCounts = append([]int(nil), cs.BucketCounts...)
			dst[name] = &cp
			continue
		}
		d.EventCount += cs.EventCount
		d.ActiveCount += cs.ActiveCount
		d.ErroredCount += cs.ErroredCount
		for i := range d.BucketCounts {
			d.BucketCounts[i] += cs.BucketCounts[i]
		}
		if cs.Oldest.Before(d.Oldest) {
			d.Oldest = cs.Oldest
		}
		if cs.Newest.After(d.Newest) {
			d.Newest = cs.Newest
		}
	}
}

func sumDiff(got *trc.SearchStats, want map[string]*trc.CategoryStats) string {
	if got == nil {
		return "no statistics"
	}
	if len(got.Categories) != len(want) {
		return fmt.Sprintf("%d categories, want %d", len(got.Categories), len(want))
	}
	for name, w := range want {
		if d := catDiff(got.Categories[name], *w); d != "" {
			return fmt.Sprintf("category %q: %s", name, d)
		}
		if got.Categories[name].Category != name {
			return fmt.Sprintf("category %q calls itself %q", name, got.Categories[name].Category)
		}
	}
	return ""
}

func c12Run(x *X, ks []int) {
	trc.SetTraceStacks(false)
	bucketing := pickFrom(x, nil, []time.Duration{2 * ms, 0, 2*ms + 1})
	if len(ks) > 2 {
		bucketing = []time.Duration{2*ms + 1, 2 * ms}
	}
	var limit int
	var q string
	if len(ks) > 2 {
		v := x.Choose(3)
		limit, q = []int{2, 10, 1}[v], []string{"", "(", "w2"}[v]
	} else {
		limit, q = pickFrom(x, 2, 10, 1), pickFrom(x, "", "(", "w2")
	}
	mk := func() *trc.SearchRequest {
		return &trc.SearchRequest{Bucketing: append([]time.Duration(nil), bucketing...), Limit: limit, Filter: trc.Filter{Query: q}}
	}
	norm := mk()
	reqProblems := len(norm.Normalize())
	var ms trc.MultiSearcher
	var names []string
	for i, k := range ks {
		ms = append(ms, c12Searcher(k, i, norm.Bucketing))
		names = append(names, c12KindNames[k])
	}
	x.Advance(5 * time.Millisecond)

	// What each says by itself.
	var traces []*trc.StaticTrace
	stats := map[string]*trc.CategoryStats{}
	srcs := map[string]bool{}
	total, match, nproblems := 0, 0, reqProblems
	var problems []string
	var dumps []string
	var each func(trc.Searcher)
	each = func(s trc.Searcher) {
		if nested, ok := s.(trc.MultiSearcher); ok {
			for _, s := range nested {
				each(s)
			}
			return
		}
		one := *norm
		res, err := s.Search(context.Background(), &one)
		if res != nil {
			traces = append(traces, res.Traces...)
			addStats(stats, res.Stats)
			for _, s := range res.Sources {
				srcs[s] = true
			}
			total += res.TotalCount
			match += res.MatchCount
			problems = append(problems, res.Problems...)
			nproblems += len(res.Problems)
		}
		if err != nil {
			problems = append(problems, err.Error())
			nproblems++
		}
		if res == nil && err == nil {
			nproblems++
		}
	}
	for _, s := range ms {
		each(s)
		if c, ok := s.(*canned); ok {
			dumps = append(dumps, dumpResponse(c.res))
		} else {
			dumps = append(dumps, "")
		}
	}
	sort.SliceStable(traces, func(i, j int) bool {
		if !traces[i].TraceStarted.Equal(traces[j].TraceStarted) {
			return traces[i].TraceStarted.After(traces[j].TraceStarted)
		}
		return traces[i].TraceID > traces[j].TraceID
	})
	if len(traces) > limit {
		traces = traces[:limit]
	}
	sort.Slice(problems, func(i, j int) bool { return len(problems[i]) > len(problems[j]) })
	var sources []string
	for s := range srcs {
		sources = append(sources, s)
	}
	sort.Strings(sources)

	fail := func(format string, args ...any) {
		x.Failf("searchers %v, limit %d, query %q, buckets %v: %s", names, limit, q, bucketing, fmt.Sprintf(format, args...))
	}
	{
		req := mk()
		res, err := ms.Search(context.Background(), req)
		switch {
		case err != nil || res == nil:
			fail("failed: %v", err)
			return
		case res.TotalCount != total || res.MatchCount != match:
			fail("total %d match %d, want %d and %d", res.TotalCount, res.MatchCount, total, match)
			return
		case len(res.Traces) != len(traces):
			fail("%d traces, want %d", len(res.Traces), len(traces))
			return
		case !eqStrings(res.Sources, sources):
			fail("sources %q, want %q", res.Sources, sources)
			return
		case len(res.Problems) != nproblems:
			fail("problems %q, want %d: %q and %d of the request", res.Problems, nproblems, problems, reqProblems)
			return
		case res.Request == nil || res.Request.Limit != limit || !sameDurs(res.Request.Bucketing, norm.Bucketing):
			fail("request echoed as %v", res.Request)
			return
		}
		for i := range traces {
			if d := snapOf(traces[i]).diff(snapOf(res.Traces[i])); d != "" {
				fail("trace %d: %s", i, d)
				return
			}
		}
		// Every problem occurs, as often as it was reported.
		left := append([]string(nil), res.Problems...)
		for _, p := range problems {
			found := false
			for i, l := range left {
				if strings.Contains(l, p) {
					left = append(left[:i], left[i+1:]...)
					found = true
					break
				}
			}
			if !found {
				fail("problem %q is missing from %q", p, res.Problems)
				return
			}
		}
		if d := sumDiff(res.Stats, stats); d != "" {
			fail("statistics: %s", d)
			return
		}
		// The response is the caller's.
		for _, cs := range res.Stats.Categories {
			cs.ActiveCount += 100
			cs.EventCount += 100
			for i := range cs.BucketCounts {
				cs.BucketCounts[i] += 100
			}
		}
		res.Stats.Categories["new"] = &trc.CategoryStats{}
		for i := range res.Traces {
			res.Traces[i] = nil
		}
		for i := range res.Problems {
			res.Problems[i] = "SCRIBBLE"
		}
		for i := range res.Sources {
			res.Sources[i] = "SCRIBBLE"
		}
		for i, s := range ms {
			if c, ok := s.(*canned); ok {
				if d := dumpResponse(c.res); d != dumps[i] {
					fail("response of searcher %d changed from %s to %s", i, dumps[i], d)
					return
				}
			}
		}
	}
	x.Outcome("%v %d %q: %d %d %d %q", names, limit, q, total, match, len(traces), sources)
}

// c12Merge: merging statistics, in all groupings.
func c12Merge(x *X) {
	bk := []time.Duration{0, 5 * ms}
	start := time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)
	make1 := func(v, i int) *trc.SearchStats {
		switch v {
		case 0:
			return nil
		case 1:
			return &trc.SearchStats{}
		case 2:
			return trc.NewSearchStats(bk)
		}
		ss := trc.NewSearchStats(bk)
		for j := 0; j < 2; j++ {
			if v == 3 && j == 1 {
				continue
			}
			st := &trc.StaticTrace{TraceCategory: pickStr(v+j, "a", "b", ""), TraceStarted: start.Add(time.Duration(i*v+j) * ms), TraceEvents: make([]trc.Event, i+1)}
			st.TraceFinished, st.TraceErrored, st.TraceDuration = v+i != 4, j == 1, time.Duration(v+i)*ms
			ss.Observe(st)
		}
		return ss
	}
	var parts []*trc.SearchStats
	var vals []int
	for i := 0; i < 3; i++ {
		v := x.Choose(6)
		vals = append(vals, v)
		parts = append(parts, make1(v, i))
	}
	dump := func() string {
		js, _ := json.Marshal(parts)
		return string(js)
	}
	want := map[string]*trc.CategoryStats{}
	for _, p := range parts {
		addStats(want, p)
	}
	before := dump()
	dst := &trc.SearchStats{}
	if x.Bool() {
		dst = trc.NewSearchStats(bk)
	}
	reads := x.Bool()
	order := pickFrom(x, []int{0, 1, 2}, []int{2, 0, 1}, []int{1, 2, 0})
	for _, i := range order {
		if reads {
			dst.Overall()
		}
		dst.Merge(parts[i])
	}
	if len(want) > 0 {
		if d := sumDiff(dst, want); d != "" {
			x.Failf("merging %v in order %v: %s", vals, order, d)
		}
	}
	if now := dump(); now != before {
		x.Failf("merging %v in order %v changed the parts from %s to %s", vals, order, before, now)
	}
	if len(dst.Bucketing) > 0 {
		for _, cat := range []string{"a", "b", "", "new"} {
			dst.Observe(&trc.StaticTrace{TraceCategory: cat, TraceFinished: true, TraceDuration: time.Hour, TraceEvents: make([]trc.Event, 3)})
		}
		if now := dump(); now != before {
			x.Failf("observing a trace in merged statistics %v changed the parts from %s to %s", vals, before, now)
		}
	}
	x.Outcome("%v", vals)
}

// c12MergeCat: merging category statistics.
func c12MergeCat(x *X) {
	start := time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)
	mk := func() *trc.CategoryStats {
		cs := &trc.CategoryStats{Category: "c", EventCount: x.Choose(2), ActiveCount: x.Choose(2), ErroredCount: x.Choose(2), BucketCounts: []int{x.Choose(2) + 1, x.Choose(2)}}
		n := x.Choose(3)
		cs.Oldest, cs.Newest = start.Add(time.Duration(n)*ms), start.Add(time.Duration(n+x.Choose(2))*ms)
		return cs
	}
	a, b := mk(), mk()
	sum := map[string]*trc.CategoryStats{}
	addStats(sum, &trc.SearchStats{Categories: map[string]*trc.CategoryStats{"c": a}})
	addStats(sum, &trc.SearchStats{Categories: map[string]*trc.CategoryStats{"c": b}})
	was, _ := json.Marshal(b)
	if x.Bool() {
		a.TraceRate()
		b.EventRate()
	}
	a.Merge(b)
	if d := catDiff(a, *sum["c"]); d != "" {
		x.Failf("merging %s: %s", was, d)
	}
	a.BucketCounts[0] += 7
	if now, _ := json.Marshal(b); string(now) != string(was) {
		x.Failf("merging changed %s to %s", was, now)
	}
	zero := &trc.CategoryStats{}
	zero.Merge(b)
	if d := catDiff(zero, *b); d != "" {
		x.Failf("merging %s into nothing: %s", was, d)
	}
	zero.BucketCounts[0]++
	if now, _ := json.Marshal(b); string(now) != string(was) {
		x.Failf("merging into nothing changed %s to %s", was, now)
	}
	x.Outcome("%s", was)
}

// c12Race: several searches of shared collectors at once, with updates.
func c12Race(x *X, mode int) {
	c1 := trc.NewCollector(trc.CollectorConfig{Source: "s1"})
	c2 := trc.NewCollector(trc.CollectorConfig{Source: "s2"})
	_, tr := c1.NewTrace(context.Background(), "a")
	_, tr2 := c2.NewTrace(context.Background(), "a")
	tr2.LazyTracef("%d", 1)
	ms := trc.MultiSearcher{c1, c2, trc.MultiSearcher{c1}}
	q := ""
	var bk []time.Duration
	switch mode {
	case 1:
		q = "[0-9]"
	case 2:
		ms = trc.MultiSearcher{c1, c2}
		bk = []time.Duration{3, 2, 1}
		q = "("
	}
	var hs []*zmc.Handle
	bad := make([]string, 2)
	for i := 0; i < 2; i++ {
		i := i
		if i == 1 && mode != 2 {
			hs = append(hs, x.Go("mut", func() { tr.Errorf("x"); tr.Finish() }))
			continue
		}
		hs = append(hs, x.Go("search", func() {
			req := &trc.SearchRequest{Filter: trc.Filter{Query: q}, Bucketing: append([]time.Duration(nil), bk...)}
			ms := ms
			if i == 1 {
				ms = ms[:1]
			}
			res, err := ms.Search(context.Background(), req)
			switch {
			case err != nil:
				bad[i] = err.Error()
			case res.TotalCount != len(ms):
				bad[i] = fmt.Sprintf("total %d, want %d", res.TotalCount, len(ms))
			default:
				for _, st := range res.Traces {
					st.Events()
				}
				res.Stats.Overall()
			}
		}))
	}
	for _, h := range hs {
		h.Join()
	}
	for _, b := range bad {
		if b != "" {
			x.Failf("%s", b)
		}
	}
	x.Outcome("%d", mode)
}

// slow is a searcher that takes its time, and gives up when told to.
type slow struct {
	canned
	d time.Duration
}

type c12Key struct{}

func (s *slow) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	zmc.Sleep(s.d)
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if ctx.Value(c12Key{}) != "value" {
		return nil, errors.New("not the caller's context")
	}
	return s.canned.Search(ctx, req)
}

// c12Slow: searchers that fail or answer late don't affect the others.
func c12Slow(x *X) {
	n := 3
	var ms trc.MultiSearcher
	var names []string
	total, problems := 0, 0
	for i := 0; i < n; i++ {
		bk := trc.DefaultBucketing
		switch k := x.Choose(6); k {
		case 0:
			names = append(names, "collector")
			ms = append(ms, c12Searcher(0, i, bk))
			total += 2
		case 1:
			names = append(names, "error")
			ms = append(ms, c12Searcher(2, i, bk))
			problems++
		case 2, 3, 4:
			d := []time.Duration{ms1(i), time.Minute, 24 * time.Hour}[k-2]
			names = append(names, "slow "+d.String())
			ms = append(ms, &slow{canned{&trc.SearchResponse{Sources: []string{"slow"}, TotalCount: 5, Stats: trc.NewSearchStats(bk)}, nil}, d})
			total += 5
		case 5:
			names = append(names, "late error")
			ms = append(ms, &slow{canned{nil, errors.New("late")}, time.Second})
			problems++
		}
	}
	ctx := context.WithValue(context.Background(), c12Key{}, "value")
	res, err := ms.Search(ctx, &trc.SearchRequest{})
	if err != nil || res == nil {
		x.Failf("searchers %q: %v", names, err)
		return
	}
	if res.TotalCount != total || len(res.Problems) != problems {
		x.Failf("searchers %q: total %d, problems %q, want %d and %d", names, res.TotalCount, res.Problems, total, problems)
	}
	x.Outcome("%q", names)
}

func ms1(i int) time.Duration { return time.Duration(i+1) * time.Millisecond }

// c12Failures: failures of any kind, also twice the same.
func c12Failures(x *X) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector()
	_, tr := c.NewTrace(context.Background(), "a")
	tr.Finish()
	f1, f2 := pickFrom(x, failures...), pickFrom(x, failures...)
	ms := trc.MultiSearcher{&canned{nil, f1}, c, &canned{nil, f2}}
	if x.Bool() { // as part of another one
		ms = trc.MultiSearcher{ms}
	}
	res, err := ms.Search(context.Background(), &trc.SearchRequest{Filter: trc.Filter{Query: pickFrom(x, "", "(")}})
	if err != nil || res == nil {
		x.Failf("searchers failing with %q and %q: %v", clip(f1.Error(), 100), clip(f2.Error(), 100), err)
		return
	}
	if res.TotalCount != 1 || len(res.Sources) != 1 || sumDiff(res.Stats, map[string]*trc.CategoryStats{"a": res.Stats.Categories["a"]}) != "" {
		x.Failf("searchers failing with %q and %q: total %d, sources %q", clip(f1.Error(), 100), clip(f2.Error(), 100), res.TotalCount, res.Sources)
	}
	all := strings.Join(res.Problems, "\n")
	for _, f := range []error{f1, f2} {
		n := 1
		if f1 == f2 {
			n = 2
		}
		if strings.Count(all, f.Error()) < n {
			x.Failf("searchers failing with %q and %q: problems %q", clip(f1.Error(), 100), clip(f2.Error(), 100), clip(all, 400))
		}
	}
	x.Outcome("%d", len(res.Problems))
}

// c12Rates: the rates of a category are the sums of those of the parts.
func c12Rates(x *X) {
	trc.SetTraceStacks(false)
	n := 1 + x.Choose(3)
	var ms1 trc.MultiSearcher
	traces, events := make([]int, n), make([]int, n)
	oldest := make([]time.Time, n)
	remote := x.Bool()
	for i := 0; i < n; i++ {
		c := trc.NewCollector(trc.CollectorConfig{Source: fmt.Sprint("s", i)})
		traces[i] = x.Choose(3)
		events[i] = traces[i] * x.Choose(2)
		for j := 0; j < traces[i]; j++ {
			_, tr := c.NewTrace(context.Background(), "a")
			if j == 0 {
				oldest[i] = tr.Started()
			}
			if events[i] > 0 {
				tr.Tracef("e")
			}
			tr.Finish()
		}
		x.Advance(pickFrom(x, 0, 3*time.Second))
		if remote {
			ms1 = append(ms1, trcweb.NewSearchClient(served{trcweb.NewTraceServer(c)}, "example.com"))
		} else {
			ms1 = append(ms1, c)
		}
	}
	if n == 3 && x.Bool() {
		ms1 = trc.MultiSearcher{ms1[0], trc.MultiSearcher{ms1[1], ms1[2]}}
	}
	x.Advance(2 * time.Second)
	res, err := ms1.Search(context.Background(), &trc.SearchRequest{})
	if err != nil {
		x.Failf("%v", err)
		return
	}
	var t, e float64
	for i := range oldest {
		t += rate(traces[i], oldest[i])
		e += rate(events[i], oldest[i])
	}
	overall := res.Stats.Overall()
	if got, gote := overall.TraceRate(), overall.EventRate(); !near(got, t) || !near(gote, e) {
		x.Failf("traces %v, events %v: overall %v and %v per second, want %v and %v", traces, events, got, gote, t, e)
	}
	if cs := res.Stats.Categories["a"]; cs != nil {
		if got, gote := cs.TraceRate(), cs.EventRate(); !near(got, t) || !near(gote, e) {
			x.Failf("traces %v, events %v: %v and %v per second, want %v and %v", traces, events, got, gote, t, e)
		}
	}
	x.Outcome("%v %v", traces, events)
}
