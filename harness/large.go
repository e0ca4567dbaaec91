package main

import (
	"context"
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/zmc"
)

// grid returns the numbers from 0 to max at and next to powers of two and of
// ten: where counters wrap, buffers fill and limits lie.
func grid(max int) []int {
	seen := map[int]bool{0: true}
	for _, base := range []int{2, 10} {
		for p := 1; p <= max+1; p *= base {
			for _, f := range []int{1, 2, 5} {
				if base == 2 && f > 1 {
					break
				}
				for _, n := range []int{p*f - 1, p * f, p*f + 1} {
					if n >= 0 && n <= max {
						seen[n] = true
					}
				}
			}
		}
	}
	var out []int
	for n := range seen {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

// similar are strings that are easily mistaken for one another.
var similar = func() []string {
	ss := []string{"", "a", "A", " a", "a ", "a\n", "a\t", "a\x00", "á", "a\u0301", "á ", "b", "a/b", "a/B", "a//b", "/a", "a/", "a.b", "a b", "a  b", "a+b", "a%20b", "a%b", "%61", "\xff", "\xfe", "ſ", "s", "S", "K", "K", "k", "0", "00", "-0", "1", "01", "nil", "<nil>", "overall", "Overall", "a&b", "a&amp;b", "a=b", "a;b", "a,b", "[a", "a]", "a'", `a"`, `a\`, "日本", "日本語"}
	for _, n := range []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 5000} {
		long := strings.Repeat("x", n)
		ss = append(ss, long+"1", long+"2", "1"+long, "2"+long)
	}
	return ss
}()

// ---------------------------------------------------------------------------

// c01Long: texts, argument lists and event lists of any size.
func c01Long(x *X, form string) {
	s := mkSubject(form, "src", "cat")
	what := x.Choose(3)
	n := pickFrom(x, grid([]int{1 << 17, 300, 990}[what])...)
	k := kinds[x.Choose(4)]
	switch what {
	case 0: // a long argument, a long format
		if x.Bool() {
			s.call(k, "<%s>", strings.Repeat("é", n/2)+strings.Repeat("z", n%2))
		} else {
			s.call(k, strings.Repeat("z", n)+"%%")
		}
	case 1: // many arguments
		args := make([]any, n)
		for i := range args {
			args[i] = i
		}
		s.call(k, strings.Repeat("%d,", n), args...)
	case 2: // many events
		for i := 0; i < n; i++ {
			s.call(kinds[(int(k)+i)%4], "%d", i)
			x.Advance(1)
		}
	}
	for round := 0; round < 2; round++ {
		for _, tr := range s.all {
			if d := diffTrace(tr, s.model, zmc.Peek()); d != "" {
				x.Failf("%s: %d of size %d: %s", form, what, n, clip(d, 300))
				return
			}
		}
	}
	x.Outcome("%d %d %v", what, n, k)
}

// c02Far: far more calls than the maximum.
func c02Far(x *X) {
	max := pickFrom(x, 10, 11, 100, 256, 1000, 1001, 4095, 4097, 9999, 10000)
	over := pickFrom(x, grid(1<<17)...)
	fill := x.Choose(5)
	if (max > 1000 || fill > 0) && over > 10 {
		return // enough
	}
	trc.SetTraceMaxEvents(max)
	trc.SetTraceStacks(false)
	form := pickFrom(x, "core", "collector")
	s := mkSubject(form, "s", "c")
	for i := 0; i < max; i++ {
		if fill < 4 {
			s.call(kinds[fill], "%d", i*7)
		} else {
			s.call(kinds[i%4], "%d", i*7)
		}
	}
	for i := 0; i < over; i++ {
		if fill < 4 {
			emit(s.tr, kinds[fill], "over")
		} else {
			emit(s.tr, kinds[i%4], "over")
		}
	}
	if s.tr.Errored() != (fill == 4 || kinds[fill].iserr()) {
		x.Failf("errored %v", s.tr.Errored())
	}
	want := max
	check := func(calls int) {
		evs := s.tr.Events()
		if calls <= max {
			if d := diffEvents(evs, s.model.events); d != "" {
				x.Failf("%d calls, maximum %d: %s", calls, max, d)
			}
			return
		}
		if len(evs) != want {
			x.Failf("%d entries after %d calls with maximum %d", len(evs), calls, max)
			return
		}
		if d := diffEvents(evs[:max-1], s.model.events[1:]); d != "" {
			x.Failf("%d calls, maximum %d: stored events: %s", calls, max, d)
		}
		if nums := integerRE.FindAllString(evs[max-1].What, -1); len(nums) != 1 || nums[0] != strconv.Itoa(calls-max) {
			x.Failf("%d calls, maximum %d: last entry %q", calls, max, evs[max-1].What)
		}
	}
	check(max + over)
	s.tr.LazyErrorf("one more")
	check(max + over + 1)
	if !s.tr.Errored() {
		x.Failf("not errored after %d calls beyond maximum %d", over+1, max)
	}
	s.tr.Finish()
	check(max + over + 1)
	x.Outcome("%d %d", max, over)
}

// c02Reused: traces of any length after dropped traces of any length.
func c02Reused(x *X) {
	trc.SetTraceStacks(false)
	trc.SetTraceMaxEvents(pickFrom(x, 10, 1000, 10000))
	c := trc.NewDefaultCollector().SetCategorySize(1)
	_, old := c.NewTrace(context.Background(), "a")
	n := pickFrom(x, 0, 1, 9, 10, 11, 100, 999, 1000, 1001, 1024, 2000, 5000, 10001)
	for i := 0; i < n; i++ {
		old.LazyErrorf("old %d", i)
	}
	old.Finish()
	if x.Bool() {
		old.Events()
	}
	c.NewTrace(context.Background(), "a") // drops it
	max := pickFrom(x, 10, 11, 100, 1000, 1001, 2500, 10000)
	trc.SetTraceMaxEvents(max)
	_, tr := c.NewTrace(context.Background(), "b")
	if len(tr.Events()) != 0 || tr.Errored() || tr.Finished() {
		x.Failf("a new trace has %d events, errored %v, finished %v", len(tr.Events()), tr.Errored(), tr.Finished())
		return
	}
	var want []mEvent
	for i := 0; i < max; i++ {
		tr.Tracef("new %d", i)
		want = append(want, mEvent{text: fmt.Sprint("new ", i)})
	}
	if d := diffEvents(tr.Events(), want); d != "" {
		x.Failf("%d events with maximum %d, after a trace with %d: %s", max, max, n, clip(d, 300))
		return
	}
	tr.Tracef("over")
	evs := tr.Events()
	if len(evs) != max {
		x.Failf("%d entries, maximum %d", len(evs), max)
		return
	}
	if d := diffEvents(evs[:max-1], want[1:]); d != "" {
		x.Failf("one more than %d: %s", max, clip(d, 300))
	}
	if nums := integerRE.FindAllString(evs[max-1].What, -1); len(nums) != 1 || nums[0] != "1" {
		x.Failf("maximum %d, one more: last entry %q", max, evs[max-1].What)
	}
	x.Outcome("%d %d", n, max)
}

// c05Large: any number of categories, sizes and traces.
func c05Large(x *X, part int) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector()
	switch part {
	case 0: // many categories, each with its own traces
		n := pickFrom(x, grid(1100)...)
		size := pickFrom(x, 1, 2)
		c.SetCategorySize(size)
		m := &c05Model{size: size, cats: map[string][]string{}}
		for round := 0; round < 3; round++ {
			for i := 0; i < n; i++ {
				cat := fmt.Sprint("cat", i)
				_, tr := c.NewTrace(context.Background(), cat)
				m.cats[cat] = append(m.cats[cat], tr.ID())
				if len(m.cats[cat]) > size {
					m.cats[cat] = m.cats[cat][1:]
				}
			}
		}
		c05Same(x, c, m, fmt.Sprint(n, " categories of size ", size))
	case 1: // similar names
		c.SetCategorySize(1)
		i := x.Choose(len(similar))
		m := &c05Model{size: 1, cats: map[string][]string{}}
		for _, j := range append([]int{i}, rangeTo(len(similar))...) {
			_, tr := c.NewTrace(context.Background(), similar[j])
			if tr.Category() != similar[j] {
				x.Failf("category %q instead of %q", tr.Category(), similar[j])
			}
			m.cats[similar[j]] = []string{tr.ID()}
		}
		c05Same(x, c, m, fmt.Sprintf("%q first", clip(similar[i], 40)))
	case 2: // large sizes
		size := pickFrom(x, append(grid(20000)[1:], 65537)...)
		late := x.Bool() // resized with the traces there
		n := size + pickFrom(x, 0, 1, 3)
		if late {
			c.SetCategorySize(100000)
		} else {
			c.SetCategorySize(size)
		}
		var ids []string
		for i := 0; i < n; i++ {
			_, tr := c.NewTrace(context.Background(), "c")
			ids = append(ids, tr.ID())
			if i%2 == 0 {
				tr.Finish()
			}
		}
		if late {
			c.SetCategorySize(size)
		}
		res, err := c.Search(context.Background(), &trc.SearchRequest{Limit: 250, Filter: trc.Filter{IDs: []string{ids[0], ids[n-size], ids[n-1], ids[max(0, n-size-1)]}}})
		if err != nil || res.TotalCount != size {
			x.Failf("size %d, %d created: holds %d", size, n, res.TotalCount)
			return
		}
		want := map[string]bool{ids[n-size]: true, ids[n-1]: true}
		if n == size {
			want[ids[0]] = true
		}
		got := map[string]bool{}
		for _, tr := range res.Traces {
			got[tr.TraceID] = true
		}
		if !deepEq(got, want) {
			x.Failf("size %d, %d created: holds the wrong ones (%d of %d)", size, n, len(got), len(want))
		}
	}
	x.Outcome("ok")
}

func rangeTo(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// c05Same compares all traces held with the model, category by category.
func c05Same(x *X, c *trc.Collector, m *c05Model, what string) {
	for cat, ids := range m.cats {
		f := trc.Filter{Category: cat}
		if cat == "" {
			f = trc.Filter{IDs: ids}
		}
		res, err := c.Search(context.Background(), &trc.SearchRequest{Limit: 250, Filter: f})
		if err != nil || res.TotalCount != m.total() || len(res.Traces) != len(ids) {
			x.Failf("%s: total %d, want %d; category %q: %d, want %d", what, res.TotalCount, m.total(), clip(cat, 40), len(res.Traces), len(ids))
			return
		}
		for i, tr := range res.Traces {
			if tr.TraceID != ids[len(ids)-1-i] || tr.TraceCategory != cat {
				x.Failf("%s: category %q holds other traces than it should", what, clip(cat, 40))
				return
			}
		}
		if len(m.cats) > 300 && len(cat)%2 == 0 {
			break
		}
	}
}

// c08Large: many events, stack frames, sources, IDs; queries of every syntax.
func c08Large(x *X, part int) {
	start := time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)
	st := &trc.StaticTrace{TraceSource: "s", TraceID: "i", TraceCategory: "c", TraceStarted: start}
	var f trc.Filter
	switch part {
	case 0: // the only match is in event, or frame, n of many
		n := pickFrom(x, grid(1000)...)
		for i := 0; i < 1002; i++ {
			st.TraceEvents = append(st.TraceEvents, trc.Event{When: start, What: "ev"})
		}
		f.Query = "needle|dir/pin.go:77"
		switch x.Choose(4) {
		case 0:
			st.TraceEvents[n].What = strings.Repeat("hay ", n) + "needle"
		case 1:
			st.TraceEvents[n].Stack = []trc.Frame{{Function: "x", FileLine: "/a/b.go:1"}, {Function: "y.needle", FileLine: "/a/b.go:1"}}
		case 2:
			for i := 0; i < n; i++ {
				st.TraceEvents[3].Stack = append(st.TraceEvents[3].Stack, trc.Frame{Function: "x", FileLine: "/a/b.go:1"})
			}
			st.TraceEvents[3].Stack = append(st.TraceEvents[3].Stack, trc.Frame{Function: "z", FileLine: "/long/dir/pin.go:77"})
		case 3:
			st.TraceEvents = st.TraceEvents[:n]
		}
	case 1: // many sources and IDs
		n := pickFrom(x, grid(500)...)
		for i := 0; i < 501; i++ {
			f.IDs = append(f.IDs, fmt.Sprint("id", i))
			f.Sources = append(f.Sources, fmt.Sprint("src", i))
		}
		st.TraceID, st.TraceSource = fmt.Sprint("id", n), fmt.Sprint("src", 500-n)
		switch x.Choose(3) {
		case 1:
			st.TraceID += "0000"
		case 2:
			st.TraceSource += " "
		}
	case 2: // similar strings
		a, b := similar[x.Choose(len(similar))], similar[x.Choose(len(similar))]
		switch x.Choose(3) {
		case 0:
			f.Category, st.TraceCategory = a, b
		case 1:
			f.IDs, st.TraceID = []string{a}, b
		case 2:
			f.Sources, st.TraceSource = []string{a}, b
		}
	case 3: // syntax
		texts := []string{"foobar", "foo.bar", "FOO", "a\nb", "ab12", "(x", "a\\d", "día", "", "aaa", "xyz[", "foo", "bar foo"}
		queries := []string{`^foo$`, `foo.bar`, `foo\.bar`, `(?i)foo`, `(?s)a.b`, `a.b`, `(?m)^b$`, `^b$`, `\d+`, `\bfoo\b`, `[[:digit:]]`, `a{2,3}`, `a{4}`, `a+?$`, `(?:x|y)z`, `(?P<n>x)y`, `\p{L}a`, `d.a`, `\Qa\d\E`, `(x`, `[`, `x**`, `a|(`, `(?!x)`, `\1`, `|`, `()`, `$^`, `\x{64}`, `[^a]`, `foo|`, ` `, `+`, `.*.*.*$`, `\C`, strings.Repeat("x", 2000)}
		st.TraceEvents = []trc.Event{{When: start, What: "zzz"}, {When: start, What: pickFrom(x, texts...)}}
		f.Query = pickFrom(x, queries...)
	}
	want, query := allows(f, st), f.Query
	errs := f.Normalize()
	if _, err := regexp.Compile(query); (err != nil) != (len(errs) > 0) {
		x.Failf("query %q normalized to errors %v", clip(query, 60), errs)
	}
	for round := 0; round < 2; round++ {
		if got := f.Allow(st); got != want {
			x.Failf("part %d: query %q: allowed %v, want %v", part, clip(f.Query, 60), got, want)
			return
		}
	}
	x.Outcome("%v", want)
}

// c09Wide: many categories and traces against any limit.
func c09Wide(x *X) {
	trc.SetTraceStacks(false)
	ncat := pickFrom(x, 1, 2, 5, 30, 101)
	limit := pickFrom(x, 1, 2, 10, 99, 249, 250, 251)
	per := pickFrom(x, 1, 3, 12, 260)
	if ncat*per > 2000 {
		return
	}
	match := pickFrom(x, 1, 2, 7) // every how many matches
	c := trc.NewCollector(trc.CollectorConfig{Source: "src"})
	r := &retained{size: 1000}
	k := 0
	for i := 0; i < per; i++ {
		for j := 0; j < ncat; j++ {
			_, tr := c.NewTrace(context.Background(), fmt.Sprint("cat", (j*7+i)%ncat))
			k++
			if k%match == 0 {
				tr.Errorf("e")
			}
			if k%3 == 0 {
				x.Advance(1)
			}
			r.add(tr)
		}
	}
	req := trc.SearchRequest{Limit: limit}
	if match > 1 {
		req.Filter.IsErrored = true
	}
	res, err := c.Search(context.Background(), &trc.SearchRequest{Limit: limit, Filter: req.Filter})
	if err != nil {
		x.Failf("%v", err)
		return
	}
	if d := searchSpec(r, req, "src", res); d != "" {
		x.Failf("%d categories of %d, one in %d matches, limit %d: %s", ncat, per, match, limit, d)
	}
	if d := statsDiff(res.Stats, r.cats, defaultBuckets); d != "" {
		x.Failf("%d categories of %d: %s", ncat, per, d)
	}
	x.Outcome("%d %d", ncat, per)
}

// c11Large: many traces, events, buckets, extreme times and durations.
func c11Large(x *X, part int) {
	trc.SetTraceStacks(false)
	cats := map[string][]trc.Trace{}
	start := time.Date(2024, 1, 2, 3, 4, 5, 600, time.UTC)
	var buckets []time.Duration
	ss := trc.NewSearchStats(nil)
	add := func(st *trc.StaticTrace) {
		ss.Observe(st)
		cats[st.TraceCategory] = append(cats[st.TraceCategory], st)
	}
	switch part {
	case 0: // all scales of durations and buckets
		durs := []time.Duration{0, 1, 999, 1000, 1<<31 - 1, 1 << 31, 1 << 32, 1 << 40, 1<<40 + 1, time.Hour, 24 * time.Hour, 100 * 24 * time.Hour, 1<<63 - 1}
		buckets = append([]time.Duration{0}, pickFrom(x, durs[1:]...))
		if x.Bool() {
			buckets = durs
		}
		ss = trc.NewSearchStats(buckets)
		for i, d := range durs {
			add(&trc.StaticTrace{TraceCategory: "a", TraceStarted: start, TraceFinished: true, TraceDuration: d, TraceErrored: i%2 == 0 && x.Bool()})
		}
	case 1: // start times that are close, far, equal, in other zones
		buckets = defaultBuckets
		ss = trc.NewSearchStats(buckets)
		offs := []time.Duration{0, 1, -1, time.Microsecond, time.Second, -time.Second, time.Hour, -40 * 365 * 24 * time.Hour, -100 * 365 * 24 * time.Hour, 100 * 365 * 24 * time.Hour}
		for i := 0; i < 3; i++ {
			t := start.Add(pickFrom(x, offs...))
			if x.Bool() {
				t = t.In(time.FixedZone("east", 7200))
			}
			add(&trc.StaticTrace{TraceCategory: pickFrom(x, "a", "b"), TraceStarted: t})
		}
	case 2: // many
		buckets = make([]time.Duration, pickFrom(x, 1, 10, 64, 65, 300))
		for i := range buckets {
			buckets[i] = time.Duration(i) * ms
		}
		ss = trc.NewSearchStats(buckets)
		for i, n := 0, pickFrom(x, grid(3000)...); i < n; i++ {
			add(&trc.StaticTrace{TraceCategory: fmt.Sprint("c", i%(1+n/10)), TraceStarted: start.Add(time.Duration(i)), TraceFinished: i%3 != 0, TraceErrored: i%4 == 0, TraceDuration: time.Duration(i) * ms, TraceEvents: make([]trc.Event, i%13)})
		}
	case 3: // traces with many events
		buckets = defaultBuckets
		ss = trc.NewSearchStats(buckets)
		for i := 0; i < 2; i++ {
			add(&trc.StaticTrace{TraceCategory: "a", TraceStarted: start, TraceEvents: make([]trc.Event, pickFrom(x, grid(10000)...))})
		}
	}
	if d := statsDiff(ss, cats, buckets); d != "" {
		x.Failf("part %d: %s", part, clip(d, 300))
	}
	x.Outcome("%d", len(cats))
}

// c12Large: many searchers, some of which fail.
func c12Large(x *X) {
	n := pickFrom(x, 4, 5, 8, 9, 15, 16, 17, 31, 32, 33)
	bad := pickFrom(x, 0, 1, 2, 3) // every how many fails
	per := pickFrom(x, 1, 3)
	var ms trc.MultiSearcher
	var want struct {
		total, match, problems int
		sources                []string
		ids                    []string
	}
	for i := 0; i < n; i++ {
		if bad > 0 && i%bad == 0 {
			if i%2 == 0 {
				ms = append(ms, searchFunc(func(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error) {
					return nil, errors.New("failed")
				}))
			} else {
				ms = append(ms, searchFunc(func(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) { return nil, nil }))
			}
			want.problems++
			continue
		}
		i := i
		name := fmt.Sprintf("src%02d", i)
		want.sources = append(want.sources, name)
		want.total += per + 5
		want.match += per
		for j := 0; j < per; j++ {
			want.ids = append([]string{name + "/" + fmt.Sprint(i/3, "-", j)}, want.ids...) // by start, then ID; not unique across sources
		}
		ms = append(ms, searchFunc(func(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
			if ctx.Err() != nil {
				return nil, ctx.Err()
			}
			res := &trc.SearchResponse{Request: req, Sources: []string{name}, TotalCount: per + 5, MatchCount: per, Stats: trc.NewSearchStats(req.Bucketing)}
			for j := 0; j < per; j++ {
				res.Traces = append(res.Traces, &trc.StaticTrace{TraceSource: name, TraceID: fmt.Sprint(i/3, "-", j), TraceCategory: "c", TraceStarted: zmc.Epoch.Add(time.Duration(i))})
			}
			return res, nil
		}))
	}
	limit := pickFrom(x, 1, 7, 250)
	res, err := ms.Search(context.Background(), &trc.SearchRequest{Limit: limit})
	if err != nil || res == nil {
		x.Failf("%d searchers: %v", n, err)
		return
	}
	if len(want.ids) > limit {
		want.ids = want.ids[:limit]
	}
	var ids []string
	for _, tr := range res.Traces {
		ids = append(ids, tr.TraceSource+"/"+tr.TraceID)
	}
	if res.TotalCount != want.total || res.MatchCount != want.match || len(res.Problems) != want.problems || fmt.Sprint(res.Sources) != fmt.Sprint(want.sources) || fmt.Sprint(ids) != fmt.Sprint(want.ids) {
		x.Failf("%d searchers, every %d fails, %d each, limit %d: total %d, match %d, %d problems, sources %v, traces %v; want %+v", n, bad, per, limit, res.TotalCount, res.MatchCount, len(res.Problems), res.Sources, ids, want)
	}
	x.Outcome("%d %d %d", n, bad, per)
}

// c13Large: many subscribers, many updates.
func c13Large(x *X) {
	trc.SetTraceStacks(false)
	b := trc.NewBroker()
	source := pickFrom(x, "src", "")
	var st streamer = b
	n := pickFrom(x, 3, 8, 9, 16, 17)
	ups := pickFrom(x, 5, 100, 300)
	capacity := pickFrom(x, 0, 1, 64, 1000)
	var subs []*subscription
	for i := 0; i < n; i++ {
		f := trc.Filter{}
		if i%3 == 1 {
			f.IsErrored = true
		}
		subs = append(subs, subscribe(x, st, f, capacity))
		zmc.Idle()
	}
	tr := &trc.StaticTrace{TraceSource: source, TraceID: "i", TraceCategory: pickFrom(x, "c", "")}
	bad := 0
	for i := 0; i < ups; i++ {
		tr.TraceErrored = i%2 == 1
		if tr.TraceErrored {
			bad++
		}
		tr.TraceEvents = []trc.Event{{What: strconv.Itoa(i)}}
		b.Publish(context.Background(), tr)
	}
	for i, s := range subs {
		s.stop()
		offered := ups
		if i%3 == 1 {
			offered = bad
		}
		sends := min(offered, capacity)
		want := trc.StreamStats{Skips: ups - offered, Sends: sends, Drops: offered - sends}
		if s.stats != want {
			x.Failf("%d subscribers, %d updates: subscriber %d with room for %d: %s, want %s", n, ups, i, capacity, s.stats, want)
			return
		}
		got := s.drain()
		if len(got) != sends {
			x.Failf("%d copies, want %d", len(got), sends)
			return
		}
		for j, g := range got {
			k := j
			if i%3 == 1 {
				k = 2*j + 1
			}
			if evs := g.Events(); len(evs) != 1 || evs[0].What != strconv.Itoa(k) {
				x.Failf("subscriber %d: copy %d has %v, want %d", i, j, whats(evs), k)
				return
			}
		}
	}
	x.Outcome("%d %d %d", n, ups, capacity)
}
