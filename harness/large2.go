package main

import (
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"github.com/peterbourgon/trc/trcweb"
)

// c15Large: large requests and responses.
func c15Large(x *X, part int) {
	start := time.Date(2024, 1, 2, 3, 4, 5, 678901234, time.UTC)
	st := &trc.StaticTrace{TraceID: "id", TraceSource: "src", TraceCategory: "cat", TraceStarted: start, TraceFinished: true, TraceDuration: 5}
	res := &trc.SearchResponse{Sources: []string{"src"}, TotalCount: 7, MatchCount: 3, Traces: []*trc.StaticTrace{st}}
	req := &trc.SearchRequest{}
	buckets := []time.Duration{0, ms}
	var n int
	switch part {
	case 0: // long texts
		n = pickFrom(x, grid(1<<22)...)
		s := strings.Repeat("é<", n/3) + strings.Repeat("z", n%3)
		switch x.Choose(3) {
		case 0:
			st.TraceEvents = []trc.Event{{When: start, What: s}}
		case 1:
			st.TraceCategory = s
		case 2:
			res.Problems = []string{"a", s}
		}
	case 1: // many events, or frames
		n = pickFrom(x, grid(10000)...)
		if x.Bool() {
			for i := 0; i < n; i++ {
				st.TraceEvents = append(st.TraceEvents, trc.Event{When: start.Add(time.Duration(i)), What: fmt.Sprint("event ", i), IsError: i%3 == 0})
			}
		} else {
			ev := trc.Event{When: start, What: "deep"}
			for i := 0; i < n; i++ {
				ev.Stack = append(ev.Stack, trc.Frame{Function: fmt.Sprint("f", i), FileLine: fmt.Sprint("/x/y.go:", i)})
			}
			st.TraceEvents = []trc.Event{ev}
		}
	case 2: // many traces, categories, sources, problems, buckets
		n = pickFrom(x, grid(1000)...)
		switch x.Choose(5) {
		case 0:
			for i := 0; i < n && i < 249; i++ {
				cp := *st
				cp.TraceID = fmt.Sprint("id", i)
				res.Traces = append(res.Traces, &cp)
			}
		case 1:
			for i := 0; i < n; i++ {
				cp := *st
				cp.TraceCategory = fmt.Sprint("cat", i)
				res.Traces = append(res.Traces, &cp)
			}
			res.Stats = trc.NewSearchStats(buckets)
			for _, tr := range res.Traces {
				res.Stats.Observe(tr)
			}
			res.Traces = res.Traces[:1]
		case 2:
			res.Sources = nil
			for i := 0; i < n; i++ {
				res.Sources = append(res.Sources, fmt.Sprintf("src%04d", i))
			}
		case 3:
			for i := 0; i < n; i++ {
				res.Problems = append(res.Problems, fmt.Sprint("problem ", i))
			}
		case 4:
			buckets = nil
			for i := 0; i <= n; i++ {
				buckets = append(buckets, time.Duration(i)*ms)
			}
			req.Bucketing = append(req.Bucketing, buckets...)
		}
	case 3: // large requests
		n = pickFrom(x, grid(20000)...)
		switch x.Choose(3) {
		case 0:
			req.Filter.Query = strings.Repeat("x", n)
		case 1:
			req.Filter.Category = strings.Repeat("é&", n)
		case 2:
			for i := 0; i < n; i++ {
				req.Filter.IDs = append(req.Filter.IDs, fmt.Sprint("id", i))
			}
		}
	case 4: // numbers
		num := pickFrom(x, 0, 1, 1<<31-1, 1<<31, 1<<32, 1<<53-1)
		res.TotalCount, res.MatchCount = num, num/2
		st.TraceDuration = pickFrom(x, time.Duration(0), 1, 999, 1<<31, 1<<53-1, 1<<53+1, 1<<62, 1<<63-1)
		st.TraceStarted = pickFrom(x, start, start.Add(1), time.Date(1969, 1, 1, 0, 0, 0, 1, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Time{}, time.Date(2024, 7, 1, 0, 0, 0, 5, time.FixedZone("x", 5400)))
	}
	if res.Stats == nil {
		res.Stats = trc.NewSearchStats(buckets)
		for _, tr := range res.Traces {
			res.Stats.Observe(tr)
		}
	}
	c := &capture{res: res}
	d := &direct{h: &trcweb.TraceServer{Searcher: c, Collector: trc.NewDefaultCollector()}}
	sent := *req
	got, err := trcweb.NewSearchClient(d, "http://x").Search(context.Background(), &sent)
	if err != nil {
		x.Failf("size %d: %v", n, err)
		return
	}
	want := *res
	if diff := respDiff(got, &want); diff != "" {
		x.Failf("size %d: %s", n, clip(diff, 400))
	}
	if diff := filterDiff(c.req.Filter, req.Filter); diff != "" {
		x.Failf("size %d: searched with %s", n, clip(diff, 400))
	}
	if req.Bucketing != nil && !sameDurs(c.req.Bucketing, req.Bucketing) {
		x.Failf("size %d: searched with %d buckets", n, len(c.req.Bucketing))
	}
	x.Outcome("%d %d", part, n)
}

// countWriter counts.
type countWriter struct {
	header http.Header
	code   int
	n      int
}

func (w *countWriter) Header() http.Header { return w.header }
func (w *countWriter) WriteHeader(code int) {
	if w.code == 0 {
		w.code = code
	}
}
func (w *countWriter) Write(p []byte) (int, error) {
	w.WriteHeader(200)
	w.n += len(p)
	return len(p), nil
}

var bytesRE = regexp.MustCompile(`([0-9.]+)\s*([KMGT]?)i?B\b`)

// c17Large: bodies of any size, in any pieces; every code.
func c17Large(x *X, codes bool) {
	trc.SetTraceStacks(false)
	code, size, piece := 200, 3, 3
	if codes {
		code = 200 + 8*x.Choose(100) + x.Choose(8)
	} else {
		size = pickFrom(x, grid(1<<27)...)
		piece = pickFrom(x, 1000, 1<<15, 1<<16, 1<<20, 1<<27)
		if size/piece > 20000 {
			return
		}
	}
	body := make([]byte, min(size, piece))
	c := trc.NewDefaultCollector()
	w := &countWriter{header: http.Header{}}
	trcweb.Middleware(c.NewTrace, func(r *http.Request) string { return "c" })(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if codes {
			w.WriteHeader(code)
		}
		for left := size; left > 0; left -= len(body) {
			if len(body) > left {
				body = body[:left]
			}
			if n, err := w.Write(body); n != len(body) || err != nil {
				x.Failf("write %d: %d, %v", len(body), n, err)
			}
		}
	})).ServeHTTP(w, httptest.NewRequest("GET", "/", nil))
	if w.n != size || w.code != code && (w.code != 0 || size > 0) {
		x.Failf("%d bytes with code %d arrived as %d bytes with code %d", size, code, w.n, w.code)
	}
	res, _ := c.Search(context.Background(), &trc.SearchRequest{})
	evs := res.Traces[0].TraceEvents
	last := evs[len(evs)-1].What
	if !regexp.MustCompile(fmt.Sprintf(`\b%d\b`, code)).MatchString(last) {
		x.Failf("code %d: last event %q", code, last)
	}
	m := bytesRE.FindStringSubmatch(last)
	if m == nil {
		x.Failf("%d bytes: last event %q", size, last)
		return
	}
	f, _ := strconv.ParseFloat(m[1], 64)
	f *= map[string]float64{"": 1, "K": 1 << 10, "M": 1 << 20, "G": 1 << 30, "T": 1 << 40}[m[2]]
	if d := f - float64(size); d > float64(size)*0.06 || -d > float64(size)*0.06 {
		x.Failf("%d bytes: last event %q", size, last)
	}
	x.Outcome("%s", last)
}

// c18Large: any depth, any number of arguments, any names.
func c18Large(x *X, part int) {
	trc.SetTraceStacks(false)
	ctx, tr := trc.New(context.Background(), "src", "cat")
	var want []mEvent
	var finish []func()
	ev := func(text string, k kind) { want = append(want, mEvent{text: text, iserr: k.iserr()}) }
	k := kinds[x.Choose(4)]
	what := ""
	switch part {
	case 0: // depth
		depth := pickFrom(x, grid(70)...)
		mix := pickFrom(x, 1, 2, 3) // prefixes, regions, both
		prefix := ""
		what = fmt.Sprint("depth ", depth)
		for i := 0; i < depth; i++ {
			if mix == 1 || mix == 3 && i%2 == 0 {
				ctx, _ = trc.Prefix(ctx, "p%d-%s", i, strings.Repeat("x", i))
				prefix += fmt.Sprintf("p%d-%s ", i, strings.Repeat("x", i))
				continue
			}
			var done func()
			at := prefix
			ctx, _, done = trc.Region(ctx, fmt.Sprint("r", i))
			ev(at+"→ "+fmt.Sprint("r", i), kLazy)
			prefix += "· "
			i := i
			finish = append(finish, func() { done(); ev(at+fmt.Sprintf("← r%d [0s]", i), kLazy) })
		}
		ezEmit(ctx, k, "at %d", depth)
		ev(prefix+fmt.Sprint("at ", depth), k)
		for i := len(finish) - 1; i >= 0; i-- {
			finish[i]()
		}
	case 1: // arguments
		n, m, o := pickFrom(x, grid(70)...), pickFrom(x, grid(70)...), pickFrom(x, 0, 1, 5)
		what = fmt.Sprint("arguments ", n, m, o)
		mk := func(n int, s string) (string, []any, string) {
			var args []any
			var text strings.Builder
			for i := 0; i < n; i++ {
				args = append(args, fmt.Sprint(s, i))
				fmt.Fprint(&text, s, i)
			}
			return s + strings.Repeat("%s", n), args, s + text.String()
		}
		f1, a1, t1 := mk(n, "a")
		f2, a2, t2 := mk(o, "b")
		f3, a3, t3 := mk(m, "c")
		ctx, _ = trc.Prefix(ctx, f1, a1...)
		ctx, p := trc.Prefix(ctx, f2, a2...)
		emit(p, k, f3, a3...)
		ezEmit(ctx, k, f3, a3...)
		ev(t1+" "+t2+" "+t3, k)
		ev(t1+" "+t2+" "+t3, k)
	case 2: // names and values
		name := similar[x.Choose(len(similar))]
		what = fmt.Sprintf("name %q", clip(name, 40))
		c1, p, done := trc.Region(ctx, name)
		ev("→ "+name, kLazy)
		emit(p, k, "%s", name)
		ev("· "+name, k)
		done()
		ev("← "+name+" [0s]", kLazy)
		_, p = trc.Prefix(c1, "<%s>", name)
		emit(p, k, "[%s]", name)
		ev("· <"+name+"> ["+name+"]", k)
		eztrc.Tracef(ctx, "%s", name)
		ev(name, kTrace)
		if f := strings.TrimSpace(name); !strings.Contains(name, "%") && f != "" {
			_, p = trc.Prefix(ctx, name)
			emit(p, k, "x")
			ev(f+" x", k)
		}
	}
	if d := diffEvents(tr.Events(), want); d != "" {
		x.Failf("%s: %s", what, clip(d, 400))
	}
	x.Outcome("%s", what)
}

// c19Large: lines of any length, texts of all sorts.
func c19Large(x *X, part int) {
	trc.SetTraceStacks(false)
	text, source, category := "t", "s", "c"
	switch part {
	case 0:
		n := pickFrom(x, grid(1<<17)...)
		text = strings.Repeat("é", n/2) + strings.Repeat("z", n%2)
	case 1:
		n := pickFrom(x, grid(5000)...)
		category, source = strings.Repeat("c", n), strings.Repeat("s", n+1)
	case 2:
		text = similar[x.Choose(len(similar))]
		if strings.ContainsAny(text, "\n\x00\xff\xfe") {
			return
		}
	}
	k := kinds[x.Choose(4)]
	w := &lineWriter{}
	tail := "end of it"
	c := trc.NewCollector(trc.CollectorConfig{Source: source, Decorators: []trc.DecoratorFunc{trc.LogDecorator(w)}})
	_, tr := c.NewTrace(context.Background(), category)
	lines := []c19Line{{has: []string{source, category}}}
	for i := 0; i < 2; i++ {
		emit(tr, k, "%s %s", text, tail)
		lines = append(lines, c19Line{ends: text + " " + tail, iserr: k.iserr()})
	}
	tr.Finish()
	lines = append(lines, c19Line{iserr: k.iserr()})
	if evs := tr.Events(); len(evs) != 2 || evs[0].What != text+" "+tail || evs[1].What != evs[0].What {
		x.Failf("events %v", clip(fmt.Sprint(whats(evs)), 300))
	}
	if d := c19Check(w.buf.String(), tr.ID(), lines); d != "" {
		x.Failf("%v of %d bytes: %s", k, len(text), clip(d, 300))
	}
	x.Outcome("%d %v", len(text)+len(category), k)
}

// c21Large: many traces, events, frames; long texts.
func c21Large(x *X, part int) {
	start := time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)
	res := &trc.SearchResponse{Sources: []string{"s"}, TotalCount: 12345, MatchCount: 300}
	add := func(i int) *trc.StaticTrace {
		st := &trc.StaticTrace{TraceID: fmt.Sprint("id", i), TraceSource: "s", TraceCategory: "c", TraceStarted: start.Add(-time.Duration(i) * ms), TraceDuration: 10 * ms, TraceFinished: i%2 == 0}
		res.Traces = append(res.Traces, st)
		return st
	}
	event := func(what string) trc.Event { return trc.Event{When: start.Add(ms), What: what} }
	var n int
	switch part {
	case 0: // traces
		n = pickFrom(x, grid(250)...)
		for i := 0; i < n; i++ {
			add(i).TraceEvents = []trc.Event{event(fmt.Sprint("event ", i))}
		}
	case 1: // events
		n = pickFrom(x, grid(1000)...)
		st := add(0)
		for i := 0; i < n; i++ {
			st.TraceEvents = append(st.TraceEvents, event(fmt.Sprint("event ", i/2))) // twice the same
		}
	case 2: // long texts
		n = pickFrom(x, grid(1<<16)...)
		s := strings.Repeat("a <é&", n/6) + strings.Repeat("z", n%6)
		st := add(0)
		st.TraceEvents = []trc.Event{event(s), event(s + "x")}
		st.TraceEvents[1].IsError = true
		if x.Bool() && n > 0 {
			st.TraceCategory, st.TraceSource = "c"+s, "s"+s
		}
	case 3: // frames
		n = pickFrom(x, grid(64)...)
		st := add(0)
		e := event("deep")
		for i := 0; i < n; i++ {
			e.Stack = append(e.Stack, trc.Frame{Function: fmt.Sprint("pkg.f", i), FileLine: fmt.Sprint("/x/y.go:", i)})
		}
		st.TraceEvents = []trc.Event{event("x"), e}
	case 4: // categories
		n = pickFrom(x, grid(300)...)
		for i := 0; i < n; i++ {
			add(i).TraceCategory = fmt.Sprint("cat", i)
		}
	case 5: // similar names
		for _, s := range similar {
			if s == "" || strings.ContainsAny(s, "\x00\xff\xfe") {
				continue
			}
			st := add(n)
			st.TraceCategory = s
			st.TraceEvents = []trc.Event{event(s)}
			n++
			if n == 200 {
				break
			}
		}
	}
	res.Stats = trc.NewSearchStats(trc.DefaultBucketing)
	for _, tr := range res.Traces {
		res.Stats.Observe(tr)
	}
	if len(res.Traces) > 250 {
		res.Traces = res.Traces[:250]
	}
	doc, _, err := c21Page(&capture{res: res}, "/?n=250")
	if err != nil {
		x.Failf("part %d size %d: %v", part, n, err)
		return
	}
	if d := c21Shown(doc, res); d != "" {
		x.Failf("part %d size %d: %s", part, n, clip(d, 400))
	}
	// Every category has its row.
	rows := map[string]int{}
	for _, a := range doc.all(func(n *node) bool { return n.tag == "a" }) {
		href, _ := a.attr("href")
		if !strings.Contains(href, "category=") {
			continue
		}
		if req, err := follow(href); err == nil {
			rows[req.Filter.Category]++
		}
	}
	for cat := range res.Stats.Categories {
		if rows[cat] == 0 {
			x.Failf("part %d size %d: no link to category %q", part, n, clip(cat, 60))
			return
		}
	}
	x.Outcome("%d %d", part, n)
}
