package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"github.com/peterbourgon/trc/zmc"
)

func init() {
	register("C15", c15Variants, "the HTTP transport is replaced by a direct call of the handler with the request as sent", "text is valid UTF-8, which JSON requires", "at most one Accept header line")
}

// direct is an HTTP client that calls a handler.
type direct struct {
	h    http.Handler
	last *http.Request
}

func (d *direct) Do(r *http.Request) (*http.Response, error) {
	d.last = r
	return served{d.h}.Do(r)
}

// served is direct without a record of the request.
type served struct{ h http.Handler }

func (d served) Do(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
	}
	sr, err := http.NewRequestWithContext(r.Context(), r.Method, r.URL.String(), bytes.NewReader(body))
	if err != nil {
		return nil, err
	}
	sr.Header = r.Header.Clone()
	sr.RequestURI = r.URL.RequestURI()
	sr.RemoteAddr = "192.0.2.1:1234"
	rec := httptest.NewRecorder()
	d.h.ServeHTTP(rec, sr)
	return rec.Result(), nil
}

// respDiff compares two responses.
func respDiff(got, want *trc.SearchResponse) string {
	if got == nil {
		return "no response"
	}
	if got.TotalCount != want.TotalCount || got.MatchCount != want.MatchCount {
		return fmt.Sprintf("total %d match %d, want %d and %d", got.TotalCount, got.MatchCount, want.TotalCount, want.MatchCount)
	}
	if !eqStrings(got.Sources, want.Sources) {
		return fmt.Sprintf("sources %q, want %q", got.Sources, want.Sources)
	}
	if !eqStrings(got.Problems, want.Problems) {
		return fmt.Sprintf("problems %q, want %q", got.Problems, want.Problems)
	}
	if len(got.Traces) != len(want.Traces) {
		return fmt.Sprintf("%d traces, want %d", len(got.Traces), len(want.Traces))
	}
	for i := range want.Traces {
		if d := snapOf(want.Traces[i]).diff(snapOf(got.Traces[i])); d != "" {
			return fmt.Sprintf("trace %d: %s", i, d)
		}
	}
	if (got.Stats == nil) != (want.Stats == nil) {
		return fmt.Sprintf("statistics %v, want %v", got.Stats, want.Stats)
	}
	if want.Stats != nil {
		if !sameDurs(got.Stats.Bucketing, want.Stats.Bucketing) {
			return fmt.Sprintf("buckets %v, want %v", got.Stats.Bucketing, want.Stats.Bucketing)
		}
		if d := sumDiff(got.Stats, want.Stats.Categories); d != "" {
			return "statistics: " + d
		}
	}
	if got.Request != nil && want.Request != nil {
		g, w := got.Request, want.Request
		if g.Limit != w.Limit || g.StackDepth != w.StackDepth || !sameDurs(g.Bucketing, w.Bucketing) || g.Filter.String() != w.Filter.String() {
			return fmt.Sprintf("request %s, want %s", g, w)
		}
	}
	return ""
}

const oddCategory = "a&b=c %+é/?#"

// c15Fixture is a collector with traces of all sorts.
func c15Fixture(x *X) (*trc.Collector, []string) {
	c := trc.NewDefaultCollector()
	var ids []string
	for i := 0; i < 6; i++ {
		_, tr := c.NewTrace(context.Background(), pickStr(i, "a", oddCategory))
		ids = append(ids, tr.ID())
		tr.Tracef("hello %d <b>&\"\u2028\n", i)
		tr.LazyTracef("e%d & x", i)
		if i == 2 || i == 3 {
			tr.Errorf("bad")
		}
		if i == 4 {
			x.Advance(1500 * odd)
		} else {
			x.Advance(odd)
		}
		if i > 0 && i != 3 {
			tr.Finish()
		}
	}
	x.Advance(123456789)
	return c, ids
}

func c15Variants(tier string) []*Variant {
	var vs []*Variant
	for _, form := range []string{"json", "wire", "url"} {
		for lim := range c15Limits {
			for q := range c15Queries {
				form, lim, q := form, lim, q
				vs = append(vs, &Variant{Name: fmt.Sprintf("search/%s/limit=%d/query=%d", form, lim, q), Seq: true, Body: func(x *X) { c15Search(x, form, lim, q, tier == "thorough") }})
			}
		}
	}
	for i := 0; i < 5; i++ {
		i := i
		vs = append(vs, &Variant{Name: fmt.Sprintf("large/%d", i), Seq: true, Body: func(x *X) { c15Large(x, i) }})
	}
	vs = append(vs, &Variant{Name: "params", Seq: true, Body: c15Params})
	vs = append(vs, &Variant{Name: "values", Seq: true, Body: c15Values})
	vs = append(vs, &Variant{Name: "flags", Seq: true, Body: c15Flags})
	vs = append(vs, &Variant{Name: "undecodable", Seq: true, Body: c15Undecodable})
	vs = append(vs, &Variant{Name: "searcher", Seq: true, Body: c15Searcher})
	vs = append(vs, &Variant{Name: "buckets", Seq: true, Body: c15Buckets})
	vs = append(vs, &Variant{Name: "accept", Seq: true, Body: c15Accept})
	vs = append(vs, &Variant{Name: "client", Seq: true, Body: c15Client})
	vs = append(vs, &Variant{Name: "multi", Bound: 0, Body: c15Multi})
	for mode := 0; mode < 4; mode++ {
		mode := mode
		bound := quickThorough(tier, 1, 2)
		if mode >= 2 {
			bound--
		}
		vs = append(vs, &Variant{Name: fmt.Sprint("race/", mode), Race: true, Bound: bound, Body: func(x *X) { c15Race(x, mode) }})
	}
	return vs
}

var (
	c15Limits  = []int{0, 1, 2, -5, 999}
	c15Queries = []string{"", "hello [0-3]", "e[0-9]+ & x", "("}
)

func c15Search(x *X, form string, lim, qi int, full bool) {
	c, ids := c15Fixture(x)
	req := trc.SearchRequest{Limit: c15Limits[lim]}
	f := &req.Filter
	f.Query = c15Queries[qi]
	f.Sources = pickFrom(x, nil, []string{"o ther", "default"})
	f.IDs = pickFrom(x, nil, []string{ids[1], ids[4], ids[0]})
	f.Category = pickFrom(x, "", "a", oddCategory)
	switch x.Choose(5) {
	case 1:
		f.IsActive = true
	case 2:
		f.IsFinished = true
	case 3:
		f.IsSuccess = true
	case 4:
		f.IsErrored = true
	}
	f.MinDuration = pickFrom(x, nil, durp(0), durp(1500*ms))
	req.StackDepth = pickFrom(x, 0, -1, 1)
	if full {
		req.Bucketing = pickFrom(x, nil, []time.Duration{5 * ms, 0}, []time.Duration{-ms, 3 * ms})
	} else {
		req.Bucketing = [][]time.Duration{nil, {5 * ms, 0}, {-ms, 3 * ms}}[(lim+qi)%3]
	}
	clone := func() *trc.SearchRequest {
		r := req
		r.Bucketing = append([]time.Duration(nil), req.Bucketing...)
		return &r
	}
	want, err := c.Search(context.Background(), clone())
	if err != nil {
		x.Failf("%v", err)
		return
	}
	var got *trc.SearchResponse
	switch form {
	case "json":
		cl := trcweb.NewSearchClient(&direct{h: trcweb.NewTraceServer(c)}, "example.com/x?y=z")
		got, err = cl.Search(context.Background(), clone())
	case "wire":
		r := httptest.NewRequest(pickStr(len(f.Category), "GET", "POST"), "/", bytes.NewReader(wireRequest(&req)))
		r.Header.Set("content-type", "application/json")
		rec := httptest.NewRecorder()
		trcweb.NewTraceServer(c).ServeHTTP(rec, r)
		if rec.Code != 200 {
			x.Failf("%s: HTTP %d", req, rec.Code)
			return
		}
		got, err = wireSearchData(rec.Body.Bytes())
	case "url":
		if req.Limit < 0 {
			return // clamped instead of defaulted, see c15Params
		}
		got, err = c15URL(trcweb.NewTraceServer(c), &req, nil)
	}
	if err != nil {
		x.Failf("%s: %s: %v", form, &req, err)
		return
	}
	if d := respDiff(got, want); d != "" {
		x.Failf("%s: %s: %s", form, req, d)
		return
	}
	x.Outcome("%s %d %d %d", req, got.TotalCount, got.MatchCount, len(got.Traces))
}

// c15URL makes a request with URL parameters.
func c15URL(h http.Handler, req *trc.SearchRequest, more url.Values) (*trc.SearchResponse, error) {
	v := url.Values{}
	for _, s := range req.Filter.Sources {
		v.Add("source", s)
	}
	for _, s := range req.Filter.IDs {
		v.Add("id", s)
	}
	if req.Filter.Category != "" {
		v.Set("category", req.Filter.Category)
	}
	if req.Filter.IsActive {
		v.Set("active", "true")
	}
	if req.Filter.IsFinished {
		v.Set("finished", "")
	}
	if req.Filter.IsSuccess {
		v.Set("success", "1")
	}
	if req.Filter.IsErrored {
		v.Set("errored", "true")
	}
	if req.Filter.MinDuration != nil {
		v.Set("min", req.Filter.MinDuration.String())
	}
	if req.Filter.Query != "" {
		v.Set("q", req.Filter.Query)
	}
	if req.Limit > 0 {
		v.Set("n", strconv.Itoa(req.Limit))
	}
	if req.StackDepth != 0 {
		v.Set("stack", strconv.Itoa(req.StackDepth))
	}
	for _, b := range req.Bucketing {
		v.Add("b", b.String())
	}
	for k, s := range more {
		v[k] = s
	}
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, httptest.NewRequest("GET", "/traces?"+v.Encode(), nil))
	if rec.Code != 200 {
		return nil, fmt.Errorf("HTTP %d: %s", rec.Code, rec.Body.String())
	}
	return wireSearchData(rec.Body.Bytes())
}

// c15Flags: all combinations of the filter's flags, in all the ways that links
// and forms write them.
func c15Flags(x *X) {
	c, _ := c15Fixture(x)
	var req trc.SearchRequest
	var parts []string
	for i, name := range []string{"active", "finished", "success", "errored"} {
		how := x.Choose(5)
		if how == 0 {
			continue
		}
		parts = append(parts, name+pickStr(how-1, "", "=", "=true", "=1"))
		*[]*bool{&req.Filter.IsActive, &req.Filter.IsFinished, &req.Filter.IsSuccess, &req.Filter.IsErrored}[i] = true
	}
	query := strings.Join(parts, "&")
	want, err := c.Search(context.Background(), &req)
	if err != nil {
		x.Failf("%v", err)
		return
	}
	rec := httptest.NewRecorder()
	trcweb.NewTraceServer(c).ServeHTTP(rec, httptest.NewRequest("GET", "/traces?"+query, nil))
	got, err := wireSearchData(rec.Body.Bytes())
	if rec.Code != 200 || err != nil {
		x.Failf("%s: HTTP %d: %v", query, rec.Code, err)
		return
	}
	if d := respDiff(got, want); d != "" {
		x.Failf("%s: %s", query, d)
		return
	}
	x.Outcome("%s %d", query, want.MatchCount)
}

// c15Params: URL parameters with unusual values.
func c15Params(x *X) {
	c := trc.NewDefaultCollector()
	for i := 0; i < 260; i++ {
		trc.SetTraceStacks(i == 259)
		_, tr := c.NewTrace(context.Background(), pickStr(i, "a", "b"))
		if i == 259 {
			tr.Tracef("x")
		}
	}
	n := pickFrom(x, "", "x", "-1", "0", "1", "7", "250", "251", "99999999999999999999", "1.5", " 3", "1e3")
	stack := pickFrom(x, "", "x", "-1", "0", "1", "-99", "100")
	b := pickFrom(x, nil, []string{}, []string{"x"}, []string{"5ms", "x", "1ms"}, []string{"-5ms"}, []string{"0", "0s"}, []string{""})
	minp := pickFrom(x, "", "x", "1h", "-1s", "5")
	res, err := c15URL(trcweb.NewTraceServer(c), &trc.SearchRequest{}, url.Values{"n": {n}, "stack": {stack}, "b": b, "min": {minp}})
	what := fmt.Sprintf("n=%q stack=%q b=%q min=%q", n, stack, b, minp)
	if err != nil {
		x.Failf("%s: %v", what, err)
		return
	}
	var wants []int
	switch n {
	case "1", "7", "250":
		v, _ := strconv.Atoi(n)
		wants = []int{v}
	case "251":
		wants = []int{250}
	case "99999999999999999999":
		wants = []int{10, 250}
	case "-1", "0":
		wants = []int{1, 10}
	default:
		wants = []int{10}
	}
	total := 260
	if minp == "1h" || minp == "-1s" { // no finished traces
		if len(res.Traces) != 0 {
			x.Failf("%s: %d traces", what, len(res.Traces))
		}
	} else {
		ok := false
		for _, w := range wants {
			ok = ok || len(res.Traces) == w
		}
		if !ok {
			x.Failf("%s: %d traces, want %v", what, len(res.Traces), wants)
			return
		}
		st := len(res.Traces[0].TraceEvents[0].Stack)
		switch stack {
		case "-1", "-99":
			if st != 0 {
				x.Failf("%s: stack of %d", what, st)
			}
		case "1":
			if st != 1 {
				x.Failf("%s: stack of %d", what, st)
			}
		default:
			if st < 2 {
				x.Failf("%s: stack of %d", what, st)
			}
		}
	}
	if res.TotalCount != total {
		x.Failf("%s: total %d", what, res.TotalCount)
	}
	var ds []time.Duration
	for _, s := range b {
		if d, err := time.ParseDuration(s); err == nil {
			ds = append(ds, d)
		}
	}
	if !sameDurs(res.Stats.Bucketing, normBuckets(ds)) {
		x.Failf("%s: buckets %v, want %v", what, res.Stats.Bucketing, normBuckets(ds))
	}
	x.Outcome("%s %d", what, len(res.Traces))
}

// countSearcher counts its calls.
type countSearcher struct {
	trc.Searcher
	n int
}

func (c *countSearcher) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	c.n++
	return c.Searcher.Search(ctx, req)
}

// c15Undecodable: bodies that are not requests.
func c15Undecodable(x *X) {
	c := trc.NewDefaultCollector()
	cs := &countSearcher{Searcher: c}
	big := strings.Repeat("x", 1<<20)
	bodies := []string{"", "{", "[]", "xyz", `"`, `{"limit":"x"}`, `{"filter":{"min_duration":"1s"}}`, `{"filter":[]}`, `{"limit":1.5}`, `{"filter":{"sources":"a"}}`, `{"bucketing":["5ms"]}`,
		`{"filter":{"query":"` + big + `"}}`, strings.Repeat(" ", 1<<20+5) + "{}", `{"limit":99999999999999999999}`, `{"filter":{"is_active":"true"}}`}
	body := bodies[x.Choose(len(bodies))]
	h := &trcweb.TraceServer{Collector: c, Searcher: cs}
	r := httptest.NewRequest(pickFrom(x, "GET", "POST"), "/?n=3", strings.NewReader(body))
	r.Header.Set("content-type", pickFrom(x, "application/json", "application/json; charset=utf-8"))
	r.Header.Set("accept", pickFrom(x, "application/json", "text/html", ""))
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, r)
	if rec.Code < 400 || rec.Code > 499 {
		x.Failf("body %q: HTTP %d", clip(body, 60), rec.Code)
	}
	if cs.n != 0 {
		x.Failf("body %q: %d searches", clip(body, 60), cs.n)
	}
	// A fine one right after.
	r = httptest.NewRequest("GET", "/", strings.NewReader(`{"filter":{"query":"`+big[:1<<19]+`"}}`))
	r.Header.Set("content-type", "application/json")
	rec = httptest.NewRecorder()
	h.ServeHTTP(rec, r)
	if rec.Code != 200 || cs.n != 1 {
		x.Failf("large request: HTTP %d, %d searches", rec.Code, cs.n)
	}
	x.Outcome("%q", clip(body, 60))
}

// c15Searcher: a searcher that fails, or has problems of its own.
func c15Searcher(x *X) {
	start := time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)
	res := func() *trc.SearchResponse {
		st := &trc.StaticTrace{TraceID: "id", TraceSource: "src", TraceCategory: "cat", TraceStarted: start, TraceFinished: true}
		ss := trc.NewSearchStats([]time.Duration{0, ms})
		ss.Observe(st)
		return &trc.SearchResponse{Sources: []string{"src"}, TotalCount: 7, MatchCount: 3, Traces: []*trc.StaticTrace{st}, Stats: ss}
	}
	k := x.Choose(7)
	if k == 0 || k == 2 { // failures of any kind
		failure := pickFrom(x, failures...)
		c15Failing(x, failure, pickFrom(x, nil, res()))
	}
	var s *canned
	wantProblems := []string{}
	switch k {
	case 0:
		s = &canned{nil, errors.New("it failed")}
		wantProblems = []string{"it failed"}
	case 1:
		s = &canned{nil, nil}
	case 2:
		s = &canned{res(), errors.New("it half failed")}
		wantProblems = []string{"it half failed"}
	case 3:
		r := res()
		r.Problems = []string{"problem <1>", "problem 2", "problem 2"}
		s = &canned{r, nil}
		wantProblems = r.Problems
	case 4:
		r := res()
		r.Stats = nil
		s = &canned{r, nil}
	case 5:
		s = &canned{&trc.SearchResponse{}, nil}
	case 6:
		r := res()
		r.Stats = &trc.SearchStats{}
		s = &canned{r, nil}
	}
	q := pickFrom(x, "", "(")
	accept := pickFrom(x, "application/json", "text/html")
	h := &trcweb.TraceServer{Searcher: s, Collector: trc.NewDefaultCollector()}
	if accept == "text/html" {
		r := httptest.NewRequest("GET", "/?q="+url.QueryEscape(q), nil)
		r.Header.Set("accept", accept)
		rec := httptest.NewRecorder()
		h.ServeHTTP(rec, r)
		if rec.Code != 200 || !strings.Contains(rec.Body.String(), "</html>") {
			x.Failf("searcher %d: HTML: HTTP %d: %s", k, rec.Code, clip(rec.Body.String(), 200))
		}
		for _, p := range wantProblems {
			if p = strings.NewReplacer("<", "&lt;", ">", "&gt;").Replace(p); !strings.Contains(rec.Body.String(), p) {
				x.Failf("searcher %d: problem %q is not shown", k, p)
			}
		}
		x.Outcome("html %d", k)
		return
	}
	got, err := trcweb.NewSearchClient(&direct{h: h}, "http://x").Search(context.Background(), &trc.SearchRequest{Filter: trc.Filter{Query: q}})
	if err != nil || got == nil {
		x.Failf("searcher %d: %v", k, err)
		return
	}
	if q != "" {
		wantProblems = append([]string{"query"}, wantProblems...)
	}
	n := len(wantProblems)
	if k == 1 {
		n++ // of whatever text
	}
	if len(got.Problems) != n {
		x.Failf("searcher %d, query %q: problems %q, want %d: %q", k, q, got.Problems, n, wantProblems)
		return
	}
	all := strings.Join(got.Problems, "\n")
	for _, p := range wantProblems {
		if !strings.Contains(all, p) {
			x.Failf("searcher %d, query %q: problems %q, want %q", k, q, got.Problems, p)
		}
	}
	if k >= 3 && k != 5 && (got.TotalCount != 7 || got.MatchCount != 3 || len(got.Traces) != 1 || !eqStrings(got.Sources, []string{"src"})) {
		x.Failf("searcher %d: %+v", k, got)
	}
	if k == 3 {
		if d := sumDiff(got.Stats, s.res.Stats.Categories); d != "" {
			x.Failf("searcher %d: %s", k, d)
		}
	}
	x.Outcome("%d %q", k, got.Problems)
}

// c15Accept: the representation.
func c15Accept(x *X) {
	types := []string{"text/html", "application/json", "text/event-stream", "*/*", "*/*;q=0.8", "text/*", "text/plain", "Text/HTML; q=0.5", "application/json;q=0.9", "", "/", "text/html;x", "application/xhtml+xml"}
	var parts []string
	html, stream := false, false
	for n := x.Choose(4); n > 0; n-- {
		t := types[x.Choose(len(types))]
		parts = append(parts, t)
		html = html || strings.HasPrefix(strings.ToLower(t), "text/html") && !strings.Contains(t, ";x")
		stream = stream || t == "text/event-stream"
	}
	if contains(parts, "text/html;x") {
		return // malformed, may be taken either way
	}
	if len(parts) == 1 { // after many others
		var pad []string
		for n := pickFrom(x, 0, 1, 3, 4, 7, 8, 15, 16, 40); n > 0; n-- {
			pad = append(pad, fmt.Sprintf("image/x%d;q=0.%d", n, n))
		}
		parts = append(pad, parts...)
	}
	accept := strings.Join(parts, pickFrom(x, ",", ", "))
	asks := pickFrom(x, "", "?json", "?json=true&n=1")
	r := httptest.NewRequest("GET", "/"+asks, nil)
	if len(parts) > 0 {
		r.Header.Set("accept", accept)
	}
	if got := trcweb.Categorize(r); (got == "stream") != stream {
		x.Failf("accept %q: category %q", accept, got)
	}
	want := "application/json"
	switch {
	case stream:
		want = "text/event-stream"
		ctx, cancel := context.WithCancel(r.Context())
		cancel()
		r = r.WithContext(ctx)
	case html && asks == "":
		want = "text/html"
	}
	if want == "text/html" && len(parts) > 1 && x.Bool() {
		return // rendering HTML takes long, half of these will do
	}
	rec := httptest.NewRecorder()
	trcweb.NewTraceServer(trc.NewDefaultCollector()).ServeHTTP(rec, r)
	got := rec.Header().Get("content-type")
	if rec.Code != 200 || !strings.HasPrefix(got, want) {
		x.Failf("accept %q %s: HTTP %d, %s, want %s", accept, asks, rec.Code, got, want)
	}
	if body := rec.Body.String(); want == "application/json" && !json.Valid([]byte(body)) || want == "text/html" && !strings.Contains(body, "</html>") {
		x.Failf("accept %q %s: body %s", accept, asks, clip(body, 100))
	}
	x.Outcome("%q %s", accept, asks)
}

type failReader struct{ n int }

func (f *failReader) Read(p []byte) (int, error) {
	if f.n > 0 {
		f.n--
		return copy(p, `{"response":{`), nil
	}
	return 0, errors.New("connection reset")
}

type scriptClient func(*http.Request) (*http.Response, error)

func (f scriptClient) Do(r *http.Request) (*http.Response, error) { return f(r) }

// c15Client: failures of the transport and of the server.
func c15Client(x *X) {
	codes := []int{200, 100, 201, 202, 204, 206, 301, 302, 304, 400, 401, 404, 418, 500, 502, 503}
	good := `{"request":{},"response":{"sources":["s"],"total_count":3,"match_count":2,"traces":[{"id":"x"}],"problems":["p"],"duration":5}}`
	bodies := []string{good, "", "{", "[]", "null garbage", `{"response":{"traces":"x"}}`, `{"response":{"total_count":"3"}}`, "<html>", `{"response":{"stats":{"bucketing":["5ms"]}}}`, "READERR", "READERR2"}
	code := codes[x.Choose(len(codes))]
	body := bodies[x.Choose(len(bodies))]
	transport := x.Bool()
	uri := pickFrom(x, "example.com:80/t", "http://example.com", "https://example.com/a?b=c", "http://exa mple.com", "example.com/http/x?u=http://y")
	var seen *http.Request
	cl := trcweb.NewSearchClient(scriptClient(func(r *http.Request) (*http.Response, error) {
		seen = r
		if transport {
			return nil, errors.New("no route to host")
		}
		var rd io.Reader = strings.NewReader(body)
		switch body {
		case "READERR":
			rd = &failReader{}
		case "READERR2":
			rd = &failReader{n: 1}
		}
		return &http.Response{StatusCode: code, Status: http.StatusText(code), Body: io.NopCloser(rd), Header: http.Header{}}, nil
	}), uri)
	ctx, tr := trc.New(context.Background(), "s", "caller")
	res, err := cl.Search(ctx, &trc.SearchRequest{Limit: 3})
	what := fmt.Sprintf("uri %s transport failure %v code %d body %s", uri, transport, code, clip(body, 40))
	ok := !transport && code == 200 && body == good && uri != "http://exa mple.com"
	if body == "null garbage" && code == 200 {
		return // a decoder may stop after the first value
	}
	if ok != (err == nil) || ok != (res != nil) {
		x.Failf("%s: response %v, error %v", what, res != nil, err)
		return
	}
	if tr.Errored() != (err != nil) || tr.Finished() {
		x.Failf("%s: error %v, caller's trace errored %v, finished %v", what, err, tr.Errored(), tr.Finished())
	}
	if ok {
		if res.TotalCount != 3 || res.MatchCount != 2 || len(res.Traces) != 1 || res.Traces[0].TraceID != "x" || !eqStrings(res.Problems, []string{"p"}) || !eqStrings(res.Sources, []string{"s"}) {
			x.Failf("%s: %+v", what, res)
		}
		want := uri
		if !strings.HasPrefix(uri, "http") {
			want = "http://" + uri
		}
		if seen.URL.String() != want {
			x.Failf("%s: requested %s", what, seen.URL)
		}
	}
	x.Outcome("%v %v", ok, err)
}

// c15Multi: several servers through their clients, as one.
func c15Multi(x *X) {
	trc.SetTraceStacks(false)
	var local, remote trc.MultiSearcher
	for i := 0; i < 2; i++ {
		c := trc.NewCollector(trc.CollectorConfig{Source: fmt.Sprint("s", i)})
		for j := 0; j < 3; j++ {
			_, tr := c.NewTrace(context.Background(), pickStr(j, "a", "b"))
			tr.Tracef("e%d", j)
			x.Advance(odd)
			if j != i {
				tr.Finish()
			}
		}
		local = append(local, c)
		remote = append(remote, trcweb.NewSearchClient(&direct{h: trcweb.NewTraceServer(c)}, fmt.Sprint("http://s", i)))
	}
	if x.Bool() { // all of it behind one server
		remote = trc.MultiSearcher{trcweb.NewSearchClient(&direct{h: &trcweb.TraceServer{Collector: trc.NewDefaultCollector(), Searcher: local}}, "http://all")}
	}
	req := trc.SearchRequest{Limit: pickFrom(x, 2, 10), Filter: trc.Filter{IsFinished: x.Bool(), Query: pickFrom(x, "", "(", "e1")}}
	a, b := req, req
	want, err1 := local.Search(context.Background(), &a)
	got, err2 := remote.Search(context.Background(), &b)
	if err1 != nil || err2 != nil {
		x.Failf("%s: %v, %v", req, err1, err2)
		return
	}
	if d := respDiff(got, want); d != "" {
		x.Failf("%s: %s", req, d)
	}
	x.Outcome("%s %d", req, len(got.Traces))
}

// c15Race: one server, or one client, is used for several requests at once.
func c15Race(x *X, mode int) {
	c := trc.NewCollector(trc.CollectorConfig{Source: "s"})
	ctx, tr := c.NewTrace(context.Background(), "a")
	tr.LazyTracef("x %d", 1)
	_ = ctx
	var h http.Handler = &trcweb.TraceServer{Collector: c}
	if mode&1 != 0 {
		h = trcweb.Middleware(c.NewTrace, trcweb.Categorize)(h)
	}
	cl := trcweb.NewSearchClient(served{h}, "example.com")
	n := 2 + mode>>1
	bad := make([]string, n)
	var hs []*zmc.Handle
	for i := 0; i < n; i++ {
		i := i
		how := i
		if i == n-1 {
			how = x.Choose(3)
		}
		hs = append(hs, x.Go("request", func() {
			switch how {
			case 0:
				res, err := cl.Search(context.Background(), &trc.SearchRequest{Filter: trc.Filter{Category: "a"}})
				switch {
				case err != nil:
					bad[i] = err.Error()
				case len(res.Traces) != 1 || res.TotalCount < 1:
					bad[i] = fmt.Sprintf("total %d, %d traces", res.TotalCount, len(res.Traces))
				}
			default:
				r := httptest.NewRequest("GET", "/?category=a", nil)
				if how == 2 {
					r.Header.Set("accept", "text/html")
				}
				rec := httptest.NewRecorder()
				h.ServeHTTP(rec, r)
				if rec.Code != 200 || rec.Body.Len() == 0 {
					bad[i] = fmt.Sprintf("code %d, %d bytes", rec.Code, rec.Body.Len())
				}
			}
		}))
	}
	tr.Finish()
	for _, h := range hs {
		h.Join()
	}
	for i, b := range bad {
		if b != "" {
			x.Failf("request %d: %s", i, b)
		}
	}
	x.Outcome("%d", mode)
}

// failures of any kind.
var failures = []error{
	errors.New("it failed"),
	context.Canceled,
	context.DeadlineExceeded,
	io.EOF,
	io.ErrUnexpectedEOF,
	fmt.Errorf("some: %w", context.Canceled),
	errors.Join(errors.New("one"),
		errors.New("two")),
	http.ErrAbortHandler, http.ErrNoCookie, errors.New("100%d <&>"),
	errors.New(strings.Repeat("long ", 3000)),
	&json.SyntaxError{}, fmt.Errorf("failed: %w", &http.MaxBytesError{}),
	os.ErrDeadlineExceeded,
}

// c15Failing: whatever the failure of a searcher is, it is one of the
// problems of the response.
func c15Failing(x *X, failure error, res *trc.SearchResponse) {
	h := &trcweb.TraceServer{Searcher: &canned{res, failure}, Collector: trc.NewDefaultCollector()}
	for _, method := range []string{"json", "url"} {
		var got *trc.SearchResponse
		var err error
		if method == "json" {
			got, err = trcweb.NewSearchClient(&direct{h: h}, "http://x").Search(context.Background(), &trc.SearchRequest{})
		} else {
			rec := httptest.NewRecorder()
			h.ServeHTTP(rec, httptest.NewRequest("GET", "/?n=5", nil))
			if rec.Code != 200 {
				err = fmt.Errorf("HTTP %d: %s", rec.Code, clip(rec.Body.String(), 100))
			}
			var data trcweb.SearchData
			if err == nil {
				err = json.Unmarshal(rec.Body.Bytes(), &data)
			}
			got = &data.Response
		}
		if err != nil {
			x.Failf("searcher failing with %q, %s: %v", clip(failure.Error(), 100), method, err)
			return
		}
		if all := strings.Join(got.Problems, "\n"); !strings.Contains(all, failure.Error()) {
			x.Failf("searcher failing with %q, %s: problems %q", clip(failure.Error(), 100), method, clip(all, 300))
		}
	}
}

// c15Buckets: any number of buckets, in any way of asking for them.
func c15Buckets(x *X) {
	trc.SetTraceStacks(false)
	n := pickFrom(x, grid(300)...)
	var ds []time.Duration
	var b []string
	for i := 0; i < n; i++ {
		d := time.Duration(i) * 1001 * ms
		if x := i * 7 % max(n, 1); n%7 != 0 {
			d = time.Duration(x) * 1001 * ms // in another order
		}
		ds = append(ds, d)
		b = append(b, d.String())
	}
	c := trc.NewDefaultCollector()
	_, tr := c.NewTrace(context.Background(), "a")
	x.Advance(2 * time.Second)
	tr.Finish()
	h := trcweb.NewTraceServer(c)
	want, err := c.Search(context.Background(), &trc.SearchRequest{Bucketing: ds, Limit: 5})
	if err != nil || !sameDurs(want.Stats.Bucketing, normBuckets(ds)) {
		x.Failf("%d buckets: %v, became %v", n, err, want.Stats.Bucketing)
		return
	}
	var got *trc.SearchResponse
	how := x.Choose(2)
	switch how {
	case 0:
		got, err = c15URL(h, &trc.SearchRequest{Limit: 5}, url.Values{"b": b})
	case 1:
		got, err = trcweb.NewSearchClient(served{h}, "example.com").Search(context.Background(), &trc.SearchRequest{Bucketing: ds, Limit: 5})
	}
	if err != nil {
		x.Failf("%d buckets: %v", n, err)
		return
	}
	if !sameDurs(got.Stats.Bucketing, want.Stats.Bucketing) {
		x.Failf("%d buckets: became %v, want %v", n, got.Stats.Bucketing, want.Stats.Bucketing)
	}
	if d := statsDiff(got.Stats, map[string][]trc.Trace{"a": {tr}}, normBuckets(ds)); d != "" {
		x.Failf("%d buckets: %s", n, d)
	}
	x.Outcome("%d %d", how, n)
}
