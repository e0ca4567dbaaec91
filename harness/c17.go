package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/http/httptrace"
	"net/textproto"
	"regexp"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"github.com/peterbourgon/trc/trcweb"
	"github.com/peterbourgon/trc/zmc"
)

func init() {
	register("C17", c17Variants, "the response writer is a stand-in with the semantics of net/http; the variants real/... validate it against a loopback server", "responses to HEAD requests and hijacked connections are not covered", "what is recorded for a request that panics before sending anything is unspecified, except that the trace is finished")
}

// netWriter has the semantics of net/http's response writer.
type netWriter struct {
	header  http.Header
	infos   []int
	code    int
	sent    http.Header // as of the final code
	body    []byte
	flushes int
	calls   []string
}

var errNoBody = errors.New("no body allowed")

func (w *netWriter) Header() http.Header { return w.header }

func (w *netWriter) WriteHeader(code int) {
	w.calls = append(w.calls, fmt.Sprint("header ", code))
	switch {
	case w.code != 0: // superfluous
	case code >= 100 && code <= 199 && code != 101:
		w.infos = append(w.infos, code)
	default:
		w.code = code
		w.sent = w.header.Clone()
	}
}

func (w *netWriter) Write(p []byte) (int, error) {
	if w.code == 0 {
		w.WriteHeader(200)
		w.calls = w.calls[:len(w.calls)-1]
	}
	w.calls = append(w.calls, fmt.Sprintf("write %q", p))
	if w.code == 101 || w.code == 204 || w.code == 304 {
		return 0, errNoBody
	}
	if len(w.body)+len(p) > 30000 { // the client went away
		n := 30000 - len(w.body)
		w.body = append(w.body, p[:n]...)
		return n, errors.New("broken pipe")
	}
	w.body = append(w.body, p...)
	return len(p), nil
}

type netFlusher struct{ *netWriter }

func (w netFlusher) Flush() {
	if w.code == 0 {
		w.WriteHeader(200)
		w.calls = w.calls[:len(w.calls)-1]
	}
	w.calls = append(w.calls, "flush")
	w.flushes++
}

var c17Steps = []string{"end", "200", "404", "103", "204", "write", "flush", "panic", "empty", "500", "string", "large", "event", "304", "copy", "101"}

// c17Do does one step of a handler.
func c17Do(w http.ResponseWriter, r *http.Request, step string, i int) string {
	switch step {
	case "200", "404", "103", "204", "500", "304", "101":
		var code int
		fmt.Sscan(step, &code)
		w.Header().Set(fmt.Sprint("X-Step-", i), step)
		w.WriteHeader(code)
	case "write", "empty", "large":
		s := map[string]string{"write": "a%dcde", "empty": "", "large": strings.Repeat("0123456789", 2000)}[step]
		n, err := w.Write([]byte(s))
		return fmt.Sprintf("%d %v", n, err)
	case "string":
		n, err := io.WriteString(w, "xyz")
		return fmt.Sprintf("%d %v", n, err)
	case "copy":
		n, err := io.Copy(w, struct{ io.Reader }{strings.NewReader("copied")})
		return fmt.Sprintf("%d %v", n, err)
	case "flush":
		f, ok := w.(http.Flusher)
		if !ok {
			return "no flusher"
		}
		f.Flush()
	case "panic":
		panic("oh no")
	case "event":
		trc.Get(r.Context()).Tracef("step %d", i)
		trc.Get(r.Context()).Errorf("step %d failed", i)
	}
	return ""
}

func c17Variants(tier string) []*Variant {
	var vs []*Variant
	for _, race := range []bool{true, false} {
		race := race
		vs = append(vs, &Variant{Name: fmt.Sprintf("concurrent/race=%v", race), Race: race, Bound: quickThorough(tier, 2, 3), Body: c17Concurrent})
	}
	vs = append(vs, &Variant{Name: "real", Real: func(r *Real) { c17Real(r, quickThorough(tier, 4, 5)) }})
	for _, flusher := range []bool{false, true} {
		for first := range c17Steps {
			flusher, first := flusher, first
			vs = append(vs, &Variant{Name: fmt.Sprintf("steps/flusher=%v/first=%s", flusher, c17Steps[first]), Seq: true, Body: func(x *X) { c17Run(x, flusher, first, quickThorough(tier, 5, 6)) }})
		}
	}
	vs = append(vs, &Variant{Name: "large/codes", Seq: true, Body: func(x *X) { c17Large(x, true) }})
	vs = append(vs, &Variant{Name: "large/bytes", Seq: true, Body: func(x *X) { c17Large(x, false) }})
	vs = append(vs, &Variant{Name: "easy", Seq: true, Body: c17Easy})
	vs = append(vs, &Variant{Name: "canceled", Seq: true, Body: c17Canceled})
	vs = append(vs, &Variant{Name: "request", Seq: true, Body: c17Request})
	return vs
}

// bytesText matches the text of a number of bytes.
func bytesText(s string, n int) bool {
	switch {
	case n < 1024:
		return regexp.MustCompile(fmt.Sprintf(`(^|[^0-9.])%d(\.0)?B`, n)).MatchString(s)
	default:
		return regexp.MustCompile(fmt.Sprintf(`(^|[^0-9.])%s0*KB`, regexp.QuoteMeta(strings.TrimSuffix(fmt.Sprintf("%.1f", float64(n)/1024), ".0")))).MatchString(s)
	}
}

// c17Last checks the last event.
func c17Last(what string, code, n int, took time.Duration) string {
	if !regexp.MustCompile(fmt.Sprintf(`\b%d\b`, code)).MatchString(what) {
		return fmt.Sprintf("%q, want code %d", what, code)
	}
	if !bytesText(what, n) {
		return fmt.Sprintf("%q, want %d bytes", what, n)
	}
	if took >= 0 && !strings.Contains(what, took.String()) {
		return fmt.Sprintf("%q, want %s", what, took)
	}
	return ""
}

// c17Run: any sequence of steps of a handler.
func c17Run(x *X, flusher bool, first, depth int) {
	trc.SetTraceStacks(false)
	if first == 0 && depth > 0 {
		depth = 1
	}
	var steps []string
	for i := 0; i < depth; i++ {
		k := first
		if i > 0 {
			k = x.Choose(len(c17Steps))
		}
		if k == 0 {
			break
		}
		steps = append(steps, c17Steps[k])
		if c17Steps[k] == "panic" {
			break
		}
	}
	mk := func() (http.ResponseWriter, *netWriter) {
		w := &netWriter{header: http.Header{}}
		if flusher {
			return netFlusher{w}, w
		}
		return w, w
	}
	var inside trc.Trace
	run := func(h func(http.Handler) http.Handler) (w *netWriter, results []string, panicked any) {
		rw, w := mk()
		defer func() { panicked = recover() }()
		h(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			inside = trc.Get(r.Context())
			for i, s := range steps {
				x.Advance(ms)
				results = append(results, c17Do(rw, r, s, i))
			}
		})).ServeHTTP(rw, httptest.NewRequest("GET", "/x?y=%25z", nil))
		return
	}
	want, wantResults, wantPanic := run(func(h http.Handler) http.Handler { return h })
	c := trc.NewDefaultCollector()
	start := x.Now()
	w, results, panicked := run(trcweb.Middleware(c.NewTrace, func(r *http.Request) string { return "cat " + r.URL.Path }))
	took := x.Now().Sub(start)
	what := strings.Join(steps, " ")
	if fmt.Sprint(wantPanic) != fmt.Sprint(panicked) {
		x.Failf("%s: panic %v, want %v", what, panicked, wantPanic)
	}
	// The response is unaltered.
	if w.code != want.code || string(w.body) != string(want.body) || fmt.Sprint(w.infos, w.sent, w.flushes) != fmt.Sprint(want.infos, want.sent, want.flushes) {
		x.Failf("%s: response %d %v %v %d bytes %d flushes, want %d %v %v %d bytes %d flushes", what, w.code, w.infos, w.sent, len(w.body), w.flushes, want.code, want.infos, want.sent, len(want.body), want.flushes)
	}
	for i := range results {
		if results[i] != wantResults[i] && wantResults[i] != "no flusher" {
			x.Failf("%s: step %d returned %q, want %q", what, i, results[i], wantResults[i])
		}
	}
	// The trace.
	res, err := c.Search(context.Background(), &trc.SearchRequest{})
	if err != nil || res.TotalCount != 1 || len(res.Traces) != 1 {
		x.Failf("%s: %d traces (%v)", what, res.TotalCount, err)
		return
	}
	tr := res.Traces[0]
	if inside == nil || inside.ID() != tr.TraceID {
		x.Failf("%s: the handler has another trace", what)
	}
	if !tr.TraceFinished || tr.TraceCategory != "cat /x" || tr.TraceDuration != took || tr.TraceErrored != contains(steps, "event") {
		x.Failf("%s: finished %v, category %q, duration %v, errored %v", what, tr.TraceFinished, tr.TraceCategory, tr.TraceDuration, tr.TraceErrored)
	}
	events := whats(tr.TraceEvents)
	var mids []string
	for i, s := range steps {
		if s == "event" {
			mids = append(mids, fmt.Sprint("step ", i), fmt.Sprintf("step %d failed", i))
		}
	}
	if len(events) < 2 || !eqStrings(events[1:len(events)-1], mids) {
		x.Failf("%s: events %q, want %q within", what, events, mids)
		return
	}
	code := want.code
	if code == 0 {
		code = 200
	}
	if panicked == nil || want.code != 0 {
		if d := c17Last(events[len(events)-1], code, len(want.body), took); d != "" {
			x.Failf("%s: last event %s", what, d)
		}
	}
	x.Outcome("%s", events[len(events)-1])
}

// c17Request: what is recorded of the request.
func c17Request(x *X) {
	trc.SetTraceStacks(false)
	method := pickFrom(x, "GET", "POST", "DELETE")
	uri := pickFrom(x, "/", "/a/b?c=%25d&e=%s#f", "http://example.com/abs?x=1")
	remote := pickFrom(x, "192.0.2.1:1234", "[::1]:80", "")
	names := []string{"User-Agent", "Accept", "Content-Type"}
	vals := make([]string, 3)
	r := httptest.NewRequest(method, uri, strings.NewReader("body"))
	r.Header.Set("X-Other", "other")
	r.RemoteAddr = remote
	type key struct{}
	r = r.WithContext(context.WithValue(r.Context(), key{}, "val"))
	for i := range names {
		vals[i] = pickFrom(x, "", "plain/1.0", "100%d %s!", "*/*")
		if vals[i] != "" {
			r.Header.Set(names[i], vals[i])
		}
	}
	category := pickFrom(x, "", "cat", oddCategory)
	deco := x.Bool()
	changes := x.Bool() // the handler changes the request it is given
	given, outer := r.URL.String(), r.Context()
	c := trc.NewDefaultCollector()
	var log []string
	if deco {
		c.SetDecorators(func(tr trc.Trace) trc.Trace { return &passTrace{Trace: tr, log: &log, tag: ""} })
	}
	made := 0
	cats := 0
	ctor := func(ctx context.Context, category string) (context.Context, trc.Trace) {
		made++
		return c.NewTrace(ctx, category)
	}
	served := 0
	h := trcweb.Middleware(ctor, func(cr *http.Request) string {
		cats++
		if cr.Method != method || cr.URL.String() != r.URL.String() {
			x.Failf("categorizing %s %s", cr.Method, cr.URL)
		}
		return category
	})(http.HandlerFunc(func(w http.ResponseWriter, hr *http.Request) {
		served++
		b, _ := io.ReadAll(hr.Body)
		if hr.Method != method || hr.URL.String() != r.URL.String() || hr.RemoteAddr != remote || hr.Context().Value(key{}) != "val" || string(b) != "body" || hr.Header.Get("x-other") != "other" {
			x.Failf("request altered: %s %s %s %q", hr.Method, hr.URL, hr.RemoteAddr, b)
		}
		tr, ok := trc.MaybeGet(hr.Context())
		if !ok || tr.Finished() || tr.Category() != category {
			x.Failf("trace in context: %v", ok)
		}
		if changes {
			hr.Method, hr.RemoteAddr, hr.URL.Path, hr.URL.RawQuery = "PUT", "changed", "/changed", "changed"
			for _, n := range names {
				hr.Header.Set(n, "changed")
			}
		}
	}))
	h.ServeHTTP(httptest.NewRecorder(), r)
	if r.Context() != outer || r.Method != method || r.RemoteAddr != remote {
		x.Failf("the caller's request is changed")
	}
	if made != 1 || served != 1 || cats != 1 {
		x.Failf("%d traces created, %d served, %d categorized", made, served, cats)
	}
	if deco && (len(log) < 3 || log[len(log)-1] != "F") {
		x.Failf("calls of the decorated trace %q", log)
	}
	res, _ := c.Search(context.Background(), &trc.SearchRequest{})
	if len(res.Traces) != 1 {
		x.Failf("%d traces", len(res.Traces))
		return
	}
	events := whats(res.Traces[0].TraceEvents)
	var want []string
	for i := range names {
		if vals[i] != "" {
			want = append(want, names[i]+": "+vals[i])
		}
	}
	if len(events) != len(want)+2 || !eqStrings(events[1:len(events)-1], want) {
		x.Failf("events %q, want %q within", events, want)
		return
	}
	for _, s := range []string{method, given, remote} {
		if !strings.Contains(events[0], s) {
			x.Failf("first event %q, want %q in it", events[0], s)
		}
	}
	if d := c17Last(events[len(events)-1], 200, 0, -1); d != "" {
		x.Failf("last event %s", d)
	}
	x.Outcome("%q", events)
}

// c17Concurrent: requests at the same time.
func c17Concurrent(x *X) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector()
	pt := zmc.NameChan(make(chan struct{}, 9))
	h := trcweb.Middleware(c.NewTrace, func(r *http.Request) string { return r.URL.Path })(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		zmc.SendTo(pt)(struct{}{})
		tr := trc.Get(r.Context())
		tr.Tracef("in %s", r.URL.Path)
		switch r.URL.Path {
		case "/a":
			w.WriteHeader(404)
			io.WriteString(w, "aa")
		case "/b":
			io.WriteString(w, "bbb")
		}
		zmc.SendTo(pt)(struct{}{})
	}))
	recs := map[string]*netWriter{"/a": {header: http.Header{}}, "/b": {header: http.Header{}}}
	var hs []*zmc.Handle
	for _, p := range []string{"/a", "/b"} {
		p, w := p, recs[p]
		hs = append(hs, x.Go(p, func() { h.ServeHTTP(w, httptest.NewRequest("GET", p, nil)) }))
	}
	for _, h := range hs {
		h.Join()
	}
	res, _ := c.Search(context.Background(), &trc.SearchRequest{})
	if len(res.Traces) != 2 {
		x.Failf("%d traces", len(res.Traces))
		return
	}
	for _, tr := range res.Traces {
		events := whats(tr.TraceEvents)
		p := tr.TraceCategory
		if recs[p] == nil || len(events) != 3 || !tr.TraceFinished {
			x.Failf("%s: finished %v, events %q", p, tr.TraceFinished, events)
			return
		}
		code, n := 404, 2
		if p == "/b" {
			code, n = 200, 3
		}
		if events[1] != "in "+p || !strings.Contains(events[0], p) || recs[p].code != code || len(recs[p].body) != n {
			x.Failf("%s: events %q, response %d %s", p, events, recs[p].code, recs[p].body)
		}
		if d := c17Last(events[2], code, n, -1); d != "" {
			x.Failf("%s: last event %s", p, d)
		}
	}
	x.Outcome("%s", res.Traces[0].TraceCategory)
}

// c17Real: the same sequences through a real server, with and without the
// middleware, and what the client received versus what is recorded.
func c17Real(r *Real, depth int) {
	c := trc.NewDefaultCollector()
	var steps []string
	over := make(chan bool)
	handler := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		for i, s := range steps {
			c17Do(w, r, s, i)
		}
	})
	wrapped := trcweb.Middleware(c.NewTrace, func(*http.Request) string { return "c" })(handler)
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		defer func() {
			p := recover()
			over <- true
			if p != nil {
				panic(http.ErrAbortHandler)
			}
		}()
		if r.URL.Path == "/w" {
			wrapped.ServeHTTP(w, r)
		} else {
			handler.ServeHTTP(w, r)
		}
	}))
	srv.Config.ErrorLog = nil
	srv.Config.ErrorLog = discardLog()
	srv.Start()
	defer srv.Close()
	client := srv.Client()
	get := func(path string) string {
		var infos []int
		req, _ := http.NewRequest("GET", srv.URL+path, nil)
		req = req.WithContext(httptrace.WithClientTrace(context.Background(), &httptrace.ClientTrace{Got1xxResponse: func(code int, _ textproto.MIMEHeader) error { infos = append(infos, code); return nil }}))
		if contains(steps, "panic") {
			// An idempotent request may be sent again on a new connection.
			client.CloseIdleConnections()
			req.Method = "POST"
		}
		done := make(chan string, 1)
		go func() {
			res, err := client.Do(req)
			if err != nil {
				done <- "error"
				return
			}
			b, err := io.ReadAll(res.Body)
			res.Body.Close()
			var hs []string
			for i := range steps {
				hs = append(hs, res.Header.Get(fmt.Sprint("X-Step-", i)))
			}
			done <- fmt.Sprintf("%d %d %v %v %v", res.StatusCode, len(b), infos, hs, err != nil)
		}()
		<-over
		return <-done
	}
	alphabet := []string{"200", "404", "103", "204", "write", "flush", "panic", "string", "large", "304"}
	var rec func()
	rec = func() {
		if r.Over() {
			return
		}
		r.Cases++
		r.Steps += len(steps)
		want := get("/")
		got := get("/w")
		what := strings.Join(steps, " ")
		if got != want {
			r.Failf("%s: client received %s, without the middleware %s", what, got, want)
			return
		}
		res, _ := c.Search(context.Background(), &trc.SearchRequest{Limit: 1})
		if res.TotalCount != 1 && res.TotalCount < r.Cases && res.TotalCount < 1000 {
			r.Failf("%s: %d traces after %d requests", what, res.TotalCount, r.Cases)
			return
		}
		tr := res.Traces[0]
		if !tr.TraceFinished {
			r.Failf("%s: not finished", what)
			return
		}
		if !contains(steps, "panic") {
			var code, n int
			fmt.Sscan(got, &code, &n)
			if d := c17Last(tr.TraceEvents[len(tr.TraceEvents)-1].What, code, n, -1); d != "" {
				r.Failf("%s: client received %s, recorded %s", what, got, d)
				return
			}
		}
		r.Outcome("%s", got)
		if len(steps) == depth || contains(steps, "panic") {
			return
		}
		for _, s := range alphabet {
			steps = append(steps, s)
			rec()
			steps = steps[:len(steps)-1]
		}
	}
	rec()
}

// c17Canceled: the client may leave at any point, whatever the handler does
// then; the trace is completed all the same.
func c17Canceled(x *X) {
	trc.SetTraceStacks(false)
	when := x.Choose(4) // never, before, first thing in the handler, last thing
	ops := []byte{}
	for n := x.Choose(4); n > 0; n-- {
		ops = append(ops, "tTeEfwc"[x.Choose(7)])
	}
	panics := pickFrom[any](x, nil, "boom", http.ErrAbortHandler)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if when == 1 {
		cancel()
	}
	c := trc.NewDefaultCollector()
	finished := false
	code, size := 200, 0
	wrote := false
	h := trcweb.Middleware(c.NewTrace, func(*http.Request) string { return "cat" })(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if when == 2 {
			cancel()
		}
		tr := trc.Get(r.Context())
		for _, op := range ops {
			switch op {
			case 't':
				tr.Tracef("t")
			case 'T':
				tr.LazyTracef("t")
			case 'e':
				tr.Errorf("e")
			case 'E':
				tr.LazyErrorf("e")
			case 'f':
				tr.Finish()
				finished = true
			case 'w':
				w.Write([]byte("body"))
				wrote = true
				size += 4
			case 'c':
				if !wrote {
					wrote, code = true, 503
				}
				w.WriteHeader(503)
			}
		}
		if when == 3 {
			cancel()
		}
		if (r.Context().Err() != nil) != (when > 0) {
			x.Failf("the context of the request is %v", r.Context().Err())
		}
		if panics != nil {
			panic(panics)
		}
	}))
	func() {
		defer func() {
			if got := recover(); got != panics {
				x.Failf("panicked with %v, want %v", got, panics)
			}
		}()
		h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil).WithContext(ctx))
	}()
	res, _ := c.Search(context.Background(), &trc.SearchRequest{})
	what := fmt.Sprintf("canceled at %d, %s, panic %v", when, ops, panics)
	if len(res.Traces) != 1 || !res.Traces[0].TraceFinished {
		x.Failf("%s: the trace isn't finished", what)
		return
	}
	if !finished {
		evs := whats(res.Traces[0].TraceEvents)
		if panics != nil && !wrote {
			code = -1
		}
		if code > 0 {
			if d := c17Last(evs[len(evs)-1], code, size, -1); d != "" {
				x.Failf("%s: last event %s", what, d)
			}
		}
		if n := strings.Count(strings.ToLower(string(ops)), "t") + strings.Count(strings.ToLower(string(ops)), "e"); len(evs) != n+2 {
			x.Failf("%s: events %q", what, evs)
		}
	}
	x.Outcome("%s", what)
}

// c17Easy: the easy API's middleware, collector and handler belong together.
func c17Easy(x *X) {
	type request struct {
		id, category string
		code         int
		events       int
		active       bool
	}
	var rs []request
	categorize := func(r *http.Request) string { return r.URL.Path }
	client := trcweb.NewSearchClient(served{eztrc.Handler()}, "example.com")
	search := func(id string) *trc.SearchResponse {
		res, err := client.Search(context.Background(), &trc.SearchRequest{Filter: trc.Filter{IDs: []string{id}}})
		if err != nil || len(res.Problems) > 0 {
			x.Failf("search: %v %v", err, res)
			return &trc.SearchResponse{}
		}
		return res
	}
	h := eztrc.Middleware(categorize)(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		rq := &rs[len(rs)-1]
		tr, ok := eztrc.MaybeGet(r.Context())
		if !ok {
			x.Failf("no trace")
			return
		}
		rq.id = tr.ID()
		for i := 0; i < rq.events; i++ {
			ezEmit(r.Context(), kinds[i], "event %d", i)
		}
		if res := search(rq.id); len(res.Traces) != 1 || res.Traces[0].TraceFinished {
			x.Failf("while served: %d traces of its ID", len(res.Traces))
		}
		if rq.code != 0 {
			w.WriteHeader(rq.code)
		}
	}))
	if x.Bool() { // the handler of the collected traces, itself collected
		r := httptest.NewRequest("GET", "/", nil)
		r.Header.Set("accept", "application/json")
		rec := httptest.NewRecorder()
		eztrc.Middleware(categorize)(eztrc.Handler()).ServeHTTP(rec, r)
		if rec.Code != 200 {
			x.Failf("handler: %d", rec.Code)
		}
	}
	for n := 1 + x.Choose(3); n > 0; n-- {
		rs = append(rs, request{category: pickFrom(x, "/a", "/b"), code: pickFrom(x, 0, 404), events: x.Choose(3)})
		h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", rs[len(rs)-1].category, nil))
	}
	for i, rq := range rs {
		res := search(rq.id)
		own, _ := eztrc.Collector().Search(context.Background(), &trc.SearchRequest{Filter: trc.Filter{IDs: []string{rq.id}}})
		if len(res.Traces) != 1 || len(own.Traces) != 1 {
			x.Failf("request %d: %d traces served, %d collected", i, len(res.Traces), len(own.Traces))
			return
		}
		if d := snapOf(own.Traces[0]).diff(snapOf(res.Traces[0])); d != "" {
			x.Failf("request %d: served %s", i, d)
		}
		tr := own.Traces[0]
		evs := whats(tr.TraceEvents)
		if tr.TraceCategory != rq.category || !tr.TraceFinished || len(evs) != rq.events+2 {
			x.Failf("request %+v: trace %+v", rq, tr)
			return
		}
		for i := 0; i < rq.events; i++ {
			if evs[i+1] != fmt.Sprint("event ", i) {
				x.Failf("events %q", evs)
			}
		}
		code := rq.code
		if code == 0 {
			code = 200
		}
		if d := c17Last(evs[len(evs)-1], code, 0, -1); d != "" {
			x.Failf("last event %s", d)
		}
	}
	x.Outcome("%d", len(rs))
}
