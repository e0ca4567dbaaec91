package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"github.com/peterbourgon/trc/zmc"
)

func init() {
	register("C16", c16Variants, "the HTTP transport is replaced by in-memory stand-ins", "the eventsource library is part of the environment: it is not preempted except where it reads, connects or closes", "text is valid UTF-8, which JSON requires")
}

// sseWriter is a response writer that records.
type sseWriter struct {
	header  http.Header
	code    int
	body    []byte
	flushed int // bytes of the body flushed
	failAt  int // writes from this one on fail
	writes  int
}

func (w *sseWriter) Header() http.Header { return w.header }
func (w *sseWriter) WriteHeader(code int) {
	if w.code == 0 {
		w.code = code
	}
}
func (w *sseWriter) Write(p []byte) (int, error) {
	w.WriteHeader(200)
	w.writes++
	if w.failAt > 0 && w.writes >= w.failAt {
		return 0, errors.New("broken pipe")
	}
	w.body = append(w.body, p...)
	return len(p), nil
}
func (w *sseWriter) Flush() { w.flushed = len(w.body) }

// notifyWriter also tells when the client is gone.
type notifyWriter struct {
	*sseWriter
	gone chan bool
}

func (w *notifyWriter) CloseNotify() <-chan bool { return w.gone }

type sseMsg struct{ typ, data string }

func parseSSE(body string) ([]sseMsg, error) {
	var out []sseMsg
	for body != "" {
		i := strings.Index(body, "\n\n")
		if i < 0 {
			return nil, fmt.Errorf("incomplete message %q", body)
		}
		var m sseMsg
		for _, l := range strings.Split(body[:i], "\n") {
			switch {
			case strings.HasPrefix(l, "event: "):
				m.typ = l[7:]
			case strings.HasPrefix(l, "data: "):
				if m.data != "" {
					m.data += "\n"
				}
				m.data += l[6:]
			default:
				return nil, fmt.Errorf("line %q", l)
			}
		}
		out = append(out, m)
		body = body[i+2:]
	}
	return out, nil
}

// ctxCancel cancels a context as a step of its own.
func ctxCancel(ctx context.Context, cancel func()) {
	d := ctx.Done()
	zmc.PointAddr(*(*unsafe.Pointer)(unsafe.Pointer(&d)), zmc.KClose)
	cancel()
}

// streamStub is a streamer that sends what it is told to.
type streamStub struct {
	calls    int
	returned int
	filter   trc.Filter
	capacity int
	ch       chan<- trc.Trace
	cmd      chan trc.Trace
	onStream func()
	stats    []trc.StreamStats // per call
	statsErr []error
	statsN   int
	statsBad string
	racy     bool // don't share anything between threads
}

func (s *streamStub) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.Trace) (trc.StreamStats, error) {
	s.calls++
	s.filter = f
	s.capacity = cap(ch)
	if !s.racy {
		s.ch = ch
	}
	if s.onStream != nil {
		s.onStream()
	}
	for {
		rc := zmc.RecvCase[trc.Trace](s.cmd)
		if zmc.Select(false, zmc.RecvCase(ctx.Done()), rc) == 0 {
			break
		}
		if zmc.Select(false, zmc.RecvCase(ctx.Done()), zmc.SendCase(ch)(rc.Val)) == 0 {
			break
		}
	}
	s.returned++
	return trc.StreamStats{}, ctx.Err()
}

func (s *streamStub) StreamStats(ctx context.Context, ch chan<- trc.Trace) (trc.StreamStats, error) {
	if !s.racy && s.ch != nil && ch != s.ch {
		s.statsBad = "statistics of another channel requested"
	}
	i := s.statsN
	s.statsN++
	if i < len(s.statsErr) && s.statsErr[i] != nil {
		return trc.StreamStats{}, s.statsErr[i]
	}
	return trc.StreamStats{Skips: 10 + i, Sends: 20 + i, Drops: 30 + i}, nil
}

// filterDiff compares what two filters ask for.
func filterDiff(got, want trc.Filter) string {
	str := func(f trc.Filter) string {
		m := "nil"
		if f.MinDuration != nil {
			m = f.MinDuration.String()
		}
		return fmt.Sprintf("%q %q %q %v %v %s %v %v %q", f.Sources, f.IDs, f.Category, f.IsActive, f.IsFinished, m, f.IsSuccess, f.IsErrored, f.Query)
	}
	if g, w := str(got), str(want); g != w {
		return fmt.Sprintf("filter %s, want %s", g, w)
	}
	return ""
}

func c16Variants(tier string) []*Variant {
	var vs []*Variant
	for _, how := range []string{"ctx", "notify"} {
		how := how
		vs = append(vs, &Variant{Name: "race/live/" + how, Race: true, Bound: quickThorough(tier, 2, 3), Body: func(x *X) { c16Live(x, how, false, false) }})
		vs = append(vs, &Variant{Name: "race/script/" + how, Race: true, Bound: quickThorough(tier, 2, 3), Body: func(x *X) { c16Script(x, how, "0", false, 2, true) }})
	}
	for _, how := range []string{"ctx", "notify"} {
		for _, mw := range []bool{false, true} {
			how, mw := how, mw
			vs = append(vs, &Variant{Name: fmt.Sprintf("live/%s/mw=%v", how, mw), Bound: quickThorough(tier, 2, 3), Body: func(x *X) { c16Live(x, how, mw, false) }})
			vs = append(vs, &Variant{Name: fmt.Sprintf("live/%s/mw=%v/all", how, mw), Bound: quickThorough(tier, 2, 3), Body: func(x *X) { c16Live(x, how, mw, true) }})
		}
		for _, buf := range []string{"0", "1", "2", "3", ""} {
			how, buf := how, buf
			vs = append(vs, &Variant{Name: fmt.Sprintf("script/%s/sendbuf=%s/settled", how, buf), Bound: 0, Body: func(x *X) { c16Script(x, how, buf, true, quickThorough(tier, 4, 5), false) }})
			vs = append(vs, &Variant{Name: fmt.Sprintf("script/%s/sendbuf=%s", how, buf), Bound: quickThorough(tier, 2, 3), Body: func(x *X) { c16Script(x, how, buf, false, 3, false) }})
		}
	}
	for i := 0; i < 16; i++ {
		i := i
		vs = append(vs, &Variant{Name: fmt.Sprintf("filter/url/%d", i), Bound: 0, Body: func(x *X) { c16Filter(x, "url", i) }})
		vs = append(vs, &Variant{Name: fmt.Sprintf("filter/raw/%d", i), Bound: 0, Body: func(x *X) { c16Filter(x, "raw", i) }})
		vs = append(vs, &Variant{Name: fmt.Sprintf("filter/json/%d", i), Bound: 0, Body: func(x *X) { c16Filter(x, "json", i) }})
	}
	vs = append(vs, &Variant{Name: "values", Bound: 0, Body: c16Values})
	vs = append(vs, &Variant{Name: "params", Bound: 0, Body: c16Params})
	vs = append(vs, &Variant{Name: "invalid", Seq: true, Body: c16Invalid})
	vs = append(vs, &Variant{Name: "backlog", Bound: 0, Body: c16Backlog})
	vs = append(vs, &Variant{Name: "writefail", Bound: 2, Body: c16WriteFail})
	vs = append(vs, &Variant{Name: "writepanic", Bound: 2, Body: c16WritePanic})
	vs = append(vs, &Variant{Name: "client/params", Bound: 0, Body: c16ClientParams})
	vs = append(vs, &Variant{Name: "client/status", Bound: 0, Body: c16ClientStatus})
	vs = append(vs, &Variant{Name: "client/read", Bound: quickThorough(tier, 1, 1), Body: func(x *X) { c16ClientRead(x, quickThorough(tier, 3, 4)) }})
	vs = append(vs, &Variant{Name: "client/cancel", Bound: quickThorough(tier, 2, 3), Body: c16ClientCancel})
	for i := 0; i < 5; i++ {
		i := i
		vs = append(vs, &Variant{Name: fmt.Sprintf("large/%d", i), Seq: true, Cfg: zmc.Config{Fixed: 1}, Body: func(x *X) { c16Large(x, i) }})
	}
	vs = append(vs, &Variant{Name: "e2e", Bound: quickThorough(tier, 2, 3), Body: c16E2E})
	return vs
}

// c16Filter: the filter and options arrive as encoded.
func c16Filter(x *X, form string, bits int) {
	f := trc.Filter{IsActive: bits&1 > 0, IsFinished: bits&2 > 0, IsSuccess: bits&4 > 0, IsErrored: bits&8 > 0}
	f.Sources = pickFrom(x, nil, []string{"a b&c=d", "é+%41"})
	f.IDs = pickFrom(x, nil, []string{"01HB", "x;y"})
	f.Category = pickFrom(x, "", "plain", oddCategory)
	f.MinDuration = pickFrom(x, nil, durp(0), durp(1500*ms+1), durp(-5))
	f.Query = pickFrom(x, "", "a&b=c +%41#", "(x|y)?[0-9]{2}")

	var sr *http.Request
	switch form {
	case "url":
		var err error
		http.DefaultClient.Transport = roundTrip(func(r *http.Request) (*http.Response, error) {
			sr = httptest.NewRequest(r.Method, r.URL.RequestURI(), nil)
			sr.Header = r.Header.Clone()
			return &http.Response{StatusCode: 204, Status: "204 No Content", Body: http.NoBody, Header: http.Header{}, Request: r}, nil
		})
		ctx, cancel := context.WithCancel(context.Background())
		err = trcweb.NewStreamClient(pickFrom(x, "example.com/s", "https://example.com/?k=v&source=z")).Stream(ctx, f, nil)
		ctxCancel(ctx, cancel)
		if err != nil || sr == nil {
			x.Failf("client: %v", err)
			return
		}
		if sr.URL.Query().Has("k") {
			f.Sources = append([]string{"z"}, f.Sources...) // part of the URI given
		}
	case "raw":
		suffix := pickFrom(x, "", "=", "=1", "=true")
		v := url.Values{}
		for _, s := range f.Sources {
			v.Add("source", s)
		}
		for _, s := range f.IDs {
			v.Add("id", s)
		}
		if f.Category != "" {
			v.Set("category", f.Category)
		}
		if f.MinDuration != nil {
			v.Set("min", f.MinDuration.String())
		}
		if f.Query != "" {
			v.Set("q", f.Query)
		}
		raw := v.Encode()
		for i, name := range []string{"active", "finished", "success", "errored"} {
			if bits&(1<<i) > 0 {
				raw += "&" + name + suffix
			}
		}
		sr = httptest.NewRequest("GET", "/?"+strings.TrimPrefix(raw, "&"), nil)
		sr.Header.Set("accept", pickFrom(x, "text/event-stream", "text/event-stream;q=1, */*", "application/x, a/b;q=0.1,c/d;e=f , */*,Text/Event-Stream"))
	case "json":
		b, _ := json.Marshal(f)
		sr = httptest.NewRequest("GET", "/?n=1&q=zzz&active&source=q", strings.NewReader(string(b)))
		sr.Header.Set("content-type", pickFrom(x, "application/json", "application/json; charset=utf-8"))
		sr.Header.Set("accept", "text/event-stream")
	}
	ctx, cancel := context.WithCancel(context.Background())
	stub := &streamStub{}
	h := x.Go("handler", func() {
		w := &sseWriter{header: http.Header{}}
		(&trcweb.TraceServer{Streamer: stub, Searcher: &canned{nil, errors.New("no")}}).ServeHTTP(w, sr.WithContext(ctx))
		if w.code != 200 {
			x.Failf("%s %s: HTTP %d", form, f, w.code)
		}
	})
	zmc.Idle()
	ctxCancel(ctx, cancel)
	h.Join()
	if stub.calls != 1 {
		x.Failf("%s %s: %d subscriptions", form, f, stub.calls)
		return
	}
	if d := filterDiff(stub.filter, f); d != "" {
		x.Failf("%s: %s", form, d)
	}
	// The query is in effect, too.
	tr := &trc.StaticTrace{TraceEvents: []trc.Event{{What: "x77"}}}
	if g, w := stub.filter.Allow(tr), allows(f, tr); g != w {
		x.Failf("%s: filter %s allows %v", form, f, g)
	}
	x.Outcome("%s %s", form, f)
}

type roundTrip func(*http.Request) (*http.Response, error)

func (f roundTrip) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

// c16Params: buffer sizes and intervals requested.
func c16Params(x *X) {
	sendbuf := pickFrom(x, "", "x", "-1", "0", "1", "99", "100000", "100001", "999999999999", "99999999999999999999", "1.5")
	stats := pickFrom(x, "", "x", "0", "0s", "-1s", "1s", "2500ms", "1ns", "9999h", "5")
	v := url.Values{}
	if sendbuf != "" || x.Bool() {
		v.Set("sendbuf", sendbuf)
	}
	if stats != "" || x.Bool() {
		v.Set("stats", stats)
	}
	r := httptest.NewRequest("GET", "/?"+v.Encode(), nil)
	r.Header.Set("accept", "text/event-stream")
	ctx, cancel := context.WithCancel(context.Background())
	stub := &streamStub{}
	w := &sseWriter{header: http.Header{}}
	h := x.Go("handler", func() {
		(&trcweb.TraceServer{Streamer: stub, Searcher: &canned{}}).ServeHTTP(w, r.WithContext(ctx))
	})
	zmc.Idle()
	what := fmt.Sprintf("sendbuf=%q stats=%q", sendbuf, stats)
	interval := 10 * time.Second
	switch stats {
	case "1s", "2500ms", "9999h":
		interval, _ = time.ParseDuration(stats)
	case "1ns":
		interval = 0 // may be limited
	}
	if interval > 0 {
		x.Advance(interval - 1)
		zmc.Idle()
		if stub.statsN != 0 {
			x.Failf("%s: statistics after %s", what, interval-1)
		}
		x.Advance(1)
		zmc.Idle()
		if stub.statsN != 1 {
			x.Failf("%s: no statistics after %s", what, interval)
		}
	}
	ctxCancel(ctx, cancel)
	h.Join()
	wants := []int{100}
	switch sendbuf {
	case "0", "1", "99", "100000":
		n, _ := strconv.Atoi(sendbuf)
		wants = []int{n}
	case "-1":
		wants = []int{0}
	case "100001", "999999999999":
		wants = []int{100000}
	case "99999999999999999999":
		wants = []int{100, 100000}
	}
	ok := false
	for _, n := range wants {
		ok = ok || stub.calls == 1 && n == stub.capacity
	}
	if !ok || w.code != 200 {
		x.Failf("%s: HTTP %d, %d subscriptions, buffer %d, want %d", what, w.code, stub.calls, stub.capacity, wants)
	}
	if n := zmc.ActiveTimers(); n != 0 {
		x.Failf("%s: %d timers left", what, n)
	}
	x.Outcome("%s %d", what, stub.capacity)
}

// c16Invalid: invalid queries are refused.
func c16Invalid(x *X) {
	f := trc.Filter{Query: pickFrom(x, "(", "[a", "*", "a{2,1}", "\\"), Category: pickFrom(x, "", "a")}
	var r *http.Request
	if x.Bool() {
		b, _ := json.Marshal(f)
		r = httptest.NewRequest(pickFrom(x, "GET", "POST"), "/", strings.NewReader(string(b)))
		r.Header.Set("content-type", "application/json")
	} else {
		r = httptest.NewRequest("GET", "/?"+url.Values{"q": {f.Query}, "category": {f.Category}}.Encode(), nil)
	}
	r.Header.Set("accept", "text/event-stream")
	stub := &streamStub{}
	w := &sseWriter{header: http.Header{}}
	(&trcweb.TraceServer{Streamer: stub, Searcher: &canned{}}).ServeHTTP(w, r)
	if w.code < 400 || w.code > 499 || stub.calls != 0 {
		x.Failf("query %q: HTTP %d, %d subscriptions", f.Query, w.code, stub.calls)
	}
	x.Outcome("%q", f.Query)
}

func c16Trace(i int, id string) *trc.StaticTrace {
	return &trc.StaticTrace{TraceID: id, TraceSource: "src", TraceCategory: oddCategory, TraceStarted: time.Date(2024, 1, 2, 3, 4, 5, 6+i, time.UTC), TraceDuration: time.Duration(i), TraceDurationStr: time.Duration(i).String(),
		TraceFinished: i%2 == 0, TraceErrored: i%3 == 0, TraceEvents: []trc.Event{{When: time.Date(2024, 1, 2, 3, 4, 5, 7+i, time.UTC), What: fmt.Sprintf("line 1\nline 2\r\n\ndata: <%d>\u2028", i), IsError: i%2 == 1}}}
}

// c16Script: a subscription that delivers traces, statistics are due, and the
// client goes away.
func c16Script(x *X, how, buf string, settled bool, depth int, racy bool) {
	trc.SetTraceStacks(false)
	stub := &streamStub{cmd: zmc.NameChan(make(chan trc.Trace, 8)), racy: racy}
	sw := &sseWriter{header: http.Header{}}
	var w http.ResponseWriter = sw
	gone := zmc.NameChan(make(chan bool, 1))
	if how == "notify" {
		w = &notifyWriter{sw, gone}
	}
	r := httptest.NewRequest("GET", "/?stats=2s&sendbuf="+buf, nil)
	r.Header.Set("accept", "text/event-stream")
	ctx, cancel := context.WithCancel(context.Background())
	tctx, own := trc.New(ctx, "src", oddCategory)
	ownID := own.ID()
	r = r.WithContext(tctx)
	// Decide the whole script first.
	var steps []int
	for len(steps) < depth {
		k := x.Choose(5) // end, trace, own trace, tick, failing tick
		if k == 0 {
			break
		}
		steps = append(steps, k)
	}
	for _, k := range steps {
		switch k {
		case 3:
			stub.statsErr = append(stub.statsErr, nil)
		case 4:
			stub.statsErr = append(stub.statsErr, errors.New("no statistics"))
		}
	}
	h := x.Go("handler", func() {
		(&trcweb.TraceServer{Streamer: stub, Searcher: &canned{}}).ServeHTTP(w, r)
		if stub.calls != stub.returned {
			x.Failf("request over before the subscription")
		}
	})
	if settled {
		zmc.Idle()
	}
	var want []sseMsg
	want = append(want, sseMsg{typ: "init"})
	var sent []*trc.StaticTrace
	ticks := 0
	for i, k := range steps {
		switch k {
		case 1, 2:
			tr := c16Trace(i, fmt.Sprint("id", i))
			if i == 1 || i == 2 {
				tr.TraceCategory = "other"
			}
			if k == 2 {
				tr.TraceID = ownID
			} else {
				want = append(want, sseMsg{typ: "trace"})
				sent = append(sent, tr)
			}
			zmc.SendTo(stub.cmd)(tr)
		case 3, 4:
			x.Advance(2 * time.Second)
			if k == 3 {
				want = append(want, sseMsg{"stats", fmt.Sprint(ticks)})
			}
			ticks++
		}
		if settled {
			zmc.Idle()
		}
	}
	switch how {
	case "ctx":
		ctxCancel(ctx, cancel)
	case "notify":
		zmc.SendTo(gone)(true)
	}
	h.Join()
	cancel()
	if n := zmc.ActiveTimers(); n != 0 {
		x.Failf("%d timers left", n)
	}
	if stub.statsBad != "" {
		x.Failf("%s", stub.statsBad)
	}
	if sw.code != 200 || !strings.HasPrefix(sw.header.Get("content-type"), "text/event-stream") {
		x.Failf("HTTP %d %s", sw.code, sw.header.Get("content-type"))
	}
	if sw.flushed != len(sw.body) {
		x.Failf("%d of %d bytes flushed", sw.flushed, len(sw.body))
	}
	msgs, err := parseSSE(string(sw.body))
	if err != nil {
		x.Failf("%v", err)
		return
	}
	c16Messages(x, msgs, sent, settled, want)
	x.Outcome("%v %d", steps, len(msgs))
}

// c16Messages checks the messages of a response: traces is what was delivered,
// want is the exact sequence if all is settled.
func c16Messages(x *X, msgs []sseMsg, traces []*trc.StaticTrace, settled bool, want []sseMsg) {
	var types []string
	inits, ti, si := 0, 0, 0
	for _, m := range msgs {
		types = append(types, m.typ)
		switch m.typ {
		case "init":
			inits++
			if !json.Valid([]byte(m.data)) {
				x.Failf("init %s", m.data)
			}
		case "trace":
			if ti >= len(traces) {
				x.Failf("trace %s was not delivered", m.data)
				return
			}
			var got wireTrace
			if err := json.Unmarshal([]byte(m.data), &got); err != nil {
				x.Failf("trace %s: %v", m.data, err)
				return
			}
			if d := snapOf(traces[ti]).diff(snapOf(got.static())); d != "" {
				x.Failf("trace %d: %s", ti, d)
			}
			ti++
		case "stats":
			var got trc.StreamStats
			if err := json.Unmarshal([]byte(m.data), &got); err != nil || got.Sends != got.Skips+10 || got.Drops != got.Skips+20 || got.Skips < 10+si {
				x.Failf("statistics %s: %v", m.data, err)
			}
			si = got.Skips - 10 + 1
		default:
			x.Failf("message of type %q", m.typ)
		}
	}
	if inits > 1 {
		x.Failf("%d init messages", inits)
	}
	if settled {
		if len(msgs) != len(want) {
			x.Failf("messages %v, want %v", types, want)
			return
		}
		for i, m := range want {
			if msgs[i].typ != m.typ {
				x.Failf("messages %v, want %v", types, want)
				return
			}
			if m.typ == "stats" {
				var got trc.StreamStats
				json.Unmarshal([]byte(msgs[i].data), &got)
				if fmt.Sprint(got.Skips-10) != m.data {
					x.Failf("statistics %+v, want those of call %s", got, m.data)
				}
			}
		}
	}
}

// streamRec remembers the channels of subscriptions.
type streamRec struct {
	*trc.Collector
	ch       chan<- trc.Trace
	returned bool
}

func (s *streamRec) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.Trace) (trc.StreamStats, error) {
	s.ch = ch
	st, err := s.Collector.Stream(ctx, f, ch)
	s.returned = true
	return st, err
}

// c16Live: a real collector, with or without the middleware.
func c16Live(x *X, how string, mw, all bool) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector()
	rec := &streamRec{Collector: c}
	sw := &sseWriter{header: http.Header{}}
	var w http.ResponseWriter = sw
	gone := zmc.NameChan(make(chan bool, 1))
	if how == "notify" && !mw {
		w = &notifyWriter{sw, gone}
	}
	uri := "/?finished"
	if all {
		uri = "/"
	}
	r := httptest.NewRequest("GET", uri, nil)
	r.Header.Set("accept", "text/event-stream")
	ctx, cancel := context.WithCancel(context.Background())
	r = r.WithContext(ctx)
	var handler http.Handler = &trcweb.TraceServer{Collector: c, Streamer: rec}
	if mw {
		handler = trcweb.Middleware(c.NewTrace, trcweb.Categorize)(handler)
	}
	settle := x.Bool()
	h := x.Go("handler", func() { handler.ServeHTTP(w, r) })
	if settle {
		zmc.Idle()
	}
	var want []*trc.StaticTrace
	p := x.Go("publisher", func() {
		n := 2
		if all {
			n = 1
		}
		for i := 0; i < n; i++ {
			_, tr := c.NewTrace(context.Background(), "a")
			if all {
				want = append(want, streamCopy(tr).static())
			}
			tr.Tracef("e%d", i)
			if all {
				want = append(want, streamCopy(tr).static())
			}
			tr.Finish()
			want = append(want, streamCopy(tr).static())
		}
	})
	full := settle && x.Bool()
	if full {
		p.Join()
		zmc.Idle()
	}
	if how == "notify" && !mw {
		zmc.SendTo(gone)(true)
	} else {
		ctxCancel(ctx, cancel)
	}
	p.Join()
	h.Join()
	cancel()
	if n := zmc.ActiveTimers(); n != 0 {
		x.Failf("%d timers left", n)
	}
	if rec.ch != nil {
		if !rec.returned {
			x.Failf("the subscription outlives the request")
		}
		if _, err := c.StreamStats(context.Background(), rec.ch); err == nil {
			x.Failf("still subscribed")
		}
	}
	msgs, err := parseSSE(string(sw.body))
	if err != nil {
		x.Failf("%v", err)
		return
	}
	var got []*trc.StaticTrace
	for _, m := range msgs {
		if m.typ == "trace" {
			var tr wireTrace
			if err := json.Unmarshal([]byte(m.data), &tr); err != nil {
				x.Failf("trace %s: %v", m.data, err)
				return
			}
			got = append(got, tr.static())
		}
	}
	// A contiguous part of what was published.
	from := 0
	if len(got) > 0 {
		for from < len(want) && snapOf(want[from]).diff(snapOf(got[0])) != "" {
			from++
		}
	}
	for i := range got {
		if from+i >= len(want) {
			x.Failf("trace %d: not published or not in order: %+v", i, got[i])
			return
		}
		if d := snapOf(want[from+i]).diff(snapOf(got[i])); d != "" {
			x.Failf("trace %d: %s", i, d)
			return
		}
	}
	if settle && from != 0 || full && len(got) != len(want) {
		x.Failf("received %d traces of %d, from %d on", len(got), len(want), from)
	}
	x.Outcome("%v %v %d from %d", settle, full, len(got), from)
}

// heldWriter blocks in a write until it is told to go on.
type heldWriter struct {
	*sseWriter
	at   int
	gate chan bool
}

func (w *heldWriter) Write(p []byte) (int, error) {
	if w.writes == w.at {
		zmc.Recv(w.gate)
	}
	return w.sseWriter.Write(p)
}

// c16Backlog: the client takes its time, and what was published meanwhile is
// kept for it, as far as the send buffer reaches.
func c16Backlog(x *X) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector()
	w := &heldWriter{sseWriter: &sseWriter{header: http.Header{}}, at: x.Choose(2), gate: zmc.NameChan(make(chan bool, 1))}
	finished := x.Bool()
	uri := "/"
	if finished {
		uri = "/?finished"
	}
	r := httptest.NewRequest("GET", uri, nil)
	r.Header.Set("accept", "text/event-stream")
	ctx, cancel := context.WithCancel(context.Background())
	h := x.Go("handler", func() { trcweb.NewTraceServer(c).ServeHTTP(w, r.WithContext(ctx)) })
	zmc.Idle()
	var want []*trc.StaticTrace
	var log opLog
	var open []trc.Trace
	pub := func(tr trc.Trace) {
		if !finished || tr.Finished() {
			want = append(want, streamCopy(tr).static())
		}
	}
	cat := pickFrom(x, "a", "stream", "traces")
	for n := pickFrom(x, 1, 2, 3, 4); n > 0; n-- {
		_, tr := c.NewTrace(context.Background(), cat)
		pub(tr)
		events := x.Choose(3)
		for i := 0; i < events; i++ {
			tr.Tracef("e%d", i)
			pub(tr)
		}
		log.add("%s %d events", cat, events)
		if x.Bool() {
			log.add("finished")
			tr.Finish()
			pub(tr)
		} else {
			open = append(open, tr)
		}
	}
	for _, tr := range open {
		tr.Finish()
		pub(tr)
	}
	zmc.SendTo(w.gate)(true)
	zmc.Idle()
	ctxCancel(ctx, cancel)
	h.Join()
	msgs, err := parseSSE(string(w.body))
	if err != nil {
		x.Failf("%v", err)
		return
	}
	n := 0
	for _, m := range msgs {
		if m.typ != "trace" {
			continue
		}
		var tr wireTrace
		if err := json.Unmarshal([]byte(m.data), &tr); err != nil {
			x.Failf("trace %s: %v", m.data, err)
			return
		}
		if n >= len(want) {
			x.Failf("finished=%v: %s: more than was published: %s", finished, log.String(), m.data)
			return
		}
		if d := snapOf(want[n]).diff(snapOf(tr.static())); d != "" {
			x.Failf("finished=%v: %s: trace %d: %s", finished, log.String(), n, d)
			return
		}
		n++
	}
	if n != len(want) {
		x.Failf("finished=%v: %s: received %d of %d", finished, log.String(), n, len(want))
	}
	x.Outcome("%v %s", finished, log.String())
}

// c16WriteFail: writes fail before the request is over.
func c16WriteFail(x *X) {
	trc.SetTraceStacks(false)
	stub := &streamStub{cmd: zmc.NameChan(make(chan trc.Trace, 8))}
	w := &sseWriter{header: http.Header{}, failAt: 1 + x.Choose(9)}
	r := httptest.NewRequest("GET", "/?stats=2s&sendbuf=0", nil)
	r.Header.Set("accept", "text/event-stream")
	ctx, cancel := context.WithCancel(context.Background())
	h := x.Go("handler", func() {
		(&trcweb.TraceServer{Streamer: stub, Searcher: &canned{}}).ServeHTTP(w, r.WithContext(ctx))
	})
	for i := 0; i < 2; i++ {
		zmc.SendTo(stub.cmd)(c16Trace(i, fmt.Sprint("id", i)))
		if x.Bool() {
			x.Advance(2 * time.Second)
		}
	}
	if x.Bool() {
		zmc.Idle()
	}
	ctxCancel(ctx, cancel)
	h.Join()
	if stub.calls != stub.returned || zmc.ActiveTimers() != 0 {
		x.Failf("subscriptions %d, ended %d, timers %d", stub.calls, stub.returned, zmc.ActiveTimers())
	}
	x.Outcome("%d", w.writes)
}

// panicWriter panics at a write, as writers of other handlers do to abort.
type panicWriter struct {
	sseWriter
	at int
}

func (w *panicWriter) Write(p []byte) (int, error) {
	if w.writes+1 == w.at {
		panic(http.ErrAbortHandler)
	}
	return w.sseWriter.Write(p)
}

// c16WritePanic: a writer aborts the request.
func c16WritePanic(x *X) {
	trc.SetTraceStacks(false)
	stub := &streamStub{cmd: zmc.NameChan(make(chan trc.Trace, 8))}
	w := &panicWriter{sseWriter: sseWriter{header: http.Header{}}, at: 1 + x.Choose(6)}
	r := httptest.NewRequest("GET", "/?stats=2s&sendbuf=0", nil)
	r.Header.Set("accept", "text/event-stream")
	ctx, cancel := context.WithCancel(context.Background())
	var aborted any
	h := x.Go("handler", func() {
		defer func() { aborted = recover() }()
		(&trcweb.TraceServer{Streamer: stub, Searcher: &canned{}}).ServeHTTP(w, r.WithContext(ctx))
	})
	for i := 0; i < 2; i++ {
		zmc.SendTo(stub.cmd)(c16Trace(i, fmt.Sprint("id", i)))
		if x.Bool() {
			x.Advance(2 * time.Second)
		}
	}
	if x.Bool() {
		zmc.Idle()
	}
	ctxCancel(ctx, cancel)
	h.Join()
	if stub.calls != stub.returned || zmc.ActiveTimers() != 0 {
		x.Failf("subscriptions %d, ended %d, timers %d", stub.calls, stub.returned, zmc.ActiveTimers())
	}
	x.Outcome("%d %v", w.writes, aborted)
}

// ---------------------------------------------------------------------------
// The client.

// esBody is the body of a response, fed through a channel.
type esBody struct {
	ch     chan []byte
	stop   chan struct{}
	closed int
	rest   []byte
}

func newBody() *esBody {
	return &esBody{ch: zmc.NameChan(make(chan []byte, 16)), stop: zmc.NameChan(make(chan struct{}))}
}

func (b *esBody) Read(p []byte) (int, error) {
	if len(b.rest) == 0 {
		rc := zmc.RecvCase[[]byte](b.ch)
		if zmc.Select(false, rc, zmc.RecvCase[struct{}](b.stop)) != 0 {
			return 0, errors.New("read on closed body")
		}
		b.rest = rc.Val
	}
	n := copy(p, b.rest)
	b.rest = b.rest[n:]
	return n, nil
}

// Close is not a step of its own, since the library could otherwise retry,
// in real time.
func (b *esBody) Close() error {
	if b.closed == 0 {
		close(b.stop)
	}
	b.closed++
	return nil
}

func esResponse(r *http.Request, body io.ReadCloser) *http.Response {
	return &http.Response{StatusCode: 200, Status: "200 OK", Body: body, Header: http.Header{"Content-Type": {"text/event-stream"}}, Request: r}
}

func esMessage(typ, data string) []byte {
	return []byte("event: " + typ + "\ndata: " + data + "\n\n")
}

// c16ClientParams: what the client asks for.
func c16ClientParams(x *X) {
	c := &trcweb.StreamClient{URI: pickFrom(x, "localhost:1", "http://localhost:1/a?b=c")}
	c.SendBuffer = pickFrom(x, 0, -1, 1, 100000, 100001)
	c.StatsInterval = pickFrom(x, 0, -1, time.Second, ms, 60*time.Second, time.Hour, 1500*ms)
	c.RetryInterval = pickFrom(x, 0, -1, time.Hour)
	var seen url.Values
	var accept, rawURL string
	http.DefaultClient.Transport = roundTrip(func(r *http.Request) (*http.Response, error) {
		seen = r.URL.Query()
		rawURL = r.URL.String()
		accept = r.Header.Get("accept")
		return &http.Response{StatusCode: 204, Status: "204 No Content", Body: http.NoBody, Header: http.Header{}, Request: r}, nil
	})
	ctx, cancel := context.WithCancel(context.Background())
	buf, interval, uri := c.SendBuffer, c.StatsInterval, c.URI
	err := c.Stream(ctx, trc.Filter{}, nil)
	ctxCancel(ctx, cancel)
	what := fmt.Sprintf("%d %s: %s", buf, interval, rawURL)
	if err != nil || accept != "text/event-stream" || !strings.HasPrefix(rawURL, "http://localhost:1") {
		x.Failf("%s: %v, accept %q", what, err, accept)
		return
	}
	if strings.Contains(uri, "?") && (!strings.HasPrefix(rawURL, "http://localhost:1/a?") || seen.Get("b") != "c") {
		x.Failf("%s: not the URI given, %s", what, uri)
	}
	if buf > 100000 {
		buf = 100000
	}
	if got := seen.Get("sendbuf"); buf > 0 && got != fmt.Sprint(buf) || buf < 0 && got != "" && got != "0" {
		x.Failf("%s: buffer %s", what, got)
	}
	switch {
	case interval == 0:
		interval = 10 * time.Second
	case interval < time.Second:
		interval = time.Second
	case interval > 60*time.Second:
		interval = 60 * time.Second
	}
	if got, err := time.ParseDuration(seen.Get("stats")); err != nil || got != interval {
		x.Failf("%s: want interval %s", what, interval)
	}
	x.Outcome("%s", what)
}

// c16ClientStatus: responses that end the stream.
func c16ClientStatus(x *X) {
	code := pickFrom(x, 200, 204, 400, 404, 301)
	ctype := pickFrom(x, "text/event-stream", "text/html", "")
	if code == 200 && ctype == "text/event-stream" {
		return
	}
	body := newBody()
	n := 0
	http.DefaultClient.Transport = roundTrip(func(r *http.Request) (*http.Response, error) {
		n++
		return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Body: body, Header: http.Header{"Content-Type": {ctype}}, Request: r}, nil
	})
	ctx, cancel := context.WithCancel(context.Background())
	err := trcweb.NewStreamClient("localhost").Stream(ctx, trc.Filter{}, nil)
	ctxCancel(ctx, cancel)
	if (err == nil) != (code == 204) {
		x.Failf("HTTP %d %q: error %v", code, ctype, err)
	}
	if n != 1 || body.closed == 0 {
		x.Failf("HTTP %d: %d requests, body closed %d times", code, n, body.closed)
	}
	x.Outcome("%d %q %v", code, ctype, err)
}

// c16ClientRead: any sequence of messages.
func c16ClientRead(x *X, depth int) {
	trc.SetTraceStacks(false)
	body := newBody()
	http.DefaultClient.Transport = roundTrip(func(r *http.Request) (*http.Response, error) { return esResponse(r, body), nil })
	var sent []*trc.StaticTrace
	var reads []string
	failing := false
	for n := 0; n < depth && !failing; n++ {
		k := x.Choose(8)
		if k == 0 {
			break
		}
		typ, data := "trace", ""
		switch k {
		case 1, 2:
			tr := c16Trace(n+k, fmt.Sprint("id", n))
			b, _ := json.Marshal(tr)
			data = string(b)
			sent = append(sent, tr)
		case 3:
			data, failing = "nonsense", true
		case 4:
			typ, data = "stats", `{"skips":1,"sends":2,"drops":3}`
		case 5:
			typ, data, failing = "stats", "[", true
		case 6:
			typ, data = "init", `{"filter":{}}`
		case 7:
			typ, data = "other", "anything"
		}
		reads = append(reads, typ+" "+data)
		body.ch <- esMessage(typ, data)
	}
	ch := zmc.NameChan(make(chan trc.Trace, pickFrom(x, 0, 8)))
	ctx, cancel := context.WithCancel(context.Background())
	c := trcweb.NewStreamClient("localhost")
	var seen []string
	if x.Bool() {
		c.OnRead = func(_ context.Context, typ string, data []byte) { seen = append(seen, typ+" "+string(data)) }
	} else {
		seen = nil
	}
	var err error
	h := x.Go("client", func() { err = c.Stream(ctx, trc.Filter{}, ch) })
	for i := range sent {
		if i == 1 && x.Bool() {
			x.Advance(time.Minute)
		}
		tr := zmc.Recv[trc.Trace](ch)
		if d := snapOf(sent[i]).diff(snapOf(tr)); d != "" {
			x.Failf("trace %d: %s", i, d)
			return
		}
	}
	zmc.Idle()
	if failing != h.Done() {
		x.Failf("failing %v, returned %v", failing, h.Done())
	}
	if failing && body.closed == 0 {
		x.Failf("returned with an open connection")
	}
	if h.Done() && x.Bool() { // nothing else may be running
		h.Join()
	} else {
		ctxCancel(ctx, cancel)
		h.Join()
	}
	if failing != (err != nil) {
		x.Failf("error %v", err)
	}
	if len(ch) != 0 {
		x.Failf("%d extra traces", len(ch))
	}
	if body.closed == 0 {
		x.Failf("returned with an open connection")
	}
	if seen != nil && !eqStrings(seen, reads) {
		x.Failf("OnRead for %q, want %q", seen, reads)
	}
	x.Outcome("%d %v %d", len(sent), failing, len(reads))
}

// c16ClientCancel: the context is canceled at any moment, also while
// connecting or with nobody receiving.
func c16ClientCancel(x *X) {
	trc.SetTraceStacks(false)
	var bodies []*esBody
	gate := zmc.NameChan(make(chan bool, 1))
	gate <- true
	var sent []*trc.StaticTrace
	http.DefaultClient.Transport = roundTrip(func(r *http.Request) (*http.Response, error) {
		zmc.Recv[bool](gate)
		body := newBody()
		bodies = append(bodies, body)
		for i := 0; i < 2; i++ {
			tr := c16Trace(i, fmt.Sprint("id", i))
			b, _ := json.Marshal(tr)
			sent = append(sent, tr)
			body.ch <- esMessage("trace", string(b))
		}
		return esResponse(r, body), nil
	})
	ch := zmc.NameChan(make(chan trc.Trace, x.Choose(3)))
	ctx, cancel := context.WithCancel(context.Background())
	var err error
	h := x.Go("client", func() { err = trcweb.NewStreamClient("localhost").Stream(ctx, trc.Filter{}, ch) })
	var got []trc.Trace
	for n := x.Choose(3); n > 0; n-- {
		got = append(got, zmc.Recv[trc.Trace](ch))
	}
	before := len(got)
	ctxCancel(ctx, cancel)
	h.Join()
	if err != nil {
		x.Failf("%v", err)
	}
	for len(ch) > 0 {
		got = append(got, <-ch)
	}
	// Once canceled, some may be missing.
	j := 0
	for i := range got {
		for i >= before && j < len(sent) && snapOf(sent[j]).diff(snapOf(got[i])) != "" {
			j++
		}
		if j >= len(sent) {
			x.Failf("trace %d was not sent, or not in this order", i)
			break
		}
		if d := snapOf(sent[j]).diff(snapOf(got[i])); d != "" {
			x.Failf("trace %d: %s", i, d)
		}
		j++
	}
	for _, b := range bodies {
		if b.closed == 0 {
			x.Failf("returned with an open connection")
		}
	}
	x.Outcome("%d %d", len(bodies), len(got))
}

// bodyWriter is the server's end of a body.
type bodyWriter struct {
	header http.Header
	b      *esBody
}

func (w *bodyWriter) Header() http.Header { return w.header }
func (w *bodyWriter) WriteHeader(int)     {}
func (w *bodyWriter) Write(p []byte) (int, error) {
	select {
	case <-w.b.stop:
		return 0, errors.New("broken pipe")
	default:
	}
	zmc.SendTo(w.b.ch)(append([]byte(nil), p...))
	return len(p), nil
}
func (w *bodyWriter) Flush() {}

// c16E2E: client and server, with a collector.
func c16E2E(x *X) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector()
	rec := &streamRec{Collector: c}
	body := newBody()
	body.ch = zmc.NameChan(make(chan []byte, 64))
	sctx, scancel := context.WithCancel(context.Background())
	var server *zmc.Handle
	http.DefaultClient.Transport = roundTrip(func(r *http.Request) (*http.Response, error) {
		sr := httptest.NewRequest(r.Method, r.URL.RequestURI(), nil).WithContext(sctx)
		sr.Header = r.Header.Clone()
		server = x.Go("server", func() {
			trcweb.Middleware(c.NewTrace, trcweb.Categorize)(&trcweb.TraceServer{Collector: c, Streamer: rec}).ServeHTTP(&bodyWriter{http.Header{}, body}, sr)
		})
		return esResponse(r, body), nil
	})
	ch := zmc.NameChan(make(chan trc.Trace, 8))
	ctx, cancel := context.WithCancel(context.Background())
	var err error
	f := pickFrom(x, trc.Filter{IsFinished: true}, trc.Filter{Query: "e0 [+&]", Category: "a"})
	cl := x.Go("client", func() { err = trcweb.NewStreamClient("localhost").Stream(ctx, f, ch) })
	zmc.Idle()
	var want []*trc.StaticTrace
	for i := 0; i < 2; i++ {
		_, tr := c.NewTrace(context.Background(), "a")
		tr.Tracef("e%d +", i)
		if s := streamCopy(tr).static(); allows(f, s) {
			want = append(want, s)
		}
		tr.Finish()
		if s := streamCopy(tr).static(); allows(f, s) {
			want = append(want, s)
		}
	}
	zmc.Idle()
	ctxCancel(ctx, cancel)
	cl.Join()
	ctxCancel(sctx, scancel) // as net/http does when the connection is closed
	server.Join()
	if err != nil {
		x.Failf("%v", err)
	}
	for i, w := range want {
		if len(ch) == 0 {
			x.Failf("received %d traces, want %d", i, len(want))
			return
		}
		if d := snapOf(w).diff(snapOf(<-ch)); d != "" {
			x.Failf("trace %d: %s", i, d)
		}
	}
	if len(ch) != 0 {
		x.Failf("%d extra traces", len(ch))
	}
	x.Outcome("%d", len(want))
}
