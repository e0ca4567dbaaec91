package main

// Documents of many sizes over the stream, and through the command line tool.

import (
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"github.com/peterbourgon/trc/zmc"
)

// sized is a trace with n of something.
func sized(id string, kind, n int) *trc.StaticTrace {
	tr := c16Trace(2, id)
	switch kind {
	case 0: // one text
		tr.TraceEvents[0].What = strings.Repeat("é<\n", n/4) + strings.Repeat("z", n%4)
	case 1: // category
		tr.TraceCategory = strings.Repeat("\"\\", n/2) + strings.Repeat("z", n%2)
	case 2: // events
		tr.TraceEvents = nil
		for i := 0; i < n; i++ {
			tr.TraceEvents = append(tr.TraceEvents, trc.Event{When: tr.TraceStarted.Add(time.Duration(i)), What: fmt.Sprint("event ", i), IsError: i%3 == 0})
		}
	case 3: // frames
		ev := trc.Event{When: tr.TraceStarted, What: "deep"}
		for i := 0; i < n; i++ {
			ev.Stack = append(ev.Stack, trc.Frame{Function: fmt.Sprint("f", i), FileLine: fmt.Sprint("/x/y.go:", i)})
		}
		tr.TraceEvents = []trc.Event{ev}
	}
	return tr
}

// c16Large: a large trace between two small ones, or many traces, from a
// server to a client.
func c16Large(x *X, part int) {
	trc.SetTraceStacks(false)
	var sent []*trc.StaticTrace
	what := ""
	switch part {
	case 0, 1:
		kind, n := part, pickFrom(x, grid(1<<22)...)
		what = fmt.Sprintf("kind %d size %d", kind, n)
		sent = append(sent, c16Trace(1, "before"), sized("large", kind, n), c16Trace(3, "after"))
	case 2, 3:
		kind, n := part, pickFrom(x, grid(10000)...)
		what = fmt.Sprintf("kind %d size %d", kind, n)
		sent = append(sent, c16Trace(1, "before"), sized("large", kind, n), c16Trace(3, "after"))
	case 4:
		n := pickFrom(x, grid(3000)...)
		what = fmt.Sprintf("%d traces", n)
		for i := 0; i < n; i++ {
			sent = append(sent, c16Trace(i, fmt.Sprint("id", i)))
		}
	}
	stub := &streamStub{cmd: zmc.NameChan(make(chan trc.Trace, len(sent)))}
	for _, tr := range sent {
		stub.cmd <- tr
	}
	body := newBody()
	body.ch = zmc.NameChan(make(chan []byte, 8*len(sent)+64))
	sctx, scancel := context.WithCancel(context.Background())
	var server *zmc.Handle
	http.DefaultClient.Transport = roundTrip(func(r *http.Request) (*http.Response, error) {
		sr := httptest.NewRequest(r.Method, r.URL.RequestURI(), nil).WithContext(sctx)
		sr.Header = r.Header.Clone()
		server = x.Go("server", func() {
			(&trcweb.TraceServer{Streamer: stub, Searcher: &canned{}}).ServeHTTP(&bodyWriter{http.Header{}, body}, sr)
		})
		return esResponse(r, body), nil
	})
	ch := zmc.NameChan(make(chan trc.Trace, len(sent)+8))
	ctx, cancel := context.WithCancel(context.Background())
	var err error
	cl := x.Go("client", func() { err = trcweb.NewStreamClient("localhost").Stream(ctx, trc.Filter{}, ch) })
	zmc.Idle()
	got := len(ch)
	done := cl.Done()
	ctxCancel(ctx, cancel)
	cl.Join()
	ctxCancel(sctx, scancel)
	server.Join()
	if err != nil || done {
		x.Failf("%s: ended before it was canceled: %v, %v", what, done, err)
	}
	if got != len(sent) || len(ch) != got {
		x.Failf("%s: received %d traces, then %d, of %d", what, got, len(ch), len(sent))
		return
	}
	for i, w := range sent {
		if d := snapOf(w).diff(snapOf(<-ch)); d != "" {
			x.Failf("%s: trace %d: %s", what, i, clip(d, 300))
			return
		}
	}
	x.Outcome("%s", what)
}

// c22Large: the same, through the command line tool.
func c22Large(r *Real, tier string) {
	ss, uris, stop := c22Servers("up", "up")
	defer stop()
	type point struct{ kind, n int }
	var points []point
	max := quickThorough(tier, 1<<20, 1<<23)
	for kind := 0; kind < 4; kind++ {
		for n := 1; n <= max; n *= 4 {
			if kind >= 2 && n > 10000 {
				break
			}
			points = append(points, point{kind, n}, point{kind, 2*n - 1})
		}
	}
	for _, n := range []int{4, 16, 64, 250} {
		points = append(points, point{4, n})
	}
	for _, p := range points {
		if r.Over() {
			return
		}
		var traces []*trc.StaticTrace
		n := 1
		kind, size := p.kind, p.n
		if kind == 4 {
			n, kind, size = p.n, 2, 2
		}
		for i := 0; i < n; i++ {
			traces = append(traces, sized(fmt.Sprint("a-", i), kind, size))
			traces[i].TraceStarted = traces[i].TraceStarted.Add(-time.Duration(i) * ms)
		}
		stats := trc.NewSearchStats(trc.DefaultBucketing)
		for _, tr := range traces {
			stats.Observe(tr)
		}
		s := ss[0]
		s.traces = traces
		s.res = &trc.SearchResponse{Sources: []string{"a"}, TotalCount: n, MatchCount: n, Traces: traces, Stats: stats, Duration: ms}
		c22Search(r, ss, append(append([]string{}, uris...), "-n", "250"), trc.Filter{}, 250, -1, false, false, "/")
		c22Stream(r, ss, append(append([]string{}, uris...), "-f"), trc.Filter{IsFinished: true}, 100, true)
	}
}
