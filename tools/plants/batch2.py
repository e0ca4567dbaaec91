W = '''package trcweb_test

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
)

var _ = fmt.Sprint
var _ = time.Now
var _ = context.Background
var _ = json.Marshal
var _ = io.EOF
var _ = httptest.NewServer
var _ = strings.Contains
var _ http.Handler
var _ trc.Trace
var _ trcweb.Searcher

'''
bug(id="valueless-param", prop="C15", also=["C21"], pkg="trcweb", edits=[("trcweb/util.go", '''IsErrored:   urlquery.Has("errored"),''', '''IsErrored:   parseDefault(urlquery.Get("errored"), strconv.ParseBool, false),'''), ("trcweb/util.go", '''	"sort"
''', '''	"sort"
	"strconv"
''')], demo=W+'''func TestZZDemo(t *testing.T) {
	c := trc.NewDefaultCollector()
	c.NewTrace(context.Background(), "c")
	rec := httptest.NewRecorder()
	trcweb.NewTraceServer(c).ServeHTTP(rec, httptest.NewRequest("GET", "/?errored", nil))
	var data trcweb.SearchData
	json.Unmarshal(rec.Body.Bytes(), &data)
	if len(data.Response.Traces) != 0 {
		t.Fatal(len(data.Response.Traces))
	}
}
''', needs="the errored parameter without a value, as links use it", breaks="the search isn't restricted to errored traces")

bug(id="subsecond-min", prop="C16", pkg="trcweb", edits=[("trcweb/util.go", '''q.Set("min", f.MinDuration.String())''', '''q.Set("min", f.MinDuration.Truncate(time.Microsecond).String())''')], demo=W+'''type st struct{ f chan trc.Filter }

func (s st) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.Trace) (trc.StreamStats, error) {
	s.f <- f
	<-ctx.Done()
	return trc.StreamStats{}, nil
}
func (s st) StreamStats(context.Context, chan<- trc.Trace) (trc.StreamStats, error) {
	return trc.StreamStats{}, nil
}

func TestZZDemo(t *testing.T) {
	s := st{make(chan trc.Filter, 10)}
	srv := httptest.NewServer(&trcweb.TraceServer{Collector: trc.NewDefaultCollector(), Streamer: s})
	defer srv.Close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	d := 1500 * time.Nanosecond
	done := make(chan bool)
	go func() {
		trcweb.NewStreamClient(srv.URL).Stream(ctx, trc.Filter{MinDuration: &d}, make(chan trc.Trace, 10))
		close(done)
	}()
	f := <-s.f
	cancel()
	<-done
	srv.CloseClientConnections()
	if f.MinDuration == nil || *f.MinDuration != d {
		t.Fatal(f.MinDuration)
	}
}
''', needs="a minimum duration that isn't a multiple of a microsecond, over the stream client", breaks="the server subscribes with another filter than the client's")

bug(id="written-on-error", prop="C17", pkg="trcweb", edits=[("trcweb/middleware.go", '''	i.n += n
	return n, err
''', '''	i.n += len(p)
	return n, err
''')], demo=W+'''func TestZZDemo(t *testing.T) {
	c := trc.NewDefaultCollector()
	var last string
	h := trcweb.Middleware(c.NewTrace, func(*http.Request) string { return "c" })(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(http.StatusNoContent)
		w.Write([]byte("hello"))
	}))
	srv := httptest.NewServer(h)
	defer srv.Close()
	res, err := http.Get(srv.URL)
	if err != nil {
		t.Fatal(err)
	}
	res.Body.Close()
	for i := 0; i < 100; i++ {
		out, _ := c.Search(context.Background(), &trc.SearchRequest{Filter: trc.Filter{IsFinished: true}})
		if len(out.Traces) == 1 {
			evs := out.Traces[0].Events()
			last = evs[len(evs)-1].What
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if !strings.HasPrefix(last, "HTTP 204, 0.0B") {
		t.Fatal(last)
	}
}
''', needs="a write that the server doesn't accept, like a body for a 204", breaks="the byte count in the trace isn't what the client received")

H2 = '''package trc_test

import (
	"bytes"
	"context"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
)

var _ = fmt.Sprint
var _ = time.Now
var _ = context.Background
var _ = strings.Contains
var _ bytes.Buffer

'''
bug(id="prefix-flatten", prop="C18", edits=[("helpers.go", '''	prefixed := &prefixTrace{
		Trace:  original,
		format: format + " ",
		args:   args,
	}
''', '''	format += " "
	if parent, ok := original.(*prefixTrace); ok { // avoid deep nesting
		original = parent.Trace
		format = parent.format + format
		args = append(parent.args, args...)
	}

	prefixed := &prefixTrace{
		Trace:  original,
		format: format,
		args:   args,
	}
''')], demo=H2+'''func TestZZDemo(t *testing.T) {
	ctx, tr := trc.New(context.Background(), "s", "c")
	ctx, _ = trc.Prefix(ctx, "%d %d %d", 1, 2, 3)
	_, p := trc.Prefix(ctx, "<%s>", "p")
	for i := 0; i < 2; i++ {
		p.LazyTracef("event %d", i)
	}
	for i, ev := range tr.Events() {
		if want := fmt.Sprintf("1 2 3 <p> event %d", i); ev.What != want {
			t.Fatalf("%q, want %q", ev.What, want)
		}
	}
}
''', needs="lazy events with arguments through a prefix nested in a prefix, where appending left spare capacity", breaks="events overwrite one another's arguments")

bug(id="log-lazy-error", prop="C19", edits=[("decorators.go", '''	ltr.logEvent("ERROR: "+format, args...)
	ltr.Trace.LazyErrorf(format, args...)
''', '''	ltr.logEvent(format, args...)
	ltr.Trace.LazyErrorf(format, args...)
''')], demo=H2+'''func TestZZDemo(t *testing.T) {
	var buf bytes.Buffer
	_, tr := trc.New(context.Background(), "s", "c", trc.LogDecorator(&buf))
	tr.LazyErrorf("oops")
	if !strings.Contains(buf.String(), "ERROR: oops") {
		t.Fatal(buf.String())
	}
}
''', needs="a lazy error event on a logged trace", breaks="the log line doesn't mark the event as an error")

bug(id="stale-stack", prop="C20", edits=[("trace_core.go", "	cev.stack = cev.stack[:0] // be safe\n\n", ""), ("trace_core.go", "	cev.pcn = 0\n	cev.stack = cev.stack[:0]\n", "	cev.pcn = 0\n")], demo=H2+'''//go:noinline
func zzOne(tr trc.Trace) { tr.Tracef("x") }

//go:noinline
func zzTwo(tr trc.Trace) { tr.Tracef("x") }

func TestZZDemo(t *testing.T) {
	c := trc.NewDefaultCollector().SetCategorySize(1)
	for i := 0; i < 100; i++ {
		_, a := c.NewTrace(context.Background(), "c")
		zzOne(a)
		if st := a.Events()[0].Stack; len(st) == 0 || !strings.HasSuffix(st[0].Function, "zzOne") {
			t.Fatal(st)
		}
		a.Finish()
		_, b := c.NewTrace(context.Background(), "c")
		zzTwo(b)
		if st := b.Events()[0].Stack; len(st) == 0 || !strings.HasSuffix(st[0].Function, "zzTwo") {
			t.Fatal(st)
		}
		b.Finish()
	}
}
''', needs="a trace whose stacks were looked at and whose memory is used again", breaks="an event has the call stack of an event of another, dropped trace")

bug(id="unescaped-text", prop="C21", pkg="trcweb", edits=[("trcweb/render.go", '''func(s string) string { return template.HTMLEscapeString(s) }''', '''htmlEscape'''), ("trcweb/render.go", '''func humanizeFunction(s string) string {
''', '''func htmlEscape(s string) string {
	if !strings.ContainsAny(s, "<") {
		return s // fast path
	}
	return template.HTMLEscapeString(s)
}

func humanizeFunction(s string) string {
''')], demo=W+'''func TestZZDemo(t *testing.T) {
	c := trc.NewDefaultCollector()
	_, tr := c.NewTrace(context.Background(), "c")
	tr.Tracef("a&lt;b")
	r := httptest.NewRequest("GET", "/", nil)
	r.Header.Set("accept", "text/html")
	rec := httptest.NewRecorder()
	trcweb.NewTraceServer(c).ServeHTTP(rec, r)
	if !strings.Contains(strings.ReplaceAll(rec.Body.String(), "<wbr>", ""), "a&amp;lt;b") {
		t.Fatal("not escaped")
	}
}
''', needs="an event whose text has a character reference and no <", breaks="the text shown isn't the event's text")

CLI = '''#!/bin/bash
# Exits 0 if the behaviour is right. Run in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
go build -o "$tmp/trc" ./cmd/trc || exit 2
python3 "$here/demo.py" "$tmp/trc"
'''
bug(id="no-restart", prop="C22", script=CLI, files={"demo.py": '''import http.server, subprocess, sys, threading, json
n = 0
class H(http.server.BaseHTTPRequestHandler):
    def log_message(self, *a): pass
    def do_GET(self):
        global n
        n += 1
        self.send_response(200)
        self.send_header("content-type", "text/event-stream")
        self.end_headers()
        self.wfile.write(b"event: trace\\\\ndata: [[[\\\\n\\\\n" if n == 1 else b'event: trace\\\\ndata: {"id":"x"}\\\\n\\\\n')
        self.wfile.flush()
s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
p = subprocess.Popen([sys.argv[1], "stream", "-u", "127.0.0.1:%d" % s.server_port, "--retry-interval", "10ms"], stdout=subprocess.PIPE)
threading.Timer(20, p.kill).start()
line = p.stdout.readline()
p.kill()
import os
os._exit(0 if b'"x"' in line else 1)
'''}, edits=[("cmd/trc/stream.go", '''			continue                                                        // try again
''', '''			if ctx.Err() == nil && err != nil {
				return // terminal error
			}
			continue // try again
''')], needs="a server that sends one undecodable event", breaks="the stream command never connects to that server again")
for b in bugs:
    if "files" in b:
        b["files"] = {k: v.replace("\\\\n", "\\n") for k, v in b["files"].items()}
        b["breaks"] = b.get("breaks", "")
