package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"os/signal"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
)

func init() {
	register("C22", c22Variants, "the binary is run as a process, on the real clock and scheduler, against servers on the loopback interface", "flags are given on the command line", "queries are valid regexps")
}

// sigintOnce: interrupts may be ignored here (a background job), and the
// command would inherit that, were they not caught.
var sigintOnce sync.Once

// c22Wait is how long to wait for something that has to happen.
const c22Wait = 60 * time.Second

func c22Variants(tier string) []*Variant {
	var vs []*Variant
	real := func(name string, f func(r *Real)) { vs = append(vs, &Variant{Name: name, Real: f}) }
	for part := 0; part < 8; part++ {
		part := part
		real(fmt.Sprint("search/filter/", part), func(r *Real) { c22SearchFilter(r, part, tier) })
		real(fmt.Sprint("search/options/", part), func(r *Real) { c22SearchOptions(r, part, tier) })
		real(fmt.Sprint("stream/filter/", part), func(r *Real) { c22StreamFilter(r, part, tier) })
	}
	real("stream/output", func(r *Real) { c22StreamOutput(r, tier) })
	real("stream/faults", func(r *Real) { c22StreamFaults(r, tier) })
	for part := 0; part < 4; part++ {
		part := part
		real(fmt.Sprint("values/", part), func(r *Real) { c22Values(r, part, tier) })
	}
	real("large", func(r *Real) { c22Large(r, tier) })
	real("stream/slow", func(r *Real) { c22Slow(r, tier) })
	real("stream/retry", func(r *Real) { c22Retry(r, tier) })
	real("environment", c22Environment)
	real("usage/search", func(r *Real) { c22Usage(r, "search") })
	real("usage/stream", func(r *Real) { c22Usage(r, "stream") })
	return vs
}

// c22Flag is one of the filter flags: how it is given, what it means.
type c22Flag struct {
	short, long []string
	apply       func(f *trc.Filter)
}

var c22Flags = []c22Flag{
	{[]string{"--source", "s 1", "--source", "2"}, []string{"--source=s 1", "--source=2"}, func(f *trc.Filter) { f.Sources = []string{"s 1", "2"} }},
	{[]string{"-i", "x", "-i", "y&z"}, []string{"--id", "x", "--id=y&z"}, func(f *trc.Filter) { f.IDs = []string{"x", "y&z"} }},
	{[]string{"-c", oddCategory}, []string{"--category", oddCategory}, func(f *trc.Filter) { f.Category = oddCategory }},
	{[]string{"-q", "a+ b|<c>&d"}, []string{"--query=a+ b|<c>&d"}, func(f *trc.Filter) { f.Query = "a+ b|<c>&d" }},
	{[]string{"-a"}, []string{"--active"}, func(f *trc.Filter) { f.IsActive = true }},
	{[]string{"-f"}, []string{"--finished"}, func(f *trc.Filter) { f.IsFinished = true }},
	{[]string{"-d", "1.5ms"}, []string{"--duration", "1.5ms"}, func(f *trc.Filter) { f.MinDuration = durp(1500 * time.Microsecond) }},
	{[]string{"--success"}, []string{"--success"}, func(f *trc.Filter) { f.IsSuccess = true }},
	{[]string{"--errored"}, []string{"--errored"}, func(f *trc.Filter) { f.IsErrored = true }},
}

func c22Filter(bits int, long bool) ([]string, trc.Filter) {
	var args []string
	var f trc.Filter
	for i, fl := range c22Flags {
		if bits&(1<<i) == 0 {
			continue
		}
		if long {
			args = append(args, fl.long...)
		} else {
			args = append(args, fl.short...)
		}
		fl.apply(&f)
	}
	return args, f
}

func c22FilterDiff(got, want trc.Filter) string {
	if strings.Join(got.Sources, "\x00") != strings.Join(want.Sources, "\x00") || strings.Join(got.IDs, "\x00") != strings.Join(want.IDs, "\x00") || got.Category != want.Category || got.Query != want.Query || got.IsActive != want.IsActive || got.IsFinished != want.IsFinished || got.IsSuccess != want.IsSuccess || got.IsErrored != want.IsErrored {
		return fmt.Sprintf("filter %+v, want %+v", got, want)
	}
	if (got.MinDuration == nil) != (want.MinDuration == nil) || got.MinDuration != nil && *got.MinDuration != *want.MinDuration {
		return fmt.Sprintf("minimum duration %v, want %v", got.MinDuration, want.MinDuration)
	}
	return ""
}

// c22Server is a trace server on the loopback interface.
type c22Server struct {
	*httptest.Server
	kind string
	res  *trc.SearchResponse

	mtx   sync.Mutex
	reqs  []*trc.SearchRequest
	hits  int
	paths []string

	// streaming
	traces  []*trc.StaticTrace
	filters []trc.Filter
	bufs    []int
	gone    int
	tick    chan bool // something happened
}

func (s *c22Server) note(f func()) {
	s.mtx.Lock()
	f()
	s.mtx.Unlock()
	select {
	case s.tick <- true:
	default:
	}
}

func (s *c22Server) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	r := *req
	s.note(func() { s.reqs = append(s.reqs, &r) })
	res := *s.res
	return &res, nil
}

func (s *c22Server) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.Trace) (trc.StreamStats, error) {
	s.note(func() { s.filters = append(s.filters, f); s.bufs = append(s.bufs, cap(ch)) })
	for _, tr := range s.traces {
		select {
		case ch <- tr:
		case <-ctx.Done():
		}
	}
	<-ctx.Done()
	s.note(func() { s.gone++ })
	return trc.StreamStats{}, ctx.Err()
}

func (s *c22Server) StreamStats(context.Context, chan<- trc.Trace) (trc.StreamStats, error) {
	return trc.StreamStats{}, nil
}

func (s *c22Server) reset() {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	s.reqs, s.hits, s.paths, s.filters, s.bufs, s.gone = nil, 0, nil, nil, nil, 0
}

// newC22Server: up, down, error or garbage.
func newC22Server(kind, name string) *c22Server {
	s := &c22Server{kind: kind, tick: make(chan bool, 1)}
	start := time.Date(2024, 1, 2, 3, 4, 5, 678, time.UTC)
	stats := trc.NewSearchStats(trc.DefaultBucketing)
	var traces []*trc.StaticTrace
	for i := 0; i < 3; i++ {
		tr := &trc.StaticTrace{TraceID: fmt.Sprintf("%s-%d", name, i), TraceSource: name, TraceCategory: pickStr(i, "a", oddCategory), TraceStarted: start.Add(-time.Duration(i*2+len(name)) * ms), TraceDuration: time.Duration(i) * 3 * ms, TraceFinished: i != 1, TraceErrored: i == 2,
			TraceEvents: []trc.Event{{When: start, What: "<b>&\"\u2028\n" + name, Stack: []trc.Frame{{Function: "f", FileLine: "g.go:1"}}}, {When: start.Add(ms), What: "two", IsError: i == 2}}}
		stats.Observe(tr)
		traces = append(traces, tr)
	}
	s.traces = traces
	s.res = &trc.SearchResponse{Sources: []string{name}, TotalCount: 7 + len(name), MatchCount: 3, Traces: traces, Stats: stats, Duration: ms}
	if len(name) > 1 {
		s.res.Problems = []string{"a problem of " + name}
	}
	server := &trcweb.TraceServer{Searcher: s, Streamer: s, Collector: trc.NewDefaultCollector()}
	s.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		s.note(func() { s.hits++; s.paths = append(s.paths, r.URL.RequestURI()) })
		switch kind {
		case "error":
			http.Error(w, "no", 500)
		case "garbage":
			io.WriteString(w, "{{{")
		default:
			server.ServeHTTP(w, r)
		}
	}))
	if kind == "down" {
		s.Server.Close()
	}
	return s
}

// c22Run runs the binary to its end.
func c22Run(args ...string) (stdout, stderr string, code int, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), c22Wait)
	defer cancel()
	cmd := c22Cmd(ctx, args...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err = cmd.Run()
	if ctx.Err() != nil {
		return o.String(), e.String(), -1, fmt.Errorf("did not end")
	}
	if _, ok := err.(*exec.ExitError); ok {
		err = nil
	}
	return o.String(), e.String(), cmd.ProcessState.ExitCode(), err
}

func c22Cmd(ctx context.Context, args ...string) *exec.Cmd {
	var given, env []string
	for _, a := range args {
		if strings.HasPrefix(a, "TRC_") {
			env = append(env, a)
		} else {
			given = append(given, a)
		}
	}
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_CLI"), given...)
	cmd.Env = append([]string{"HOME=/nonexistent", "PATH=/usr/bin:/bin", "GOMAXPROCS=2"}, env...)
	return cmd
}

// oneDocument decodes JSON text that is exactly one document.
func oneDocument(s string, dst any) error {
	dec := json.NewDecoder(strings.NewReader(s))
	if err := dec.Decode(dst); err != nil {
		return err
	}
	if err := dec.Decode(new(any)); err != io.EOF {
		return fmt.Errorf("more than one document")
	}
	return nil
}

type c22Searcher struct {
	res *trc.SearchResponse
}

func (s c22Searcher) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	if s.res == nil {
		return nil, fmt.Errorf("down")
	}
	res := *s.res
	return &res, nil
}

// c22Search runs a search and checks everything about it.
func c22Search(r *Real, servers []*c22Server, args []string, f trc.Filter, limit, depth int, includeRequest, includeStats bool, path string) {
	r.Cases++
	for _, s := range servers {
		s.reset()
	}
	stdout, stderr, code, err := c22Run(append([]string{"search"}, args...)...)
	if err != nil && code == -1 && !strings.Contains(err.Error(), "did not end") {
		r.Capped = true // cannot run it
		return
	}
	fail := func(format string, a ...any) {
		r.Failf("trc search %q: %s", args, fmt.Sprintf(format, a...))
	}
	if code != 0 || err != nil {
		fail("exit %d %v: %s", code, err, clip(stderr, 300))
		return
	}
	var res trc.SearchResponse
	if err := oneDocument(stdout, &res); err != nil {
		fail("output %q: %v", clip(stdout, 200), err)
		return
	}
	var multi trc.MultiSearcher
	var problems []string
	failed := 0
	for _, s := range servers {
		switch s.kind {
		case "up":
			s.mtx.Lock()
			reqs, paths := s.reqs, s.paths
			s.mtx.Unlock()
			if len(reqs) != 1 {
				fail("server got %d requests", len(reqs))
				return
			}
			if d := c22FilterDiff(reqs[0].Filter, f); d != "" {
				fail("server got %s", d)
			}
			if got := reqs[0].Limit; got != limit {
				fail("server got limit %d, want %d", got, limit)
			}
			if got := reqs[0].StackDepth; got != depth && (got >= 0 || depth >= 0) {
				fail("server got stack depth %d, want %d", got, depth)
			}
			if paths[0] != path {
				fail("server got path %s, want %s", paths[0], path)
			}
			multi = append(multi, c22Searcher{s.res})
			problems = append(problems, s.res.Problems...)
		default:
			failed++
		}
	}
	want, err := multi.Search(context.Background(), &trc.SearchRequest{Filter: f, Limit: limit, StackDepth: depth})
	if err != nil {
		return
	}
	if len(res.Problems) < len(problems)+failed {
		fail("problems %q, want %q and %d for failed servers", res.Problems, problems, failed)
	}
	for _, p := range problems {
		if !strings.Contains(strings.Join(res.Problems, "\n"), p) {
			fail("problems %q, want %q", res.Problems, p)
		}
	}
	if (res.Request != nil) != includeRequest {
		fail("request printed: %v", res.Request != nil)
	}
	if (res.Stats != nil) != includeStats {
		fail("statistics printed: %v", res.Stats != nil)
	}
	want.Problems = res.Problems
	if !includeStats {
		want.Stats = nil
	}
	if includeRequest && res.Request != nil {
		if d := c22FilterDiff(res.Request.Filter, f); d != "" || res.Request.Limit != limit {
			fail("prints a request with %s limit %d", d, res.Request.Limit)
		}
	}
	want.Request, res.Request = nil, nil
	if len(want.Sources) == 0 {
		want.Sources = res.Sources
	}
	var wire wireResponse
	if err := oneDocument(stdout, &wire); err != nil {
		fail("output %q: %v", clip(stdout, 200), err)
		return
	}
	printed := wire.response()
	printed.Problems = res.Problems
	if d := respDiff(printed, want); d != "" {
		fail("prints %s", d)
	}
	r.Outcome("%q", args)
}

func c22Servers(kinds ...string) ([]*c22Server, []string, func()) {
	var ss []*c22Server
	var args []string
	for i, k := range kinds {
		s := newC22Server(k, strings.Repeat(string(rune('a'+i)), i+1))
		ss = append(ss, s)
		args = append(args, "-u", s.URL)
	}
	return ss, args, func() {
		for _, s := range ss {
			s.CloseClientConnections()
			s.Close()
		}
	}
}

// c22SearchFilter: every subset of the filter flags, short and long.
func c22SearchFilter(r *Real, part int, tier string) {
	ss, uris, stop := c22Servers("up", "up")
	defer stop()
	for bits := part; bits < 1<<len(c22Flags) && !r.Over(); bits += 8 {
		for _, long := range []bool{false, true} {
			args, f := c22Filter(bits, long)
			n := 1 + (bits>>3)&1
			c22Search(r, ss[:n], append(append([]string{}, uris[:2*n]...), args...), f, 10, -1, false, false, "/")
		}
	}
}

// c22SearchOptions: every combination of the other options.
func c22SearchOptions(r *Real, part int, tier string) {
	kinds := [][]string{{"up"}, {"down"}, {"up", "up"}, {"down", "up"}, {"up", "error"}, {"garbage", "up"}, {"up", "down", "up"}, {"error", "garbage"}}[part]
	ss, uris, stop := c22Servers(kinds...)
	defer stop()
	type opt struct {
		args []string
		n    int
	}
	limits := []opt{{nil, 10}, {[]string{"-n", "1"}, 1}, {[]string{"--limit", "300"}, 250}, {[]string{"--limit=2"}, 2}}
	depths := []opt{{nil, -1}, {[]string{"--stack-depth", "3"}, 3}, {[]string{"--stack-depth=-2"}, -2}, {[]string{"--stack-depth", "1"}, 1}}
	outs := []opt{{nil, 0}, {[]string{"-o", "ndjson"}, 0}, {[]string{"-o", "prettyjson"}, 0}}
	logs := []opt{{nil, 0}, {[]string{"-l", "n"}, 0}, {[]string{"--log", "trace"}, 0}, {[]string{"--log=debug"}, 0}}
	k := 0
	for _, limit := range limits {
		for _, depth := range depths {
			for _, out := range outs {
				for inc := 0; inc < 4; inc++ {
					ls := logs[k%len(logs) : k%len(logs)+1]
					if tier == "thorough" {
						ls = logs
					}
					for _, lg := range ls {
						k++
						if r.Over() {
							return
						}
						args := append([]string{}, uris...)
						path := "/"
						switch k % 5 { // forms of the URI
						case 1:
							for i := range args {
								args[i] = strings.TrimPrefix(args[i], "http://")
							}
						case 2:
							args = append(args, "--uri-path", "/some/path")
							path = "/some/path"
						case 3:
							for i := 1; i < len(args); i += 2 {
								args[i] += "/own"
							}
							path = "/own"
						case 4:
							for i := 1; i < len(args); i += 2 {
								args[i] += "/?tenant=a%20b&x=1"
							}
							path = "/?tenant=a%20b&x=1"
						}
						args = append(append(append(append(args, limit.args...), depth.args...), out.args...), lg.args...)
						if inc&1 > 0 {
							args = append(args, "--include-request")
						}
						if inc&2 > 0 {
							args = append(args, "--include-stats")
						}
						bits := (k * 37) & (1<<len(c22Flags) - 1)
						fargs, f := c22Filter(bits, k&1 > 0)
						c22Search(r, ss, append(args, fargs...), f, limit.n, depth.n, inc&1 > 0, inc&2 > 0, path)
					}
				}
			}
		}
	}
}

// c22Proc is a stream command that runs.
type c22Proc struct {
	cmd    *exec.Cmd
	lines  chan string
	stderr *bytes.Buffer
	done   chan error
}

func c22Start(args ...string) (*c22Proc, error) { return c22StartHeld(0, args...) }

// c22StartHeld starts a command whose output is not read for some time.
func c22StartHeld(hold time.Duration, args ...string) (*c22Proc, error) {
	sigintOnce.Do(func() {
		ch := make(chan os.Signal, 1)
		signal.Notify(ch, os.Interrupt)
		go func() {
			<-ch
			os.Exit(130)
		}()
	})
	p := &c22Proc{cmd: c22Cmd(context.Background(), args...), lines: make(chan string, 10000), stderr: &bytes.Buffer{}, done: make(chan error, 1)}
	p.cmd.Stderr = p.stderr
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		time.Sleep(hold)
		s := bufio.NewScanner(out)
		s.Buffer(nil, 1<<28)
		for s.Scan() {
			p.lines <- s.Text()
		}
		close(p.lines)
		p.done <- p.cmd.Wait()
	}()
	return p, nil
}

// documents waits for n JSON documents on the output.
func (p *c22Proc) documents(n int, line bool) ([]any, error) {
	var docs []any
	var buf string
	for len(docs) < n {
		select {
		case l, ok := <-p.lines:
			if !ok {
				return docs, fmt.Errorf("ended after %d documents of %d: %s", len(docs), n, clip(p.stderr.String(), 300))
			}
			buf += l + "\n"
			var doc any
			err := json.Unmarshal([]byte(buf), &doc)
			if err == nil {
				docs = append(docs, doc)
				buf = ""
			} else if line {
				return docs, fmt.Errorf("line %q: %v", clip(l, 200), err)
			}
		case <-time.After(c22Wait):
			return docs, fmt.Errorf("printed %d documents of %d", len(docs), n)
		}
	}
	return docs, nil
}

// interrupt ends the command, which has to print nothing more.
func (p *c22Proc) interrupt() error {
	p.cmd.Process.Signal(syscall.SIGINT)
	timeout := time.After(c22Wait)
	for {
		select {
		case l, ok := <-p.lines:
			if !ok {
				p.lines = nil
				continue
			}
			p.kill()
			return fmt.Errorf("prints also %s", clip(l, 200))
		case err := <-p.done:
			if err != nil {
				return fmt.Errorf("%v: %s", err, clip(p.stderr.String(), 300))
			}
			return nil
		case <-timeout:
			p.cmd.Process.Signal(syscall.SIGQUIT) // prints what it is doing
			select {
			case <-p.done:
			case <-time.After(5 * time.Second):
				p.kill()
			}
			return fmt.Errorf("does not end when interrupted: %s", clip(p.stderr.String(), 4000))
		}
	}
}

func (p *c22Proc) kill() { p.cmd.Process.Kill() }

func asJSON(v any) any {
	b, _ := json.Marshal(v)
	var x any
	json.Unmarshal(b, &x)
	return x
}

// c22Stream runs the stream command and checks everything about it.
func c22Stream(r *Real, ss []*c22Server, args []string, f trc.Filter, sendbuf int, line bool) {
	r.Cases++
	for _, pause := range []time.Duration{0, 100 * time.Millisecond, time.Second, 5 * time.Second} {
		if !c22StreamOnce(r, ss, args, f, sendbuf, line, pause) {
			return
		}
	}
}

// c22StreamOnce returns true if the command was interrupted before it was
// ready for that, which is none of its faults.
func c22StreamOnce(r *Real, ss []*c22Server, args []string, f trc.Filter, sendbuf int, line bool, pause time.Duration) (early bool) {
	fail := func(format string, a ...any) {
		r.Failf("trc stream %q: %s", args, fmt.Sprintf(format, a...))
	}
	n := 0
	for _, s := range ss {
		s.reset()
		if s.kind == "up" {
			n += len(s.traces)
		}
	}
	p, err := c22Start(append([]string{"stream"}, args...)...)
	if err != nil {
		r.Capped = true
		return false
	}
	docs, err := p.documents(n, line)
	if err != nil {
		p.kill()
		fail("%v", err)
		return false
	}
	for _, s := range ss { // subscribed before anything is sent, also without traces
		for start := time.Now(); s.kind == "up"; {
			s.mtx.Lock()
			n := len(s.filters)
			s.mtx.Unlock()
			if n > 0 {
				break
			}
			select {
			case <-s.tick:
			case <-time.After(100 * time.Millisecond):
			}
			if time.Since(start) > c22Wait {
				p.kill()
				fail("does not subscribe")
				return false
			}
		}
	}
	time.Sleep(pause)
	if err := p.interrupt(); err != nil {
		if strings.HasPrefix(err.Error(), "signal: interrupt") && pause < 5*time.Second {
			return true
		}
		fail("%v", err)
		return false
	}
	for _, s := range ss {
		if s.kind != "up" {
			continue
		}
		s.mtx.Lock()
		filters, bufs := s.filters, s.bufs
		s.mtx.Unlock()
		if len(filters) != 1 {
			fail("%d subscriptions", len(filters))
			return false
		}
		if d := c22FilterDiff(filters[0], f); d != "" {
			fail("subscribes with %s", d)
		}
		if bufs[0] != sendbuf {
			fail("subscribes with a buffer of %d, want %d", bufs[0], sendbuf)
		}
		i := 0
		for _, doc := range docs {
			m, _ := doc.(map[string]any)
			id, _ := m["id"].(string)
			if !strings.HasPrefix(id, s.res.Sources[0]+"-") {
				continue
			}
			if i >= len(s.traces) {
				fail("prints too many traces")
				return false
			}
			if want := asJSON(s.traces[i]); !reflect.DeepEqual(doc, want) {
				fail("prints %v, want %v", doc, want)
			}
			i++
		}
		if i != len(s.traces) {
			fail("prints %d traces of %s, want %d", i, s.res.Sources[0], len(s.traces))
		}
	}
	r.Outcome("%q", args)
	return false
}

func c22StreamFilter(r *Real, part int, tier string) {
	ss, uris, stop := c22Servers("up", "up")
	defer stop()
	for bits := part; bits < 1<<len(c22Flags); bits += 8 {
		for mode := 0; mode < 4; mode++ {
			if mode >= 2 && tier != "thorough" && bits>>3&3 != mode {
				continue // the other form of the flags
			}
			if r.Over() {
				return
			}
			args, f := c22Filter(bits, mode&2 > 0)
			f.IsActive = false
			f.IsFinished = mode&1 == 0
			if mode&1 > 0 {
				args = append(args, []string{"-e", "--events"}[mode>>1])
			}
			n := 1 + (bits>>3)&1
			c22Stream(r, ss[:n], append(append([]string{}, uris[:2*n]...), args...), f, 100, true)
		}
	}
}

// c22StreamOutput: outputs, buffers, numbers of traces.
func c22StreamOutput(r *Real, tier string) {
	for _, kinds := range [][]string{{"up"}, {"up", "up"}, {"down", "up"}, {"up", "error"}, {"up", "up", "up"}} {
		ss, uris, stop := c22Servers(kinds...)
		for i, o := range [][]string{nil, {"-o", "ndjson"}, {"--output", "prettyjson"}} {
			for j, b := range [][]string{nil, {"--send-buffer", "1"}, {"--send-buffer=7", "--recv-buffer", "0"}, {"--recv-buffer=1", "--stats-interval=1ms"}} {
				for k, l := range [][]string{nil, {"-l", "none"}, {"-l", "t"}} {
					if r.Over() {
						stop()
						return
					}
					if tier != "thorough" && (i+j+k)%3 != 0 {
						continue
					}
					args := append(append(append(append(append([]string{}, uris...), o...), b...), l...), "--retry-interval", "5ms")
					c22Stream(r, ss, args, trc.Filter{IsFinished: true}, []int{100, 1, 7, 100}[j], i != 2)
				}
			}
		}
		stop()
	}
}

// c22StreamFaults: servers that fail, and then don't.
func c22StreamFaults(r *Real, tier string) {
	faults := []string{"500", "404", "close", "truncate", "garbage", "trace+close", "trace+garbage", "refuse"}
	var run func(prefix []string)
	depth := quickThorough(tier, 2, 3)
	run = func(prefix []string) {
		if r.Over() {
			return
		}
		c22Fault(r, prefix)
		if len(prefix) < depth {
			for _, f := range faults {
				if f == "refuse" && len(prefix) > 0 {
					continue
				}
				run(append(append([]string{}, prefix...), f))
			}
		}
	}
	run(nil)
}

func c22Fault(r *Real, faults []string) {
	r.Cases++
	s := newC22Server("down", "a")
	server := &trcweb.TraceServer{Searcher: s, Streamer: s, Collector: trc.NewDefaultCollector()}
	n := 0
	var mtx sync.Mutex
	handler := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mtx.Lock()
		k := n
		n++
		mtx.Unlock()
		f := ""
		if k < len(faults) {
			f = faults[k]
		}
		send := func(s string) {
			w.Header().Set("content-type", "text/event-stream")
			io.WriteString(w, s)
			w.(http.Flusher).Flush()
		}
		trace := func() string {
			b, _ := json.Marshal(&trc.StaticTrace{TraceID: "a-early"})
			return "event: trace\ndata: " + string(b) + "\n\n"
		}
		switch f {
		case "500":
			http.Error(w, "no", 500)
		case "404":
			http.Error(w, "no", 404)
		case "close", "refuse":
			panic(http.ErrAbortHandler)
		case "truncate":
			send("event: trace\ndata: {")
		case "garbage":
			send("event: trace\ndata: {{{\n\n")
		case "trace+close":
			send(trace())
		case "trace+garbage":
			send(trace() + "event: trace\ndata: [\n\n")
		default:
			server.ServeHTTP(w, r)
		}
	})
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Capped = true
		return
	}
	addr := ln.Addr().String()
	want := len(s.traces)
	srv := &http.Server{Handler: handler, ErrorLog: discardLog()}
	if len(faults) > 0 && faults[0] == "refuse" {
		ln.Close()
	} else {
		go srv.Serve(ln)
	}
	defer srv.Close()
	p, err := c22Start("stream", "-u", addr, "--retry-interval", "2ms")
	if err != nil {
		r.Capped = true
		return
	}
	if len(faults) > 0 && faults[0] == "refuse" {
		time.Sleep(20 * time.Millisecond)
		if ln, err = net.Listen("tcp", addr); err != nil {
			p.kill()
			r.Capped = true
			return
		}
		go srv.Serve(ln)
	}
	var docs []any
	for left := want; left > 0; {
		more, err := p.documents(1, true)
		if err != nil {
			p.kill()
			r.Failf("after %q: %v", faults, err)
			return
		}
		m, _ := more[0].(map[string]any)
		if m["id"] != "a-early" {
			left--
			docs = append(docs, more[0])
		}
	}
	for i, doc := range docs {
		if !reflect.DeepEqual(doc, asJSON(s.traces[i])) {
			p.kill()
			r.Failf("after %q: prints %v, want %v", faults, doc, asJSON(s.traces[i]))
			return
		}
	}
	if err := p.interrupt(); err != nil {
		r.Failf("after %q: %v", faults, err)
		return
	}
	r.Outcome("%q", faults)
}

// c22Retry: after an unrecoverable failure, the stream command waits for the
// interval given.
func c22Retry(r *Real, tier string) {
	for _, fault := range []string{"404", "400", "nonsense", "trace+nonsense"} {
		for _, ival := range []time.Duration{100 * time.Millisecond, 400 * time.Millisecond} {
			if r.Over() {
				return
			}
			r.Cases++
			hits := make(chan [2]time.Time, 100000)
			srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				in := time.Now()
				switch fault {
				case "404":
					w.WriteHeader(404)
				case "400":
					w.WriteHeader(400)
				default:
					w.Header().Set("content-type", "text/event-stream")
					if fault == "trace+nonsense" {
						io.WriteString(w, "event: trace\ndata: {}\n\n")
					}
					out := time.Now()
					io.WriteString(w, "event: trace\ndata: {{{\n\n")
					hits <- [2]time.Time{in, out}
					return
				}
				hits <- [2]time.Time{in, time.Now()}
			}))
			p, err := c22Start("stream", "-u", srv.URL, "--retry-interval", ival.String())
			if err != nil {
				r.Capped = true
				srv.Close()
				return
			}
			var last time.Time
			for i := 0; i < 4; i++ {
				select {
				case h := <-hits:
					if i > 0 && h[0].Sub(last) < ival {
						r.Failf("%s: connects again after %s, with a retry interval of %s", fault, h[0].Sub(last), ival)
					}
					last = h[1]
				case <-time.After(c22Wait):
					r.Failf("%s: does not connect again", fault)
				}
			}
			p.kill()
			srv.CloseClientConnections()
			srv.Close()
			r.Outcome("%s %s", fault, ival)
		}
	}
}

// c22Usage: invalid usage.
func c22Usage(r *Real, cmd string) {
	ss, uris, stop := c22Servers("up")
	defer stop()
	u := uris[1]
	bad := [][]string{
		{}, {"-u"}, {"-u", u, "--nosuchflag"}, {"-u", u, "-z"}, {"-u", u, "-l", "loud"}, {"-u", u, "--output", "xml"},
		{"-u", u, "-d", "x"}, {"-u", u, "-d", "5"}, {"-u", u, "--duration"}, {"-u", "http://[::1"}, {"-u", u, "-u", "http://bad host/"},
		{"-u", u, "--active=maybe"},
	}
	if cmd == "search" {
		bad = append(bad, []string{"-u", u, "-n", "x"}, []string{"-u", u, "--limit", "1.5"}, []string{"-u", u, "--stack-depth", "deep"}, []string{"-u", u, "--events"}, []string{"-u", u, "--include-stats=7x"})
	} else {
		bad = append(bad, []string{"-u", u, "--send-buffer", "x"}, []string{"-u", u, "--stats-interval", "x"}, []string{"-u", u, "--stats-interval", "0s"}, []string{"-u", u, "--stats-interval=-1s"}, []string{"-u", u, "--recv-buffer=-1"}, []string{"-u", u, "--limit", "1"}, []string{"-u", u, "--retry-interval", "1"})
	}
	for bits := 0; bits < 1<<4; bits++ { // with valid flags before and after
		pre, _ := c22Filter(bits&1*68|bits&2*8, false)
		post, _ := c22Filter(bits&4|bits&8*4, true)
		for _, b := range bad {
			if r.Over() {
				return
			}
			r.Cases++
			ss[0].reset()
			args := append(append([]string{cmd}, pre...), b...)
			if n := len(b); n > 0 && b[n-1] != "-u" && b[n-1] != "--duration" { // they would take the next one
				args = append(args, post...)
			}
			_, stderr, code, err := c22Run(args...)
			if err != nil && code == -1 && err.Error() != "did not end" {
				r.Capped = true
				return
			}
			if code == 0 || err != nil {
				r.Failf("trc %q: exit %d %v: %s", args, code, err, clip(stderr, 300))
				return
			}
			if strings.Contains(stderr, "goroutine ") {
				r.Failf("trc %q crashes: %s", args, clip(stderr, 300))
			}
			ss[0].mtx.Lock()
			hits := ss[0].hits
			ss[0].mtx.Unlock()
			if hits > 0 {
				r.Failf("trc %q: sends %d requests", args, hits)
			}
			r.Outcome("%q %d", args, code)
		}
	}
}

// c22Slow: nobody reads the output for a while, and more traces than fit
// anywhere arrive meanwhile: none is lost.
func c22Slow(r *Real, tier string) {
	const n = 60
	var mtx sync.Mutex
	for _, hold := range []time.Duration{2500 * ms, time.Duration(quickThorough(tier, 0, 25000)) * ms} {
		if hold == 0 {
			continue
		}
		var wg sync.WaitGroup
		for _, recvbuf := range []int{0, 1, 100} {
			for _, opts := range [][]string{nil, {"-e"}, {"-o", "prettyjson"}} {
				r.Cases++
				r.Steps += n
				args := append([]string{"--recv-buffer", fmt.Sprint(recvbuf)}, opts...)
				line := len(opts) < 2
				s := newC22Server("up", "a")
				s.traces = nil
				for i := 0; i < n; i++ {
					s.traces = append(s.traces, &trc.StaticTrace{TraceID: fmt.Sprint("a-", i), TraceFinished: true, TraceEvents: []trc.Event{{What: strings.Repeat("0123456789", 3000)}}})
				}
				fail := func(format string, a ...any) {
					mtx.Lock()
					defer mtx.Unlock()
					r.Failf("trc stream %q, output not read for %v: %s", args, hold, fmt.Sprintf(format, a...))
				}
				p, err := c22StartHeld(hold, append([]string{"stream", "-u", s.URL}, args...)...)
				if err != nil {
					r.Capped = true
					s.Close()
					continue
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer s.Close()
					defer p.kill()
					docs, err := p.documents(n, line)
					for i, doc := range docs {
						m, _ := doc.(map[string]any)
						if id := fmt.Sprint("a-", i); m["id"] != id {
							fail("document %d is trace %v, want %s", i, m["id"], id)
							return
						}
					}
					if err != nil {
						fail("%v", err)
						return
					}
					time.Sleep(100 * ms)
					if err := p.interrupt(); err != nil {
						fail("%v", err)
					}
				}()
			}
		}
		wg.Wait()
	}
	r.Outcome("%d", r.Cases)
}

// c22Environment: flags given as environment variables, which flags of the
// command line override.
func c22Environment(r *Real) {
	ss, uris, stop := c22Servers("up")
	defer stop()
	type request struct {
		f                trc.Filter
		limit, depth     int
		incReq, incStats bool
		path             string
		buf              int
		events           bool
	}
	vars := []struct {
		env   string
		flag  []string // another value, which prevails (lists take both)
		apply func(q *request, flag bool)
		only  string
	}{
		{"TRC_URI=" + uris[1], uris, func(q *request, flag bool) {}, ""},
		{"TRC_URI_PATH=/p/a", []string{"--uri-path", "/p/b"}, func(q *request, flag bool) { q.path = pickStr(btoi(flag), "/p/a", "/p/b") }, ""},
		{"TRC_OUTPUT=ndjson", []string{"-o", "ndjson"}, func(q *request, flag bool) {}, ""},
		{"TRC_LOG=none", []string{"-l", "d"}, func(q *request, flag bool) {}, ""},
		{"TRC_SOURCE=s", nil, func(q *request, flag bool) { q.f.Sources = []string{"s"} }, ""},
		{"TRC_ID=x", nil, func(q *request, flag bool) { q.f.IDs = []string{"x"} }, ""},
		{"TRC_CATEGORY=" + oddCategory, []string{"-c", "d"}, func(q *request, flag bool) { q.f.Category = pickStr(btoi(flag), oddCategory, "d") }, ""},
		{"TRC_QUERY=a+ b", []string{"-q", "b"}, func(q *request, flag bool) { q.f.Query = pickStr(btoi(flag), "a+ b", "b") }, ""},
		{"TRC_DURATION=2ms", []string{"-d", "3ms"}, func(q *request, flag bool) { q.f.MinDuration = durp(time.Duration(2+btoi(flag)) * ms) }, ""},
		{"TRC_SUCCESS=true", []string{"--success=false"}, func(q *request, flag bool) { q.f.IsSuccess = !flag }, ""},
		{"TRC_ERRORED=true", []string{"--errored=false"}, func(q *request, flag bool) { q.f.IsErrored = !flag }, ""},
		{"TRC_ACTIVE=true", []string{"--active=false"}, func(q *request, flag bool) { q.f.IsActive = !flag }, "search"},
		{"TRC_FINISHED=true", []string{"--finished=false"}, func(q *request, flag bool) { q.f.IsFinished = !flag }, "search"},
		{"TRC_LIMIT=3", []string{"-n", "4"}, func(q *request, flag bool) { q.limit = 3 + btoi(flag) }, "search"},
		{"TRC_STACK_DEPTH=2", []string{"--stack-depth", "1"}, func(q *request, flag bool) { q.depth = 2 - btoi(flag) }, "search"},
		{"TRC_INCLUDE_REQUEST=true", []string{"--include-request=false"}, func(q *request, flag bool) { q.incReq = !flag }, "search"},
		{"TRC_INCLUDE_STATS=true", []string{"--include-stats=false"}, func(q *request, flag bool) { q.incStats = !flag }, "search"},
		{"TRC_EVENTS=true", []string{"--events=false"}, func(q *request, flag bool) { q.events = !flag }, "stream"},
		{"TRC_SEND_BUFFER=5", []string{"--send-buffer", "6"}, func(q *request, flag bool) { q.buf = 5 + btoi(flag) }, "stream"},
	}
	for i := range vars {
		for j := i; j < len(vars); j++ {
			for _, flag := range []bool{false, true} {
				for _, cmd := range []string{"search", "stream"} {
					if r.Over() {
						return
					}
					if vars[i].only != "" && vars[i].only != cmd || vars[j].only != "" && vars[j].only != cmd {
						continue
					}
					if flag && vars[j].flag == nil {
						continue
					}
					if cmd == "stream" && i != j && i > 0 {
						continue // each takes longer
					}
					q := request{limit: 10, depth: -1, path: "/", buf: 100}
					args := append([]string{}, uris...)
					if i == 0 {
						args = nil
					}
					for _, k := range []int{i, j} {
						if k == j && i == j && len(args) > 0 && args[len(args)-1] == vars[k].env {
							continue
						}
						if k == j && flag {
							args = append(args, vars[k].flag...)
						}
						args = append(args, vars[k].env)
						vars[k].apply(&q, k == j && flag)
					}
					if cmd == "search" {
						c22Search(r, ss, args, q.f, q.limit, q.depth, q.incReq, q.incStats, q.path)
					} else {
						q.f.IsFinished = !q.events
						c22Stream(r, ss, args, q.f, q.buf, true)
					}
				}
			}
		}
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}
