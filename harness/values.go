package main

// Filters with unusual values, over every form of transport.

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"github.com/peterbourgon/trc/zmc"
)

var oddStrings = []string{
	"a", "A", " a", "a ", "  ", "\ta", "a\n", "\r\n", "a b", "+", "a+b", "%", "%41", "%%", "%2B", "a,b", ",", ";", "a;b", "a=b", "=", "&", "a&b", "?", "#", "/", "//x", "..", ".", "*", "|", "(", ")", "[a]", "{1}", "^", "$", "\\", "\\d", "'", "\"", "`", "<b>", "&amp;", "&lt;",
	"null", "true", "false", "0", "-1", "nil", "overall", "all", "é", "é", "ß", "\u00a0", "\u2028", "\ufeff", "\U0001F600", "日本", "\x00", "\x7f", "http://x/?y=z", "[", "a]",
}

// oddFilter is a filter with one unusual field.
func oddFilter(x *X) trc.Filter {
	var f trc.Filter
	field := x.Choose(5)
	if field == 4 {
		f.MinDuration = durp(pickFrom(x, 1, 10, 999, 1000, 1001, 123456, 1000000, 1000001, 999999999, 1500*ms, time.Minute, 61*time.Second+1, time.Hour, 25*time.Hour+1, 1<<62, 1<<63-1, -1, -1<<63, 0))
		return f
	}
	s := oddStrings[x.Choose(len(oddStrings))]
	switch x.Choose(4) {
	case 0: // as it is
	case 1:
		s = "x" + s + "y"
	case 2:
		s = s + s
	case 3:
		s = strings.Repeat(s, 600/len(s)+1)
	}
	switch field {
	case 0:
		f.Sources = pickFrom(x, []string{s}, []string{"b", s}, []string{s, "b", "c"})
	case 1:
		f.IDs = pickFrom(x, []string{s}, []string{"b", s}, []string{s, "b", "c"})
	case 2:
		f.Category = s
	case 3:
		if x.Bool() {
			s = regexp.QuoteMeta(s)
		}
		if _, err := regexp.Compile(s); err != nil {
			s = "a"
		}
		f.Query = s
	}
	return f
}

// values encodes a filter as URL parameters.
func values(f trc.Filter) url.Values {
	v := url.Values{}
	for _, s := range f.Sources {
		v.Add("source", s)
	}
	for _, s := range f.IDs {
		v.Add("id", s)
	}
	if f.Category != "" {
		v.Set("category", f.Category)
	}
	if f.MinDuration != nil {
		v.Set("min", f.MinDuration.String())
	}
	if f.Query != "" {
		v.Set("q", f.Query)
	}
	return v
}

type reqRec struct{ reqs []trc.SearchRequest }

func (s *reqRec) Search(_ context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	s.reqs = append(s.reqs, *req)
	return &trc.SearchResponse{}, nil
}

// c15Values: what the searcher is asked for.
func c15Values(x *X) {
	f := oddFilter(x)
	s := &reqRec{}
	h := &trcweb.TraceServer{Searcher: s, Collector: trc.NewDefaultCollector()}
	form := x.Choose(3)
	switch form {
	case 0:
		_, err := trcweb.NewSearchClient(scriptClient(func(r *http.Request) (*http.Response, error) {
			rec := httptest.NewRecorder()
			sr := httptest.NewRequest(r.Method, r.URL.RequestURI(), r.Body)
			sr.Header = r.Header.Clone()
			h.ServeHTTP(rec, sr)
			return rec.Result(), nil
		}), "example.com").Search(context.Background(), &trc.SearchRequest{Filter: f})
		if err != nil {
			x.Failf("%s: %v", f, err)
			return
		}
	case 1:
		h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/?"+values(f).Encode(), nil))
	case 2:
		r := httptest.NewRequest("GET", "/?"+values(f).Encode(), nil)
		r.Header.Set("accept", "text/html")
		h.ServeHTTP(httptest.NewRecorder(), r)
	}
	if len(s.reqs) != 1 {
		x.Failf("form %d, %s: %d searches", form, f, len(s.reqs))
		return
	}
	if d := filterDiff(s.reqs[0].Filter, f); d != "" {
		x.Failf("form %d: %s", form, d)
	}
	x.Outcome("%d %s", form, f)
}

// c16Values: what is subscribed with.
func c16Values(x *X) {
	f := oddFilter(x)
	var sr *http.Request
	form := x.Choose(3)
	switch form {
	case 0:
		http.DefaultClient.Transport = roundTrip(func(r *http.Request) (*http.Response, error) {
			sr = httptest.NewRequest(r.Method, r.URL.RequestURI(), nil)
			sr.Header = r.Header.Clone()
			return &http.Response{StatusCode: 204, Status: "204 No Content", Body: http.NoBody, Header: http.Header{}, Request: r}, nil
		})
		ctx, cancel := context.WithCancel(context.Background())
		err := trcweb.NewStreamClient("example.com/s").Stream(ctx, f, nil)
		ctxCancel(ctx, cancel)
		if err != nil || sr == nil {
			x.Failf("client: %v", err)
			return
		}
	case 1:
		sr = httptest.NewRequest("GET", "/?"+values(f).Encode(), nil)
		sr.Header.Set("accept", "text/event-stream")
	case 2:
		b, _ := json.Marshal(f)
		sr = httptest.NewRequest("GET", "/", bytes.NewReader(b))
		sr.Header.Set("content-type", "application/json")
		sr.Header.Set("accept", "text/event-stream")
	}
	ctx, cancel := context.WithCancel(context.Background())
	stub := &streamStub{}
	h := x.Go("handler", func() {
		(&trcweb.TraceServer{Streamer: stub, Searcher: &canned{nil, errors.New("no")}}).ServeHTTP(&sseWriter{header: http.Header{}}, sr.WithContext(ctx))
	})
	zmc.Idle()
	ctxCancel(ctx, cancel)
	h.Join()
	if stub.calls != 1 {
		x.Failf("form %d, %s: %d subscriptions", form, f, stub.calls)
		return
	}
	if d := filterDiff(stub.filter, f); d != "" {
		x.Failf("form %d: %s", form, d)
	}
	x.Outcome("%d %s", form, f)
}

// c22Values: filter flags with unusual values.
func c22Values(r *Real, part int, tier string) {
	ss, uris, stop := c22Servers("up")
	defer stop()
	i := 0
	for _, s := range oddStrings {
		if strings.Contains(s, "\x00") {
			continue // cannot be an argument
		}
		for _, s := range []string{s, "x" + s + "y", s + s} {
			q := s
			if _, err := regexp.Compile(q); err != nil {
				q = regexp.QuoteMeta(s)
			}
			args := []string{"--source", s, "--source=b", "-i", s, "--id", "c", "-c", s, "-q", q}
			f := trc.Filter{Sources: []string{s, "b"}, IDs: []string{s, "c"}, Category: s, Query: q}
			if s == "b" || s == "c" || strings.HasPrefix(s, "-") {
				args = []string{"--category=" + s}
				f = trc.Filter{Category: s}
			}
			if i++; i%4 != part || r.Over() {
				continue
			}
			c22Search(r, ss, append(append([]string{}, uris...), args...), f, 10, -1, false, false, "/")
			if tier == "thorough" || i%16 == part {
				f.IsFinished = true
				c22Stream(r, ss, append(append([]string{}, uris...), args...), f, 100, true)
			}
		}
	}
	for _, d := range []time.Duration{1, 999, 1000, 1001, 123456, 1000000, 999999999, 61*time.Second + 1, 25*time.Hour + 1, 1<<63 - 1} {
		if i++; i%4 != part || r.Over() {
			continue
		}
		c22Search(r, ss, append(append([]string{}, uris...), "-d", d.String()), trc.Filter{MinDuration: durp(d)}, 10, -1, false, false, "/")
		c22Stream(r, ss, append(append([]string{}, uris...), "--duration="+fmt.Sprint(d)), trc.Filter{MinDuration: durp(d), IsFinished: true}, 100, true)
	}
}
