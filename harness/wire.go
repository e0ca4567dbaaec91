package main

import (
	"encoding/json"
	"fmt"
	"time"

	"github.com/peterbourgon/trc"
)

// The JSON forms, written down independently of the code under test.

func wireFilter(f trc.Filter) map[string]any {
	m := map[string]any{}
	if len(f.Sources) > 0 {
		m["sources"] = f.Sources
	}
	if len(f.IDs) > 0 {
		m["ids"] = f.IDs
	}
	if f.Category != "" {
		m["category"] = f.Category
	}
	if f.IsActive {
		m["is_active"] = true
	}
	if f.IsFinished {
		m["is_finished"] = true
	}
	if f.MinDuration != nil {
		m["min_duration"] = int64(*f.MinDuration)
	}
	if f.IsSuccess {
		m["is_success"] = true
	}
	if f.IsErrored {
		m["is_errored"] = true
	}
	if f.Query != "" {
		m["query"] = f.Query
	}
	return m
}

func wireRequest(req *trc.SearchRequest) []byte {
	m := map[string]any{"filter": wireFilter(req.Filter), "limit": req.Limit, "stack_depth": req.StackDepth}
	if len(req.Bucketing) > 0 {
		m["bucketing"] = req.Bucketing
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

type wireTrace struct {
	Source   string    `json:"source"`
	ID       string    `json:"id"`
	Category string    `json:"category"`
	Started  time.Time `json:"started"`
	Duration int64     `json:"duration"`
	Finished bool      `json:"finished"`
	Errored  bool      `json:"errored"`
	Events   []struct {
		When    time.Time `json:"when"`
		What    string    `json:"what"`
		IsError bool      `json:"is_error"`
		Stack   []struct {
			Function string `json:"function"`
			FileLine string `json:"fileline"`
		} `json:"stack"`
	} `json:"events"`
}

func (w *wireTrace) static() *trc.StaticTrace {
	st := &trc.StaticTrace{TraceSource: w.Source, TraceID: w.ID, TraceCategory: w.Category, TraceStarted: w.Started,
		TraceDuration: time.Duration(w.Duration), TraceFinished: w.Finished, TraceErrored: w.Errored}
	for _, e := range w.Events {
		ev := trc.Event{When: e.When, What: e.What, IsError: e.IsError}
		for _, f := range e.Stack {
			ev.Stack = append(ev.Stack, trc.Frame{Function: f.Function, FileLine: f.FileLine})
		}
		st.TraceEvents = append(st.TraceEvents, ev)
	}
	return st
}

type wireResponse struct {
	Sources    []string     `json:"sources"`
	TotalCount int          `json:"total_count"`
	MatchCount int          `json:"match_count"`
	Traces     []*wireTrace `json:"traces"`
	Problems   []string     `json:"problems"`
	Duration   int64        `json:"duration"`
	Stats      *struct {
		Bucketing  []int64 `json:"bucketing"`
		Categories map[string]*struct {
			Category     string    `json:"category"`
			EventCount   int       `json:"event_count"`
			ActiveCount  int       `json:"active_count"`
			BucketCounts []int     `json:"bucket_counts"`
			ErroredCount int       `json:"errored_count"`
			Oldest       time.Time `json:"oldest"`
			Newest       time.Time `json:"newest"`
		} `json:"categories"`
	} `json:"stats"`
}

func (w *wireResponse) response() *trc.SearchResponse {
	res := &trc.SearchResponse{Sources: w.Sources, TotalCount: w.TotalCount, MatchCount: w.MatchCount, Problems: w.Problems, Duration: time.Duration(w.Duration)}
	for _, t := range w.Traces {
		res.Traces = append(res.Traces, t.static())
	}
	if w.Stats != nil {
		res.Stats = &trc.SearchStats{Categories: map[string]*trc.CategoryStats{}}
		for _, b := range w.Stats.Bucketing {
			res.Stats.Bucketing = append(res.Stats.Bucketing, time.Duration(b))
		}
		for name, cs := range w.Stats.Categories {
			res.Stats.Categories[name] = &trc.CategoryStats{Category: cs.Category, EventCount: cs.EventCount, ActiveCount: cs.ActiveCount,
				BucketCounts: cs.BucketCounts, ErroredCount: cs.ErroredCount, Oldest: cs.Oldest, Newest: cs.Newest}
		}
	}
	return res
}

// wireSearchData decodes the body of a search response.
func wireSearchData(body []byte) (*trc.SearchResponse, error) {
	var data struct {
		Response *wireResponse `json:"response"`
	}
	if err := json.Unmarshal(body, &data); err != nil {
		return nil, err
	}
	if data.Response == nil {
		return nil, fmt.Errorf("no response in %s", clip(string(body), 100))
	}
	return data.Response.response(), nil
}
