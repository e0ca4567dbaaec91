package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"github.com/peterbourgon/trc/zmc"
)

var _ = errors.Is

const (
	ms  = time.Millisecond
	odd = ms + 3*time.Nanosecond
)

// ---------------------------------------------------------------------------
// Event calls.

type kind int

const (
	kTrace kind = iota
	kLazy
	kError
	kLazyError
)

var kinds = []kind{kTrace, kLazy, kError, kLazyError}

func (k kind) String() string { return [...]string{"Tracef", "LazyTracef", "Errorf", "LazyErrorf"}[k] }
func (k kind) lazy() bool     { return k == kLazy || k == kLazyError }
func (k kind) iserr() bool    { return k == kError || k == kLazyError }

func emit(tr trc.Trace, k kind, format string, args ...any) {
	switch k {
	case kTrace:
		tr.Tracef(format, args...)
	case kLazy:
		tr.LazyTracef(format, args...)
	case kError:
		tr.Errorf(format, args...)
	case kLazyError:
		tr.LazyErrorf(format, args...)
	}
}

func ezEmit(ctx context.Context, k kind, format string, args ...any) {
	switch k {
	case kTrace:
		eztrc.Tracef(ctx, format, args...)
	case kLazy:
		eztrc.LazyTracef(ctx, format, args...)
	case kError:
		eztrc.Errorf(ctx, format, args...)
	case kLazyError:
		eztrc.LazyErrorf(ctx, format, args...)
	}
}

// ---------------------------------------------------------------------------
// Model of a trace.

type mEvent struct {
	text  string
	iserr bool
	when  time.Time
	lazy  func() string // not yet rendered
}

type mTrace struct {
	source, category string
	start            time.Time
	events           []mEvent
	errored          bool
	finished         bool
	dur              time.Duration
}

func (m *mTrace) add(k kind, now time.Time, text string) {
	if m.finished {
		return
	}
	m.events = append(m.events, mEvent{text: text, iserr: k.iserr(), when: now})
	if k.iserr() {
		m.errored = true
	}
}

func (m *mTrace) finish(now time.Time) {
	if !m.finished {
		m.finished = true
		m.dur = now.Sub(m.start)
	}
}

func (m *mTrace) duration(now time.Time) time.Duration {
	if m.finished {
		return m.dur
	}
	return now.Sub(m.start)
}

// render lazy events, as a read does.
func (m *mTrace) render() {
	for i := range m.events {
		if f := m.events[i].lazy; f != nil {
			m.events[i].text = f()
			m.events[i].lazy = nil
		}
	}
}

func (m *mTrace) clone() *mTrace {
	c := *m
	c.events = append([]mEvent(nil), m.events...)
	return &c
}

func (m *mTrace) texts() []string {
	var out []string
	for _, e := range m.events {
		out = append(out, e.text)
	}
	return out
}

// diffEvents compares actual events with the model's.
func diffEvents(got []trc.Event, want []mEvent) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d events %q, want %d %q", len(got), whats(got), len(want), mwhats(want))
	}
	for i, e := range got {
		w := want[i]
		if e.What != w.text {
			return fmt.Sprintf("event %d is %q, want %q", i, e.What, w.text)
		}
		if e.IsError != w.iserr {
			return fmt.Sprintf("event %d (%q) IsError %v, want %v", i, e.What, e.IsError, w.iserr)
		}
		if !w.when.IsZero() && !e.When.Equal(w.when) {
			return fmt.Sprintf("event %d (%q) at %v, want %v", i, e.What, e.When, w.when)
		}
	}
	return ""
}

func whats(evs []trc.Event) []string {
	out := make([]string, len(evs))
	for i := range evs {
		out[i] = evs[i].What
	}
	return out
}

func mwhats(evs []mEvent) []string {
	out := make([]string, len(evs))
	for i := range evs {
		out[i] = evs[i].text
	}
	return out
}

// diffTrace compares everything readable of tr with the model at time now.
func diffTrace(tr trc.Trace, m *mTrace, now time.Time) string {
	if got := tr.Source(); got != m.source {
		return fmt.Sprintf("source %q, want %q", got, m.source)
	}
	if got := tr.Category(); got != m.category {
		return fmt.Sprintf("category %q, want %q", got, m.category)
	}
	if got := tr.Started(); !got.Equal(m.start) {
		return fmt.Sprintf("started %v, want %v", got, m.start)
	}
	if got := tr.Finished(); got != m.finished {
		return fmt.Sprintf("finished %v, want %v", got, m.finished)
	}
	if got := tr.Errored(); got != m.errored {
		return fmt.Sprintf("errored %v, want %v", got, m.errored)
	}
	if got := tr.Duration(); got != m.duration(now) {
		return fmt.Sprintf("duration %v, want %v", got, m.duration(now))
	}
	m.render()
	return diffEvents(tr.Events(), m.events)
}

// ---------------------------------------------------------------------------
// Subjects: ways to get at a trace.

type subject struct {
	name   string
	ctx    context.Context
	tr     trc.Trace // made through this
	base   trc.Trace // what the underlying constructor returned
	all    []trc.Trace
	model  *mTrace
	prefix string // text prepended to events made through tr
	c      *trc.Collector
	emit   func(k kind, format string, args ...any)
	log    *bytes.Buffer
	finish func() // region finish
}

// passTrace is a user's decorator that only passes calls on.
type passTrace struct {
	trc.Trace
	log *[]string
	tag string
}

func (p *passTrace) note(s string) {
	if p.log != nil {
		*p.log = append(*p.log, p.tag+s)
	}
}
func (p *passTrace) Tracef(format string, args ...any) {
	p.note("T:" + fmt.Sprintf(format, args...))
	p.Trace.Tracef(format, args...)
}
func (p *passTrace) LazyTracef(format string, args ...any) {
	p.note("L")
	p.Trace.LazyTracef(format, args...)
}
func (p *passTrace) Errorf(format string, args ...any) {
	p.note("E")
	p.Trace.Errorf(format, args...)
}
func (p *passTrace) LazyErrorf(format string, args ...any) {
	p.note("X")
	p.Trace.LazyErrorf(format, args...)
}
func (p *passTrace) Finish() { p.note("F"); p.Trace.Finish() }
func (p *passTrace) Free() {
	if f, ok := p.Trace.(interface{ Free() }); ok {
		f.Free()
	}
}

func passDecorator(tr trc.Trace) trc.Trace { return &passTrace{Trace: tr} }

var formNames = []string{"core", "collector", "prefix", "region", "log", "pass", "ez", "deep"}

// mkSubject creates a trace in one of the forms. The model contains whatever
// events the creation itself makes.
func mkSubject(form, source, category string) *subject {
	s := &subject{name: form}
	ctx := context.Background()
	now := zmc.Peek()
	switch form {
	case "core":
		s.ctx, s.base = trc.New(ctx, source, category)
		s.tr = s.base
	case "collector":
		s.c = trc.NewCollector(trc.CollectorConfig{Source: source})
		s.ctx, s.base = s.c.NewTrace(ctx, category)
		s.tr = s.base
	case "log":
		s.log = &bytes.Buffer{}
		s.c = trc.NewCollector(trc.CollectorConfig{Source: source, Decorators: []trc.DecoratorFunc{trc.LogDecorator(s.log)}})
		s.ctx, s.base = s.c.NewTrace(ctx, category)
		s.tr = s.base
	case "pass":
		s.ctx, s.base = trc.New(ctx, source, category, passDecorator, passDecorator)
		s.tr = s.base
	case "prefix":
		s.c = trc.NewCollector(trc.CollectorConfig{Source: source})
		s.ctx, s.base = s.c.NewTrace(ctx, category)
		s.ctx, s.tr = trc.Prefix(s.ctx, "<%s|%d>", "p", 3)
		s.prefix = "<p|3> "
	case "region":
		s.c = trc.NewCollector(trc.CollectorConfig{Source: source})
		s.ctx, s.base = s.c.NewTrace(ctx, category)
		s.ctx, s.tr, s.finish = trc.Region(s.ctx, "reg")
		s.prefix = "· "
	case "ez":
		s.c = eztrc.Collector()
		s.c.SetSourceName(source)
		s.ctx, s.base = eztrc.New(ctx, category)
		s.tr = eztrc.Get(s.ctx)
		s.emit = func(k kind, format string, args ...any) { ezEmit(s.ctx, k, format, args...) }
	case "deep":
		s.log = &bytes.Buffer{}
		s.c = trc.NewCollector(trc.CollectorConfig{Source: source, Decorators: []trc.DecoratorFunc{passDecorator, trc.LogDecorator(s.log)}})
		s.ctx, s.base = s.c.NewTrace(ctx, category)
		s.ctx, _ = trc.Prefix(s.ctx, "a")
		s.ctx, s.tr = trc.Prefix(s.ctx, "b%d", 2)
		s.prefix = "a b2 "
	default:
		panic("unknown form " + form)
	}
	s.all = []trc.Trace{s.base}
	if s.tr != s.base {
		s.all = append(s.all, s.tr)
	}
	if s.emit == nil {
		s.emit = func(k kind, format string, args ...any) { emit(s.tr, k, format, args...) }
	}
	s.model = &mTrace{source: source, category: category, start: now}
	if form == "region" {
		s.model.add(kLazy, now, "→ reg")
	}
	if s.c != nil && source == "" && form != "ez" {
		s.model.source = "default"
	}
	return s
}

// call makes a plain event call and records it in the model.
func (s *subject) call(k kind, format string, args ...any) {
	s.emit(k, format, args...)
	s.model.add(k, zmc.Peek(), s.prefix+fmt.Sprintf(format, args...))
}

// ---------------------------------------------------------------------------
// Subscriptions in controlled executions.

type streamer interface {
	Stream(ctx context.Context, f trc.Filter, ch chan<- trc.Trace) (trc.StreamStats, error)
	StreamStats(ctx context.Context, ch chan<- trc.Trace) (trc.StreamStats, error)
}

type subscription struct {
	ch     chan trc.Trace
	ctx    context.Context
	cancel func()
	h      *zmc.Handle
	stats  trc.StreamStats
	err    error
}

// subscribe starts a thread that streams until cancelled.
func subscribe(x *X, st streamer, f trc.Filter, capacity int) *subscription {
	ctx, cancel := context.WithCancel(context.Background())
	s := &subscription{ch: zmc.NameChan(make(chan trc.Trace, capacity)), ctx: ctx, cancel: cancel}
	s.h = x.Go("sub", func() { s.stats, s.err = st.Stream(ctx, f, s.ch) })
	return s
}

// stop cancels the subscription and waits for Stream to return.
func (s *subscription) stop() {
	s.cancelIt()
	s.h.Join()
}

// cancelIt cancels the subscription, as a step of its own.
func (s *subscription) cancelIt() {
	d := s.ctx.Done()
	zmc.PointAddr(*(*unsafe.Pointer)(unsafe.Pointer(&d)), zmc.KClose)
	s.cancel()
}

// drain takes what is in the channel.
func (s *subscription) drain() []trc.Trace {
	var out []trc.Trace
	for {
		rc := zmc.RecvCase[trc.Trace](s.ch)
		if zmc.Select(true, rc) != 0 {
			return out
		}
		out = append(out, rc.Val)
	}
}

// ---------------------------------------------------------------------------
// Snapshots.

type snap struct {
	id, source, category string
	started              time.Time
	dur                  time.Duration
	finished, errored    bool
	events               []trc.Event
}

func copyEvents(evs []trc.Event) []trc.Event {
	out := make([]trc.Event, len(evs))
	for i, e := range evs {
		out[i] = e
		out[i].What = strings.Clone(e.What)
		if e.Stack != nil {
			out[i].Stack = append([]trc.Frame{}, e.Stack...)
			for j := range out[i].Stack {
				out[i].Stack[j].Function = strings.Clone(out[i].Stack[j].Function)
				out[i].Stack[j].FileLine = strings.Clone(out[i].Stack[j].FileLine)
			}
		}
	}
	return out
}

func snapOf(tr trc.Trace) *snap {
	return &snap{
		id: tr.ID(), source: tr.Source(), category: tr.Category(), started: tr.Started(),
		dur: tr.Duration(), finished: tr.Finished(), errored: tr.Errored(), events: copyEvents(tr.Events()),
	}
}

func sameEvents(a, b []trc.Event) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].What != b[i].What || a[i].IsError != b[i].IsError || !a[i].When.Equal(b[i].When) || len(a[i].Stack) != len(b[i].Stack) {
			return false
		}
		for j := range a[i].Stack {
			if a[i].Stack[j] != b[i].Stack[j] {
				return false
			}
		}
	}
	return true
}

func (a *snap) diff(b *snap) string {
	switch {
	case a.id != b.id:
		return fmt.Sprintf("ID %s became %s", a.id, b.id)
	case a.source != b.source:
		return fmt.Sprintf("source %q became %q", a.source, b.source)
	case a.category != b.category:
		return fmt.Sprintf("category %q became %q", a.category, b.category)
	case !a.started.Equal(b.started):
		return fmt.Sprintf("started %v became %v", a.started, b.started)
	case a.dur != b.dur:
		return fmt.Sprintf("duration %v became %v", a.dur, b.dur)
	case a.finished != b.finished:
		return fmt.Sprintf("finished %v became %v", a.finished, b.finished)
	case a.errored != b.errored:
		return fmt.Sprintf("errored %v became %v", a.errored, b.errored)
	case !sameEvents(a.events, b.events):
		return fmt.Sprintf("events %s became %s", evString(a.events), evString(b.events))
	}
	return ""
}

func evString(evs []trc.Event) string {
	var b strings.Builder
	for _, e := range evs {
		fmt.Fprintf(&b, "[%q err=%v", e.What, e.IsError)
		for _, f := range e.Stack {
			fmt.Fprintf(&b, " %s", f.Function)
		}
		b.WriteString("]")
	}
	return b.String()
}

func timeDur(n int64) time.Duration { return time.Duration(n) }

func deepEq(a, b any) bool { return reflect.DeepEqual(a, b) }

// names of chosen operations, for messages.
type opLog struct{ b []string }

func (o *opLog) add(format string, args ...any) { o.b = append(o.b, fmt.Sprintf(format, args...)) }
func (o *opLog) String() string                 { return strings.Join(o.b, "; ") }

func quickThorough(tier string, q, t int) int {
	if tier == "thorough" {
		return t
	}
	return q
}

func discardLog() *log.Logger { return log.New(io.Discard, "", 0) }
