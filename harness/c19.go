package main

import (
	"bytes"
	"context"
	"fmt"
	"log"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/zmc"
)

func init() {
	register("C19", c19Variants, "event text has no line breaks, except at the end of the format", "what is logged for calls after the finish, which are not events, is unspecified", "of concurrent events the order of the lines is unspecified")
}

// lineWriter is a destination of log lines.
type lineWriter struct {
	buf    bytes.Buffer
	writes int
}

func (w *lineWriter) Write(p []byte) (int, error) {
	w.writes++
	return w.buf.Write(p)
}

// freeTrace counts its frees.
type freeTrace struct {
	trc.Trace
	frees *int
}

func (f *freeTrace) Free() {
	*f.frees++
	if f, ok := f.Trace.(interface{ Free() }); ok {
		f.Free()
	}
}

var c19Decos = []string{"end", "log", "logger", "tag", "plain"}

// c19Stack builds a stack of decorators.
func c19Stack(stack []string, dst []*lineWriter, calls *[]string) []trc.DecoratorFunc {
	var out []trc.DecoratorFunc
	for i, s := range stack {
		i := i
		switch s {
		case "log":
			out = append(out, trc.LogDecorator(dst[i]))
		case "logger":
			out = append(out, trc.LoggerDecorator(log.New(dst[i], "", 0)))
		case "tag":
			out = append(out, func(tr trc.Trace) trc.Trace {
				*calls = append(*calls, fmt.Sprint(i, "new"))
				return &passTrace{Trace: tr, log: calls, tag: fmt.Sprint(i)}
			})
		case "plain":
			out = append(out, passDecorator)
		}
	}
	return out
}

var c19Places = []string{"new", "config", "set", "newtrace"}

func c19Variants(tier string) []*Variant {
	var vs []*Variant
	for _, race := range []bool{true, false} {
		race := race
		vs = append(vs, &Variant{Name: fmt.Sprintf("concurrent/race=%v", race), Race: race, Bound: quickThorough(tier, 2, 3), Body: func(x *X) { c19Concurrent(x) }})
	}
	for _, place := range c19Places {
		for first := range c19Decos {
			place, first := place, first
			vs = append(vs, &Variant{Name: fmt.Sprintf("stack/%s/%s", place, c19Decos[first]), Seq: true, Body: func(x *X) { c19Run(x, place, first, quickThorough(tier, 5, 6)) }})
		}
	}
	vs = append(vs, &Variant{Name: "long", Seq: true, Body: func(x *X) { c19Long(x, quickThorough(tier, 6, 7)) }})
	for i := 0; i < 3; i++ {
		i := i
		vs = append(vs, &Variant{Name: fmt.Sprintf("large/%d", i), Seq: true, Body: func(x *X) { c19Large(x, i) }})
	}
	vs = append(vs, &Variant{Name: "set", Seq: true, Body: c19Set})
	vs = append(vs, &Variant{Name: "same", Seq: true, Body: c19Same})
	vs = append(vs, &Variant{Name: "args", Seq: true, Body: c19Args})
	vs = append(vs, &Variant{Name: "text", Seq: true, Body: c19Text})
	return vs
}

// c19Log is the specification of the lines of a trace: what each line has to
// contain, in order.
type c19Line struct {
	has   []string
	iserr bool
	ends  string
}

func c19Check(out string, id string, want []c19Line) string {
	if out != "" && !strings.HasSuffix(out, "\n") {
		return fmt.Sprintf("output %q", out)
	}
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if len(lines) != len(want) {
		return fmt.Sprintf("lines %q, want %d", lines, len(want))
	}
	for i, l := range lines {
		if !strings.HasPrefix(l, id+" ") {
			return fmt.Sprintf("line %q, want it to start with %s", l, id)
		}
		l = l[len(id)+1:]
		for _, h := range want[i].has {
			if !strings.Contains(l, h) {
				return fmt.Sprintf("line %q, want %q in it", l, h)
			}
		}
		if !strings.HasSuffix(l, want[i].ends) {
			return fmt.Sprintf("line %q, want %q at the end", l, want[i].ends)
		}
		l = strings.TrimSuffix(l, want[i].ends)
		if strings.Contains(strings.ToLower(l), "error") != want[i].iserr {
			return fmt.Sprintf("line %q, want error %v", l, want[i].iserr)
		}
	}
	return ""
}

// c19Run: any stack of decorators at any place, any short sequence of calls.
func c19Run(x *X, place string, first, depth int) {
	trc.SetTraceStacks(false)
	var stack []string
	for i := 0; i < 3; i++ {
		k := first
		if i > 0 {
			k = x.Choose(len(c19Decos))
		}
		if k == 0 {
			break
		}
		stack = append(stack, c19Decos[k])
	}
	var calls []string
	dst := []*lineWriter{{}, {}, {}}
	decos := c19Stack(stack, dst, &calls)
	var c *trc.Collector
	frees := 0
	var sub *subscription
	mk := func() (context.Context, trc.Trace) {
		switch place {
		case "new":
			return trc.New(context.Background(), "s%d", "c%s", decos...)
		default:
			return c.NewTrace(context.Background(), "c%s")
		}
	}
	inner := func(tr trc.Trace) trc.Trace { return &freeTrace{tr, &frees} }
	newTrace := func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
		all := append([]trc.DecoratorFunc{inner}, ds...)
		if place == "newtrace" {
			all = append(append([]trc.DecoratorFunc{inner}, decos...), ds...)
		}
		return trc.New(ctx, source, category, all...)
	}
	switch place {
	case "config":
		c = trc.NewCollector(trc.CollectorConfig{Source: "s%d", Decorators: decos, NewTrace: newTrace})
	case "set":
		c = trc.NewCollector(trc.CollectorConfig{Decorators: []trc.DecoratorFunc{func(trc.Trace) trc.Trace { x.Failf("replaced decorator used"); return nil }}}).SetSourceName("s%d").SetNewTrace(newTrace).SetDecorators(decos...)
	case "newtrace":
		c = trc.NewCollector(trc.CollectorConfig{Source: "s%d", NewTrace: newTrace})
	}
	if c != nil {
		c.SetCategorySize(1)
		sub = subscribe(x, c, trc.Filter{}, 64)
		zmc.Idle()
	}
	m := &mTrace{source: "s%d", category: "c%s", start: x.Now()}
	ctx, tr := mk()
	id := tr.ID()
	if got, ok := trc.MaybeGet(ctx); !ok || got != tr {
		x.Failf("%v: another trace in the context", stack)
	}
	var lines []c19Line
	lines = append(lines, c19Line{has: []string{"s%d", "c%s"}})
	var want []string // calls of tags
	note := func(s string) {
		for i := len(stack) - 1; i >= 0; i-- {
			if stack[i] == "tag" {
				want = append(want, fmt.Sprint(i, s))
			}
		}
	}
	for i, s := range stack {
		if s == "tag" {
			want = append(want, fmt.Sprint(i, "new"))
		}
	}
	updates := 1
	for i := 0; i < depth && !m.finished; i++ {
		x.Advance(ms)
		k := x.Choose(6)
		switch k {
		case 0:
			i = depth
		case 1, 2, 3, 4:
			kk := kinds[k-1]
			emit(tr, kk, "e%d %s", i, "50%d")
			text := fmt.Sprintf("e%d 50%%d", i)
			m.add(kk, x.Now(), text)
			lines = append(lines, c19Line{has: []string{text}, ends: text, iserr: kk.iserr()})
			note(map[kind]string{kTrace: "T:" + text, kLazy: "L", kError: "E", kLazyError: "X"}[kk])
			updates++
		case 5:
			tr.Finish()
			m.finish(x.Now())
			outcome := "success"
			if m.errored {
				outcome = "errored"
			}
			lines = append(lines, c19Line{has: []string{outcome, m.dur.String()}, iserr: m.errored})
			note("F")
			updates++
		}
		if d := diffTrace(tr, m, x.Now()); d != "" {
			x.Failf("%s %v: %s", place, stack, d)
			return
		}
	}
	x.Advance(5 * ms)
	if d := diffTrace(tr, m, x.Now()); d != "" {
		x.Failf("%s %v: %s", place, stack, d)
		return
	}
	if tr.ID() != id {
		x.Failf("%s %v: ID changed", place, stack)
	}
	for i, s := range stack {
		if s == "log" || s == "logger" {
			if d := c19Check(dst[i].buf.String(), id, lines); d != "" {
				x.Failf("%s %v: %s", place, stack, d)
				return
			}
			if dst[i].writes != len(lines) {
				x.Failf("%s %v: %d writes for %d lines", place, stack, dst[i].writes, len(lines))
			}
		}
	}
	if !eqStrings(calls, want) {
		x.Failf("%s %v: calls %q, want %q", place, stack, calls, want)
	}
	if c != nil {
		res, _ := c.Search(context.Background(), &trc.SearchRequest{})
		if len(res.Traces) != 1 || res.Traces[0].TraceID != id {
			x.Failf("%s %v: %d traces found", place, stack, len(res.Traces))
			return
		}
		if d := snapOf(tr).diff(snapOf(res.Traces[0])); d != "" {
			x.Failf("%s %v: found %s", place, stack, d)
		}
		got := sub.drain()
		if len(got) != updates {
			x.Failf("%s %v: %d updates streamed, want %d", place, stack, len(got), updates)
		}
		for _, g := range got {
			if g.ID() != id || g.Source() != "s%d" || g.Category() != "c%s" {
				x.Failf("%s %v: streamed %+v", place, stack, g)
			}
		}
		if frees != 0 {
			x.Failf("%s %v: freed while collected", place, stack)
		}
		c.NewTrace(context.Background(), "c%s") // drops the first
		if frees != 1 {
			x.Failf("%s %v: freed %d times when dropped", place, stack, frees)
		}
		for i, s := range stack {
			if s == "log" || s == "logger" {
				if dst[i].writes != len(lines)+1 || strings.Count(dst[i].buf.String(), id) != len(lines) {
					x.Failf("%s %v: when dropped, the log became %q", place, stack, dst[i].buf.String())
				}
			}
		}
		sub.stop()
	}
	x.Outcome("%v %d %v", stack, len(m.events), m.finished)
}

// c19Long: longer sequences, with the log decorator at both places.
func c19Long(x *X, depth int) {
	trc.SetTraceStacks(false)
	dst := []*lineWriter{{}, {}}
	c := trc.NewCollector(trc.CollectorConfig{Decorators: []trc.DecoratorFunc{trc.LogDecorator(dst[0])}, NewTrace: func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
		return trc.New(ctx, source, category, append([]trc.DecoratorFunc{trc.LoggerDecorator(log.New(dst[1], "", 0))}, ds...)...)
	}})
	var lines []c19Line
	m := &mTrace{source: "default", category: "cat", start: x.Now()}
	ctx, tr := c.NewTrace(context.Background(), "cat")
	lines = append(lines, c19Line{has: []string{"default", "cat"}})
	for i := 0; i < depth; i++ {
		k := x.Choose(6)
		if k == 0 {
			break
		}
		x.Advance(ms)
		switch k {
		case 1, 2, 3, 4:
			kk := kinds[k-1]
			text := fmt.Sprintf("e%d", i)
			if i%2 == 0 {
				emit(tr, kk, "e%d\n", i)
				m.add(kk, x.Now(), text+"\n")
			} else {
				ezEmit(ctx, kk, "e%d", i)
				m.add(kk, x.Now(), text)
			}
			lines = append(lines, c19Line{has: []string{text}, ends: text, iserr: kk.iserr()})
		case 5:
			tr.Finish()
			m.finish(x.Now())
			outcome := "success"
			if m.errored {
				outcome = "errored"
			}
			lines = append(lines, c19Line{has: []string{outcome, m.dur.String()}, iserr: m.errored})
		}
		if k == 5 {
			break
		}
	}
	// The texts, apart from the line end.
	if got, want := whats(tr.Events()), m.texts(); strings.TrimSpace(strings.Join(got, "|")) != strings.TrimSpace(strings.Join(want, "|")) || tr.Errored() != m.errored || tr.Finished() != m.finished {
		x.Failf("events %q, want %q", got, want)
	}
	for i := range dst {
		if d := c19Check(dst[i].buf.String(), tr.ID(), lines); d != "" {
			x.Failf("log %d: %s", i, d)
		}
	}
	x.Outcome("%q", m.texts())
}

// c19Text: texts, categories and sources with special characters.
func c19Text(x *X) {
	trc.SetTraceStacks(false)
	strs := []string{"plain", "100%", "%d %s %!", "é世界", "a\tb", "", "[x] 'y' \"z\"", "ERROR: x", "started", "finished"}
	source := strs[x.Choose(5)]
	category := strs[x.Choose(7)]
	k := kinds[x.Choose(4)]
	text := strs[x.Choose(len(strs))]
	how := x.Choose(6)
	w := &lineWriter{}
	c := trc.NewCollector(trc.CollectorConfig{Source: source, Decorators: []trc.DecoratorFunc{trc.LogDecorator(w)}})
	ctx, tr := c.NewTrace(context.Background(), category)
	want := text
	switch how {
	case 0:
		emit(tr, k, "%s", text)
	case 1:
		_, p := trc.Prefix(ctx, "<%v>", 7)
		emit(p, k, "%s", text)
		want = "<7> " + text
	case 2:
		_, p, _ := trc.Region(ctx, "in %s")
		emit(p, k, "%s", text)
		want = "· " + text
	case 3:
		emit(tr, k, "  \tlead %s", text)
		want = "  \tlead " + text
	case 4:
		emit(tr, k, "%s trail \t ", text)
		want = text + " trail \t "
	case 5:
		emit(tr, k, strings.ReplaceAll(text, "%", "%%"))
	}
	evs := tr.Events()
	if evs[len(evs)-1].What != want || evs[len(evs)-1].IsError != k.iserr() {
		x.Failf("event %q, want %q", evs[len(evs)-1].What, want)
	}
	lines := []c19Line{{has: []string{source, category}}}
	if how == 2 {
		lines = append(lines, c19Line{ends: "→ in %s"})
	}
	lines = append(lines, c19Line{ends: want, iserr: k.iserr()})
	x.Advance(pickFrom(x, 0, 1234567, time.Hour))
	tr.Finish()
	lines = append(lines, c19Line{iserr: k.iserr()})
	if d := c19Check(w.buf.String(), tr.ID(), lines); d != "" {
		x.Failf("%v %q: %s", k, text, d)
	}
	x.Outcome("%q", w.buf.String()[26:])
}

// stepWriter is a destination for several goroutines.
type stepWriter struct {
	tok  chan struct{}
	text []byte
}

func (w *stepWriter) Write(p []byte) (int, error) {
	zmc.Recv[struct{}](w.tok)
	w.text = append(w.text, p...)
	zmc.SendTo(w.tok)(struct{}{})
	return len(p), nil
}

// c19Concurrent: concurrent events, each line is whole.
func c19Concurrent(x *X) {
	trc.SetTraceStacks(false)
	w := &stepWriter{tok: zmc.NameChan(make(chan struct{}, 1))}
	w.tok <- struct{}{}
	c := trc.NewCollector(trc.CollectorConfig{Decorators: []trc.DecoratorFunc{trc.LogDecorator(w)}})
	_, tr := c.NewTrace(context.Background(), "cat")
	var hs []*zmc.Handle
	for i := 0; i < 2; i++ {
		i := i
		hs = append(hs, x.Go(fmt.Sprint("t", i), func() {
			if i == 0 {
				tr.Tracef("a %d", i)
				tr.LazyErrorf("b %d", i)
			} else {
				tr.LazyTracef("c %d", i)
				_, tr2 := c.NewTrace(context.Background(), "other")
				tr2.Finish()
			}
		}))
	}
	for _, h := range hs {
		h.Join()
	}
	tr.Finish()
	n := 0
	id := tr.ID()
	var mine []string
	for _, l := range strings.Split(strings.TrimSuffix(string(w.text), "\n"), "\n") {
		n++
		if s, ok := strings.CutPrefix(l, id+" "); ok {
			mine = append(mine, s)
		}
	}
	if n != 7 || len(mine) != 5 || !strings.Contains(mine[0], "cat") || !strings.Contains(mine[4], "errored") {
		x.Failf("lines %q", w.text)
		return
	}
	for _, s := range []string{"a 0", "ERROR: b 0", "c 1"} {
		found := false
		for _, l := range mine {
			found = found || strings.HasSuffix(l, strings.TrimPrefix(s, "ERROR: ")) && strings.Contains(strings.ToLower(l), "error") == strings.HasPrefix(s, "ERROR")
		}
		if !found {
			x.Failf("lines %q, want %q", mine, s)
		}
	}
	if len(tr.Events()) != 3 || !tr.Errored() || !tr.Finished() {
		x.Failf("events %q", whats(tr.Events()))
	}
	x.Outcome("%q", mine)
}

// c19Same: several log decorators with one destination each write their lines.
func c19Same(x *X) {
	trc.SetTraceStacks(false)
	w := &lineWriter{}
	logger := log.New(w, "", 0)
	deco := func(k int) trc.DecoratorFunc {
		switch k {
		case 1:
			return trc.LogDecorator(w)
		case 2:
			return trc.LoggerDecorator(logger)
		}
		return passDecorator
	}
	var decos []trc.DecoratorFunc
	var stack []int
	n := 0
	shared := []trc.DecoratorFunc{passDecorator, deco(1), deco(2)}
	share := x.Bool()
	for i := 0; i < 3; i++ {
		k := x.Choose(3)
		stack = append(stack, k)
		if k > 0 {
			n++
		}
		if share {
			decos = append(decos, shared[k])
		} else {
			decos = append(decos, deco(k))
		}
	}
	var tr trc.Trace
	switch x.Choose(2) {
	case 0:
		_, tr = trc.New(context.Background(), "s", "c", decos...)
	case 1:
		_, tr = trc.NewCollector(trc.CollectorConfig{Source: "s", Decorators: decos}).NewTrace(context.Background(), "c")
	}
	k := kinds[x.Choose(4)]
	emit(tr, k, "text %d", 1)
	tr.Finish()
	if evs := tr.Events(); len(evs) != 1 || evs[0].What != "text 1" || evs[0].IsError != k.iserr() {
		x.Failf("%v: events %v", stack, evs)
	}
	var lines []c19Line
	for i := 0; i < n; i++ {
		lines = append(lines, c19Line{has: []string{"s", "c"}})
	}
	for i := 0; i < n; i++ {
		lines = append(lines, c19Line{ends: "text 1", iserr: k.iserr()})
	}
	for i := 0; i < n; i++ {
		lines = append(lines, c19Line{iserr: k.iserr()})
	}
	if n > 0 {
		if d := c19Check(w.buf.String(), tr.ID(), lines); d != "" {
			x.Failf("%v: %s", stack, d)
		}
	}
	x.Outcome("%v %v", stack, k)
}

// c19Set: each collector has its own decorators, also if they were given as the
// same list, and others are set for one of them.
func c19Set(x *X) {
	trc.SetTraceStacks(false)
	var calls []string
	tag := func(name string) trc.DecoratorFunc {
		return func(tr trc.Trace) trc.Trace {
			calls = append(calls, name)
			return &passTrace{Trace: tr}
		}
	}
	n := x.Choose(4)
	list := make([]trc.DecoratorFunc, 0, n+x.Choose(3))
	var names []string
	for i := 0; i < n; i++ {
		list = append(list, tag(fmt.Sprint("d", i)))
		names = append(names, fmt.Sprint("d", i))
	}
	mk := func() *trc.Collector {
		if x.Bool() {
			return trc.NewDefaultCollector().SetDecorators(list...)
		}
		return trc.NewCollector(trc.CollectorConfig{Decorators: list})
	}
	cs := []*trc.Collector{mk(), mk()}
	want := [][]string{names, names}
	var log opLog
	for k := x.Choose(3); k > 0; k-- {
		i, m := x.Choose(2), x.Choose(4)
		var ds []trc.DecoratorFunc
		var ns []string
		for j := 0; j < m; j++ {
			name := fmt.Sprintf("s%d.%d", k, j)
			ds = append(ds, tag(name))
			ns = append(ns, name)
		}
		log.add("%d of %d", m, i)
		cs[i].SetDecorators(ds...)
		want[i] = ns
		for j, c := range cs {
			calls = nil
			c.NewTrace(context.Background(), "c")
			if !eqStrings(calls, want[j]) {
				x.Failf("%d decorators, then %s: collector %d uses %q, want %q", n, log.String(), j, calls, want[j])
				return
			}
		}
	}
	calls = nil
	tr := trc.Trace(&trc.StaticTrace{})
	for _, d := range list {
		tr = d(tr)
	}
	if !eqStrings(calls, names) {
		x.Failf("%d decorators, then %s: the list given was changed", n, log.String())
	}
	x.Outcome("%d %s", n, log.String())
}
