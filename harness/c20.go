package main

import (
	"bytes"
	"context"
	"fmt"
	"log"
	"runtime"
	"strings"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"github.com/peterbourgon/trc/zmc"
)

func init() {
	register("C20", c20Variants, "any combination of up to 4 (thorough: 6) wrappers between the call and the trace, up to 30 of one kind; callers of the caller are checked for at most 4", "events that the library itself makes, other than those of regions, are not covered", "user defined decorators count as the user's own code")
}

// site is a place in the code.
type site struct{ function, fileline string }

// above returns the place one line above the one it is called at.
func above() site {
	pc, file, line, _ := runtime.Caller(1)
	return site{runtime.FuncForPC(pc).Name(), fmt.Sprintf("%s:%d", file, line-1)}
}

// here returns the place it is called at.
func here() site {
	pc, file, line, _ := runtime.Caller(1)
	return site{runtime.FuncForPC(pc).Name(), fmt.Sprintf("%s:%d", file, line)}
}

func (s site) is(f trc.Frame) bool { return f.Function == s.function && f.FileLine == s.fileline }

func c20Variants(tier string) []*Variant {
	var vs []*Variant
	for _, base := range c20Bases {
		for _, entry := range c20Entries {
			base, entry := base, entry
			vs = append(vs, &Variant{Name: fmt.Sprintf("wrap/%s/%s", base, entry), Seq: true, Body: func(x *X) { c20Run(x, base, entry, quickThorough(tier, 4, 6)) }})
		}
	}
	for _, base := range c20Bases {
		for _, entry := range c20Entries {
			base, entry := base, entry
			vs = append(vs, &Variant{Name: fmt.Sprintf("deep/%s/%s", base, entry), Seq: true, Body: func(x *X) { c20Run(x, base, entry, 0) }})
		}
	}
	vs = append(vs, &Variant{Name: "region", Seq: true, Body: c20Region})
	for i := 0; i < 16; i++ {
		i := i
		vs = append(vs, &Variant{Name: fmt.Sprint("setting/", i), Seq: true, Body: func(x *X) { c20Setting(x, i, quickThorough(tier, 3, 4)) }})
	}
	vs = append(vs, &Variant{Name: "stream", Seq: true, Body: c20Stream})
	return vs
}

var (
	c20Bases   = []string{"core", "core+log", "core+log+logger", "collector", "collector+log", "collector+log+logger", "ez", "ez+log"}
	c20Entries = []string{"method", "get", "ez", "value", "closure", "deferred", "goroutine", "generic", "recursive", "own method", "own function"}
)

type c20Env struct {
	ctx context.Context
	tr  trc.Trace
	n   int // library frames between the call and the trace, at most
}

func c20Make(base string) *c20Env {
	var buf bytes.Buffer
	e := &c20Env{}
	var ds []trc.DecoratorFunc
	for _, d := range strings.Split(base, "+")[1:] {
		switch d {
		case "log":
			ds = append(ds, trc.LogDecorator(&buf))
		case "logger":
			ds = append(ds, trc.LoggerDecorator(log.New(&buf, "", 0)))
		}
		e.n++
	}
	switch strings.Split(base, "+")[0] {
	case "core":
		e.ctx, e.tr = trc.New(context.Background(), "src", "cat", ds...)
	case "collector":
		e.ctx, e.tr = trc.NewCollector(trc.CollectorConfig{Decorators: ds}).NewTrace(context.Background(), "cat")
		e.n++
	case "ez":
		eztrc.Collector().SetDecorators(ds...)
		e.ctx, e.tr = eztrc.New(context.Background(), "cat")
		eztrc.Collector().SetDecorators()
		e.n++
	}
	return e
}

// c20Call makes an event, and returns where.
//
//go:noinline
func c20Call(e *c20Env, entry string, k kind) (s site, lineKnown bool) {
	switch entry {
	case "method":
		switch k {
		case kTrace:
			e.tr.Tracef("x %d", 1)
			s = above()
		case kLazy:
			e.tr.LazyTracef("x %d", 1)
			s = above()
		case kError:
			e.tr.Errorf("x %d", 1)
			s = above()
		case kLazyError:
			e.tr.LazyErrorf("x %d", 1)
			s = above()
		}
		return s, true
	case "get":
		switch k {
		case kTrace:
			trc.Get(e.ctx).Tracef("x")
			s = above()
		case kLazy:
			trc.Get(e.ctx).LazyTracef("x")
			s = above()
		case kError:
			trc.Get(e.ctx).Errorf("x")
			s = above()
		case kLazyError:
			trc.Get(e.ctx).LazyErrorf("x")
			s = above()
		}
		return s, true
	case "ez":
		switch k {
		case kTrace:
			eztrc.Tracef(e.ctx, "x")
			s = above()
		case kLazy:
			eztrc.LazyTracef(e.ctx, "x")
			s = above()
		case kError:
			eztrc.Errorf(e.ctx, "x")
			s = above()
		case kLazyError:
			eztrc.LazyErrorf(e.ctx, "x")
			s = above()
		}
		return s, true
	case "value":
		f := map[kind]func(string, ...any){kTrace: e.tr.Tracef, kLazy: e.tr.LazyTracef, kError: e.tr.Errorf, kLazyError: e.tr.LazyErrorf}[k]
		f("x")
		s = above()
		return s, true
	case "closure":
		func() {
			switch k {
			case kTrace:
				e.tr.Tracef("x")
				s = above()
			case kLazy:
				e.tr.LazyTracef("x")
				s = above()
			case kError:
				e.tr.Errorf("x")
				s = above()
			case kLazyError:
				e.tr.LazyErrorf("x")
				s = above()
			}
		}()
		return s, true
	case "deferred":
		s = here()
		switch k {
		case kTrace:
			defer e.tr.Tracef("x")
		case kLazy:
			defer e.tr.LazyTracef("x")
		case kError:
			defer e.tr.Errorf("x")
		case kLazyError:
			defer e.tr.LazyErrorf("x")
		}
		return s, false
	case "goroutine":
		h := zmc.Go("g", func() {
			e.tr.Tracef("x")
			s = above()
		})
		h.Join()
		return s, true
	case "generic":
		s = c20Generic(e.tr, k)
		return s, true
	case "recursive":
		return c20Recurse(e, k, 9)
	case "own method":
		l := c20Logger{e.tr}
		return map[kind]func() site{kTrace: l.Tracef, kLazy: l.LazyTracef, kError: l.Errorf, kLazyError: l.LazyErrorf}[k](), true
	case "own function":
		return map[kind]func(trc.Trace) site{kTrace: c20Tracef, kLazy: c20Region_LazyTracef, kError: Errorf, kLazyError: eztrc_LazyErrorf}[k](e.tr), true
	}
	panic(entry)
}

// User code with names that resemble the library's.
type c20Logger struct{ tr trc.Trace }

//go:noinline
func (l c20Logger) Tracef() site {
	l.tr.Tracef("x")
	return above()
}

//go:noinline
func (l c20Logger) LazyTracef() site {
	l.tr.LazyTracef("x")
	return above()
}

//go:noinline
func (l c20Logger) Errorf() site {
	l.tr.Errorf("x")
	return above()
}

//go:noinline
func (l c20Logger) LazyErrorf() site {
	l.tr.LazyErrorf("x")
	return above()
}

func c20Tracef(tr trc.Trace) site {
	tr.Tracef("x")
	return above()
}

func c20Region_LazyTracef(tr trc.Trace) site {
	tr.LazyTracef("x")
	return above()
}

func Errorf(tr trc.Trace) site {
	tr.Errorf("x")
	return above()
}

func eztrc_LazyErrorf(tr trc.Trace) site {
	tr.LazyErrorf("x")
	return above()
}

func c20Generic[T trc.Trace](tr T, k kind) (s site) {
	switch k {
	case kTrace:
		tr.Tracef("x")
		s = above()
	case kLazy:
		tr.LazyTracef("x")
		s = above()
	case kError:
		tr.Errorf("x")
		s = above()
	case kLazyError:
		tr.LazyErrorf("x")
		s = above()
	}
	return s
}

func c20Recurse(e *c20Env, k kind, n int) (s site, ok bool) {
	if n > 0 {
		return c20Recurse(e, k, n-1)
	}
	switch k {
	case kTrace:
		e.tr.Tracef("x")
		s = above()
	case kLazy:
		e.tr.LazyTracef("x")
		s = above()
	case kError:
		e.tr.Errorf("x")
		s = above()
	case kLazyError:
		e.tr.LazyErrorf("x")
		s = above()
	}
	return s, true
}

func internalFrame(f trc.Frame) bool {
	return strings.HasPrefix(f.Function, "github.com/peterbourgon/trc")
}

// c20Run: every way to call, through every combination of wrappers.
func c20Run(x *X, base, entry string, depth int) {
	e := c20Make(base)
	orig := e.tr
	var wraps []string
	if entry == "ez" {
		e.n++
	}
	for len(wraps) < depth {
		k := x.Choose(4)
		if k == 0 {
			break
		}
		switch k {
		case 1:
			e.ctx, e.tr = trc.Prefix(e.ctx, "p%d", 1)
			wraps = append(wraps, "prefix")
		case 2:
			e.ctx, e.tr, _ = trc.Region(e.ctx, "r")
			wraps = append(wraps, "region")
		case 3:
			e.ctx, e.tr = trc.Put(e.ctx, trc.LogDecorator(&bytes.Buffer{})(e.tr))
			wraps = append(wraps, "log")
		}
		e.n++
	}
	if depth == 0 {
		kind := x.Choose(3)
		for i := x.Choose(31); i > 0; i-- {
			switch kind {
			case 0:
				e.ctx, e.tr = trc.Prefix(e.ctx, "p")
			case 1:
				e.ctx, e.tr, _ = trc.Region(e.ctx, "r")
			case 2:
				e.ctx, e.tr = trc.Put(e.ctx, trc.LogDecorator(&bytes.Buffer{})(e.tr))
			}
			wraps = append(wraps, []string{"prefix", "region", "log"}[kind])
			e.n++
		}
	}
	k := kinds[x.Choose(4)]
	before := len(orig.Events())
	s, known := c20Call(e, entry, k)
	caller := here()
	what := fmt.Sprintf("%s %v %s %v", base, wraps, entry, k)
	evs := orig.Events()
	if len(evs) != before+1 {
		x.Failf("%s: %d events", what, len(evs)-before)
		return
	}
	st := evs[len(evs)-1].Stack
	if len(st) == 0 {
		x.Failf("%s: no stack", what)
		return
	}
	if st[0].Function != s.function || known && !s.is(st[0]) {
		x.Failf("%s: first frame %+v, want %+v", what, st[0], s)
		return
	}
	for i, f := range st {
		if internalFrame(f) && !strings.Contains(f.Function, "/zmc.") {
			x.Failf("%s: internal frame %d %+v", what, i, f)
		}
	}
	if e.n <= 4 && (entry == "method" || entry == "get" || entry == "ez" || entry == "value") {
		// 8 are recorded, less those of the wrappers and the last one.
		if len(st) < 2 || st[1].Function != caller.function || !sameFile(st[1].FileLine, caller.fileline) {
			x.Failf("%s: frames %+v, want caller %+v", what, st, caller)
		}
	}
	if entry == "recursive" && e.n <= 4 && (len(st) < 2 || st[1].Function != s.function) {
		x.Failf("%s: frames %+v", what, st)
	}
	// Reading again makes no difference, nor does it in a search.
	if !sameEvents(orig.Events(), evs) {
		x.Failf("%s: second reading differs", what)
	}
	x.Outcome("%s %d", what, len(st))
}

func sameFile(a, b string) bool {
	i, j := strings.LastIndex(a, ":"), strings.LastIndex(b, ":")
	return i > 0 && j > 0 && a[:i] == b[:j]
}

// c20Region: the events that regions make.
func c20Region(x *X) {
	e := c20Make(c20Bases[x.Choose(len(c20Bases))])
	orig := e.tr
	n := pickFrom(x, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15)
	prefix := x.Bool()
	for i := 0; i < n; i++ {
		e.n++
		if i < 4 && i > 0 {
			prefix = x.Bool()
		}
		if prefix {
			e.ctx, e.tr = trc.Prefix(e.ctx, "p")
		} else {
			e.ctx, e.tr, _ = trc.Region(e.ctx, "outer")
		}
	}
	var s1, s2 site
	var finish func()
	before := len(orig.Events())
	exact := true
	switch x.Choose(3) {
	case 0:
		_, _, finish = trc.Region(e.ctx, "r")
		s1 = above()
		finish()
		s2 = above()
	case 1:
		_, _, finish = eztrc.Region(e.ctx, "r")
		s1 = above()
		finish()
		s2 = above()
	case 2:
		exact = false
		func() {
			ctx, _, finish := eztrc.Region(e.ctx, "r")
			s1 = above()
			defer finish()
			_ = ctx
			s2 = here()
		}()
	}
	evs := orig.Events()[before:]
	if len(evs) != 2 {
		x.Failf("%d events", len(evs))
		return
	}
	if len(evs[0].Stack) == 0 || !s1.is(evs[0].Stack[0]) {
		x.Failf("entry: %+v, want %+v", evs[0].Stack, s1)
	}
	if len(evs[1].Stack) == 0 || evs[1].Stack[0].Function != s2.function || exact && !s2.is(evs[1].Stack[0]) {
		x.Failf("exit: %+v, want %+v", evs[1].Stack, s2)
	}
	for _, ev := range evs {
		for _, f := range ev.Stack {
			if internalFrame(f) && !strings.Contains(f.Function, "/zmc.") {
				x.Failf("internal frame %+v", f)
			}
		}
	}
	x.Outcome("%v", len(evs[1].Stack))
}

// c20Setting: stacks enabled or not as of the creation of the trace, with
// storage being recycled.
func c20Setting(x *X, first, depth int) {
	c := trc.NewDefaultCollector().SetCategorySize(1)
	for i := 0; i < depth; i++ {
		on, later := x.Bool(), x.Bool()
		if i == 0 {
			on, later = first&1 > 0, first&2 > 0
		}
		trc.SetTraceStacks(on)
		_, tr := c.NewTrace(context.Background(), "cat")
		trc.SetTraceStacks(later)
		read := x.Choose(3)
		var sites []site
		k := kind(first >> 2)
		if i > 0 {
			k = kind(x.Choose(4))
		}
		for j := 0; j < 2; j++ {
			switch k {
			case kTrace:
				tr.Tracef("e")
				sites = append(sites, above())
			case kLazy:
				tr.LazyTracef("e")
				sites = append(sites, above())
			case kError:
				tr.Errorf("e")
				sites = append(sites, above())
			case kLazyError:
				tr.LazyErrorf("e")
				sites = append(sites, above())
			}
			k = 3 - k
			if read == 1 {
				tr.Events()
			}
		}
		if read == 2 {
			c.Search(context.Background(), &trc.SearchRequest{StackDepth: pickFrom(x, 0, -1, 1)})
		}
		tr.Finish()
		evs := tr.Events()
		if len(evs) != 2 {
			x.Failf("%d events", len(evs))
			return
		}
		for j, ev := range evs {
			if !on && len(ev.Stack) != 0 {
				x.Failf("trace %d: created without, but event %d has stack %+v", i, j, ev.Stack)
			}
			if on && (len(ev.Stack) < 2 || !sites[j].is(ev.Stack[0])) {
				x.Failf("trace %d: event %d has stack %+v, want %+v", i, j, ev.Stack, sites[j])
			}
		}
		res, _ := c.Search(context.Background(), &trc.SearchRequest{})
		if len(res.Traces) != 1 {
			x.Failf("%d traces", len(res.Traces))
			return
		}
		if !sameEvents(res.Traces[0].TraceEvents, evs) {
			x.Failf("trace %d found: differs", i)
		}
		x.Outcome("%v %v %d", on, later, read)
	}
}

// c20Stream: streamed copies have no stacks, and the originals keep theirs.
func c20Stream(x *X) {
	impl := pickFrom(x, "core", "static", "own", "log", "wrapped")
	var tr trc.Trace
	c := trc.NewDefaultCollector()
	sub := subscribe(x, c, trc.Filter{}, 16)
	zmc.Idle()
	var buf bytes.Buffer
	if impl == "log" {
		c.SetDecorators(trc.LogDecorator(&buf))
	}
	_, tr = c.NewTrace(context.Background(), "cat")
	n := x.Choose(4)
	for i := 0; i < n; i++ {
		emit(tr, kinds[x.Choose(4)], "e%d", i)
	}
	if x.Bool() {
		tr.Finish()
	}
	switch impl {
	case "static":
		tr = &trc.StaticTrace{TraceID: tr.ID(), TraceEvents: tr.Events(), TraceFinished: tr.Finished()}
	case "own":
		tr = &ownTrace{Trace: tr}
	case "wrapped":
		tr = struct{ trc.Trace }{tr}
	}
	before := copyEvents(tr.Events())
	for _, ev := range before {
		if len(ev.Stack) == 0 {
			x.Failf("%s: no stack", impl)
		}
	}
	s := trc.NewStreamTrace(tr)
	for _, ev := range s.TraceEvents {
		if len(ev.Stack) != 0 {
			x.Failf("%s: streamed stack %+v", impl, ev.Stack)
		}
	}
	if !sameEvents(tr.Events(), before) {
		x.Failf("%s: original changed: differs", impl)
	}
	got := sub.drain()
	for _, g := range got {
		for _, ev := range g.Events() {
			if len(ev.Stack) != 0 {
				x.Failf("%s: streamed stack %+v", impl, ev.Stack)
			}
		}
	}
	if len(got) == 0 {
		x.Failf("%s: nothing streamed", impl)
	}
	sub.stop()
	x.Outcome("%s %d %d", impl, n, len(got))
}
