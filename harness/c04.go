package main

import (
	"context"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/zmc"
)

func init() {
	register("C04", c04Variants, "interleavings are enumerated at synchronization operations; executions of the race detecting binary justify that granularity")
}

// ---------------------------------------------------------------------------
// Linearizability of operations on one trace.

type hop struct {
	name     string // add, finish, events, finished, errored
	id       string
	iserr    bool
	inv, ret int
	list     []string // events
	flag     bool
}

func (o *hop) String() string {
	switch o.name {
	case "add":
		return fmt.Sprintf("[%d-%d add %s err=%v]", o.inv, o.ret, o.id, o.iserr)
	case "events":
		return fmt.Sprintf("[%d-%d events -> %v]", o.inv, o.ret, o.list)
	case "finish":
		return fmt.Sprintf("[%d-%d finish]", o.inv, o.ret)
	default:
		return fmt.Sprintf("[%d-%d %s -> %v]", o.inv, o.ret, o.name, o.flag)
	}
}

// linearizable searches for a sequential order of the operations.
func linearizable(ops []*hop) bool {
	type state struct {
		events            []string
		finished, errored bool
	}
	n := len(ops)
	dead := map[string]bool{}
	var rec func(mask uint32, st state) bool
	rec = func(mask uint32, st state) bool {
		if mask == 1<<uint(n)-1 {
			return true
		}
		key := fmt.Sprint(mask, st.events, st.finished, st.errored)
		if dead[key] {
			return false
		}
		minRet := 1 << 30
		for i, o := range ops {
			if mask&(1<<uint(i)) == 0 && o.ret < minRet {
				minRet = o.ret
			}
		}
		for i, o := range ops {
			if mask&(1<<uint(i)) != 0 || o.inv > minRet {
				continue
			}
			next := st
			ok := true
			switch o.name {
			case "add":
				if !st.finished {
					next.events = append(append([]string{}, st.events...), o.id)
					next.errored = st.errored || o.iserr
				}
			case "finish":
				next.finished = true
			case "events":
				ok = eqStrings(o.list, st.events)
			case "finished":
				ok = o.flag == st.finished
			case "errored":
				ok = o.flag == st.errored
			}
			if ok && rec(mask|1<<uint(i), next) {
				return true
			}
		}
		dead[key] = true
		return false
	}
	return rec(0, state{})
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// countArg renders differently each time.
type countArg struct{ n int }

func (c *countArg) String() string { c.n++; return fmt.Sprintf("#%d", c.n) }

// eventID extracts the ID from an event's text "... <id> #n".
func eventID(what string) (id, rest string) {
	f := strings.Fields(what)
	if len(f) < 2 {
		return what, ""
	}
	return f[len(f)-2], f[len(f)-1]
}

func c04Variants(tier string) []*Variant {
	var vs []*Variant
	forms := []string{"core", "collector", "collector+sub", "prefix", "log", "region", "pass"}
	b2 := quickThorough(tier, 2, 4)
	for _, form := range forms {
		form := form
		for first := 0; first < len(c04OpNames); first++ {
			first := first
			vs = append(vs, &Variant{Name: fmt.Sprintf("2x2/%s/first=%s", form, c04OpNames[first]), Bound: b2, Cfg: zmc.Config{Tick: time.Microsecond},
				Body: func(x *X) { c04Run(x, form, first, []int{2, 2}, false) }})
		}
	}
	for _, form := range []string{"core", "collector", "collector+sub", "prefix"} {
		form := form
		for first := 0; first < len(c04OpNames); first++ {
			first := first
			b3 := quickThorough(tier, 2, 3)
			vs = append(vs, &Variant{Name: fmt.Sprintf("3x1/%s/first=%s", form, c04OpNames[first]), Bound: b3,
				Body: func(x *X) { c04Run(x, form, first, []int{1, 1, 1}, false) }})
		}
	}
	for _, form := range []string{"core", "collector"} {
		form := form
		for first := 0; first < 3; first++ {
			first := first
			vs = append(vs, &Variant{Name: fmt.Sprintf("3x2/%s/first=%d", form, first), Bound: quickThorough(tier, 1, 2),
				Body: func(x *X) { c04Run(x, form, first, []int{2, 2, 2}, true) }})
		}
	}
	for _, form := range forms {
		form := form
		vs = append(vs, &Variant{Name: "race/" + form, Race: true, Bound: quickThorough(tier, 1, 2),
			Body: func(x *X) { c04Race(x, form) }})
	}
	return vs
}

var c04OpNames = []string{"Tracef", "LazyTracef", "Errorf", "LazyErrorf", "Finish", "Events", "Flags"}

type c04Thread struct {
	ops  []int
	hist []*hop
	evs  [][]trc.Event
	durs []c04Dur
}

// c04Dur is a duration read while the clock went from t0 to t1.
type c04Dur struct {
	t0, t1 time.Time
	d      time.Duration
	fin    bool // was finished before
}

func c04Subject(x *X, form string) (*subject, *subscription) {
	switch form {
	case "collector+sub":
		c := trc.NewDefaultCollector()
		sub := subscribe(x, c, trc.Filter{}, 64)
		zmc.Idle()
		s := &subject{name: form, c: c}
		s.ctx, s.base = c.NewTrace(context.Background(), "cat")
		s.tr = s.base
		s.all = []trc.Trace{s.base}
		s.model = &mTrace{}
		s.emit = func(k kind, format string, args ...any) { emit(s.tr, k, format, args...) }
		return s, sub
	case "log":
		s := &subject{name: form}
		s.c = trc.NewCollector(trc.CollectorConfig{Decorators: []trc.DecoratorFunc{trc.LogDecorator(io.Discard)}})
		s.ctx, s.base = s.c.NewTrace(context.Background(), "cat")
		s.tr = s.base
		s.all = []trc.Trace{s.base}
		s.model = &mTrace{}
		s.emit = func(k kind, format string, args ...any) { emit(s.tr, k, format, args...) }
		return s, nil
	default:
		return mkSubject(form, "src", "cat"), nil
	}
}

func c04Run(x *X, form string, first int, shape []int, reduced bool) {
	if len(shape) > 2 {
		trc.SetTraceStacks(false)
	}
	alphabet := []int{0, 1, 2, 3, 4, 5, 6}
	if reduced {
		alphabet = []int{2, 4, 5}
	}
	ths := make([]*c04Thread, len(shape))
	var log opLog
	for i := range shape {
		ths[i] = &c04Thread{}
		for j := 0; j < shape[i]; j++ {
			op := 0
			if i == 0 && j == 0 {
				op = alphabet[first]
			} else {
				op = alphabet[x.Choose(len(alphabet))]
			}
			ths[i].ops = append(ths[i].ops, op)
			log.add("T%d:%s", i, c04OpNames[op])
		}
	}
	s, sub := c04Subject(x, form)
	x.Advance(odd)
	initial := len(s.base.Events())
	var hs []*zmc.Handle
	for i := range ths {
		i := i
		hs = append(hs, x.Go(fmt.Sprintf("T%d", i), func() { c04Thread1(s, ths[i], i) }))
	}
	for _, h := range hs {
		h.Join()
	}
	if sub != nil {
		sub.stop()
	}
	// Final reads.
	last := &c04Thread{ops: []int{5, 6}}
	c04Thread1(s, last, 9)
	var all []*hop
	texts := map[string]string{}
	for _, th := range append(ths, last) {
		for _, o := range th.hist {
			all = append(all, o)
		}
		for _, evs := range th.evs {
			var prev time.Time
			if len(evs) < initial {
				x.Failf("%s: %s: initial events are missing from %q", form, log.String(), whats(evs))
				return
			}
			for _, ev := range evs[initial:] {
				id, rest := eventID(ev.What)
				if was, ok := texts[id]; ok && was != ev.What {
					x.Failf("%s: %s: event %s reads %q, and later %q", form, log.String(), id, was, ev.What)
				}
				texts[id] = ev.What
				if ev.When.Before(prev) || ev.When.Before(s.base.Started()) {
					x.Failf("%s: %s: event %q is before the previous one", form, log.String(), ev.What)
				}
				prev = ev.When
				if !strings.HasPrefix(ev.What, s.prefix) || !strings.HasPrefix(rest, "#") {
					x.Failf("%s: %s: event %q is malformed", form, log.String(), ev.What)
				}
				if strings.HasPrefix(id, "e") != ev.IsError {
					x.Failf("%s: %s: event %q has error %v", form, log.String(), ev.What, ev.IsError)
				}
			}
		}
	}
	// A duration is either the time since the start or the final one.
	final := last.durs[0].d
	if f0, f1 := ms, last.durs[0].t1.Sub(s.base.Started()); final < f0 || final > f1 {
		x.Failf("%s: %s: final duration %s, but %s to %s passed", form, log.String(), final, f0, f1)
	}
	for _, th := range ths {
		for _, d := range th.durs {
			since := d.d >= d.t0.Sub(s.base.Started()) && d.d <= d.t1.Sub(s.base.Started())
			if (!since || d.fin) && (d.d != final || !s.base.Finished()) {
				x.Failf("%s: %s: duration %s, but %s to %s passed, and the final one is %s", form, log.String(), d.d, d.t0.Sub(s.base.Started()), d.t1.Sub(s.base.Started()), final)
			}
		}
	}
	for _, o := range all {
		if o.name == "events" {
			o.list = o.list[initial:]
		}
	}
	if !linearizable(all) {
		var b []string
		for _, o := range all {
			b = append(b, o.String())
		}
		x.Failf("%s: %s: no sequential order explains %s", form, log.String(), strings.Join(b, " "))
	}
	var out []string
	for _, o := range all {
		if o.name == "events" {
			out = append(out, fmt.Sprint(o.list))
		}
	}
	x.Outcome("%s: %s -> %v", form, log.String(), out)
}

// c04Thread1 performs the operations of one thread. It only touches its own
// history, because race builds watch the harness, too.
func c04Thread1(s *subject, th *c04Thread, n int) {
	for j, op := range th.ops {
		switch {
		case op < 4:
			k := kinds[op]
			id := fmt.Sprintf("n%d%d", n, j)
			if k.iserr() {
				id = fmt.Sprintf("e%d%d", n, j)
			}
			o := &hop{name: "add", id: id, iserr: k.iserr(), inv: zmc.Steps()}
			s.emit(k, "%s %v", id, &countArg{})
			o.ret = zmc.Steps()
			th.hist = append(th.hist, o)
		case op == 4:
			o := &hop{name: "finish", inv: zmc.Steps()}
			s.tr.Finish()
			o.ret = zmc.Steps()
			th.hist = append(th.hist, o)
		case op == 5:
			o := &hop{name: "events", inv: zmc.Steps()}
			evs := s.tr.Events()
			o.ret = zmc.Steps()
			for _, ev := range evs {
				id, _ := eventID(ev.What)
				o.list = append(o.list, id)
			}
			th.evs = append(th.evs, evs)
			th.hist = append(th.hist, o)
		case op == 6:
			o := &hop{name: "finished", inv: zmc.Steps()}
			o.flag = s.tr.Finished()
			o.ret = zmc.Steps()
			d := c04Dur{t0: zmc.Peek(), fin: o.flag}
			d.d = s.tr.Duration()
			d.t1 = zmc.Peek()
			th.durs = append(th.durs, d)
			o2 := &hop{name: "errored", inv: zmc.Steps()}
			o2.flag = s.tr.Errored()
			o2.ret = zmc.Steps()
			th.hist = append(th.hist, o, o2)
		}
	}
}

// c04Race: every pair of methods, concurrently, under the race detector.
func c04Race(x *X, form string) {
	s, sub := c04Subject(x, form)
	s.emit(kLazy, "%s %v", "n0", "#1")
	methods := []func(tr trc.Trace){
		func(tr trc.Trace) { emit(tr, kTrace, "%s %v", "n1", "#1") },
		func(tr trc.Trace) { emit(tr, kLazy, "%s %v", "n1", "#1") },
		func(tr trc.Trace) { emit(tr, kError, "%s %v", "e1", "#1") },
		func(tr trc.Trace) { emit(tr, kLazyError, "%s %v", "e1", "#1") },
		func(tr trc.Trace) { tr.Finish() },
		func(tr trc.Trace) {
			for _, ev := range tr.Events() {
				for _, f := range ev.Stack {
					_ = f.CompactFileLine()
				}
			}
		},
		func(tr trc.Trace) { tr.Errored(); tr.Finished(); tr.Duration() },
		func(tr trc.Trace) { tr.ID(); tr.Source(); tr.Category(); tr.Started() },
		func(tr trc.Trace) { trc.NewSearchTrace(tr); trc.NewStreamTrace(tr) },
		func(tr trc.Trace) { trc.SetMaxEvents(tr, 12) },
		func(tr trc.Trace) {
			ctx, _ := trc.Put(context.Background(), tr)
			_, tr2 := trc.Prefix(ctx, "%d", 1)
			tr2.LazyTracef("x")
			_, _, fin := trc.Region(ctx, "r")
			fin()
		},
	}
	a := x.Choose(len(methods))
	b := a + x.Choose(len(methods)-a)
	h1 := x.Go("T1", func() { methods[a](s.tr); methods[5](s.tr) })
	h2 := x.Go("T2", func() { methods[b](s.tr) })
	h1.Join()
	h2.Join()
	if sub != nil {
		sub.stop()
	}
	x.Outcome("%s %d %d %d", form, a, b, len(s.tr.Events()))
}
