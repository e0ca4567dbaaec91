package main

import (
	"context"
	"fmt"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/zmc"
)

func init() {
	register("C03", c03Variants, "the timestamp of the truncation entry, which is the time of the reading, is not part of the frozen state")
}

func c03Variants(tier string) []*Variant {
	var vs []*Variant
	pre, post := quickThorough(tier, 2, 3), quickThorough(tier, 3, 4)
	for _, form := range formNames {
		for first := 0; first < c03Ops; first++ {
			form, first := form, first
			vs = append(vs, &Variant{Name: fmt.Sprintf("freeze/%s/first=%d", form, first), Seq: true, Body: func(x *X) { c03Freeze(x, form, first, pre, post) }})
		}
	}
	for _, form := range formNames {
		form := form
		vs = append(vs, &Variant{Name: "settings/" + form, Seq: true, Body: func(x *X) { c03Settings(x, form) }})
	}
	vs = append(vs, &Variant{Name: "static", Seq: true, Body: c03Static})
	vs = append(vs, &Variant{Name: "durations", Seq: true, Body: c03Durations})
	for _, form := range []string{"collector", "prefix", "region", "log", "deep", "ez"} {
		form := form
		vs = append(vs, &Variant{Name: "stream/" + form, Body: func(x *X) { c03Stream(x, form, quickThorough(tier, 2, 3)) }})
	}
	return vs
}

const c03Ops = 4 + 1 + 1 + 1

func c03Op(x *X, s *subject, op int, log *opLog, n int) {
	switch {
	case op < 4:
		log.add("%v", kinds[op])
		s.call(kinds[op], "e%d", n)
	case op == 4:
		log.add("advance")
		x.Advance(2 * odd)
	case op == 5:
		log.add("read")
		s.tr.Events()
	case op == 6:
		log.add("nested")
		// Any further way to get at the trace.
		ctx2, tr2 := trc.Prefix(s.ctx, "q")
		emit(tr2, kError, "nested")
		s.model.add(kError, zmc.Peek(), s.prefix+"q nested")
		_, _, fin := trc.Region(ctx2, "r")
		s.model.add(kLazy, zmc.Peek(), s.prefix+"q → r")
		fin()
		s.model.add(kLazy, zmc.Peek(), s.prefix+"q ← r [0s]")
		if s.c != nil {
			s.c.NewTrace(s.ctx, "sub")
			s.model.add(kLazy, zmc.Peek(), s.prefix+"(+ sub)")
		}
	}
}

func c03Freeze(x *X, form string, first, pre, post int) {
	if x.Bool() {
		trc.SetTraceMaxEvents(10) // with truncation
	}
	s := mkSubject(form, "src", "cat")
	if x.Bool() {
		for i := 0; i < 9; i++ {
			s.call(kTrace, "fill")
		}
	}
	var log opLog
	check := func() bool {
		for i, tr := range s.all {
			if got := tr.Finished(); got != s.model.finished {
				x.Failf("%s: after %s: handle %d: finished %v, want %v", form, log.String(), i, got, s.model.finished)
				return false
			}
			if got := tr.Errored(); got != s.model.errored {
				x.Failf("%s: after %s: handle %d: errored %v, want %v", form, log.String(), i, got, s.model.errored)
				return false
			}
			if got, want := tr.Duration(), s.model.duration(zmc.Peek()); got != want {
				x.Failf("%s: after %s: handle %d: duration %v, want %v", form, log.String(), i, got, want)
				return false
			}
		}
		return true
	}
	for i := 0; i < pre; i++ {
		op := first
		if i > 0 {
			op = x.Choose(c03Ops)
		}
		c03Op(x, s, op, &log, i)
		if !check() {
			return
		}
	}
	// Finish through any handle.
	h := x.Choose(len(s.all))
	log.add("finish(%d)", h)
	s.all[h].Finish()
	s.model.finish(zmc.Peek())
	if !check() {
		return
	}
	frozen := copyEvents(s.base.Events())
	nlog := 0
	for i := 0; i < post; i++ {
		op := x.Choose(c03Ops + 1)
		if op == c03Ops {
			log.add("finish again")
			s.all[i%len(s.all)].Finish()
		} else {
			c03Op(x, s, op, &log, 100+i)
		}
		if !check() {
			return
		}
		for _, tr := range s.all {
			if !c03Same(frozen, tr.Events()) {
				x.Failf("%s: after %s: events changed from %s to %s", form, log.String(), evString(frozen), evString(tr.Events()))
				return
			}
		}
	}
	_ = nlog
	if s.c != nil {
		res, err := s.c.Search(context.Background(), &trc.SearchRequest{Limit: 1, Filter: trc.Filter{IDs: []string{s.base.ID()}}})
		if err != nil || len(res.Traces) != 1 {
			x.Failf("%s: finished trace not found by search: %v", form, err)
			return
		}
		st := res.Traces[0]
		if !st.TraceFinished || st.TraceErrored != s.model.errored || st.TraceDuration != s.model.dur || !c03Same(frozen, st.TraceEvents) {
			x.Failf("%s: after %s: searched copy differs: %+v", form, log.String(), st)
		}
	}
	x.Outcome("%s", log.String())
}

// c03Same ignores the time of a truncation entry.
func c03Same(a, b []trc.Event) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		aa, bb := a[i], b[i]
		if i == len(a)-1 && i > 0 && len(aa.Stack) == 0 && aa.What == bb.What {
			aa.When, bb.When = zmc.Epoch, zmc.Epoch
		}
		if !sameEvents([]trc.Event{aa}, []trc.Event{bb}) {
			return false
		}
	}
	return true
}

// c03Stream: nothing is delivered to subscribers once finished.
func c03Stream(x *X, form string, post int) {
	s := mkSubject(form, "src", "cat")
	f := []trc.Filter{{}, {IsFinished: true}, {IsActive: true}}[x.Choose(3)]
	early := x.Bool()
	var sub *subscription
	if early {
		sub = subscribe(x, s.c, f, 100)
		zmc.Idle()
	}
	var log opLog
	c03Op(x, s, x.Choose(c03Ops), &log, 0)
	h := x.Choose(len(s.all))
	s.all[h].Finish()
	s.model.finish(zmc.Peek())
	log.add("finish(%d)", h)
	if !early {
		sub = subscribe(x, s.c, f, 100)
		zmc.Idle()
	}
	sub.drain()
	before, err := s.c.StreamStats(context.Background(), sub.ch)
	if err != nil {
		x.Failf("stats: %v", err)
	}
	for i := 0; i < post; i++ {
		op := x.Choose(c03Ops + 1)
		if op == c03Ops {
			log.add("finish again")
			s.all[i%len(s.all)].Finish()
		} else {
			c03Op(x, s, op, &log, 100+i)
		}
	}
	if got := sub.drain(); len(got) > 0 {
		x.Failf("%s filter %s: after %s: %d updates delivered after Finish, first with events %q", form, f, log.String(), len(got), whats(got[0].Events()))
	}
	after, err := s.c.StreamStats(context.Background(), sub.ch)
	if err != nil || after.Sends != before.Sends || after.Drops != before.Drops {
		x.Failf("%s filter %s: after %s: stats went from %v to %v (%v)", form, f, log.String(), before, after, err)
	}
	sub.stop()
	x.Outcome("%s %v", log.String(), after)
}

// c03Static: static traces never change.
func c03Static(x *X) {
	s := mkSubject("collector", "src", "cat")
	for i := 0; i < 2; i++ {
		s.call(kinds[x.Choose(4)], "e%d", i)
	}
	if x.Bool() {
		s.tr.Finish()
	}
	var st *trc.StaticTrace
	if x.Bool() {
		st = trc.NewSearchTrace(s.tr)
	} else {
		st = trc.NewStreamTrace(s.tr)
	}
	before := snapOf(st)
	for i := 0; i < 3; i++ {
		switch op := x.Choose(6); {
		case op < 4:
			emit(st, kinds[op], "x")
		case op == 4:
			st.Finish()
		case op == 5:
			x.Advance(odd)
			s.call(kError, "more")
		}
	}
	if d := before.diff(snapOf(st)); d != "" {
		x.Failf("static trace changed: %s", d)
	}
	x.Outcome("%v", before.finished)
}

// c03Durations: exact to the nanosecond, for any instants.
func c03Durations(x *X) {
	form := formNames[x.Choose(len(formNames))]
	steps := []int64{0, 1, 999, 1_000_000, 60_000_000_000}
	s := mkSubject(form, "s", "c")
	step := func() {
		d := steps[x.Choose(len(steps))]
		x.Advance(timeDur(d))
	}
	step()
	if s.tr.Duration() != zmc.Peek().Sub(s.model.start) {
		x.Failf("%s: active duration %v, want %v", form, s.tr.Duration(), zmc.Peek().Sub(s.model.start))
	}
	step()
	s.tr.Finish()
	want := zmc.Peek().Sub(s.model.start)
	step()
	s.tr.Finish()
	if s.tr.Duration() != want || s.base.Duration() != want {
		x.Failf("%s: duration %v, want %v", form, s.tr.Duration(), want)
	}
	x.Outcome("%v", want)
}
