package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/zmc"
)

func init() {
	register("C10", c10Variants, "fewer events than a trace stores")
}

// sop is an operation of a history with searches.
type sop struct {
	name      string // add, finish, search
	id        string
	iserr     bool
	inv, ret  int
	tinv      time.Time
	tret      time.Time
	found     bool
	list      []string
	fin, bad  bool
	dur       time.Duration
	f         trc.Filter
	malformed string
}

func (o *sop) String() string {
	switch o.name {
	case "add":
		return fmt.Sprintf("[%d-%d add %s]", o.inv, o.ret, o.id)
	case "finish":
		return fmt.Sprintf("[%d-%d finish]", o.inv, o.ret)
	}
	if !o.found {
		return fmt.Sprintf("[%d-%d search %s -> nothing]", o.inv, o.ret, o.f)
	}
	return fmt.Sprintf("[%d-%d search %s -> finished %v errored %v %v]", o.inv, o.ret, o.f, o.fin, o.bad, o.list)
}

// searchesLinearizable: every search saw one state of the trace.
func searchesLinearizable(ops []*sop) bool {
	type state struct {
		events   []string
		fin, bad bool
	}
	n := len(ops)
	dead := map[string]bool{}
	var rec func(mask uint32, st state) bool
	rec = func(mask uint32, st state) bool {
		if mask == 1<<uint(n)-1 {
			return true
		}
		key := fmt.Sprint(mask, st)
		if dead[key] {
			return false
		}
		minRet := 1 << 30
		for i, o := range ops {
			if mask&(1<<uint(i)) == 0 && o.ret < minRet {
				minRet = o.ret
			}
		}
		for i, o := range ops {
			if mask&(1<<uint(i)) != 0 || o.inv > minRet {
				continue
			}
			next, ok := st, true
			switch o.name {
			case "add":
				if !st.fin {
					next.events = append(append([]string{}, st.events...), o.id)
					next.bad = st.bad || o.iserr
				}
			case "finish":
				next.fin = true
			case "search":
				if o.found {
					ok = eqStrings(o.list, st.events) && o.fin == st.fin && o.bad == st.bad
				} else {
					tr := &trc.StaticTrace{TraceFinished: st.fin, TraceErrored: st.bad}
					for _, id := range st.events {
						tr.TraceEvents = append(tr.TraceEvents, trc.Event{What: id})
					}
					ok = !allows(o.f, tr)
				}
			}
			if ok && rec(mask|1<<uint(i), next) {
				return true
			}
		}
		dead[key] = true
		return false
	}
	return rec(0, state{})
}

var c10Filters = []trc.Filter{{}, {IsActive: true}, {IsFinished: true}, {IsErrored: true}, {IsSuccess: true}, {MinDuration: durp(0)},
	{Query: "e"}, {IsActive: true, Query: "e"}, {IsFinished: true, IsErrored: true}, {IsActive: true, IsSuccess: true, Query: "n"}}

var c10Seqs = [][]int{{0, 2}, {1, 2}, {2, 1}, {0, 1}, {1, 0}, {1, 0, 2}, {0, 1, 2}, {0, 0, 2}, {1, 1, 0}}

func c10Variants(tier string) []*Variant {
	var vs []*Variant
	forms := []string{"collector", "deep", "pass", "multi"}
	for _, form := range forms {
		for fi := range c10Filters {
			form, fi := form, fi
			vs = append(vs, &Variant{Name: fmt.Sprintf("1x1/%s/filter=%d", form, fi), Bound: quickThorough(tier, 2, 4), Cfg: zmc.Config{Tick: time.Microsecond},
				Body: func(x *X) { c10Run(x, form, fi, 1, 1, 3) }})
		}
	}
	for fi := range c10Filters {
		fi := fi
		vs = append(vs, &Variant{Name: fmt.Sprintf("2x1/filter=%d", fi), Bound: quickThorough(tier, 1, 2), Cfg: zmc.Config{Tick: time.Microsecond},
			Body: func(x *X) { c10Run(x, "collector", fi, 2, 1, 2) }})
		vs = append(vs, &Variant{Name: fmt.Sprintf("1x2/filter=%d", fi), Bound: quickThorough(tier, 2, 3), Cfg: zmc.Config{Tick: time.Microsecond},
			Body: func(x *X) { c10Run(x, "collector", fi, 1, 2, 3) }})
		if fi%3 == 0 {
			vs = append(vs, &Variant{Name: fmt.Sprintf("race/filter=%d", fi), Race: true, Bound: quickThorough(tier, 1, 2),
				Body: func(x *X) { c10Run(x, "collector", fi, 1, 2, 2) }})
		}
	}
	for fi := range c10Filters {
		fi := fi
		for form := range c10Drops {
			form := form
			vs = append(vs, &Variant{Name: fmt.Sprintf("drop/%s/filter=%d", c10Drops[form], fi), Bound: quickThorough(tier, 2, 4), Cfg: zmc.Config{Tick: time.Microsecond},
				Body: func(x *X) { c10Drop(x, form, fi) }})
		}
	}
	vs = append(vs, &Variant{Name: "drop/race", Race: true, Bound: quickThorough(tier, 1, 2), Body: func(x *X) { c10Drop(x, x.Choose(len(c10Drops)), 0) }})
	return vs
}

var c10Drops = []string{"add", "add-add", "resize"}

// c10Drop: searches while traces are dropped, and their storage is used by
// other traces. Whatever is returned is a state of the trace that it claims to
// be.
func c10Drop(x *X, form, fi int) {
	trc.SetTraceStacks(false)
	f := c10Filters[fi]
	size := 1
	if form == 2 {
		size = 2
	}
	c := trc.NewDefaultCollector().SetCategorySize(size)
	type known struct {
		tr   trc.Trace
		hist []*sop
	}
	record := func(k *known, ops ...int) {
		for j, op := range ops {
			o := &sop{inv: zmc.Steps()}
			switch op {
			case 0:
				o.name, o.id = "add", fmt.Sprintf("n%s.%d", k.tr.ID(), j)
				k.tr.LazyTracef("%s", o.id)
			case 1:
				o.name, o.id, o.iserr = "add", fmt.Sprintf("e%s.%d", k.tr.ID(), j), true
				k.tr.Errorf("%s", o.id)
			case 2:
				o.name = "finish"
				k.tr.Finish()
			}
			o.ret = zmc.Steps()
			k.hist = append(k.hist, o)
		}
	}
	create := func(category string, ops ...int) *known {
		_, tr := c.NewTrace(context.Background(), category)
		k := &known{tr: tr}
		record(k, ops...)
		return k
	}
	firsts := [][]int{{0, 1, 2}, {0, 2}, {1}, {2}}
	first := firsts[x.Choose(len(firsts))]
	all := []*known{create("cat", first...)}
	if size == 2 {
		all = append(all, create("cat", 0, 2))
	}
	var made []*known
	var res *trc.SearchResponse
	var err error
	var inv, ret int
	reader := x.Go("S", func() {
		inv = zmc.Steps()
		res, err = c.Search(context.Background(), &trc.SearchRequest{Filter: f})
		ret = zmc.Steps()
	})
	writer := x.Go("W", func() {
		switch form {
		case 0:
			made = append(made, create("cat", 0))
		case 1:
			made = append(made, create("cat", 1, 2), create("cat", 0))
		case 2:
			c.SetCategorySize(1)
			made = append(made, create("other", 0))
		}
	})
	reader.Join()
	writer.Join()
	all = append(all, made...)
	if err != nil {
		x.Failf("search: %v", err)
		return
	}
	var b []string
	for _, st := range res.Traces {
		var k *known
		for _, cand := range all {
			if cand.tr.ID() == st.TraceID {
				k = cand
			}
		}
		if k == nil {
			x.Failf("search gives a trace with ID %q, which no trace has", st.TraceID)
			return
		}
		o := &sop{name: "search", f: f, inv: inv, ret: ret, found: true, fin: st.TraceFinished, bad: st.TraceErrored, list: whats(st.TraceEvents)}
		if !allows(f, st) {
			x.Failf("filter %s doesn't admit the returned trace: %s", f, o)
			return
		}
		if st.TraceCategory != k.tr.Category() || !st.TraceStarted.Equal(k.tr.Started()) || st.TraceFinished && st.TraceDuration != k.tr.Duration() {
			x.Failf("search gives %s with category %q, started %v, duration %v, want %q, %v, %v", o, st.TraceCategory, st.TraceStarted, st.TraceDuration, k.tr.Category(), k.tr.Started(), k.tr.Duration())
			return
		}
		if hist := append(append([]*sop{}, k.hist...), o); !searchesLinearizable(hist) {
			x.Failf("%s, first trace %v: a search saw no single state of a trace that was meanwhile dropped: %v", c10Drops[form], first, hist)
			return
		}
		b = append(b, fmt.Sprint(len(o.list), o.fin, o.bad))
	}
	x.Outcome("%v %v", first, b)
}

func c10Run(x *X, form string, fi, mutators, searchers, maxlen int) {
	trc.SetTraceStacks(false)
	f := c10Filters[fi]
	var c *trc.Collector
	var searcher trc.Searcher
	switch form {
	case "collector", "multi":
		c = trc.NewDefaultCollector()
	case "deep":
		c = trc.NewCollector(trc.CollectorConfig{Decorators: []trc.DecoratorFunc{passDecorator, trc.LogDecorator(new(strings.Builder))}})
	case "pass":
		c = trc.NewCollector(trc.CollectorConfig{Decorators: []trc.DecoratorFunc{passDecorator}})
	}
	searcher = c
	if form == "multi" {
		searcher = trc.MultiSearcher{c}
	}
	_, tr := c.NewTrace(context.Background(), "cat")
	var seqs [][]int
	for i := 0; i < mutators; i++ {
		s := c10Seqs[x.Choose(len(c10Seqs))]
		for len(s) > maxlen {
			s = s[:maxlen]
		}
		seqs = append(seqs, s)
	}
	lazy := x.Bool()
	hist := make([][]*sop, mutators+searchers)
	var hs []*zmc.Handle
	for i := range hist {
		i := i
		hist[i] = make([]*sop, 0, 4)
		hs = append(hs, x.Go(fmt.Sprint("T", i), func() {
			if i >= mutators {
				hist[i] = append(hist[i], c10Search(searcher, f))
				return
			}
			for j, op := range seqs[i] {
				o := &sop{inv: zmc.Steps()}
				switch op {
				case 0:
					o.name, o.id = "add", fmt.Sprintf("n%d.%d", i, j)
					if lazy {
						tr.LazyTracef("%s", o.id)
					} else {
						tr.Tracef("%s", o.id)
					}
				case 1:
					o.name, o.id, o.iserr = "add", fmt.Sprintf("e%d.%d", i, j), true
					if lazy {
						tr.LazyErrorf("%s", o.id)
					} else {
						tr.Errorf("%s", o.id)
					}
				case 2:
					o.name = "finish"
					tr.Finish()
				}
				o.ret = zmc.Steps()
				hist[i] = append(hist[i], o)
			}
		}))
	}
	for _, h := range hs {
		h.Join()
	}
	all := []*sop{c10Search(c, trc.Filter{})}
	final := all[0]
	for _, h := range hist {
		all = append(all, h...)
	}
	var b []string
	for _, o := range all {
		b = append(b, o.String())
	}
	for _, o := range all {
		if o.name != "search" {
			continue
		}
		if o.malformed != "" {
			x.Failf("%s: %v: %s", form, b, o.malformed)
			return
		}
		if o.found {
			switch lo, hi := o.tinv.Sub(tr.Started()), o.tret.Sub(tr.Started()); {
			case o.fin && o.dur != final.dur:
				x.Failf("%s: %v: snapshot is finished with duration %v, but the final duration is %v", form, b, o.dur, final.dur)
				return
			case !o.fin && (o.dur < lo || o.dur > hi):
				x.Failf("%s: %v: snapshot is active with duration %v, but the search took place between %v and %v", form, b, o.dur, lo, hi)
				return
			}
		}
	}
	if !searchesLinearizable(all) {
		x.Failf("%s: a search saw no single state of the trace: %v", form, b)
		return
	}
	x.Outcome("%v", b)
}

func c10Search(s trc.Searcher, f trc.Filter) *sop {
	o := &sop{name: "search", f: f, inv: zmc.Steps(), tinv: zmc.Peek()}
	res, err := s.Search(context.Background(), &trc.SearchRequest{Filter: f})
	o.ret, o.tret = zmc.Steps(), zmc.Peek()
	switch {
	case err != nil:
		o.malformed = err.Error()
	case res.TotalCount != 1 || res.MatchCount != len(res.Traces) || len(res.Traces) > 1:
		o.malformed = fmt.Sprintf("total %d, matched %d, returned %d", res.TotalCount, res.MatchCount, len(res.Traces))
	case len(res.Traces) == 1:
		st := res.Traces[0]
		o.found, o.fin, o.bad, o.dur = true, st.TraceFinished, st.TraceErrored, st.TraceDuration
		if !allows(f, st) {
			o.malformed = fmt.Sprintf("filter %s doesn't admit the returned trace: finished %v errored %v %v", f, o.fin, o.bad, whats(st.TraceEvents))
		}
		for _, e := range st.TraceEvents {
			o.list = append(o.list, e.What)
			if e.IsError != strings.HasPrefix(e.What, "e") {
				o.malformed = fmt.Sprintf("event %q has error %v", e.What, e.IsError)
			}
		}
	}
	return o
}
