package main

import (
	"context"
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/zmc"
)

func init() {
	register("C08", c08Variants, "an invalid query is normalized before the filter is used, as documented")
}

// allows is the specification of a filter's decision on a trace.
func allows(f trc.Filter, tr trc.Trace) bool {
	in := func(list []string, s string) bool {
		for _, e := range list {
			if e == s {
				return true
			}
		}
		return len(list) == 0
	}
	if !in(f.Sources, tr.Source()) || !in(f.IDs, tr.ID()) {
		return false
	}
	if f.Category != "" && f.Category != tr.Category() {
		return false
	}
	fin, bad := tr.Finished(), tr.Errored()
	if f.IsActive && fin || f.IsFinished && !fin || f.IsSuccess && bad || f.IsErrored && !bad {
		return false
	}
	if f.MinDuration != nil && (!fin || tr.Duration() < *f.MinDuration) {
		return false
	}
	if f.Query != "" {
		re, err := regexp.Compile(f.Query)
		if err != nil {
			return true
		}
		for _, e := range tr.Events() {
			if re.MatchString(e.What) {
				return true
			}
			for _, fr := range e.Stack {
				if re.MatchString(fr.Function) || re.MatchString(compactSpec(fr)) {
					return true
				}
			}
		}
		return false
	}
	return true
}

// compactSpec: the function's package path without its last element, the
// file's last directory and name, and the line.
func compactSpec(fr trc.Frame) string {
	file, line, _ := strings.Cut(fr.FileLine, ":")
	parts := strings.Split(file, "/")
	if len(parts) > 2 {
		parts = parts[len(parts)-2:]
	}
	short := strings.Join(parts, "/")
	if i := strings.LastIndex(fr.Function, "/"); i >= 0 {
		short = fr.Function[:i] + "/" + short
	}
	return short + ":" + line
}

func durp(d time.Duration) *time.Duration { return &d }

var (
	c08Sources = [][]string{nil, {}, {"s1"}, {"s2", "s1"}, {"s", "S1", "s11"}}
	c08IDs     = [][]string{nil, {"id1"}, {"id2", "id1"}, {"id", "ID1"}}
	c08Cats    = []string{"", "c1", "c", "c2"}
	c08Mins    = []*time.Duration{nil, durp(0), durp(5 * ms), durp(-1), durp(time.Hour)}
	c08Queries = []string{"", "hello", "^world$", "pkg.Func", `dir/file.go:12$`, "example.com/a/dir", "/very/long", "nomatch", "(?i)HELLO", ".", "^$", "h(ell|x)o.*end$", "file.go:1$", "Hello", "hello ", " first", " "}
)

func c08Traces() []trc.Trace {
	start := time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)
	stack := []trc.Frame{
		{Function: "example.com/a/pkg.Func", FileLine: "/very/long/dir/file.go:12"},
		{Function: "main.main", FileLine: "/x/main.go:3"},
	}
	events := [][]trc.Event{
		nil,
		{{When: start, What: "hello to the end"}},
		{{When: start, What: "first"}, {When: start, What: "", IsError: true, Stack: stack}},
		{{When: start, What: "x", Stack: stack[:1]}, {When: start, What: "world"}},
	}
	var out []trc.Trace
	for _, src := range []string{"s1", "s2", ""} {
		for _, id := range []string{"id1", "id2"} {
			for _, cat := range []string{"c1", "c2", ""} {
				for _, bad := range []bool{false, true} {
					for i, d := range []time.Duration{10 * ms, 0, 5*ms - 1, 5 * ms, 10 * ms} {
						for j := range events {
							if (src == "" || cat == "") && j > 0 {
								continue
							}
							out = append(out, &trc.StaticTrace{TraceSource: src, TraceID: id, TraceCategory: cat, TraceErrored: bad,
								TraceStarted: start, TraceDuration: d, TraceFinished: i > 0, TraceEvents: events[j]})
						}
					}
				}
			}
		}
	}
	return out
}

func c08Variants(tier string) []*Variant {
	var vs []*Variant
	for qi := range c08Queries {
		qi := qi
		vs = append(vs, &Variant{Name: fmt.Sprintf("product/query=%d", qi), Seq: true, Body: func(x *X) { c08Product(x, qi) }})
	}
	vs = append(vs, &Variant{Name: "string", Seq: true, Body: c08String})
	vs = append(vs, &Variant{Name: "invalid", Seq: true, Body: c08Invalid})
	for first := 0; first < c08ChangeOps; first++ {
		first := first
		vs = append(vs, &Variant{Name: fmt.Sprintf("changes/first=%d", first), Seq: true, Body: func(x *X) { c08Changes(x, first, quickThorough(tier, 5, 7)) }})
	}
	for _, form := range formNames {
		form := form
		vs = append(vs, &Variant{Name: "real/" + form, Seq: true, Body: func(x *X) { c08Real(x, form) }})
	}
	for i := 0; i < 4; i++ {
		i := i
		vs = append(vs, &Variant{Name: fmt.Sprintf("large/%d", i), Seq: true, Body: func(x *X) { c08Large(x, i) }})
	}
	return vs
}

var c08All = c08Traces()

func c08Product(x *X, qi int) {
	f := trc.Filter{
		Sources:  c08Sources[x.Choose(len(c08Sources))],
		IDs:      c08IDs[x.Choose(len(c08IDs))],
		Category: c08Cats[x.Choose(len(c08Cats))],
		IsActive: x.Bool(), IsFinished: x.Bool(), IsSuccess: x.Bool(), IsErrored: x.Bool(),
		MinDuration: c08Mins[x.Choose(len(c08Mins))],
		Query:       c08Queries[qi],
	}
	want := f
	if x.Choose(2) == 0 {
		if errs := f.Normalize(); len(errs) != 0 {
			x.Failf("filter %+v: normalize: %v", want, errs)
		}
	}
	re := regexp.MustCompile(want.Query)
	noq := want
	noq.Query = ""
	n := 0
	for _, tr := range c08All {
		ok := allows(noq, tr)
		if ok && want.Query != "" {
			ok = false
			for _, e := range tr.Events() {
				ok = ok || re.MatchString(e.What)
				for _, fr := range e.Stack {
					ok = ok || re.MatchString(fr.Function) || re.MatchString(compactSpec(fr))
				}
			}
		}
		if got := f.Allow(tr); got != ok {
			x.Failf("filter %s (%+v) on %+v: allow %v, want %v", want, want, *tr.(*trc.StaticTrace), got, ok)
			return
		}
		if ok {
			n++
		}
	}
	x.Outcome("%s %d", want, n)
}

// c08String: the text form names each condition and value, and only these.
func c08String(x *X) {
	type cond struct {
		set  func(f *trc.Filter)
		want []string
	}
	min := pickFrom(x, 1234*ms, 0, -odd, 2562047*time.Hour+odd)
	if min > time.Hour { // long values
		s := strings.Repeat("0123456789", x.Choose(30))
		long := trc.Filter{Sources: []string{"s1" + s + "x", "s2" + s + "y"}, IDs: []string{"i1" + s + "x", "i2" + s + "y"}, Category: "c" + s + "x", Query: "q" + s + "x"}
		text := long.String()
		for _, w := range append(append(long.Sources, long.IDs...), long.Category, long.Query) {
			if !strings.Contains(text, w) {
				x.Failf("text %q lacks %q", clip(text, 2000), w)
			}
		}
	}
	conds := []cond{
		{func(f *trc.Filter) { f.Sources = []string{"zeta", "yps ilon"} }, []string{"zeta", "yps ilon"}},
		{func(f *trc.Filter) { f.IDs = []string{"01ABC", "02DEF"} }, []string{"01ABC", "02DEF"}},
		{func(f *trc.Filter) { f.Category = "kappa 7" }, []string{"kappa 7"}},
		{func(f *trc.Filter) { f.IsActive = true }, []string{"active"}},
		{func(f *trc.Filter) { f.IsFinished = true }, []string{"finished"}},
		{func(f *trc.Filter) { f.MinDuration = durp(min) }, []string{min.String()}},
		{func(f *trc.Filter) { f.IsSuccess = true }, []string{"success"}},
		{func(f *trc.Filter) { f.IsErrored = true }, []string{"errored"}},
		{func(f *trc.Filter) { f.Query = "om.ga" }, []string{"om.ga"}},
	}
	names := []string{"source", "id", "category", "active", "finished", "duration", "success", "errored", "query"}
	var f trc.Filter
	var on []bool
	for _, c := range conds {
		b := x.Bool()
		on = append(on, b)
		if b {
			c.set(&f)
		}
	}
	if x.Bool() {
		f.Normalize()
	}
	s := f.String()
	if v := fmt.Sprintf("%v|%s", f, &f); v != s+"|"+s {
		x.Failf("filter formats as %q but its String is %q", v, s)
	}
	for i, c := range conds {
		for _, w := range c.want {
			if got := strings.Contains(strings.ToLower(s), strings.ToLower(w)); got != on[i] {
				x.Failf("filter %+v: text %q contains %q: %v, want %v", f, s, w, got, on[i])
			}
		}
		if on[i] && !strings.Contains(strings.ToLower(s), names[i]) {
			x.Failf("filter %+v: text %q doesn't name %s", f, s, names[i])
		}
	}
	x.Outcome("%s", s)
}

// c08Invalid: an invalid query is reported once and ignored.
func c08Invalid(x *X) {
	q := pickFrom(x, "(", "[a", "*", "a**", `\`, "(?P<x", "a{2,1}", "\xff")
	f := trc.Filter{Query: q, IsErrored: x.Bool(), Category: pickFrom(x, "", "c1")}
	orig := f
	asReq := x.Bool()
	var errs []error
	if asReq {
		req := &trc.SearchRequest{Filter: f}
		errs = req.Normalize()
		f = req.Filter
	} else {
		errs = f.Normalize()
	}
	if len(errs) == 0 {
		x.Failf("query %q: no error reported", q)
	}
	orig.Query = ""
	check := func(f *trc.Filter) {
		for _, tr := range c08All {
			if got, want := f.Allow(tr), allows(orig, tr); got != want {
				x.Failf("invalid query %q: on %+v: allow %v, want %v", q, *tr.(*trc.StaticTrace), got, want)
				return
			}
		}
	}
	check(&f)
	if errs := f.Normalize(); len(errs) != 0 {
		x.Failf("query %q: reported again: %v", q, errs)
	}
	check(&f)
	cp := f
	check(&cp)
	x.Outcome("%q %v", q, errs)
}

const c08ChangeOps = 12

// c08Changes: sequences of field changes, uses and copies of a filter.
func c08Changes(x *X, first, depth int) {
	trs := []trc.Trace{
		&trc.StaticTrace{TraceSource: "s1", TraceID: "1", TraceCategory: "c1", TraceEvents: []trc.Event{{What: "alpha"}}},
		&trc.StaticTrace{TraceSource: "s2", TraceID: "2", TraceCategory: "c2", TraceFinished: true, TraceErrored: true, TraceDuration: 5 * ms, TraceEvents: []trc.Event{{What: "beta", Stack: []trc.Frame{{Function: "p.F", FileLine: "/a/b/c.go:1"}}}}},
		&trc.StaticTrace{TraceSource: "s1", TraceID: "3", TraceCategory: "c2", TraceFinished: true, TraceDuration: 10 * ms, TraceEvents: []trc.Event{{What: "alphabeta"}}},
	}
	f := new(trc.Filter)
	var other *trc.Filter // a copy made before a change
	var otherModel trc.Filter
	var model trc.Filter
	var log opLog
	for i := 0; i < depth; i++ {
		op := first
		if i > 0 {
			op = x.Choose(c08ChangeOps)
		}
		switch op {
		case 0:
			log.add("query alpha")
			f.Query, model.Query = "alpha", "alpha"
		case 1:
			log.add("query ^beta")
			f.Query, model.Query = "^beta", "^beta"
		case 2:
			log.add("query none")
			f.Query, model.Query = "", ""
		case 3:
			log.add("query invalid, normalize")
			f.Query, model.Query = "(", ""
			if len(f.Normalize()) == 0 {
				x.Failf("%s: not reported", log.String())
			}
		case 4:
			log.add("normalize")
			if errs := f.Normalize(); len(errs) != 0 {
				x.Failf("%s: %v", log.String(), errs)
			}
		case 5:
			log.add("allow")
			for _, tr := range trs {
				f.Allow(tr)
			}
		case 6:
			log.add("copy")
			cp := *f
			other, f = f, &cp
			otherModel = model
		case 7:
			log.add("json")
			b, err := json.Marshal(f)
			var g trc.Filter
			if err == nil {
				err = json.Unmarshal(b, &g)
			}
			if err != nil {
				x.Failf("%s: %v", log.String(), err)
				return
			}
			f = &g
		case 8:
			log.add("category c2")
			f.Category, model.Category = "c2", "c2"
		case 9:
			log.add("min 7ms")
			f.MinDuration, model.MinDuration = durp(7*ms), durp(7*ms)
		case 10:
			log.add("toggle success")
			f.IsSuccess, model.IsSuccess = !f.IsSuccess, !model.IsSuccess
		case 11:
			log.add("ids, sources")
			f.IDs, model.IDs = []string{"3", "2"}, []string{"3", "2"}
			f.Sources, model.Sources = []string{"s2", "s1"}, []string{"s2", "s1"}
		}
	}
	for _, p := range []struct {
		f *trc.Filter
		m trc.Filter
	}{{f, model}, {other, otherModel}, {f, model}} {
		if p.f == nil {
			continue
		}
		for _, tr := range trs {
			if got, want := p.f.Allow(tr), allows(p.m, tr); got != want {
				x.Failf("after %s: filter %s on %q: allow %v, want %v", log.String(), p.m, tr.Events()[0].What, got, want)
				return
			}
		}
		if a, b := p.f.String(), p.m.String(); a != b {
			x.Failf("after %s: filter reads %q, want %q", log.String(), a, b)
			return
		}
	}
	x.Outcome("%s", f)
}

// c08Real: filters applied to live traces, also while they change.
func c08Real(x *X, form string) {
	s := mkSubject(form, "src", "cat")
	q := pickFrom(x, "", "hello", "c08Real", `harness/c08\.go:\d+$`, `/c08\.go:\d+$`, "emit", "nope", "·|→|<p|ERROR", "^/")
	base := trc.Filter{Query: q, MinDuration: pickFrom(x, nil, durp(0), durp(2*ms), durp(4*ms))}
	if v := x.Choose(5); v > 0 {
		base.IsActive, base.IsFinished, base.IsSuccess, base.IsErrored = v == 1, v == 2, v == 3, v == 4
	}
	f := base
	check := func(when string) {
		for _, tr := range s.all {
			want := allows(base, tr)
			if got := f.Allow(tr); got != want {
				x.Failf("%s: %s: filter %s on %s: allow %v, want %v", form, when, base, evString(tr.Events()), got, want)
			}
		}
	}
	early := x.Bool()
	if early {
		check("new")
	}
	x.Advance(2 * ms)
	s.call(kinds[x.Choose(4)], "hello %d", 1)
	if early {
		check("one event")
	}
	x.Advance(2 * ms)
	s.base.Finish()
	check("finished")
	x.Outcome("%s %s %v", form, base, f.Allow(s.base))
	_ = context.Background
	_ = zmc.Peek
}
