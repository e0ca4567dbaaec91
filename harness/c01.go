package main

import (
	"context"
	"fmt"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/zmc"
)

func init() {
	register("C01", c01Variants, "time is virtual and never goes backwards", "lazy arguments are first rendered by a call of Events")
}

// mutable is an argument whose text changes.
type mutable struct{ n int }

func (m *mutable) String() string { return fmt.Sprintf("<%d>", m.n) }

func c01Variants(tier string) []*Variant {
	var vs []*Variant
	depth := quickThorough(tier, 4, 5)
	for _, form := range formNames {
		for first := 0; first < c01Ops; first++ {
			form, first := form, first
			vs = append(vs, &Variant{Name: fmt.Sprintf("seq/%s/first=%d", form, first), Seq: true, Body: func(x *X) { c01Seq(x, form, first, depth) }})
		}
		form := form
		vs = append(vs, &Variant{Name: "kinds/" + form, Seq: true, Body: func(x *X) { c01Kinds(x, form, quickThorough(tier, 6, 8)) }})
		vs = append(vs, &Variant{Name: "formats/" + form, Seq: true, Body: func(x *X) { c01Formats(x, form) }})
		vs = append(vs, &Variant{Name: "long/" + form, Seq: true, Body: func(x *X) { c01Long(x, form) }})
		vs = append(vs, &Variant{Name: "args/" + form, Seq: true, Body: func(x *X) { c01Args(x, form, false) }})
		if form == "core" || form == "deep" || tier == "thorough" {
			vs = append(vs, &Variant{Name: "args2/" + form, Seq: true, Body: func(x *X) { c01Args(x, form, true) }})
		}
		vs = append(vs, &Variant{Name: "once/" + form, Seq: true, Body: func(x *X) { c01Once(x, form) }})
		vs = append(vs, &Variant{Name: "names/" + form, Seq: true, Body: func(x *X) { c01Names(x, form) }})
	}
	vs = append(vs, &Variant{Name: "ids", Seq: true, Body: c01IDs})
	vs = append(vs, &Variant{Name: "many", Seq: true, Body: c01Many})
	return vs
}

// event operations: 4 kinds x 3 payloads; then read, mutate, advance.
const c01Ops = 4*3 + 3

func c01Seq(x *X, form string, first, depth int) {
	s := mkSubject(form, "src", "cat")
	mut := &mutable{n: 1}
	var log opLog
	id := s.base.ID()
	for i := 0; i < depth; i++ {
		op := first
		if i > 0 {
			op = x.Choose(c01Ops)
		}
		switch {
		case op < 12:
			k := kinds[op/3]
			log.add("%v/%d", k, op%3)
			switch op % 3 {
			case 0:
				s.call(k, "plain 100%%")
			case 1: // the argument slice is reused by the caller
				args := []any{i, "x"}
				want := s.prefix + fmt.Sprintf("%03d-%s %v", i, "x", mut)
				args = append(args, mut)
				s.emit(k, "%03d-%s %v", args...)
				if k.lazy() {
					s.model.add(k, zmc.Peek(), "")
					i := i
					s.model.events[len(s.model.events)-1].lazy = func() string {
						return s.prefix + fmt.Sprintf("%03d-%s %v", i, "x", mut)
					}
				} else {
					s.model.add(k, zmc.Peek(), want)
					args[0], args[1], args[2] = "CHANGED", "CHANGED", "CHANGED"
				}
			case 2:
				s.emit(k, "%v", mut)
				if k.lazy() {
					s.model.add(k, zmc.Peek(), "")
					s.model.events[len(s.model.events)-1].lazy = func() string { return s.prefix + mut.String() }
				} else {
					s.model.add(k, zmc.Peek(), s.prefix+mut.String())
				}
			}
		case op == 12:
			log.add("read")
			for _, tr := range s.all {
				if d := diffTrace(tr, s.model, zmc.Peek()); d != "" {
					x.Failf("%s: after %s: %s", form, log.String(), d)
					return
				}
			}
		case op == 13:
			log.add("mutate")
			mut.n++
		case op == 14:
			log.add("advance")
			x.Advance(3 * odd)
		}
		// Reading anything but the events does not count as a read.
		if s.tr.Errored() != s.model.errored {
			x.Failf("%s: after %s: errored %v, want %v", form, log.String(), s.tr.Errored(), s.model.errored)
			return
		}
	}
	for round := 0; round < 2; round++ {
		for _, tr := range s.all {
			if d := diffTrace(tr, s.model, zmc.Peek()); d != "" {
				x.Failf("%s: after %s: %s", form, log.String(), d)
				return
			}
			if tr.ID() != id || id == "" {
				x.Failf("%s: ID changed from %q to %q", form, id, tr.ID())
				return
			}
		}
		mut.n += 10
		x.Advance(odd)
	}
	x.Outcome("%s %q", form, s.model.texts())
}

// c01Kinds: long sequences of plain calls, with time passing, reads in between.
func c01Kinds(x *X, form string, depth int) {
	s := mkSubject(form, "src", "cat")
	var log opLog
	for i := 0; i < depth; i++ {
		k := kinds[x.Choose(4)]
		log.add("%v", k)
		s.call(k, "%d", i)
		x.Advance(odd)
	}
	if d := diffTrace(s.tr, s.model, zmc.Peek()); d != "" {
		x.Failf("%s: after %s: %s", form, log.String(), d)
	}
	if s.c != nil {
		res, err := s.c.Search(context.Background(), &trc.SearchRequest{Limit: 1, Filter: trc.Filter{IDs: []string{s.base.ID()}}})
		if err != nil || len(res.Traces) != 1 {
			x.Failf("%s: not found by search: %v", form, err)
			return
		}
		if d := diffTrace(res.Traces[0], s.model, zmc.Peek()); d != "" {
			x.Failf("%s: after %s: searched copy: %s", form, log.String(), d)
		}
	}
	x.Outcome("%s %q", form, s.model.texts())
}

// c01Formats: formats and arguments of many shapes.
func c01Formats(x *X, form string) {
	type fa struct {
		format string
		args   []any
	}
	cases := []fa{
		{"", nil}, {"%", nil}, {"%d", nil}, {"%s", []any{"a%db"}}, {"%d", []any{1, 2}}, {"%[2]d %[1]d", []any{1, 2}},
		{"%v", []any{nil}}, {"%v", []any{error(nil)}}, {"%+v", []any{struct{ A int }{3}}}, {"a\nb\n", nil}, {"  padded  ", nil},
		{"%%", nil}, {"%%d", []any{5}}, {"π → ·", nil}, {"%6.2f|%-5s|%05d|%x", []any{3.14159, "ab", 42, "hex"}}, {"%*d", []any{5, 42}},
		{"%w", []any{fmt.Errorf("wrapped")}}, {"%T", []any{1.5}}, {"\x00\xff", nil}, {"<b>&\"'</b>", nil},
		{"%v %v", []any{[]int{1, 2}, map[string]int{"a": 1, "b": 2}}},
	}
	s := mkSubject(form, "src", "cat")
	c := cases[x.Choose(len(cases))]
	k := kinds[x.Choose(4)]
	args := append([]any(nil), c.args...)
	want := fmt.Sprintf(c.format, c.args...)
	if s.prefix != "" {
		// The prefix's arguments come first: positional arguments refer to them.
		switch form {
		case "prefix":
			want = fmt.Sprintf("<%s|%d> "+c.format, append([]any{"p", 3}, c.args...)...)
		case "region":
			want = fmt.Sprintf("· "+c.format, c.args...)
		case "deep":
			want = fmt.Sprintf("a b%d "+c.format, append([]any{2}, c.args...)...)
		}
	}
	s.emit(k, c.format, args...)
	s.model.add(k, zmc.Peek(), want)
	if d := diffTrace(s.base, s.model, zmc.Peek()); d != "" {
		x.Failf("%s: %v(%q, %v): %s", form, k, c.format, c.args, d)
	}
	x.Outcome("%q", want)
}

// c01Names: any source and category.
func c01Names(x *X, form string) {
	names := []string{"", "a", "a b", "%s%d", "π→", "<x>&", "a/b?c=d&e", "\n"}
	src, cat := names[x.Choose(len(names))], names[x.Choose(len(names))]
	s := mkSubject(form, src, cat)
	s.call(kinds[x.Choose(4)], "one")
	for _, tr := range s.all {
		if d := diffTrace(tr, s.model, zmc.Peek()); d != "" {
			x.Failf("%s source %q category %q: %s", form, src, cat, d)
		}
	}
	x.Outcome("%q %q", src, cat)
}

// c01IDs: IDs are unique whatever the way and time of creation.
func c01IDs(x *X) {
	forms := []string{"core", "collector", "log", "ez", "orphan"}
	seen := map[string]string{}
	for i := 0; i < 5; i++ {
		form := forms[x.Choose(len(forms))]
		var tr trc.Trace
		if form == "orphan" {
			tr = trc.Get(context.Background())
		} else {
			tr = mkSubject(form, "s", "c").base
		}
		id := tr.ID()
		if prev, ok := seen[id]; ok || id == "" {
			x.Failf("ID %q of trace %d (%s) is not unique (%s)", id, i, form, prev)
		}
		seen[id] = fmt.Sprintf("%d %s", i, form)
		if x.Bool() {
			x.Advance(odd)
		}
	}
	x.Outcome("%d", len(seen))
}

// c01Many: a burst of traces in one instant.
func c01Many(x *X) {
	seen := map[string]bool{}
	c := trc.NewDefaultCollector()
	for i := 0; i < 5000; i++ {
		_, tr := c.NewTrace(context.Background(), "c")
		if seen[tr.ID()] {
			x.Failf("ID %q not unique", tr.ID())
		}
		seen[tr.ID()] = true
		if i%3 == 0 {
			tr.Finish()
		}
	}
	x.Outcome("%d", len(seen))
}
