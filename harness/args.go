package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/zmc"
)

// Arguments of every kind that formatting distinguishes.

type (
	ptrErr    struct{ s string }
	valStr    struct{ s string }
	bothStr   struct{}
	fmtter    struct{ s string }
	goStr     struct{}
	panicStr  struct{}
	panicErr  struct{}
	nested    struct{ E error }
	named     string
	namedByte []byte
)

func (e *ptrErr) Error() string { return "ptr " + e.s }

func (v valStr) String() string { return "val " + v.s }

func (bothStr) Error() string { return "as error" }

func (bothStr) String() string { return "as string" }

func (f fmtter) Format(st fmt.State, verb rune) { fmt.Fprintf(st, "F(%c %s)", verb, f.s) }

func (f fmtter) Error() string { return "not this" }

func (goStr) GoString() string { return "go string" }

func (panicStr) String() string { panic("boom") }

func (panicErr) Error() string { panic(errors.New("bang")) }

func (n named) String() string { return "named " + string(n) }

var anyArgs = []any{
	nil, "", "a%db", "50%", "%!s", 1, -3, 2.5, true, 'x', byte(200), []byte("b%s"), namedByte("nb"), complex(1, 2), uintptr(7),
	errors.New("plain %d"), fmt.Errorf("wrapped: %w", errors.New("inner")), (*ptrErr)(nil), &ptrErr{"p"}, error((*ptrErr)(nil)), (*valStr)(nil), valStr{"v"}, &valStr{"pv"},
	bothStr{}, fmtter{"f"}, &fmtter{"pf"}, goStr{}, panicStr{}, panicErr{}, nested{}, nested{errors.New("in")}, &nested{}, named("n"),
	time.Duration(1500), time.Date(2024, 1, 2, 3, 4, 5, 6, time.UTC), []string{"a", "b c"}, []any{1, "x", nil}, map[string]int{"b": 2, "a": 1}, [2]bool{true, false},
	(func())(nil), (chan int)(nil), struct{}{}, []error{errors.New("e1"), nil}, context.Canceled,
}

var (
	oneVerb = []string{"%s", "%v", "%d", "%q", "%x", "%+v", "%#v", "%T", "%t", "%5v|", "%-8s|", "%.1s", "%w", "%p", "x %v", "%v\n", "%[1]v %[1]T", "%%%v", "", "%s %s", "%"}
	twoVerb = []string{"%s %s", "%v %v", "%s%s", "%v: %v", "%d %d", "%s=%v", "%[2]v %[1]v", "%*d", "%s", "%v,%v\n", ""}
)

// c01Args: every verb with every kind of argument.
func c01Args(x *X, form string, two bool) {
	trc.SetTraceStacks(false)
	s := mkSubject(form, "src", "cat")
	k := kinds[x.Choose(4)]
	var format string
	args := []any{anyArgs[x.Choose(len(anyArgs))]}
	if two {
		format = twoVerb[x.Choose(len(twoVerb))]
		args = append(args, anyArgs[x.Choose(len(anyArgs))])
	} else {
		format = oneVerb[x.Choose(len(oneVerb))]
	}
	want := fmt.Sprintf(format, args...)
	switch form {
	case "prefix":
		want = fmt.Sprintf("<%s|%d> "+format, append([]any{"p", 3}, args...)...)
	case "region":
		want = fmt.Sprintf("· "+format, args...)
	case "deep":
		want = fmt.Sprintf("a b%d "+format, append([]any{2}, args...)...)
	}
	s.emit(k, format, args...)
	s.model.add(k, zmc.Peek(), want)
	for i := 0; i < 2; i++ {
		if d := diffTrace(s.base, s.model, zmc.Peek()); d != "" {
			x.Failf("%s: %v(%q, %#v): %s", form, k, format, args, d)
			return
		}
	}
	x.Outcome("%q", want)
}

type mutableLong struct{ n, size, blank int }

func (m *mutableLong) String() string {
	if m.n < m.blank {
		return ""
	}
	return strings.Repeat(string(rune('a'+m.n%26)), m.size)
}

// c01Once: a lazy text of any length is rendered at the first reading, and not
// again.
func c01Once(x *X, form string) {
	trc.SetTraceStacks(false)
	s := mkSubject(form, "src", "cat")
	k := kinds[x.Choose(4)]
	size := pickFrom(x, grid(1<<17)...)
	others := pickFrom(x, 0, 1, 3)
	mut := &mutableLong{size: size}
	if size < 4 {
		mut.blank = 2 * x.Choose(2) // nothing at all, at first
	}
	for i := 0; i < others; i++ {
		s.call(kinds[i%4], "other %d", i)
	}
	s.emit(k, "%v", mut)
	if k.lazy() {
		mut.n++
	}
	s.model.add(k, zmc.Peek(), s.prefix+mut.String())
	if !k.lazy() {
		mut.n++
	}
	for i := 0; i < 3; i++ {
		for _, tr := range s.all {
			if d := diffTrace(tr, s.model, zmc.Peek()); d != "" {
				x.Failf("%s: %v with %d characters, reading %d: %s", form, k, size, i, clip(d, 300))
				return
			}
		}
		mut.n++
		if x.Bool() {
			s.call(kLazy, "one more")
		}
	}
	x.Outcome("%d %v %d", size, k, others)
}

// c18ArgKinds: prefixes with every kind of argument.
func c18ArgKinds(x *X) {
	trc.SetTraceStacks(false)
	ctx, tr := trc.New(context.Background(), "src", "cat")
	f1 := oneVerb[x.Choose(15)]
	a1 := anyArgs[x.Choose(len(anyArgs))]
	ctx, p := trc.Prefix(ctx, f1, a1)
	full, args := "", []any{}
	add := func(f string, a ...any) {
		if f = strings.TrimSpace(f); f != "" {
			full += f + " "
			args = append(args, a...)
		}
	}
	add(f1, a1)
	if x.Bool() {
		ctx, p = trc.Prefix(ctx, "<%v>", "n")
		add("<%v>", "n")
	}
	k := kinds[x.Choose(4)]
	f2 := pickFrom(x, "%v", "no args", "%s and %d")
	a2 := []any{pickFrom(x, nil, any("s%d"), any(7), any(panicStr{}), any((*ptrErr)(nil)), any(fmtter{"f"}))}
	emit(p, k, f2, a2...)
	want := fmt.Sprintf(full+f2, append(args, a2...)...)
	if d := diffEvents(tr.Events(), []mEvent{{text: want, iserr: k.iserr()}}); d != "" {
		x.Failf("prefix %q %#v, %v(%q, %#v): %s", f1, a1, k, f2, a2, d)
	}
	x.Outcome("%q", want)
}

// c19Args: the log has the text of the event, whatever its arguments.
func c19Args(x *X) {
	trc.SetTraceStacks(false)
	w := &lineWriter{}
	c := trc.NewCollector(trc.CollectorConfig{Decorators: []trc.DecoratorFunc{trc.LogDecorator(w)}})
	_, tr := c.NewTrace(context.Background(), "cat")
	k := kinds[x.Choose(4)]
	format := oneVerb[x.Choose(len(oneVerb))]
	arg := anyArgs[x.Choose(len(anyArgs))]
	emit(tr, k, format, arg)
	tr.Finish()
	want := fmt.Sprintf(format, arg)
	lines := []c19Line{{has: []string{"cat"}}, {ends: strings.TrimSuffix(want, "\n"), iserr: k.iserr()}, {iserr: k.iserr()}}
	if d := c19Check(w.buf.String(), tr.ID(), lines); d != "" {
		x.Failf("%v(%q, %#v): %s", k, format, arg, d)
	}
	if d := diffEvents(tr.Events(), []mEvent{{text: want, iserr: k.iserr()}}); d != "" {
		x.Failf("%v(%q, %#v): %s", k, format, arg, d)
	}
	x.Outcome("%q", want)
}

// c03Settings: changed settings don't change finished traces.
func c03Settings(x *X, form string) {
	s := mkSubject(form, "src", "cat")
	n := pickFrom(x, 0, 9, 10, 11, 12, 30)
	for i := 0; i < n; i++ {
		s.call(kinds[(i*3)%4], "e%d", i)
	}
	x.Advance(odd)
	s.tr.Finish()
	s.model.finish(zmc.Peek())
	var log opLog
	for i := 0; i < 3; i++ {
		switch op := x.Choose(6); op {
		case 0, 1:
			max := pickFrom(x, 1, 11)
			log.add("set max %d", max)
			trc.SetMaxEvents([]trc.Trace{s.base, s.tr}[op], max)
		case 2:
			log.add("global max")
			trc.SetTraceMaxEvents(10)
		case 3:
			log.add("stacks")
			trc.SetTraceStacks(false)
		case 4:
			log.add("event")
			s.emit(kError, "late")
		case 5:
			log.add("source")
			if s.c != nil {
				s.c.SetSourceName("changed")
			}
		}
		x.Advance(odd)
		for _, tr := range s.all {
			if d := diffTrace(tr, s.model, zmc.Peek()); d != "" {
				x.Failf("%s with %d events, finished; %s: %s", form, n, log.String(), d)
				return
			}
		}
	}
	x.Outcome("%d %s", n, log.String())
}
