package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"github.com/peterbourgon/trc/zmc"
)

func init() {
	register("C18", c18Variants, "prefix formats use sequential verbs with matching arguments, as explicit argument indexes cannot be combined", "regions and prefixes are made in contexts that have a trace", "the elapsed time of a region is shown with at least 90% accuracy")
}

// c18Prefix is one prefix of the specification.
type c18Prefix struct{ text func() string }

type c18Node struct {
	ctx    context.Context
	parent int
	root   int // index of the trace, -1 none
	prefix []func() string
	tr     trc.Trace // as returned
	name   string
}

type c18Root struct {
	tr    trc.Trace
	model *mTrace
}

type c18Region struct {
	node   int // where it was made
	name   string
	start  time.Time
	finish func()
}

// liveArg is an argument whose text changes.
type liveArg struct{ n int }

func (l *liveArg) String() string { return fmt.Sprint("live", l.n) }

type c18World struct {
	x       *X
	nodes   []*c18Node
	roots   []*c18Root
	regions []*c18Region
	live    *liveArg
	shared  []any // has spare capacity
	log     []string
	step    int
	c       *trc.Collector
}

func c18Variants(tier string) []*Variant {
	var vs []*Variant
	for _, race := range []bool{true, false} {
		race := race
		for _, how := range []string{"prefix", "region", "nested"} {
			how := how
			vs = append(vs, &Variant{Name: fmt.Sprintf("concurrent/%s/race=%v", how, race), Race: race, Bound: quickThorough(tier, 2, 3), Body: func(x *X) { c18Concurrent(x, how) }})
		}
	}
	for first := 0; first < c18Kinds; first++ {
		for second := 0; second < c18Kinds; second++ {
			first, second := first, second
			vs = append(vs, &Variant{Name: fmt.Sprintf("tree/%d,%d", first, second), Seq: true, Body: func(x *X) { c18Run(x, first, second, quickThorough(tier, 5, 6)) }})
		}
	}
	for i := 0; i < 3; i++ {
		i := i
		vs = append(vs, &Variant{Name: fmt.Sprintf("large/%d", i), Seq: true, Body: func(x *X) { c18Large(x, i) }})
	}
	vs = append(vs, &Variant{Name: "nesting", Seq: true, Body: c18Nesting})
	vs = append(vs, &Variant{Name: "args", Seq: true, Body: c18Args})
	vs = append(vs, &Variant{Name: "same", Seq: true, Body: func(x *X) { c18Same(x, quickThorough(tier, 4, 5)) }})
	vs = append(vs, &Variant{Name: "argkinds", Seq: true, Body: c18ArgKinds})
	vs = append(vs, &Variant{Name: "empty", Seq: true, Body: c18Empty})
	vs = append(vs, &Variant{Name: "get", Seq: true, Body: c18Get})
	vs = append(vs, &Variant{Name: "took", Seq: true, Body: c18Took})
	return vs
}

const c18Kinds = 11

func (w *c18World) text(n *c18Node, own string) func() string {
	return func() string {
		var parts []string
		for _, p := range n.prefix {
			parts = append(parts, p())
		}
		return strings.Join(append(parts, own), " ")
	}
}

// event as specified.
func (w *c18World) event(n *c18Node, k kind, own string) {
	m := w.roots[n.root].model
	f := w.text(n, own)
	ev := mEvent{iserr: k.iserr(), when: zmc.Peek()}
	if k.lazy() {
		ev.lazy = f
	} else {
		ev.text = f()
	}
	m.events = append(m.events, ev)
	m.errored = m.errored || k.iserr()
}

func (w *c18World) child(parent int, ctx context.Context, tr trc.Trace, root int, prefix []func() string) {
	w.nodes = append(w.nodes, &c18Node{ctx: ctx, parent: parent, root: root, prefix: prefix, tr: tr, name: fmt.Sprint("n", len(w.nodes))})
}

func (w *c18World) newRoot(tr trc.Trace, source, category string) int {
	w.roots = append(w.roots, &c18Root{tr: tr, model: &mTrace{source: source, category: category, start: zmc.Peek()}})
	return len(w.roots) - 1
}

// do one operation of the given kind at node i. False if not applicable.
func (w *c18World) do(op, i int) bool {
	x := w.x
	n := w.nodes[i]
	w.step++
	ez := w.step%2 == 0
	switch op {
	case 0: // new trace
		if n.root >= 0 && w.step > 3 {
			return false
		}
		ctx, tr := trc.New(n.ctx, "src", fmt.Sprint("cat", w.step))
		w.child(i, ctx, tr, w.newRoot(tr, "src", fmt.Sprint("cat", w.step)), nil)
	case 1: // new trace of a collector, or the existing one
		var ctx context.Context
		var tr trc.Trace
		cat := "c%d" + fmt.Sprint(w.step)
		source := "src"
		if ez {
			eztrc.Collector().SetSourceName("ez")
			source = "ez"
			ctx, tr = eztrc.New(n.ctx, cat)
		} else {
			ctx, tr = w.c.NewTrace(n.ctx, cat)
		}
		if n.root >= 0 {
			w.event(n, kLazy, "(+ "+cat+")")
			w.child(i, ctx, tr, n.root, n.prefix)
		} else {
			w.child(i, ctx, tr, w.newRoot(tr, source, cat), nil)
		}
	case 2: // put another node's trace
		if len(w.nodes) < 3 {
			return false
		}
		src := w.nodes[1+x.Choose(len(w.nodes)-1)]
		if src.root < 0 || src.tr == nil {
			return false
		}
		ctx, tr := trc.Put(n.ctx, src.tr)
		w.child(i, ctx, tr, src.root, src.prefix)
	case 3, 4, 5: // prefix
		if n.root < 0 {
			return false
		}
		var format string
		var args []any
		var text func() string
		switch op {
		case 3:
			format, args = pickFrom(x, "<%s>", " <%s>\n"), []any{"p%d"}
			text = func() string { return "<p%d>" }
		case 4:
			if x.Bool() {
				format, args = "%d-%v", w.shared[:2] // spare capacity, also of other prefixes
				text = func() string { return "1-two" }
			} else {
				format, args = "100%% %s", []any{w.live}
				text = func() string { return "100% " + w.live.String() }
			}
		case 5:
			format = pickFrom(x, "", " \t ")
		}
		var ctx context.Context
		var tr trc.Trace
		if ez {
			ctx, tr = eztrc.Prefix(n.ctx, format, args...)
		} else {
			ctx, tr = trc.Prefix(n.ctx, format, args...)
		}
		prefix := n.prefix[:len(n.prefix):len(n.prefix)]
		if text != nil {
			prefix = append(prefix, text)
		}
		w.child(i, ctx, tr, n.root, prefix)
	case 6: // region
		if n.root < 0 {
			return false
		}
		name := pickFrom(x, "reg", "50%d%", "", "a\nb")
		var ctx context.Context
		var tr trc.Trace
		var finish func()
		start := zmc.Peek()
		if ez {
			ctx, tr, finish = eztrc.Region(n.ctx, name)
		} else {
			ctx, tr, finish = trc.Region(n.ctx, name)
		}
		w.event(n, kLazy, "→ "+name)
		w.regions = append(w.regions, &c18Region{node: i, name: name, start: start, finish: finish})
		w.child(i, ctx, tr, n.root, append(n.prefix[:len(n.prefix):len(n.prefix)], func() string { return "·" }))
	case 7: // finish a region
		if len(w.regions) == 0 {
			return false
		}
		if i != 0 {
			return false // regions are not tied to the node chosen
		}
		r := w.regions[x.Choose(len(w.regions))]
		x.Advance(3 * ms)
		r.finish()
		w.event(w.nodes[r.node], kLazy, fmt.Sprintf("← %s [%s]", r.name, zmc.Peek().Sub(r.start)))
	case 8: // event
		if n.root < 0 {
			return false
		}
		k := kinds[(w.step+x.Choose(2))%4]
		switch x.Choose(3) {
		case 0:
			ezEmit(n.ctx, k, "e%s%%%d", w.live, w.step)
		case 1:
			emit(trc.Get(n.ctx), k, "e%s%%%d", w.live, w.step)
		case 2:
			emit(n.tr, k, "e%s%%%d", w.live, w.step)
		}
		live, step := w.live, w.step
		m := w.roots[n.root].model
		f := func() string { return fmt.Sprintf("e%s%%%d", live, step) }
		if k.lazy() {
			pre := w.text(n, "")
			m.events = append(m.events, mEvent{iserr: k.iserr(), when: zmc.Peek(), lazy: func() string { return pre() + f() }})
			m.errored = m.errored || k.iserr()
		} else {
			w.event(n, k, f())
		}
	case 9: // change the live argument
		if i != 0 {
			return false
		}
		w.live.n++
		x.Advance(ms)
	case 10: // a value or deadline on top
		type key struct{}
		w.child(i, context.WithValue(n.ctx, key{}, w.step), n.tr, n.root, n.prefix)
	}
	return true
}

// check everything readable.
func (w *c18World) check() bool {
	x := w.x
	for _, n := range w.nodes {
		tr, ok := trc.MaybeGet(n.ctx)
		etr, eok := eztrc.MaybeGet(n.ctx)
		if ok != (n.root >= 0) || eok != ok {
			x.Failf("%s %v: MaybeGet %v, %v", n.name, w.log, ok, eok)
			return false
		}
		if !ok {
			continue
		}
		id := w.roots[n.root].tr.ID()
		if tr != n.tr || etr != n.tr || trc.Get(n.ctx) != n.tr || eztrc.Get(n.ctx) != n.tr || tr.ID() != id {
			x.Failf("%s %v: not the trace put there", n.name, w.log)
			return false
		}
	}
	for _, r := range w.roots {
		if d := diffTrace(r.tr, r.model, zmc.Peek()); d != "" {
			x.Failf("%v: %s", w.log, d)
			return false
		}
	}
	return true
}

func c18World0(x *X) *c18World {
	trc.SetTraceStacks(false)
	w := &c18World{x: x, live: &liveArg{}, c: trc.NewCollector(trc.CollectorConfig{Source: "src"})}
	w.shared = append(make([]any, 0, 8), 1, "two", "three", "four", "five")
	w.child(-1, context.Background(), nil, -1, nil)
	return w
}

func c18Run(x *X, first, second, depth int) {
	w := c18World0(x)
	// A first trace with a prefix, or nothing.
	if x.Bool() {
		ctx, tr := trc.New(context.Background(), "src", "root")
		w.child(0, ctx, tr, w.newRoot(tr, "src", "root"), nil)
		depth--
	}
	for i := 0; i < depth; i++ {
		op := first
		if i == 1 {
			op = second
		} else if i > 1 {
			op = x.Choose(c18Kinds)
		}
		node := x.Choose(len(w.nodes))
		if i == depth-1 && op != 8 && op != 7 {
			return // nothing more to see
		}
		if !w.do(op, node) {
			return
		}
		w.log = append(w.log, fmt.Sprintf("%d@%d", op, node))
		x.Advance(ms)
	}
	if !w.check() {
		return
	}
	// Lazy text is computed at the first reading.
	w.live.n += 10
	w.check()
	x.Outcome("%v", w.log)
}

// c18Nesting: deep nesting of prefixes and regions.
func c18Nesting(x *X) {
	w := c18World0(x)
	w.do(0, 0)
	for len(w.nodes) < 7 {
		op := pickFrom(x, 3, 4, 6, 8)
		if op == 4 || op == 8 {
			// one alternative of each will do
			n := w.nodes[len(w.nodes)-1]
			if op == 8 {
				emit(n.tr, kind(len(w.nodes)%4), "x")
				w.event(n, kind(len(w.nodes)%4), "x")
			}
			ctx, tr := trc.Prefix(n.ctx, "%d %s", w.shared[:2]...)
			w.child(len(w.nodes)-1, ctx, tr, n.root, append(n.prefix[:len(n.prefix):len(n.prefix)], func() string { return "1 two" }))
			continue
		}
		if !w.do(op, len(w.nodes)-1) {
			return
		}
	}
	for _, k := range kinds {
		n := w.nodes[len(w.nodes)-1]
		ezEmit(n.ctx, k, "v=%v", k)
		w.event(n, k, fmt.Sprintf("v=%v", k))
	}
	for i := len(w.regions) - 1; i >= 0; i-- {
		r := w.regions[i]
		x.Advance(ms)
		r.finish()
		w.event(w.nodes[r.node], kLazy, fmt.Sprintf("← %s [%s]", r.name, zmc.Peek().Sub(r.start)))
	}
	w.check()
	x.Outcome("%q", w.roots[0].model.texts())
}

// c18Args: one prefixed trace used again and again, with any capacity of its
// arguments, and arguments of the caller left alone.
func c18Args(x *X) {
	trc.SetTraceStacks(false)
	ctx, tr := trc.New(context.Background(), "src", "cat")
	spare := x.Choose(4)
	args := make([]any, 2, 2+spare)
	args[0], args[1] = "a", 1
	backing := args[:cap(args)]
	for i := 2; i < len(backing); i++ {
		backing[i] = "untouched"
	}
	ctx1, p1 := trc.Prefix(ctx, "%s%d", args...)
	ctx2, p2 := trc.Prefix(ctx1, "%s", backing[:1]...)
	_, p3 := trc.Prefix(ctx1, "%s", "third")
	_ = ctx2
	targets := []trc.Trace{p1, p2, p3}
	pre := []string{"a1 ", "a1 a ", "a1 third "}
	var want []mEvent
	for i := 0; i < 3; i++ {
		t := x.Choose(3)
		k := kinds[x.Choose(4)]
		n := x.Choose(3)
		eargs := make([]any, n, n+2)
		format := "e"
		text := "e"
		for j := range eargs {
			eargs[j] = fmt.Sprint("v", i, j)
			format += " %v"
			text += " " + fmt.Sprint("v", i, j)
		}
		emit(targets[t], k, format, eargs...)
		want = append(want, mEvent{text: pre[t] + text, iserr: k.iserr()})
	}
	if d := diffEvents(tr.Events(), want); d != "" {
		x.Failf("spare capacity %d: %s", spare, d)
	}
	for i := 2; i < len(backing); i++ {
		if backing[i] != "untouched" {
			x.Failf("the caller's argument %d became %v", i, backing[i])
		}
	}
	x.Outcome("%d %q", spare, mwhats(want))
}

// c18Empty: contexts without a trace.
func c18Empty(x *X) {
	ctx := pickFrom(x, context.Background(), context.WithValue(context.Background(), "trace", "x"), context.TODO())
	collected := func() int {
		res, _ := eztrc.Collector().Search(ctx, &trc.SearchRequest{})
		return res.TotalCount
	}
	had := collected()
	a, b := trc.Get(ctx), eztrc.Get(ctx)
	if a == nil || b == nil || a.ID() == b.ID() {
		x.Failf("orphans %v %v", a, b)
		return
	}
	a.Tracef("in a")
	if len(b.Events()) != 0 || len(a.Events()) != 1 || a.Finished() || b.Finished() {
		x.Failf("orphans are not independent")
	}
	k := kinds[x.Choose(4)]
	ezEmit(ctx, k, "nowhere %d", 1)
	if tr, ok := trc.MaybeGet(ctx); ok || tr != nil {
		x.Failf("context has a trace")
	}
	if len(b.Events()) != 0 || len(a.Events()) != 1 {
		x.Failf("event in another trace")
	}
	c := trc.NewDefaultCollector()
	res, _ := c.Search(ctx, &trc.SearchRequest{})
	if res.TotalCount != 0 {
		x.Failf("collected")
	}
	eztrc.Prefix(ctx, "p")
	eztrc.Region(ctx, "r")
	if n := collected(); n != had {
		x.Failf("collected %d in the easy API's collector", n-had)
	}
	x.Outcome("%v", k)
}

// c18Took: elapsed times.
func c18Took(x *X) {
	trc.SetTraceStacks(false)
	ctx, tr := trc.New(context.Background(), "src", "cat")
	d := pickFrom(x, 0, 1, 999, 1000, 1500, 99*time.Microsecond, 999*time.Microsecond, ms, 1250*time.Microsecond, 9999*time.Microsecond, 10*ms, 12700*time.Microsecond, 999*ms, time.Second, 1270*ms,
		59900*ms, time.Minute, 61500*ms, 59*time.Minute+59*time.Second, time.Hour, time.Hour+10*time.Minute, 10*time.Hour, 23*time.Hour+59*time.Minute, 24*time.Hour, 25*time.Hour+20*time.Minute, 240*time.Hour, 1000*time.Hour)
	before := pickFrom(x, 0, time.Second)
	x.Advance(before)
	name := pickFrom(x, "r", "%s [x]")
	_, _, finish := trc.Region(ctx, name)
	x.Advance(d)
	finish()
	evs := tr.Events()
	last := evs[len(evs)-1].What
	s, ok := strings.CutPrefix(last, "← "+name+" [")
	s, ok2 := strings.CutSuffix(s, "]")
	got, err := time.ParseDuration(s)
	if !ok || !ok2 || err != nil {
		x.Failf("%q", last)
		return
	}
	if got > d || float64(got) < 0.9*float64(d) && d >= time.Microsecond*10 || d < 1000 && got != d || float64(got) < 0.5*float64(d) {
		x.Failf("%q after %s", last, d)
	}
	x.Outcome("%s", last)
}

// c18Concurrent: a decorated trace used by several goroutines.
func c18Concurrent(x *X, how string) {
	trc.SetTraceStacks(false)
	ctx, tr := trc.New(context.Background(), "src", "cat")
	var p trc.Trace
	var pre string
	args := make([]any, 1, 4)
	args[0] = "p"
	finish := func() {}
	switch how {
	case "prefix":
		ctx, p = trc.Prefix(ctx, "<%s>", args...)
		pre = "<p> "
	case "region":
		ctx, p, finish = trc.Region(ctx, "r")
		pre = "· "
	case "nested":
		ctx, _, finish = trc.Region(ctx, "r")
		ctx, p = trc.Prefix(ctx, "<%s>", args...)
		pre = "· <p> "
	}
	var hs []*zmc.Handle
	for i := 0; i < 2; i++ {
		i := i
		hs = append(hs, x.Go(fmt.Sprint("t", i), func() {
			if i == 0 {
				p.Tracef("e%d %s", i, "x")
				p.LazyErrorf("f%d", i)
			} else {
				eztrc.LazyTracef(ctx, "e%d %s", i, "x")
				_, _, fin := trc.Region(ctx, "in%d")
				fin()
			}
		}))
	}
	for _, h := range hs {
		h.Join()
	}
	finish()
	wants := [][]string{{pre + "e0 x", pre + "f0"}, {pre + "e1 x", pre + "→ in%d", pre + "← in%d [0s]"}}
	n := 5
	if how != "prefix" {
		n = 7
	}
	evs := tr.Events()
	if len(evs) != n {
		x.Failf("%d events %q", len(evs), whats(evs))
		return
	}
	at := []int{0, 0}
	for i, e := range evs {
		if how != "prefix" && (i == 0 || i == n-1) {
			continue
		}
		switch {
		case at[0] < 2 && e.What == wants[0][at[0]] && e.IsError == (at[0] == 1):
			at[0]++
		case at[1] < 3 && e.What == wants[1][at[1]] && !e.IsError:
			at[1]++
		default:
			x.Failf("events %q", whats(evs))
			return
		}
	}
	x.Outcome("%q", whats(evs))
}

// c18Get: a trace of any kind, in any state, is what is gotten from any
// context derived from the one it was put into, also by way of the helpers.
func c18Get(x *X) {
	trc.SetTraceStacks(false)
	s := mkSubject(pickFrom(x, "core", "collector", "log", "pass", "prefix", "region", "ez", "deep"), pickFrom(x, "", "src"), pickFrom(x, "", "a", "(orphan)", "overall", oddCategory))
	tr := s.tr
	states := pickFrom(x, "", "e", "x", "f", "ef", "xf", "fe", "ff")
	for _, st := range states {
		switch st {
		case 'e':
			tr.Tracef("e")
		case 'x':
			tr.Errorf("x")
		case 'f':
			tr.Finish()
		}
	}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), c18Key{}, 1))
	if x.Bool() {
		var other trc.Trace
		ctx, other = trc.New(ctx, "other", "other")
		if x.Bool() {
			other.Finish()
		}
	}
	var back trc.Trace
	switch x.Choose(3) {
	case 0:
		ctx, back = trc.Put(ctx, tr)
	case 1:
		ctx, back = trc.Put(ctx, &passTrace{Trace: tr})
		tr = back
	case 2:
		st := trc.NewSearchTrace(tr)
		tr = st
		ctx, back = trc.Put(ctx, st)
	}
	if back != tr {
		x.Failf("Put returns another trace")
	}
	if x.Bool() {
		ctx = context.WithValue(ctx, c18Key{}, tr)
	}
	if x.Bool() {
		var c2 func()
		ctx, c2 = context.WithTimeout(ctx, time.Hour)
		defer c2()
	}
	if x.Bool() {
		cancel()
	}
	defer cancel()
	if got := trc.Get(ctx); got != tr {
		x.Failf("%s %q: Get returns %v, want %v", s.name, states, got, tr)
	}
	if got, ok := trc.MaybeGet(ctx); got != tr || !ok {
		x.Failf("%s %q: MaybeGet returns %v %v, want %v", s.name, states, got, ok, tr)
	}
	if got := eztrc.Get(ctx); got != tr {
		x.Failf("%s %q: eztrc.Get returns %v, want %v", s.name, states, got, tr)
	}
	if got, ok := eztrc.MaybeGet(ctx); got != tr || !ok {
		x.Failf("%s %q: eztrc.MaybeGet returns %v %v, want %v", s.name, states, got, ok, tr)
	}
	_, p := trc.Prefix(ctx, "p")
	if p.ID() != tr.ID() {
		x.Failf("%s %q: prefixes another trace", s.name, states)
	}
	_, p, finish := trc.Region(ctx, "r")
	if p.ID() != tr.ID() {
		x.Failf("%s %q: region of another trace", s.name, states)
	}
	finish()
	x.Outcome("%s %q", s.name, states)
}

type c18Key struct{}

// c18Same: prefixes and regions within others of the same text.
func c18Same(x *X, depth int) {
	trc.SetTraceStacks(false)
	ctx, base := trc.New(context.Background(), "s", "c")
	prefix := ""
	var want, log []string
	type scope struct {
		tr     trc.Trace
		prefix string
		finish func()
		name   string
	}
	scopes := []scope{{tr: base}}
	for i := 1 + x.Choose(depth); i > 0; i-- {
		s := scope{}
		k := x.Choose(9)
		switch k {
		case 0, 1, 2:
			f := []string{"a", "a ", "\u00b7"}[k]
			ctx, s.tr = trc.Prefix(ctx, f)
			prefix += strings.TrimSpace(f) + " "
		case 3:
			ctx, s.tr = trc.Prefix(ctx, "%s", "a")
			prefix += "a "
		case 4:
			ctx, s.tr = trc.Prefix(ctx, "a%%")
			prefix += "a% "
		case 5, 6: // nothing to add
			ctx, s.tr = trc.Prefix(ctx, []string{"", " \n"}[k-5], []any{7, "x"}[:k-4]...)
		case 7, 8:
			s.name = []string{"a", "\u2192 a"}[k-7]
			want = append(want, prefix+"\u2192 "+s.name)
			scopes[len(scopes)-1].name = s.name
			ctx, s.tr, scopes[len(scopes)-1].finish = trc.Region(ctx, s.name)
			s.name = ""
			prefix += "\u00b7 "
		}
		log = append(log, fmt.Sprint(k))
		s.prefix = prefix
		scopes = append(scopes, s)
	}
	for i := len(scopes) - 1; i >= 0; i-- {
		s := scopes[i]
		if s.finish != nil {
			s.finish()
			want = append(want, s.prefix+"\u2190 "+s.name+" [0s]")
		}
		emit(s.tr, kinds[i%4], "e%d", i)
		want = append(want, s.prefix+fmt.Sprint("e", i))
	}
	var got []string
	for _, ev := range base.Events() {
		got = append(got, ev.What)
	}
	if !eqStrings(got, want) {
		x.Failf("%v: events %q, want %q", log, got, want)
	}
	x.Outcome("%q", got)
}
