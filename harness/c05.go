package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
)

func init() { register("C05", c05Variants) }

type c05Model struct {
	size int
	cats map[string][]string // IDs, oldest first
}

func (m *c05Model) add(cat, id string) {
	m.cats[cat] = append(m.cats[cat], id)
	m.trim()
}

func (m *c05Model) resize(n int) {
	if n > 0 {
		m.size = n
		m.trim()
	}
}

func (m *c05Model) trim() {
	for cat, ids := range m.cats {
		if len(ids) > m.size {
			m.cats[cat] = ids[len(ids)-m.size:]
		}
	}
}

func (m *c05Model) has(id string) bool {
	for _, ids := range m.cats {
		for _, i := range ids {
			if i == id {
				return true
			}
		}
	}
	return false
}

func (m *c05Model) total() (n int) {
	for _, ids := range m.cats {
		n += len(ids)
	}
	return n
}

// c05Held is what a search shows, per category.
func c05Held(x *X, c *trc.Collector) (map[string][]string, *trc.SearchResponse) {
	res, err := c.Search(context.Background(), &trc.SearchRequest{Limit: 250})
	if err != nil {
		x.Failf("search: %v", err)
		return nil, nil
	}
	held := map[string][]string{}
	for i := len(res.Traces) - 1; i >= 0; i-- { // newest first
		tr := res.Traces[i]
		held[tr.TraceCategory] = append(held[tr.TraceCategory], tr.TraceID)
	}
	return held, res
}

func c05Variants(tier string) []*Variant {
	var vs []*Variant
	depth := quickThorough(tier, 6, 7)
	for _, init := range []int{0, 1, 2, 3} {
		for first := 0; first < c05Ops; first++ {
			init, first := init, first
			vs = append(vs, &Variant{Name: fmt.Sprintf("history/size=%d/first=%d", init, first), Seq: true, Body: func(x *X) { c05History(x, init, first, depth) }})
		}
	}
	for first := 0; first < 5; first++ {
		first := first
		vs = append(vs, &Variant{Name: fmt.Sprintf("resize/first=%d", first), Seq: true, Body: func(x *X) { c05Resize(x, first, quickThorough(tier, 8, 9)) }})
	}
	vs = append(vs, &Variant{Name: "default", Seq: true, Body: c05Default})
	vs = append(vs, &Variant{Name: "nested", Seq: true, Body: c05Nested})
	vs = append(vs, &Variant{Name: "config", Seq: true, Body: c05Config})
	vs = append(vs, &Variant{Name: "big", Seq: true, Body: c05Big})
	for i := 0; i < 3; i++ {
		i := i
		vs = append(vs, &Variant{Name: fmt.Sprintf("large/%d", i), Seq: true, Body: func(x *X) { c05Large(x, i) }})
	}
	return vs
}

const c05Ops = 9

func c05History(x *X, init, first, depth int) {
	c := trc.NewDefaultCollector()
	m := &c05Model{size: 1000, cats: map[string][]string{}}
	if init > 0 {
		c.SetCategorySize(init)
		m.resize(init)
	}
	type live struct {
		ctx context.Context
		tr  trc.Trace
		m   *mTrace
		id  string
	}
	var trs []*live
	var log opLog
	for i := 0; i < depth; i++ {
		op := first
		if i > 0 {
			op = x.Choose(c05Ops)
		}
		x.Advance(odd)
		switch op {
		case 0, 1, 2:
			cat := []string{"a", "b", "%d"}[op]
			log.add("New(%s)", cat)
			ctx, tr := c.NewTrace(context.Background(), cat)
			l := &live{ctx: ctx, tr: tr, id: tr.ID(), m: &mTrace{source: "default", category: cat, start: x.Now()}}
			trs = append(trs, l)
			m.add(cat, l.id)
			if got := trc.Get(ctx); got != tr {
				x.Failf("after %s: the context has another trace", log.String())
			}
		case 3, 4, 5, 6:
			n := []int{1, 2, 3, 0}[op-3]
			if n == 0 {
				n = -[]int{0, 1}[i%2]
			}
			log.add("Resize(%d)", n)
			c.SetCategorySize(n)
			m.resize(n)
		case 7: // a trace in a context that has one already
			if len(trs) == 0 {
				break
			}
			l := trs[len(trs)-1]
			log.add("Nested")
			ctx, tr := c.NewTrace(l.ctx, "nested%d")
			if tr != l.tr || trc.Get(ctx) != l.tr {
				x.Failf("after %s: nested creation returned another trace", log.String())
			}
			if !l.m.finished {
				evs := l.tr.Events()
				if len(evs) != len(l.m.events)+1 || !strings.Contains(evs[len(evs)-1].What, "nested%d") {
					x.Failf("after %s: nested creation gave events %q", log.String(), whats(evs))
					return
				}
				l.m.add(kLazy, x.Now(), evs[len(evs)-1].What)
			}
		case 8: // finish the oldest that is not
			for _, l := range trs {
				if !l.m.finished {
					log.add("Finish")
					l.tr.Finish()
					l.m.finish(x.Now())
					break
				}
			}
		}
		held, res := c05Held(x, c)
		if x.Failed() {
			return
		}
		want := map[string][]string{}
		for cat, ids := range m.cats {
			if len(ids) > 0 {
				want[cat] = ids
			}
		}
		if !deepEq(held, want) {
			x.Failf("size %d, after %s: holds %s, want %s", init, log.String(), c05Names(held, trsIDs(trs, func(l *live) string { return l.id })), c05Names(want, trsIDs(trs, func(l *live) string { return l.id })))
			return
		}
		if res.TotalCount != m.total() {
			x.Failf("size %d, after %s: total %d, want %d", init, log.String(), res.TotalCount, m.total())
			return
		}
		// Active traces keep working, dropped or not.
		for n, l := range trs {
			if l.m.finished && !m.has(l.id) {
				continue
			}
			if !l.m.finished {
				l.tr.Tracef("e%d", i)
				l.m.add(kTrace, x.Now(), fmt.Sprintf("e%d", i))
			}
			if d := diffTrace(l.tr, l.m, x.Now()); d != "" || l.tr.ID() != l.id {
				x.Failf("size %d, after %s: trace %d: %s", init, log.String(), n, d)
				return
			}
		}
	}
	x.Outcome("%s", log.String())
}

func trsIDs[T any](ts []T, f func(T) string) map[string]int {
	out := map[string]int{}
	for i, t := range ts {
		out[f(t)] = i
	}
	return out
}

func c05Names(m map[string][]string, idx map[string]int) string {
	var cats []string
	for c := range m {
		cats = append(cats, c)
	}
	sort.Strings(cats)
	var b strings.Builder
	for _, c := range cats {
		fmt.Fprintf(&b, "%s:[", c)
		for _, id := range m[c] {
			if n, ok := idx[id]; ok {
				fmt.Fprintf(&b, " #%d", n)
			} else {
				fmt.Fprintf(&b, " ?%s", id)
			}
		}
		b.WriteString(" ] ")
	}
	return b.String()
}

// c05Resize: longer histories of only creating and resizing.
func c05Resize(x *X, first, depth int) {
	c := trc.NewDefaultCollector().SetCategorySize(3)
	m := &c05Model{size: 3, cats: map[string][]string{}}
	var log opLog
	idx := map[string]int{}
	for i := 0; i < depth; i++ {
		op := first
		if i > 0 {
			op = x.Choose(5)
		}
		if op == 0 {
			_, tr := c.NewTrace(context.Background(), "a")
			idx[tr.ID()] = len(idx)
			m.add("a", tr.ID())
			log.add("New")
		} else {
			c.SetCategorySize(op)
			m.resize(op)
			log.add("Resize(%d)", op)
		}
	}
	check := func() {
		held, _ := c05Held(x, c)
		if len(m.cats["a"]) > 0 && !deepEq(held, m.cats) || len(m.cats["a"]) == 0 && len(held) > 0 {
			x.Failf("after %s: holds %s, want %s", log.String(), c05Names(held, idx), c05Names(m.cats, idx))
		}
	}
	check()
	// What comes next shows the write position.
	for i := 0; i < 5 && !x.Failed(); i++ {
		_, tr := c.NewTrace(context.Background(), "a")
		idx[tr.ID()] = len(idx)
		m.add("a", tr.ID())
		log.add("New")
		check()
	}
	x.Outcome("%d %d", m.size, len(m.cats["a"]))
}

func c05Default(x *X) {
	c := []*trc.Collector{trc.NewDefaultCollector(), trc.NewCollector(trc.CollectorConfig{})}[x.Choose(2)]
	var ids []string
	n := 999 + x.Choose(4)
	finish := x.Bool()
	for i := 0; i < n; i++ {
		_, tr := c.NewTrace(context.Background(), "a")
		ids = append(ids, tr.ID())
		if finish {
			tr.Finish()
		}
	}
	c.NewTrace(context.Background(), "b")
	want := n
	if want > 1000 {
		want = 1000
	}
	for i := 0; i < n; i++ {
		if i > 4 && i < n-4 && i%97 != 0 {
			continue
		}
		res, err := c.Search(context.Background(), &trc.SearchRequest{Filter: trc.Filter{IDs: []string{ids[i]}}})
		if err != nil || res.TotalCount != want+1 {
			x.Failf("total %d, want %d", res.TotalCount, want+1)
			return
		}
		if (len(res.Traces) == 1) != (i >= n-want) {
			x.Failf("%d created: trace %d found %v", n, i, len(res.Traces) == 1)
			return
		}
	}
	x.Outcome("%d", want)
}

// c05Big: large sizes and wrapping far beyond them.
func c05Big(x *X) {
	sizes := []int{4, 5, 7, 8, 16}
	s1, s2 := sizes[x.Choose(len(sizes))], sizes[x.Choose(len(sizes))]
	n1, n2 := x.Choose(20), x.Choose(20)
	c := trc.NewDefaultCollector().SetCategorySize(s1)
	m := &c05Model{size: s1, cats: map[string][]string{}}
	idx := map[string]int{}
	add := func(n int) {
		for i := 0; i < n; i++ {
			_, tr := c.NewTrace(context.Background(), "a")
			idx[tr.ID()] = len(idx)
			m.add("a", tr.ID())
		}
	}
	add(n1)
	c.SetCategorySize(s2)
	m.resize(s2)
	add(n2)
	held, _ := c05Held(x, c)
	if fmt.Sprint(held["a"]) != fmt.Sprint(m.cats["a"]) {
		x.Failf("size %d, %d new, size %d, %d new: holds %s, want %s", s1, n1, s2, n2, c05Names(held, idx), c05Names(m.cats, idx))
	}
	x.Outcome("%d %d", s2, len(held["a"]))
}

// c05Config: the parts of a collector's configuration.
func c05Config(x *X) {
	source := []string{"", "src", "%s"}[x.Choose(3)]
	var calls []string
	deco := func(name string) trc.DecoratorFunc {
		return func(tr trc.Trace) trc.Trace {
			calls = append(calls, name)
			return &passTrace{Trace: tr}
		}
	}
	cfg := trc.CollectorConfig{Source: source}
	custom := x.Bool()
	newTrace := func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
		calls = append(calls, "new:"+source+":"+category)
		return trc.New(ctx, source, category, ds...)
	}
	if custom {
		cfg.NewTrace = newTrace
	}
	nd := x.Choose(3)
	for i := 0; i < nd; i++ {
		cfg.Decorators = append(cfg.Decorators, deco(fmt.Sprint("d", i)))
	}
	if x.Bool() {
		cfg.Broker = trc.NewBroker()
	}
	c := trc.NewCollector(cfg)
	want := source
	if want == "" {
		want = "default"
	}
	switch x.Choose(4) {
	case 1:
		want = "renamed"
		if c.SetSourceName("renamed") != c {
			x.Failf("SetSourceName returns another collector")
		}
	case 2:
		nd = 1
		if c.SetDecorators(deco("d0")) != c {
			x.Failf("SetDecorators returns another collector")
		}
	case 3:
		custom = true
		if c.SetNewTrace(newTrace) != c {
			x.Failf("SetNewTrace returns another collector")
		}
	}
	for round := 0; round < 2; round++ {
		calls = nil
		_, tr := c.NewTrace(context.Background(), "cat")
		if tr.Source() != want || tr.Category() != "cat" {
			x.Failf("source %q category %q, want %q %q", tr.Source(), tr.Category(), want, "cat")
		}
		var exp []string
		if custom {
			exp = append(exp, "new:"+want+":cat")
		}
		for i := 0; i < nd; i++ {
			exp = append(exp, fmt.Sprint("d", i))
		}
		if fmt.Sprint(calls) != fmt.Sprint(exp) {
			x.Failf("construction made calls %v, want %v", calls, exp)
		}
		held, res := c05Held(x, c)
		if len(held["cat"]) != round+1 || res.Sources[0] != want || len(res.Sources) != 1 {
			x.Failf("holds %v, sources %v", held, res.Sources)
		}
	}
	x.Outcome("%s %v", want, calls)
}

// c05Nested: creating a trace in a context with one, of any kind and in any
// state.
func c05Nested(x *X) {
	trc.SetTraceStacks(false)
	form := pickFrom(x, "core", "collector", "log", "pass", "prefix", "region", "ez", "deep")
	source, cat := pickFrom(x, "", "src"), pickFrom(x, "", "a", "(orphan)", "overall", oddCategory)
	s := mkSubject(form, source, cat)
	tr := s.tr
	states := pickFrom(x, "", "e", "x", "f", "xf", "fx")
	for _, st := range states {
		switch st {
		case 'e':
			tr.Tracef("e")
		case 'x':
			tr.Errorf("x")
		case 'f':
			tr.Finish()
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if x.Bool() {
		ctx, _ = trc.New(ctx, "other", "other")
	}
	static := x.Bool()
	if static {
		tr = trc.NewSearchTrace(tr)
	}
	ctx, _ = trc.Put(ctx, tr)
	if x.Bool() {
		cancel()
	}
	before := tr.Events()
	c := trc.NewDefaultCollector()
	if x.Bool() {
		c.SetSourceName(source)
	}
	name := pickFrom(x, cat, "", "other%d", "(orphan)")
	var nctx context.Context
	var got trc.Trace
	had := 0
	what := fmt.Sprintf("%s %q %q after %q, creating %q", form, source, cat, states, name)
	if x.Bool() {
		nctx, got = c.NewTrace(ctx, name)
	} else {
		what += " with eztrc"
		c = eztrc.Collector()
		_, res := c05Held(x, c)
		had = res.TotalCount
		nctx, got = eztrc.New(ctx, name)
	}
	if got != tr {
		x.Failf("%s: another trace was returned", what)
	}
	if have := trc.Get(nctx); have != tr {
		x.Failf("%s: another trace is in the context", what)
	}
	if _, res := c05Held(x, c); res.TotalCount != had {
		x.Failf("%s: the collector has %d traces, had %d", what, res.TotalCount, had)
	}
	after := tr.Events()
	if static || tr.Finished() {
		if len(after) != len(before) {
			x.Failf("%s: events %q", what, whats(after))
		}
	} else if len(after) != len(before)+1 || !strings.Contains(after[len(after)-1].What, name) || after[len(after)-1].IsError {
		x.Failf("%s: events %q", what, whats(after))
	}
	x.Outcome("%s", what)
}
