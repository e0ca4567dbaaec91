package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/zmc"
)

func init() {
	register("C06", c06Variants, "a search or resize takes effect per category, not on all categories at one instant")
}

type c06Op struct {
	kind     string // new, resize, search
	cat      string
	id       string
	size     int
	inv, ret int
	view     map[string][]string
	total    int
	err      string
}

func (o *c06Op) String() string {
	switch o.kind {
	case "new":
		return fmt.Sprintf("[%d-%d new %s]", o.inv, o.ret, o.cat)
	case "resize":
		return fmt.Sprintf("[%d-%d resize %d]", o.inv, o.ret, o.size)
	default:
		return fmt.Sprintf("[%d-%d search -> %d a, %d b]", o.inv, o.ret, len(o.view["a"]), len(o.view["b"]))
	}
}

// c06Linearizable checks one category.
func c06Linearizable(ops []*c06Op, cat string, size int) bool {
	var rel []*c06Op
	for _, o := range ops {
		if o.kind != "new" || o.cat == cat {
			rel = append(rel, o)
		}
	}
	n := len(rel)
	dead := map[string]bool{}
	var rec func(mask uint32, held []string, size int) bool
	rec = func(mask uint32, held []string, size int) bool {
		if mask == 1<<uint(n)-1 {
			return true
		}
		key := fmt.Sprint(mask, held, size)
		if dead[key] {
			return false
		}
		minRet := 1 << 30
		for i, o := range rel {
			if mask&(1<<uint(i)) == 0 && o.ret < minRet {
				minRet = o.ret
			}
		}
		for i, o := range rel {
			if mask&(1<<uint(i)) != 0 || o.inv > minRet {
				continue
			}
			h, sz, ok := held, size, true
			switch o.kind {
			case "new":
				h = append(append([]string{}, held...), o.id)
			case "resize":
				if o.size > 0 {
					sz = o.size
				}
			case "search":
				a := append([]string{}, held...)
				sort.Strings(a)
				ok = eqStrings(a, o.view[cat])
			}
			if len(h) > sz {
				h = h[len(h)-sz:]
			}
			if ok && rec(mask|1<<uint(i), h, sz) {
				return true
			}
		}
		dead[key] = true
		return false
	}
	return rec(0, nil, size)
}

var c06OpNames = []string{"NewA", "NewA+Finish", "NewB", "Resize1", "Resize2", "Search"}

func c06Variants(tier string) []*Variant {
	var vs []*Variant
	for _, size := range []int{1, 2} {
		for _, pre := range []int{0, 1, 2} {
			for first := range c06OpNames {
				size, pre, first := size, pre, first
				if pre == 1 && size == 1 {
					continue
				}
				vs = append(vs, &Variant{Name: fmt.Sprintf("2x2/size=%d/pre=%d/first=%s", size, pre, c06OpNames[first]), Bound: quickThorough(tier, 2, 3),
					Body: func(x *X) { c06Run(x, size, pre, first, []int{2, 2}) }})
			}
		}
		for first := range c06OpNames {
			size, first := size, first
			vs = append(vs, &Variant{Name: fmt.Sprintf("3x1/size=%d/first=%s", size, c06OpNames[first]), Bound: quickThorough(tier, 2, 3),
				Body: func(x *X) { c06Run(x, size, 2, first, []int{1, 1, 1}) }})
		}
	}
	if tier == "thorough" {
		for first := range c06OpNames {
			first := first
			vs = append(vs, &Variant{Name: fmt.Sprintf("3x2/first=%s", c06OpNames[first]), Bound: 1,
				Body: func(x *X) { c06Run(x, 2, 1, first, []int{2, 2, 2}) }})
		}
	}
	for first := range c06OpNames {
		first := first
		vs = append(vs, &Variant{Name: "race/first=" + c06OpNames[first], Race: true, Bound: quickThorough(tier, 1, 2),
			Body: func(x *X) { c06Run(x, 1, 2, first, []int{1, 2}) }})
	}
	vs = append(vs, &Variant{Name: "resizes", Bound: quickThorough(tier, 2, 3), Body: c06Resizes})
	return vs
}

// c06Resizes: after concurrent resizes, one of the sizes is that of all categories.
func c06Resizes(x *X) {
	trc.SetTraceStacks(false)
	c := trc.NewDefaultCollector().SetCategorySize(pickFrom(x, 1, 3))
	for i := 0; i < 3; i++ {
		c06Do(c, 0, "")
		c06Do(c, 2, "")
	}
	third := x.Choose(3)
	sizes := [2]int{pickFrom(x, 1, 2), pickFrom(x, 3, 4)}
	var hs []*zmc.Handle
	for i := range sizes {
		i := i
		hs = append(hs, x.Go(fmt.Sprint("R", i), func() { c.SetCategorySize(sizes[i]) }))
	}
	if third > 0 {
		hs = append(hs, x.Go("N", func() { c.NewTrace(context.Background(), pickStr(third, "", "a", "c")) }))
	}
	for _, h := range hs {
		h.Join()
	}
	for i := 0; i < 15; i++ {
		c.NewTrace(context.Background(), pickStr(i, "a", "b", "c"))
	}
	held := map[string]int{}
	res, err := c.Search(context.Background(), &trc.SearchRequest{Limit: 250})
	if err != nil {
		x.Failf("%v", err)
		return
	}
	for _, tr := range res.Traces {
		held[tr.TraceCategory]++
	}
	if n := held["a"]; n != held["b"] || n != held["c"] || n != sizes[0] && n != sizes[1] {
		x.Failf("resized to %d and to %d at the same time: then the categories hold %v", sizes[0], sizes[1], held)
	}
	x.Outcome("%v %d", sizes, held["a"])
}

func c06Run(x *X, size, pre, first int, shape []int) {
	trc.SetTraceStacks(zmc.RaceEnabled)
	var plan [][]int
	var log opLog
	for i, n := range shape {
		var ops []int
		for j := 0; j < n; j++ {
			op := first
			if i+j > 0 {
				op = x.Choose(len(c06OpNames))
			}
			ops = append(ops, op)
			log.add("T%d:%s", i, c06OpNames[op])
		}
		plan = append(plan, ops)
	}
	c := trc.NewDefaultCollector().SetCategorySize(size)
	hist := make([][]*c06Op, len(shape)+1)
	for i := 0; i < pre; i++ {
		hist[len(shape)] = append(hist[len(shape)], c06Do(c, i%2, fmt.Sprint("p", i)))
	}
	var hs []*zmc.Handle
	for i := range plan {
		i := i
		hist[i] = make([]*c06Op, 0, 4)
		hs = append(hs, x.Go(fmt.Sprint("T", i), func() {
			for j, op := range plan[i] {
				hist[i] = append(hist[i], c06Do(c, op, fmt.Sprintf("t%d.%d", i, j)))
			}
		}))
	}
	for _, h := range hs {
		h.Join()
	}
	last := c06Do(c, 5, "last")
	all := []*c06Op{last}
	for _, h := range hist {
		all = append(all, h...)
	}
	var b []string
	for _, o := range all {
		b = append(b, o.String())
		if o.err != "" {
			x.Failf("size %d pre %d: %s: %s", size, pre, log.String(), o.err)
			return
		}
		if o.kind == "search" && o.total != len(o.view["a"])+len(o.view["b"]) {
			x.Failf("size %d pre %d: %s: search shows %v but counts %d", size, pre, log.String(), o.view, o.total)
			return
		}
	}
	for _, cat := range []string{"a", "b"} {
		if !c06Linearizable(all, cat, size) {
			x.Failf("size %d pre %d: %s: category %s: no sequential order explains %s", size, pre, log.String(), cat, strings.Join(b, " "))
			return
		}
	}
	x.Outcome("%s: %v", log.String(), b[0])
}

func c06Do(c *trc.Collector, op int, mark string) *c06Op {
	o := &c06Op{inv: zmc.Steps()}
	switch op {
	case 0, 1, 2:
		o.kind, o.cat = "new", "a"
		if op == 2 {
			o.cat = "b"
		}
		_, tr := c.NewTrace(context.Background(), o.cat)
		o.ret = zmc.Steps()
		o.id = tr.ID()
		tr.Tracef("%s", o.id)
		if op == 1 {
			tr.Finish()
		}
		return o
	case 3, 4:
		o.kind, o.size = "resize", op-2
		c.SetCategorySize(o.size)
	case 5:
		o.kind = "search"
		res, err := c.Search(context.Background(), &trc.SearchRequest{Limit: 250})
		o.ret = zmc.Steps()
		if err != nil {
			o.err = err.Error()
			return o
		}
		o.total = res.TotalCount
		o.view = map[string][]string{}
		stats := 0
		for _, cs := range res.Stats.Categories {
			stats += cs.TotalCount()
		}
		if stats != res.TotalCount {
			o.err = fmt.Sprintf("total count %d, statistics count %d", res.TotalCount, stats)
		}
		for _, tr := range res.Traces {
			o.view[tr.TraceCategory] = append(o.view[tr.TraceCategory], tr.TraceID)
			if tr.TraceSource != "default" || len(tr.TraceEvents) > 1 || len(tr.TraceEvents) == 1 && tr.TraceEvents[0].What != tr.TraceID || tr.TraceErrored {
				o.err = fmt.Sprintf("search returned a mixed-up trace %+v", tr)
			}
		}
		for _, ids := range o.view {
			sort.Strings(ids)
			for i := 1; i < len(ids); i++ {
				if ids[i] == ids[i-1] {
					o.err = fmt.Sprintf("search returned trace %s twice", ids[i])
				}
			}
		}
		return o
	}
	o.ret = zmc.Steps()
	return o
}
