package main

import (
	"bytes"
	"context"
	_ "embed"
	"encoding/json"
	"errors"
	"fmt"
	"html/template"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
)

func init() {
	os.Setenv("TRC_ASSETS_DIR", "/nonexistent/assets") // templates in the working directory would be used
	register("C21", c21Variants, "text is valid UTF-8 without control characters", "category and source are not empty where links are followed", "the form carries over at most one source, and no IDs")
}

// capture remembers the requests.
type capture struct {
	res *trc.SearchResponse
	err error
	req *trc.SearchRequest
}

func (c *capture) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	r := *req
	c.req = &r
	if c.res == nil {
		return nil, c.err
	}
	res := *c.res
	return &res, c.err
}

var c21Hostile = []string{
	"plain",
	`<b>x</b>`,
	`"'><script>alert(1)</script>`,
	`&amp;&lt;&#60;`,
	`a&b=c#d%41+é ?/`,
	`{{.}} ${x} {{template "x"}}`,
	"\u2028'+alert(1)+'\\",
	`</title></style></script></textarea>`,
	`javascript:alert(1)`,
	"` onmouseover=alert(1) x=`",
	`%`,
	`<!-- -->`,
	`a,b;c,<i>`,
	`--></div>`,
	`&n=77&category=z`,
	`;active;x`,
}

// c21Names also has the label of the row that sums up all categories.
var c21Names = append(append([]string{}, c21Hostile...), "overall")

// c21Page requests the HTML page.
func c21Page(s trcweb.Searcher, uri string) (*node, string, error) {
	r := httptest.NewRequest("GET", uri, nil)
	r.Header.Set("accept", "text/html")
	rec := httptest.NewRecorder()
	(&trcweb.TraceServer{Searcher: s, Collector: trc.NewDefaultCollector()}).ServeHTTP(rec, r)
	body := rec.Body.String()
	if rec.Code != 200 || !strings.HasPrefix(rec.Header().Get("content-type"), "text/html") {
		return nil, body, fmt.Errorf("HTTP %d: %s", rec.Code, clip(body, 500))
	}
	if !strings.HasSuffix(strings.TrimSpace(body), "</html>") {
		return nil, body, fmt.Errorf("page ends with %q", clipTail(body, 100))
	}
	doc, err := parseHTML(body)
	return doc, body, err
}

type c21Strings struct {
	category, source, text, query, problem, id, function, other string
}

// c21Response is the response to a search.
func c21Response(t c21Strings) *trc.SearchResponse {
	start := time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)
	ev := func(what string, iserr bool) trc.Event {
		return trc.Event{When: start.Add(ms), What: what, IsError: iserr, Stack: []trc.Frame{{Function: t.function, FileLine: "/x/" + t.function + ":12"}}}
	}
	traces := []*trc.StaticTrace{
		{TraceID: t.id, TraceSource: t.source, TraceCategory: t.category, TraceStarted: start, TraceDuration: 10 * ms, TraceFinished: true, TraceErrored: true, TraceEvents: []trc.Event{ev(t.text, false), ev(t.text+" 2", true)}},
		{TraceID: "id2", TraceSource: "other", TraceCategory: t.other, TraceStarted: start.Add(-ms), TraceDuration: 0, TraceEvents: []trc.Event{ev("x"+t.text, false)}},
		{TraceID: "id3", TraceSource: "other", TraceCategory: t.category, TraceStarted: start.Add(-2 * ms), TraceDuration: ms, TraceFinished: true},
	}
	stats := trc.NewSearchStats(trc.DefaultBucketing)
	for _, tr := range traces {
		stats.Observe(tr)
	}
	res := &trc.SearchResponse{Sources: []string{t.source, "other"}, TotalCount: 17, MatchCount: 7, Traces: traces, Stats: stats, Duration: ms}
	if t.problem != "" {
		res.Problems = []string{t.problem}
	}
	return res
}

func c21Variants(tier string) []*Variant {
	var vs []*Variant
	for i := range c21Hostile {
		for _, where := range []string{"category", "query", "text"} {
			i, where := i, where
			vs = append(vs, &Variant{Name: fmt.Sprintf("markup/%s/%d", where, i), Seq: true, Body: func(x *X) { c21Markup(x, where, i, tier == "thorough") }})
		}
	}
	for i := range c21Names {
		i := i
		vs = append(vs, &Variant{Name: fmt.Sprintf("links/%d", i), Seq: true, Body: func(x *X) { c21Links(x, i, tier == "thorough") }})
	}
	for i := 0; i < 16; i++ {
		i := i
		vs = append(vs, &Variant{Name: fmt.Sprintf("form/%d", i), Seq: true, Body: func(x *X) { c21Form(x, i) }})
	}
	for i := 0; i < 6; i++ {
		i := i
		vs = append(vs, &Variant{Name: fmt.Sprintf("large/%d", i), Seq: true, Body: func(x *X) { c21Large(x, i) }})
	}
	vs = append(vs, &Variant{Name: "outcomes", Seq: true, Body: c21Outcomes})
	for i := 0; i < 4; i++ {
		i := i
		vs = append(vs, &Variant{Name: fmt.Sprint("live/", i), Seq: true, Body: func(x *X) { c21Live(x, i) }})
	}
	vs = append(vs, &Variant{Name: "scripts", Real: c21Scripts})
	vs = append(vs, &Variant{Name: "assets", Real: c21Assets})
	vs = append(vs, &Variant{Name: "sourcelink", Seq: true, Body: c21SourceLink})
	return vs
}

func c21URI(t c21Strings, more string) string {
	v := url.Values{}
	if t.query != "" {
		v.Set("q", t.query)
	}
	return "/?" + v.Encode() + more
}

// jsSkeleton replaces the contents of string literals.
var jsString = regexp.MustCompile(`"(?:[^"\\\n<>\x{2028}]|\\.)*"`)

// c21Markup: text never becomes markup.
func c21Markup(x *X, where string, i int, full bool) {
	h := c21Hostile
	at := func(k int) string { return h[(i+k)%len(h)] }
	t := c21Strings{category: "c", source: "s", text: "t", query: "q", problem: "p", id: "id", function: "f", other: "o"}
	benign := t
	k := x.Choose(len(h))
	switch where {
	case "category":
		t.category, t.source = h[i], h[k]
		t.text, t.function = at(k+3), at(k+5)
	case "query":
		t.query, t.problem = h[i], h[k]
		t.category, t.id = at(k+7), at(k+2)
	case "text":
		t.text, t.other = h[i], h[k]
		t.query, t.function = at(k+1), at(k+4)
	}
	if t.other == t.category || t.query == "" {
		return
	}
	filters := []string{"", "&category=" + url.QueryEscape(t.category) + "&min=5ms&source=" + url.QueryEscape(t.source), "&active&b=1ms&b=7s&n=25&source=other&id=" + url.QueryEscape(t.id)}
	bfilters := []string{"", "&category=c&min=5ms&source=s", "&active&b=1ms&b=7s&n=25&source=other&id=id"}
	fi := 0
	if full {
		fi = x.Choose(len(filters))
	} else {
		fi = (i + k) % len(filters)
	}
	if _, err := regexp.Compile(t.query); err != nil {
		benign.query = "("
	}
	mk := func(t c21Strings) *trc.SearchResponse {
		r := c21Response(t)
		if fi == 2 {
			st := trc.NewSearchStats([]time.Duration{0, ms, 7 * time.Second})
			for _, tr := range r.Traces {
				st.Observe(tr)
			}
			r.Stats = st
		}
		// The order of categories follows their names.
		return r
	}
	want, _, err := c21Page(&capture{res: mk(benign)}, c21URI(benign, bfilters[fi]))
	if err != nil {
		x.Failf("benign page: %v", err)
		return
	}
	doc, body, err := c21Page(&capture{res: mk(t)}, c21URI(t, filters[fi]))
	if err != nil {
		x.Failf("%+v: %v", t, err)
		return
	}
	var a, b strings.Builder
	want.skeleton(&a)
	doc.skeleton(&b)
	if a.String() != b.String() {
		x.Failf("%+v: the structure of the page differs: %s", t, firstDiff(b.String(), a.String()))
		return
	}
	// Scripts are the same, apart from string literals.
	ws, ds := want.tags("script"), doc.tags("script")
	for j := range ws {
		w, d := ws[j].children[0].text, ds[j].children[0].text
		if w, d = jsString.ReplaceAllString(w, `""`), jsString.ReplaceAllString(d, `""`); w != d {
			x.Failf("%+v: script %d differs: %s", t, j, firstDiff(d, w))
		}
	}
	// So are event handlers, and there are no script URLs.
	wa, da := want.all(func(*node) bool { return true }), doc.all(func(*node) bool { return true })
	_ = wa
	for _, n := range da {
		for _, at := range n.attrs {
			if strings.HasPrefix(at[0], "on") {
				if s := jsString.ReplaceAllString(at[1], `""`); strings.ContainsAny(s, `'<>`) || strings.Contains(s, "alert") {
					x.Failf("%+v: handler %s", t, at[1])
				}
			}
			if at[0] == "href" && !strings.HasPrefix(at[1], "?") {
				x.Failf("%+v: link %s", t, at[1])
			}
		}
	}
	// Style sheets have nothing of it.
	for _, n := range doc.tags("style") {
		if s := n.children[0].text; strings.Contains(s, "alert") || strings.Contains(s, "<") {
			x.Failf("%+v: style %s", t, firstDiff(s, want.tags("style")[0].children[0].text))
		}
	}
	if d := c21Shown(doc, c21Response(t)); d != "" {
		x.Failf("%+v: %s", t, d)
	}
	if !strings.Contains(doc.id("topline-search-problems").content(), t.problem) {
		x.Failf("%+v: problem not shown", t)
	}
	_ = body
	x.Outcome("%s %d %d %d", where, i, k, fi)
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-60)
	return fmt.Sprintf("%q, want %q", clip(a[from:], 160), clip(b[from:], 160))
}

var spaces = regexp.MustCompile(`\s+`)

func squeeze(s string) string { return strings.TrimSpace(spaces.ReplaceAllString(s, " ")) }

// c21Shown checks that every trace and event is shown, in order.
func c21Shown(doc *node, res *trc.SearchResponse) string {
	list := doc.id("traces")
	if list == nil {
		return "no list of traces"
	}
	divs := list.all(func(n *node) bool { return n.tag == "div" && n.class("trace") })
	if len(divs) != len(res.Traces) {
		return fmt.Sprintf("%d traces shown of %d", len(divs), len(res.Traces))
	}
	for i, tr := range res.Traces {
		div := divs[i]
		if id, _ := div.attr("id"); id != "trace-"+tr.TraceID {
			return fmt.Sprintf("trace %d is %s", i, id)
		}
		meta := div.all(func(n *node) bool { return n.class("metadata") })
		if len(meta) != 1 {
			return fmt.Sprintf("trace %d has no metadata", i)
		}
		m := squeeze(meta[0].content())
		for _, s := range []string{tr.TraceID, tr.TraceSource, tr.TraceCategory} {
			if !strings.Contains(m, squeeze(s)) {
				return fmt.Sprintf("trace %d: %q does not show %q", i, m, s)
			}
		}
		var events []*node
		for _, ev := range div.all(func(n *node) bool { return n.tag == "div" && n.class("event") }) {
			if !ev.class("summary") {
				events = append(events, ev)
			}
		}
		if len(events) != len(tr.TraceEvents)+2 {
			return fmt.Sprintf("trace %d: %d events shown of %d", i, len(events), len(tr.TraceEvents))
		}
		last := squeeze(events[len(events)-1].content())
		if strings.Contains(last, "finished") != tr.TraceFinished || strings.Contains(last, "active") == tr.TraceFinished {
			return fmt.Sprintf("trace %d: finished %v, shown %q", i, tr.TraceFinished, last)
		}
		if d := tr.TraceDuration; d == 0 || d == ms || d == 10*ms {
			sum := div.all(func(n *node) bool { return n.tag == "div" && n.class("duration") })
			if len(sum) != 1 || strings.Trim(sum[0].content(), "\u00a0 \n\t") != d.String() {
				return fmt.Sprintf("trace %d: duration %s is not shown", i, d)
			}
		}
		for j, ev := range tr.TraceEvents {
			what := events[j+1].all(func(n *node) bool { return n.class("what") })
			if len(what) != 1 || squeeze(what[0].content()) != squeeze(ev.What) {
				return fmt.Sprintf("trace %d: event %d %q is not shown", i, j, ev.What)
			}
			if what[0].class("error") != ev.IsError {
				return fmt.Sprintf("trace %d: event %d error %v is not shown", i, j, ev.IsError)
			}
			ts := events[j+1].all(func(n *node) bool { return n.class("timestamp") })
			if len(ts) != 1 || squeeze(ts[0].content()) != ev.When.Format("15:04:05.000000") {
				return fmt.Sprintf("trace %d: event %d time is not shown", i, j)
			}
			st := events[j+1].all(func(n *node) bool { return n.class("stack") })
			if len(st) != 1 {
				return fmt.Sprintf("trace %d: event %d stack", i, j)
			}
			titles := st[0].all(func(n *node) bool { _, ok := n.attr("title"); return ok })
			if len(titles) != len(ev.Stack) {
				return fmt.Sprintf("trace %d: event %d has %d frames, shown %d", i, j, len(ev.Stack), len(titles))
			}
			for k, f := range ev.Stack {
				if s, _ := titles[k].attr("title"); s != f.Function {
					return fmt.Sprintf("trace %d: event %d frame %d %q", i, j, k, s)
				}
			}
		}
	}
	for id, want := range map[string]string{"topline-search-total": fmt.Sprint(res.TotalCount), "topline-search-matched": fmt.Sprint(res.MatchCount), "topline-search-shown": fmt.Sprint(len(res.Traces))} {
		n := doc.id(id)
		if n == nil || !regexp.MustCompile(`\b`+want+`\b`).MatchString(n.content()) {
			return fmt.Sprintf("%s does not show %s", id, want)
		}
	}
	return ""
}

// follow returns the search a link leads to.
func follow(href string) (*trc.SearchRequest, error) {
	base, _ := url.Parse("http://example.com/traces?old=1")
	u, err := base.Parse(href)
	if err != nil {
		return nil, err
	}
	if u.Path != "/traces" || u.Fragment != "" {
		return nil, fmt.Errorf("leads to %s", u)
	}
	c := &capture{err: errors.New("x")}
	r := httptest.NewRequest("GET", u.RequestURI(), nil)
	(&trcweb.TraceServer{Searcher: c, Collector: trc.NewDefaultCollector()}).ServeHTTP(httptest.NewRecorder(), r)
	if c.req == nil {
		return nil, errors.New("no search")
	}
	return c.req, nil
}

func requestDiff(got *trc.SearchRequest, f trc.Filter, limit int, buckets []time.Duration) string {
	if d := filterDiff(got.Filter, f); d != "" {
		return d
	}
	if got.Limit != limit {
		return fmt.Sprintf("limit %d, want %d", got.Limit, limit)
	}
	if !sameDurs(got.Bucketing, buckets) {
		return fmt.Sprintf("buckets %v, want %v", got.Bucketing, buckets)
	}
	return ""
}

// c21Links: links lead to what they name.
func c21Links(x *X, i int, full bool) {
	h := c21Names
	k := x.Choose(len(h))
	t := c21Strings{category: h[i], source: h[k], text: "t", id: "01HABC", function: "f", other: h[(i+k+1)%len(h)]}
	if t.category == t.other {
		t.other = "o"
	}
	qi := x.Choose(3)
	switch qi {
	case 1:
		t.query = h[(i+2*k)%len(h)]
	case 2:
		t.query = "a+b&c=d%20[e] #x"
	}
	if _, err := regexp.Compile(t.query); err != nil {
		return
	}
	v := url.Values{}
	if t.query != "" {
		v.Set("q", t.query)
	}
	limit := pickFrom(x, 10, 25, 7)
	if limit != 10 {
		v.Set("n", fmt.Sprint(limit))
	}
	var sources []string
	switch x.Choose(3) {
	case 1:
		sources = []string{t.source}
	case 2:
		sources = []string{"other", t.source}
	}
	v["source"] = sources
	buckets := trc.DefaultBucketing
	if x.Bool() {
		buckets = []time.Duration{0, 1234567, 7*time.Second + 1}
		v["b"] = []string{"1.234567ms", "7.000000001s"}
	}
	// What is selected currently has no influence on the links.
	switch (i + k + qi + limit) % 4 {
	case 1:
		v.Set("category", t.category)
		v.Set("active", "")
	case 2:
		v.Set("min", "5ms")
		v.Set("errored", "")
	case 3:
		v.Set("id", "xyz")
		v.Set("finished", "")
	}
	res := c21Response(t)
	res.Stats = trc.NewSearchStats(buckets)
	for _, tr := range res.Traces {
		res.Stats.Observe(tr)
	}
	doc, _, err := c21Page(&capture{res: res}, "/?"+v.Encode())
	if err != nil {
		x.Failf("%s: %v", v.Encode(), err)
		return
	}
	base := trc.Filter{Query: t.query, Sources: sources}
	test := func(a *node, what string, f trc.Filter) bool {
		href, ok := a.attr("href")
		if !ok {
			x.Failf("%+v %s: %s: no link", t, v.Encode(), what)
			return false
		}
		got, err := follow(href)
		if err == nil {
			if d := requestDiff(got, f, limit, buckets); d != "" {
				err = errors.New(d)
			}
		}
		if err != nil {
			x.Failf("%+v %s: %s: link %s: %v", t, v.Encode(), what, href, err)
			return false
		}
		return true
	}
	table := doc.id("summary")
	if table == nil {
		x.Failf("no summary")
		return
	}
	rows := table.tags("tr")
	cells := func(n *node) []*node {
		return n.all(func(n *node) bool { return n.tag == "td" || n.tag == "th" })
	}
	link := func(n *node) *node {
		as := n.tags("a")
		if len(as) != 1 {
			return &node{}
		}
		return as[0]
	}
	nb := len(buckets)
	if len(rows) != 2+2 || len(cells(rows[0])) < nb+4 {
		x.Failf("%d rows, %d columns", len(rows), len(cells(rows[0])))
		return
	}
	head := cells(rows[0])
	column := func(j int) (func(*trc.Filter), string) {
		switch {
		case j == 1:
			return func(f *trc.Filter) { f.IsActive = true }, "Active"
		case j >= 2 && j < 2+nb:
			d := buckets[j-2]
			return func(f *trc.Filter) { f.MinDuration = &d }, "≥" + d.String()
		case j == 2+nb:
			return func(f *trc.Filter) { f.IsErrored = true }, "Error"
		}
		return func(*trc.Filter) {}, ""
	}
	for j := 1; j <= 2+nb; j++ {
		set, label := column(j)
		if got := squeeze(head[j].content()); strings.ReplaceAll(got, "⩾", "≥") != label {
			x.Failf("column %d is %q, want %q", j, got, label)
			return
		}
		f := base
		set(&f)
		if !test(link(head[j]), label, f) {
			return
		}
	}
	seen := map[string]bool{}
	for i, row := range rows[1:] {
		cs := cells(row)
		f := base
		var counts []int // active, buckets..., errored, total
		if i == len(rows)-2 {
			o := res.Stats.Overall()
			counts = append(append([]int{o.ActiveCount}, o.BucketCounts...), o.ErroredCount, o.TotalCount())
		} else {
			name := ""
			for _, n := range []string{t.category, t.other} {
				if squeeze(cs[0].content()) == squeeze(n) && !seen[n] {
					name = n
				}
			}
			if name == "" {
				x.Failf("row %q", cs[0].content())
				return
			}
			seen[name] = true
			f.Category = name
			c := res.Stats.Categories[name]
			counts = append(append([]int{c.ActiveCount}, c.BucketCounts...), c.ErroredCount, c.TotalCount())
		}
		for j := 0; j <= 2+nb; j++ {
			set, label := column(j)
			g := f
			set(&g)
			if !test(link(cs[j]), fmt.Sprintf("%q %s", squeeze(cs[0].content()), label), g) {
				return
			}
		}
		for j, n := range counts {
			if got := squeeze(cs[1+j].content()); got != fmt.Sprint(n) {
				x.Failf("%+v: %q column %d shows %s, want %d", t, squeeze(cs[0].content()), j, got, n)
				return
			}
		}
	}
	// The list of traces.
	for i, div := range doc.id("traces").all(func(n *node) bool { return n.tag == "div" && n.class("trace") }) {
		tr := res.Traces[i]
		found := 0
		for _, a := range div.all(func(n *node) bool { return n.class("metadata") })[0].tags("a") {
			href, _ := a.attr("href")
			got, err := follow(href)
			if err != nil {
				x.Failf("%+v: %s: %v", t, href, err)
				return
			}
			var f trc.Filter
			label := strings.TrimSpace(a.content())
			switch {
			case found == 0 && label == tr.TraceID, found == 1 && label == "JSON":
				f.IDs = []string{tr.TraceID}
				if u, _ := url.Parse(href); label == "JSON" && !u.Query().Has("json") {
					x.Failf("%s is not JSON", href)
				}
			case found == 2 && label == strings.TrimSpace(tr.TraceSource):
				f.Sources = []string{tr.TraceSource}
			case found == 3 && label == strings.TrimSpace(tr.TraceCategory):
				f.Category = tr.TraceCategory
			default:
				x.Failf("%+v: link %d %q", t, found, label)
				return
			}
			if d := filterDiff(got.Filter, f); d != "" {
				x.Failf("%+v: link %q %s: %s", t, label, href, d)
				return
			}
			found++
		}
		if found != 4 {
			x.Failf("%+v: %d links", t, found)
		}
	}
	x.Outcome("%+v %s", t, v.Encode())
}

// c21Form: the form carries over the filter.
func c21Form(x *X, bits int) {
	h := c21Names
	k := x.Choose(len(h))
	t := c21Strings{category: "c", source: "s d", text: "t", id: "i", function: "f", other: h[k]}
	f := trc.Filter{IsActive: bits&1 > 0, IsFinished: bits&2 > 0, IsSuccess: bits&4 > 0, IsErrored: bits&8 > 0}
	f.MinDuration = pickFrom(x, nil, durp(1500*time.Microsecond), durp(1234567), durp(90*time.Minute+1))
	f.Category = pickFrom(x, "", h[k])
	if s := h[(k+bits)%len(h)]; regexp.MustCompile("").MatchString(s) {
		if _, err := regexp.Compile(s); err == nil {
			f.Query = s
		}
	}
	if bits%3 == 1 {
		f.Sources = []string{"s d"}
	}
	limit := []int{10, 25, 100, 7, 250}[(k+bits)%5]
	r := httptest.NewRequest("GET", "/", nil)
	v := url.Values{"n": {fmt.Sprint(limit)}, "q": {f.Query}}
	if f.Category != "" {
		v.Set("category", f.Category)
	}
	for n, b := range map[string]bool{"active": f.IsActive, "finished": f.IsFinished, "success": f.IsSuccess, "errored": f.IsErrored} {
		if b {
			v.Set(n, "")
		}
	}
	if f.MinDuration != nil {
		v.Set("min", f.MinDuration.String())
	}
	v["source"] = f.Sources
	_ = r
	res := c21Response(t)
	switch x.Choose(4) { // the sources that answered
	case 1:
		res.Sources = []string{"s d"}
	case 2:
		res.Sources = []string{"other", "third"}
	case 3:
		res.Sources = nil
	}
	doc, _, err := c21Page(&capture{res: res}, "/?"+v.Encode())
	if err != nil {
		x.Failf("%v", err)
		return
	}
	form := doc.id("search-form")
	if form == nil {
		x.Failf("no form")
		return
	}
	sent := url.Values{}
	for _, n := range form.all(func(n *node) bool { return n.tag == "input" || n.tag == "select" }) {
		name, ok := n.attr("name")
		if !ok {
			continue
		}
		val, _ := n.attr("value")
		if n.tag == "select" {
			opts := n.tags("option")
			var sel *node
			for _, o := range opts {
				if _, ok := o.attr("selected"); ok || sel == nil {
					sel = o
				}
			}
			if sel == nil {
				continue
			}
			if val, ok = sel.attr("value"); !ok {
				val = squeeze(sel.content())
			}
		}
		if val != "" { // empty ones are disabled when submitting
			sent.Add(name, val)
		}
	}
	got, err := follow("?" + sent.Encode())
	if err != nil {
		x.Failf("%v", err)
		return
	}
	if d := requestDiff(got, f, limit, trc.DefaultBucketing); d != "" {
		x.Failf("%s: form sends %s: %s", v.Encode(), sent.Encode(), d)
	}
	x.Outcome("%s", sent.Encode())
}

// c21Outcomes: searches of any outcome.
func c21Outcomes(x *X) {
	k := x.Choose(10)
	c := &capture{}
	want := "No matching traces"
	problems := 0
	switch k {
	case 0:
		c.err = errors.New("<it> failed")
		problems = 1
	case 1: // nothing at all
		problems = 1
	case 2:
		c.res = &trc.SearchResponse{}
	case 3:
		c.res = &trc.SearchResponse{Stats: trc.NewSearchStats(nil)}
	case 4:
		c.res = &trc.SearchResponse{Stats: trc.NewSearchStats(trc.DefaultBucketing), Problems: []string{"a", "b"}}
		problems = 2
	case 5:
		st := trc.NewSearchStats(trc.DefaultBucketing)
		for i := 0; i < 120; i++ {
			st.Observe(&trc.StaticTrace{TraceCategory: fmt.Sprint("c", i)})
		}
		c.res = &trc.SearchResponse{Stats: st}
		problems = 1
	case 6: // active since the future, with a negative duration
		now := x.Now()
		st := trc.NewSearchStats(trc.DefaultBucketing)
		tr := &trc.StaticTrace{TraceID: "i", TraceCategory: "c", TraceStarted: now.Add(time.Hour), TraceDuration: -1, TraceEvents: []trc.Event{{When: now.Add(-time.Hour), What: "early"}}}
		st.Observe(tr)
		c.res = &trc.SearchResponse{Stats: st, Traces: []*trc.StaticTrace{tr}}
		want = "early"
	case 7: // empty in every respect
		st := trc.NewSearchStats(trc.DefaultBucketing)
		tr := &trc.StaticTrace{}
		st.Observe(tr)
		c.res = &trc.SearchResponse{Stats: st, Traces: []*trc.StaticTrace{tr}}
		want = "active"
	case 8:
		c.res = c21Response(c21Strings{category: "c", source: "s", text: "some text", id: "i", function: "f", other: "o"})
		c.err = errors.New("but failed")
		problems = 1
		want = ""
	case 9:
		c.res = c21Response(c21Strings{category: "c", source: "", text: "some text", id: "i", function: "", other: "overall"})
		c.res.Traces[0].TraceEvents = nil
		for i := 0; i < 300; i++ {
			c.res.Traces[0].TraceEvents = append(c.res.Traces[0].TraceEvents, trc.Event{When: x.Now(), What: strings.Repeat("long ", 50) + fmt.Sprint(i)})
		}
		want = "long 299"
	}
	uri := pickFrom(x, "/", "/?q=(", "/?n=0&min=x&b=y&stack=z", "/?active&finished&errored&success&min=1ms&category=&id=&source=", "/?b=1s&b=1s&b=-1s&b=0s", "/?n=250&b=5m0s", "/?q="+url.QueryEscape(strings.Repeat("x", 3000)))
	switch uri {
	case "/?q=(":
		problems++
	case "/?b=1s&b=1s&b=-1s&b=0s", "/?n=250&b=5m0s":
		if k == 5 || k > 2 && k != 8 {
			return // the searcher's statistics would not match
		}
	}
	if k == 8 && strings.Contains(uri, "b=") && uri != "/?n=0&min=x&b=y&stack=z" {
		return
	}
	doc, _, err := c21Page(c, uri)
	if err != nil {
		x.Failf("outcome %d %s: %v", k, clip(uri, 60), err)
		return
	}
	if text := squeeze(doc.id("traces").content()); !strings.Contains(text, want) {
		x.Failf("outcome %d: shows %s, want %q", k, clip(text, 300), want)
	}
	shown := 0
	if p := doc.id("topline-search-problems"); p != nil {
		shown = len(p.all(func(n *node) bool { return n.tag == "div" })) - 1
	}
	if shown != problems {
		x.Failf("outcome %d %s: %d problems shown, want %d", k, clip(uri, 60), shown, problems)
	}
	if k != 0 && k != 1 && k != 8 {
		if d := c21Shown(doc, c.res); d != "" && k != 9 {
			x.Failf("outcome %d: %s", k, d)
		}
	}
	x.Outcome("%d %s", k, clip(uri, 60))
}

// c21Live: pages of a real collector.
func c21Live(x *X, part int) {
	c := trc.NewDefaultCollector()
	n := x.Choose(4)
	for i := 0; i < n; i++ {
		_, tr := c.NewTrace(context.Background(), c21Hostile[(i+part*4)%len(c21Hostile)])
		switch x.Choose(3) {
		case 1:
			tr.Tracef("%s", c21Hostile[(i+part)%len(c21Hostile)])
			x.Advance(ms)
			tr.Finish()
		case 2:
			tr.LazyErrorf("%s", c21Hostile[(i+2*part)%len(c21Hostile)])
		}
		x.Advance(ms)
	}
	uri := pickFrom(x, "/", "/?active", "/?min=1ms&b=1ms", "/?errored&q=a", "/?finished&stack=-1&n=1")
	var res *trc.SearchResponse
	doc, _, err := c21Page(searchFunc(func(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
		r, err := c.Search(ctx, req)
		res = r
		return r, err
	}), uri)
	if err != nil {
		x.Failf("%s: %v", uri, err)
		return
	}
	if d := c21Shown(doc, res); d != "" {
		x.Failf("%s: %s", uri, d)
	}
	x.Outcome("%s %d %d", uri, n, len(res.Traces))
}

type searchFunc func(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error)

func (f searchFunc) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	return f(ctx, req)
}

// c21SourceLink: links to source code.
func c21SourceLink(x *X) {
	defer trcweb.SetSourceLinkFunc(func(string) template.URL { return "" })
	k := x.Choose(3)
	switch k {
	case 1:
		trcweb.SetSourceLinkFunc(trcweb.SourceLinkVSCode)
	case 2:
		trcweb.SetSourceLinkFunc(func(s string) template.URL { return template.URL("https://example.com/" + url.PathEscape(s)) })
	}
	i := x.Choose(len(c21Hostile))
	t := c21Strings{category: "c", source: "s", text: "t", id: "i", function: c21Hostile[i], other: "o"}
	doc, _, err := c21Page(&capture{res: c21Response(t)}, "/")
	if err != nil {
		x.Failf("%v", err)
		return
	}
	n := 0
	for _, st := range doc.all(func(n *node) bool { return n.class("stack") }) {
		for _, a := range st.tags("a") {
			n++
			href, _ := a.attr("href")
			if k == 1 && !strings.HasPrefix(href, "vscode://file//x/") || k == 2 && !strings.HasPrefix(href, "https://example.com/") {
				x.Failf("link %s", href)
			}
		}
	}
	if want := 3; k > 0 && n != want || k == 0 && n != 0 {
		x.Failf("%d links to source code", n)
	}
	x.Outcome("%d %d", k, i)
}

//go:embed c21page.js
var c21Script string

// c21Scripts: the scripts of the page don't turn text into markup, either.
func c21Scripts(r *Real) {
	type page struct {
		Scripts []string `json:"scripts"`
		Texts   []string `json:"texts"`
	}
	var pages []page
	var names []string
	for i, text := range c21Hostile {
		for j, q := range append([]string{".", ".*", "<", "x|a", "$", "x?$", "\\s", "\\W+", "."}, c21Hostile...) {
			t := c21Strings{category: "c", source: "s", text: text, query: q, id: "i", function: c21Hostile[(i+j)%len(c21Hostile)], other: "o"}
			doc, _, err := c21Page(&capture{res: c21Response(t)}, c21URI(t, ""))
			if err != nil {
				r.Failf("%+v: %v", t, err)
				return
			}
			var p page
			for _, n := range doc.tags("script") {
				p.Scripts = append(p.Scripts, n.children[0].text)
			}
			for _, n := range doc.all(func(n *node) bool { return n.class("searchable") }) {
				p.Texts = append(p.Texts, n.content())
			}
			pages = append(pages, p)
			names = append(names, fmt.Sprintf("text %q, query %q", text, q))
		}
	}
	in, _ := json.Marshal(pages)
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, "node", "-e", c21Script)
	cmd.Stdin = bytes.NewReader(in)
	b, err := cmd.Output()
	if err != nil {
		r.Outcome("cannot run node: undecided")
		return
	}
	var outs []struct {
		Assigned [][2]string
		Error    string
		Texts    []string
	}
	if err := json.Unmarshal(b, &outs); err != nil || len(outs) != len(pages) {
		r.Outcome("cannot read node's output: undecided")
		return
	}
	for i, out := range outs {
		for _, a := range out.Assigned {
			doc, err := parseHTML(a[1])
			if err != nil || doc.content() != a[0] {
				r.Failf("%s: a script turns the text %q into the markup %q", names[i], a[0], a[1])
				return
			}
		}
		for k, s := range out.Texts {
			if out.Error == "" && len(out.Assigned) == 0 && s != pages[i].Texts[k] {
				r.Failf("%s: a script turns the text %q into %q", names[i], pages[i].Texts[k], s)
				return
			}
		}
		r.Outcome("%d assignments, error %v", len(out.Assigned), out.Error != "")
		r.Cases++
	}
}

// c21Assets: whatever is in the working directory, the page is rendered.
func c21Assets(r *Real) {
	dir, err := os.MkdirTemp("", "c21")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	defer os.Setenv("TRC_ASSETS_DIR", os.Getenv("TRC_ASSETS_DIR"))
	names := []string{"root", "traces.html", "traces.css", "other.html", "embed.go"}
	for bits := 0; bits < 1<<len(names); bits++ {
		sub := filepath.Join(dir, fmt.Sprint(bits))
		for i, n := range names {
			if bits&(1<<i) > 0 {
				os.MkdirAll(filepath.Join(sub, n), 0o755)
			}
		}
		os.Setenv("TRC_ASSETS_DIR", sub)
		t := c21Strings{category: "c", source: "s", text: "t", id: "i", function: "f", other: "o"}
		res := c21Response(t)
		doc, _, err := c21Page(&capture{res: res}, "/")
		if err != nil {
			r.Failf("directories %05b of %s: %v", bits, names, err)
			return
		}
		if d := c21Shown(doc, res); d != "" {
			r.Failf("directories %05b of %s: %s", bits, names, d)
			return
		}
		r.Outcome("%05b", bits)
		r.Cases++
	}
	own := filepath.Join(dir, "own") // files there are used instead of the embedded ones
	os.MkdirAll(own, 0o755)
	os.WriteFile(filepath.Join(own, "traces.html"), []byte("<html><body><p>{{ HumanizeDuration 1000 }} own page</p></body></html>"), 0o644)
	os.Setenv("TRC_ASSETS_DIR", own)
	r.Cases++
	if _, body, err := c21Page(&capture{res: &trc.SearchResponse{}}, "/"); err != nil || !strings.Contains(body, "1µs own page") {
		r.Failf("own assets: %q %v", clip(body, 200), err)
	}
	os.WriteFile(filepath.Join(own, "traces.html"), []byte("<html><body><p>{{ .NoSuchThing }}</p></body></html>"), 0o644)
	r.Cases++
	if _, body, err := c21Page(&capture{res: &trc.SearchResponse{}}, "/"); err == nil || !strings.HasPrefix(err.Error(), "HTTP 5") {
		r.Failf("own assets, which can't be rendered: %q", clip(body, 200))
	}
}
