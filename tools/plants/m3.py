TC="trace_core.go"; CO="collector.go"; RB="internal/trcringbuf/ringbuffer.go"; BR="broker.go"; DE="decorators.go"; FI="filter.go"; HE="helpers.go"
ST="search_stats.go"; SY="search_types.go"; SC="trace_static.go"; TR="trace.go"; TS="trcweb/trace_server.go"; UT="trcweb/util.go"; MW="trcweb/middleware.go"; RE="trcweb/render.go"; HT="trcweb/assets/traces.html"
# C12
m("multi-first-error", "C12", (SY, "			aggregate.Problems = append(aggregate.Problems, t.err.Error())\n", "			if len(aggregate.Problems) == 0 {\n				aggregate.Problems = append(aggregate.Problems, t.err.Error())\n			}\n"))
m("multi-src-dup", "C12", (SY, "	sourceIndex := make(map[string]struct{}, len(aggregate.Sources))", "	if len(ms) == 1 {\n		aggregate.Duration = time.Since(begin)\n		return aggregate, nil\n	}\n\n	sourceIndex := make(map[string]struct{}, len(aggregate.Sources))"))
m("multi-limit-before", "C12", (SY, "			aggregate.Problems = append(aggregate.Problems, t.res.Problems...)\n		case t.res != nil && t.err != nil: // weird", "			aggregate.Problems = append(aggregate.Problems, t.res.Problems...)\n			if len(aggregate.Traces) > 4*req.Limit {\n				aggregate.Traces = aggregate.Traces[:4*req.Limit]\n			}\n		case t.res != nil && t.err != nil: // weird"))
m("multi-shared-traces", "C12", (SY, "			aggregate.Traces = append(aggregate.Traces, t.res.Traces...) // needs sort+limit\n			aggregate.Problems = append(aggregate.Problems, t.res.Problems...)\n		case", "			if aggregate.Traces == nil {\n				aggregate.Traces = t.res.Traces\n			} else {\n				aggregate.Traces = append(aggregate.Traces, t.res.Traces...) // needs sort+limit\n			}\n			aggregate.Problems = append(aggregate.Problems, t.res.Problems...)\n		case"))
m("merge-zero-alias", "C12", (ST, "		ss.Categories = make(map[string]*CategoryStats, len(other.Categories))\n		for category, theirs := range other.Categories {\n			cp := *theirs\n			cp.BucketCounts = append([]int(nil), theirs.BucketCounts...)\n			ss.Categories[category] = &cp\n		}\n", ""))
m("cat-merge-alias", "C12 C11", (ST, "		cs.BucketCounts = append([]int(nil), other.BucketCounts...)\n		return\n", "		return\n"))
m("multi-normalize-missing", "C12", (SY, "		Problems: trcutil.FlattenErrors(normalizeErrs...),\n	}\n\n	for i", "	}\n	_ = trcutil.FlattenErrors(normalizeErrs...)\n\n	for i"))
m("multi-sort-skip", "C12", (SY, "	sort.Sort(staticTracesNewestFirst(aggregate.Traces))\n	if len(aggregate.Traces) > req.Limit {", "	if len(aggregate.Traces) > req.Limit {\n		sort.Sort(staticTracesNewestFirst(aggregate.Traces))"))
m("multi-shared-req", "C12", (SY, "			res, err := s.Search(ctx, req)\n", "			req.Limit = min(req.Limit, SearchLimitMax)\n			res, err := s.Search(ctx, req)\n"))
# C13
m("skip-as-drop", "C13", (BR, "			sub.stats.Skips++\n", "			if str.Finished() {\n				sub.stats.Skips++\n			}\n"))
m("publish-finish-last-event", "C13", (SC, "	case canDetail && !isActive:\n		events = detail.EventsDetail(-1, false)", "	case canDetail && !isActive:\n		events = detail.EventsDetail(100, false)"))
m("publish-create-missing", "C13", (DE, "		p.Publish(context.Background(), ptr.Trace)\n		return ptr", "		if tr.Category() != \"\" {\n			p.Publish(context.Background(), ptr.Trace)\n		}\n		return ptr"))
m("stats-shared", "C13", (BR, "			filter: f,\n			traces: ch,\n		}\n", "			filter: f,\n			traces: ch,\n		}\n		for _, other := range b.subs {\n			if other.filter.String() == f.String() {\n				b.subs[ch].stats.Skips = other.stats.Skips\n			}\n		}\n"))
m("publish-one-filter", "C13", (BR, "		if !sub.filter.Allow(str) {", "		if f := sub.filter; !f.Allow(str) && f.Query == \"\" || f.Query != \"\" && str.Finished() && !f.Allow(str) {"))
m("static-stacks", "C13 C20", (SC, "		events = append(events, tr.Events()...) // don't modify the trace's own events\n		for i := range events {\n			events[i].Stack = events[i].Stack[:0]\n		}\n	}", "		events = append(events, tr.Events()...) // don't modify the trace's own events\n	}"))
m("errored-not-published-dur", "C13", (SC, "TraceDurationSec: duration.Seconds(),", "TraceDurationSec: duration.Truncate(time.Millisecond).Seconds(),"))
# C14
m("publish-blocking", "C14", (BR, "		select {\n		case sub.traces <- str:\n			sub.stats.Sends++\n		default:\n			sub.stats.Drops++\n		}", "		if str.Finished() && cap(sub.traces) > 0 {\n			sub.traces <- str\n			sub.stats.Sends++\n			continue\n		}\n		select {\n		case sub.traces <- str:\n			sub.stats.Sends++\n		default:\n			sub.stats.Drops++\n		}"))
m("publish-copy-subs", "C14", (BR, "	b.mtx.Lock()\n	defer b.mtx.Unlock()\n\n	if len(b.subs) <= 0 {\n		return\n	}\n\n	str := NewStreamTrace(tr)\n\n	for _, sub := range b.subs {", "	b.mtx.Lock()\n	subs := make([]*subscriber, 0, len(b.subs))\n	for _, sub := range b.subs {\n		subs = append(subs, sub)\n	}\n	b.mtx.Unlock()\n\n	if len(subs) <= 0 {\n		return\n	}\n\n	str := NewStreamTrace(tr)\n\n	for _, sub := range subs {"))
m("publish-unlocked-update", "C14 C13", (DE, "	ptr.Trace.Errorf(format, args...)\n	ptr.p.Publish", "	ptr.Trace.Errorf(format, args...)\n	ptr.mtx.Unlock()\n	defer ptr.mtx.Lock()\n	ptr.p.Publish"))
m("dup-subscribe", "C14", (BR, '			return fmt.Errorf("already subscribed")\n', '			delete(b.subs, ch)\n			return fmt.Errorf("already subscribed")\n'))
m("stats-copy-before-delete", "C14", (BR, "		sub := b.subs[ch]\n		delete(b.subs, ch)\n\n		return sub\n", "		cp := *b.subs[ch]\n		b.mtx.Unlock()\n		b.mtx.Lock()\n		delete(b.subs, ch)\n\n		return &cp\n"))
m("streamstats-unlocked", "C14", (BR, "	b.mtx.Lock()\n	defer b.mtx.Unlock()\n\n	sub, ok := b.subs[ch]\n	if !ok {", "	b.mtx.Lock()\n	sub, ok := b.subs[ch]\n	b.mtx.Unlock()\n	if !ok {"))
# C15
m("json-body-limit", "C15", (UT, "1 * 1024 * 1024", "1024"))
m("accept-order", "C15", (RE, "useHTML     = acceptsHTML && !asksForJSON", "useHTML     = acceptsHTML && !asksForJSON && !acceptsJSON"))
m("client-ignores-status", "C15", (TS, "	if httpRes.StatusCode != http.StatusOK {", "	if httpRes.StatusCode >= 400 {"))
m("server-problems-twice", "C15", (TS, "	data.Response.Problems = append(problems, data.Response.Problems...)\n", "	data.Response.Problems = append(data.Response.Problems, problems...)\n	sortStrings(data.Response.Problems)\n"), (TS, "func (s *TraceServer) handleSearch", "func sortStrings(ss []string) {\n	for i := range ss {\n		if i > 0 && ss[i] == ss[i-1] {\n			ss[i] = \"\"\n		}\n	}\n}\n\nfunc (s *TraceServer) handleSearch"))
m("url-source-first", "C15 C16", (UT, 'Sources:     urlquery["source"],', 'Sources:     nonEmpty(urlquery.Get("source")),'), (UT, "func parseDefault[T any]", "func nonEmpty(s string) []string {\n	if s == \"\" {\n		return nil\n	}\n	return []string{s}\n}\n\nfunc parseDefault[T any]"))
m("stack-range", "C15", (TS, 'parseDefault(urlquery.Get("stack"), strconv.Atoi, 0)', 'parseRange(urlquery.Get("stack"), strconv.Atoi, 0, 0, 1000)'))
m("searcher-nil-crash", "C15", (TS, '	if err == nil && res == nil {\n		err = errors.New("empty response")\n	}\n', '	_ = errors.New\n'))
m("content-type-exact", "C15", (TS, 'isJSON = strings.Contains(r.Header.Get("content-type"), "application/json")', 'isJSON = r.Header.Get("content-type") == "application/json; charset=utf-8"'))
m("client-https", "C15", (TS, '	if !strings.HasPrefix(uri, "http") {\n		uri = "http://" + uri\n	}\n	return &SearchClient{', '	if !strings.Contains(uri, "http") {\n		uri = "http://" + uri\n	}\n	return &SearchClient{'))
m("static-json-errored", "C15", (SC, '`json:"errored,omitempty"`', '`json:"error,omitempty"`'))
