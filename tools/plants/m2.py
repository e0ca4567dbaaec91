TC="trace_core.go"; CO="collector.go"; RB="internal/trcringbuf/ringbuffer.go"; BR="broker.go"; DE="decorators.go"; FI="filter.go"; HE="helpers.go"
ST="search_stats.go"; SY="search_types.go"; SC="trace_static.go"; TR="trace.go"; TS="trcweb/trace_server.go"; UT="trcweb/util.go"; MW="trcweb/middleware.go"; RE="trcweb/render.go"; HT="trcweb/assets/traces.html"
m("walk-unlock-per-item", "C06", (RB, "		if err := fn(rb.buf[cur]); err != nil {\n			return err\n		}", "		val := rb.buf[cur]\n		rb.mtx.Unlock()\n		err := fn(val)\n		rb.mtx.Lock()\n		if err != nil {\n			return err\n		}"))
m("add-two-step", "C06", (RB, "	rb.buf[rb.cur] = val\n", "	cur := rb.cur\n	rb.mtx.Unlock()\n	rb.mtx.Lock()\n	rb.buf[cur] = val\n"))
m("free-in-walk", "C06 C07", (CO, "	if droppedTrace, didDrop := c.categories.GetOrCreate(category).Add(tr); didDrop {\n		maybeFree(droppedTrace)\n	}\n\n	return", "	if droppedTrace, didDrop := c.categories.GetOrCreate(category).Add(tr); didDrop {\n		go maybeFree(droppedTrace)\n	}\n\n	return"))
# C08
m("sources-all", "C08", (FI, "if source == tr.Source() {", "if strings.EqualFold(source, tr.Source()) {"))
m("query-errors-only", "C08", (FI, "				if f.regexp.MatchString(c.CompactFileLine()) {", "				if f.regexp.MatchString(c.FileLine) {"))
m("query-first-frame", "C08", (FI, "for _, c := range ev.Stack {", "for _, c := range ev.Stack[:min(len(ev.Stack), 4)] {"))
m("success-active", "C08", (FI, "	if f.IsSuccess {\n		if tr.Errored() {", "	if f.IsSuccess {\n		if tr.Errored() || !tr.Finished() {"))
m("stale-regexp", "C08", (FI, "	if f.regexp != nil && f.regexp.String() != f.Query {", "	if f.regexp != nil && f.Query != \"\" && f.regexp.String() != f.Query {"))
m("string-no-min", "C08", (FI, "	if f.MinDuration != nil {\n		elems", "	if f.MinDuration != nil && *f.MinDuration > 0 {\n		elems"))
m("string-ids", "C08", (FI, 'fmt.Sprintf("IDs=%v", f.IDs)', 'fmt.Sprintf("IDs=%v", f.IDs[0])'))
m("invalid-query-keeps", "C08", (FI, '		f.Query = ""\n		return', '		return'))
m("min-active", "C08", (FI, "		if !tr.Finished() {\n			return false // we assert MinDuration requires the trace to be finished\n		}\n", ""))
m("query-lowercase", "C08", (FI, "regexp.Compile(f.Query)", "regexp.Compile(strings.TrimSpace(f.Query))"))
m("compact-windows", "C08", (TR, 'file, line, _ := strings.Cut(fr.FileLine, ":")', 'file, line, _ := strings.Cut(fr.FileLine, ".go:")'))
# C09
m("limit-total", "C09", (CO, "			if len(categoryTraces) >= req.Limit {", "			if len(categoryTraces)+len(traces) >= req.Limit {"))
m("limit-max", "C09", (SY, "SearchLimitMax = 250", "SearchLimitMax = 251"))
m("match-count-after", "C09", (CO, "			matchCount++\n			return nil\n		})", "			return nil\n		})"), (CO, "	tr.LazyTracef(\"%s -> total", "	matchCount = len(traces)\n	tr.LazyTracef(\"%s -> total"))
m("trim-mutates", "C09", (SC, "	events := append([]Event(nil), st.TraceEvents...) // may belong to the original trace\n", "	events := st.TraceEvents\n"))
m("total-before-skip", "C09", (CO, "			stats.Observe(candidate)\n			totalCount++\n\n			if len(categoryTraces) >= req.Limit {\n				return nil\n			}\n", "			stats.Observe(candidate)\n\n			if len(categoryTraces) >= req.Limit {\n				return nil\n			}\n			totalCount++\n"))
m("neg-bucket", "C09 C11", (SY, "	for len(req.Bucketing) > 0 && req.Bucketing[0] < 0 {", "	if len(req.Bucketing) > 0 && req.Bucketing[0] < 0 {"))
m("problems-dropped", "C09", (CO, "Problems:   trcutil.FlattenErrors(normalizeErrs...),\n		Duration", "Problems:   nil,\n		Duration"), (CO, "	tr.LazyTracef(\"%s -> total", "	_ = trcutil.FlattenErrors(normalizeErrs...)\n	tr.LazyTracef(\"%s -> total"))
m("sort-seconds", "C09", (SC, "	case iStarted.After(jStarted):", "	case iStarted.Truncate(time.Microsecond).After(jStarted):"))
m("default-bucket-append", "C09 C11", (SY, "	if req.Bucketing[0] != 0 {\n		req.Bucketing = append([]time.Duration{0}, req.Bucketing...)", "	if req.Bucketing[0] > 0 && len(req.Bucketing) > 1 {\n		req.Bucketing = append([]time.Duration{0}, req.Bucketing...)"))
# C10
m("snapshot-no-recheck", "C10", (SC, "	for finished != tr.Finished() || errored != tr.Errored() {", "	for finished != tr.Finished() {"))
m("snapshot-events-first", "C10", (SC, "	finished, errored, events := tr.Finished(), tr.Errored(), tr.Events()\n	for finished != tr.Finished() || errored != tr.Errored() {\n		finished, errored, events = tr.Finished(), tr.Errored(), tr.Events()\n	}\n", "	events := tr.Events()\n	finished, errored := tr.Finished(), tr.Errored()\n"))
m("no-second-allow", "C10", (CO, "			if !req.Filter.Allow(static) {\n				return nil\n			}\n", ""))
# C11
m("stats-after-limit", "C11", (CO, "			stats.Observe(candidate)\n			totalCount++\n\n			if len(categoryTraces) >= req.Limit {\n				return nil\n			}\n", "			totalCount++\n			if len(categoryTraces) >= req.Limit && candidate.Finished() && candidate.Errored() {\n				return nil\n			}\n			stats.Observe(candidate)\n\n			if len(categoryTraces) >= req.Limit {\n				return nil\n			}\n"))
m("events-detail1", "C11", (ST, "cs.EventCount += len(tr.Events())", "cs.EventCount += max(1, len(tr.Events()))"))
m("overall-events", "C11 C12", (ST, "	cs.EventCount += other.EventCount\n", "	cs.EventCount = max(cs.EventCount, other.EventCount)\n"))
m("category-iszero-empty", "C11 C12", (ST, "		zeroOldest       = cs.Oldest.IsZero()\n", "		zeroOldest       = true\n"), (ST, "		zeroNewest       = cs.Newest.IsZero()\n		zeroEverything", "		zeroNewest       = true\n		zeroEverything"), (ST, 'zeroCategory     = cs.Category == ""', 'zeroCategory     = cs.Category == "" || cs.EventCount == 0'))
m("newest-first", "C11", (ST, "		if a.After(b) {\n			return a", "		if a.After(b.Add(time.Millisecond)) {\n			return a"))
m("errored-active", "C11", (ST, "isActive      = !traceFinished", "isActive      = !traceFinished && !traceErrored"), (ST, "isErrored     = traceFinished && traceErrored", "isErrored     = traceErrored"))
m("active-race", "C11 C10", (ST, "isBucket      = traceFinished && !traceErrored", "isBucket      = tr.Finished() && !traceErrored"))
m("bucket-shared", "C11 C12", (ST, "			cp := *theirs\n			cp.BucketCounts = append([]int(nil), theirs.BucketCounts...)\n			ss.Categories[category] = &cp\n			continue", "			cp := *theirs\n			ss.Categories[category] = &cp\n			continue"))
