# C16-C22 and helpers.
TS, MW, UT, RN, EZ, HE, DE, CL, BR = "trcweb/trace_server.go", "trcweb/middleware.go", "trcweb/util.go", "trcweb/render.go", "eztrc/easy.go", "helpers.go", "decorators.go", "collector.go", "broker.go"
HT, CM, CS, CT, CR, CU = "trcweb/assets/traces.html", "cmd/trc/main.go", "cmd/trc/search.go", "cmd/trc/stream.go", "cmd/trc/trc.go", "cmd/trc/util.go"
# C16
m("own-by-source", "C16", (TS, "				if recv.ID() == tr.ID() {", "				if recv.ID() == tr.ID() || recv.Category() == tr.Category() {"))
m("own-finished-sent", "C16", (TS, "				if recv.ID() == tr.ID() {", "				if recv.ID() == tr.ID() && !recv.Finished() {"))
m("no-wait-donec", "C16", (TS, "	defer func() {\n		<-donec\n	}()\n\n	eventsource", "	eventsource"))
m("no-cancel-on-stop", "C16", (TS, "				tr.LazyTracef(\"stopping: stop signal (canceling context)\")\n				cancel()\n", "				tr.LazyTracef(\"stopping: stop signal (canceling context)\")\n"), (TS, "	ctx, cancel := context.WithCancel(ctx)\n	defer cancel()\n\n	go func() {\n		stats, err := s.Streamer", "	ctx, cancel := context.WithCancel(ctx)\n	_ = cancel\n\n	go func() {\n		stats, err := s.Streamer"))
m("stats-kills", "C16", (TS, "				if err != nil {\n					tr.Errorf(\"get stats: %v\", err)\n					continue\n				}", "				if err != nil {\n					tr.Errorf(\"get stats: %v\", err)\n					return\n				}"))
m("stats-zero-crash", "C16", (TS, "	if stats <= 0 {\n		stats = 10", "	if stats < 0 {\n		stats = 10"))
m("sendbuf-ignored-zero", "C16", (TS, "parseRange(r.URL.Query().Get(\"sendbuf\"), strconv.Atoi, 0, 100, 100000)", "parseDefault(r.URL.Query().Get(\"sendbuf\"), strconv.Atoi, 100)"))
m("encode-first-source", "C16 C15 C22", (UT, "		q.Add(\"source\", source)", "		q.Set(\"source\", source)"))
m("encode-first-id", "C16 C22", (UT, "		q.Add(\"id\", id)", "		q.Set(\"id\", id)"))
m("encode-min-trunc", "C16 C22", (UT, "f.MinDuration.String())", "f.MinDuration.Truncate(time.Microsecond).String())"))
m("encode-min-zero", "C16 C22", (UT, "	if f.MinDuration != nil {\n", "	if f.MinDuration != nil && *f.MinDuration > 0 {\n"))
m("parse-bool-value", "C15 C16 C21", (UT, "urlquery.Has(\"errored\")", "urlquery.Get(\"errored\") == \"true\""))
m("encode-success-else", "C16 C22", (UT, "	if f.IsErrored {\n		q.Set", "	if f.IsErrored && !f.IsSuccess {\n		q.Set"))
m("client-skip-active", "C16 C22", (TS, "			select {\n			case <-ctx.Done():\n			case ch <- &str:\n			}", "			select {\n			case <-ctx.Done():\n			case ch <- &str:\n			case <-time.After(time.Second):\n			}"))
m("client-shared-str", "C16 C22", (TS, "			var str trc.StaticTrace\n			if err", "			if err"), (TS, "	for {\n		ev, err := es.Read()", "	var str trc.StaticTrace\n	for {\n		ev, err := es.Read()"))
m("client-no-close", "C16", (TS, "	defer es.Close() // the connection may be established after ctx is canceled\n", ""))
m("client-nonblocking", "C16 C22", (TS, "			case <-ctx.Done():\n			case ch <- &str:\n			}", "			case <-ctx.Done():\n			case ch <- &str:\n			default:\n			}"))
m("client-done-return", "C16", (TS, "			case <-ctx.Done():\n			case ch <- &str:", "			case <-ctx.Done():\n				return ctx.Err()\n			case ch <- &str:"))
m("client-unknown-err", "C16", (TS, "			tr.LazyTracef(\"unknown event type %q\", ev.Type)", "			return fmt.Errorf(\"unknown event type %q\", ev.Type)"))
m("client-watch-leak", "C16", (TS, "		case <-returned:\n", ""), (TS, "	returned := make(chan struct{})\n	defer close(returned)\n\n", ""))
m("stream-no-normalize", "C16", (TS, "	if normalizeErrs := f.Normalize(); len(normalizeErrs) > 0 {", "	if normalizeErrs := f.Normalize(); len(normalizeErrs) > 1 {"))
m("stream-json-query", "C16", (TS, "			tr.Errorf(\"decode filter error (%v), using default\", err)\n		}\n", "			tr.Errorf(\"decode filter error (%v), using default\", err)\n		}\n		if q := r.URL.Query().Get(\"category\"); q == \"\" {\n			f.Category = q\n		}\n"))
m("categorize-any", "C15 C16", (TS, "requestExplicitlyAccepts(r, \"text/event-stream\")", "r.Header.Get(\"accept\") == \"text/event-stream\""))
# C17
m("mw-code-last", "C17", (MW, "	if i.code == 0 {\n		i.code = code\n	}\n	i.R", "	i.code = code\n	i.R"))
m("mw-100s", "C17", (MW, "code <= 199 && code != http.StatusSwitchingProtocols", "code <= 199"))
m("mw-len-p", "C17", (MW, "	i.n += n\n", "	i.n += len(p)\n"))
m("mw-header-values", "C17", (MW, "if val := r.Header.Get(header); val != \"\" {\n", "if val := r.Header.Get(header); val != \"\" && val != \"*/*\" {\n"))
m("mw-url-path", "C17", (MW, "r.URL.String())", "r.URL.Path)"))
m("mw-url-lazy", "C17", (MW, "tr.LazyTracef(\"%s %s %s\", r.RemoteAddr, r.Method, r.URL.String())", "tr.LazyTracef(\"%s %s %s\", r.RemoteAddr, r.Method, r.URL)"))
m("mw-finish-nodefer", "C17", (MW, "			defer tr.Finish()\n", ""), (MW, "			next.ServeHTTP(w, r)\n", "			next.ServeHTTP(w, r)\n			defer tr.Finish()\n"))
m("mw-recover", "C17", (MW, "				code := iw.Code()\n", "				if x := recover(); x != nil {\n					tr.Errorf(\"panic: %v\", x)\n					iw.WriteHeader(500)\n				}\n				code := iw.Code()\n"))
m("mw-ctx", "C17", (MW, "			r = r.WithContext(ctx)\n", "			*r = *r.WithContext(ctx)\n"))
m("mw-flush-code", "C17", (MW, "	if _, ok := i.ResponseWriter.(http.Flusher); ok && i.code == 0 {\n		i.code = http.StatusOK // implicit\n	}\n", ""))
m("mw-error-event", "C17", (MW, "				tr.LazyTracef(\"HTTP %d, %s, %s\", code, sent, took)", "				if code >= 500 {\n					tr.LazyErrorf(\"HTTP %d, %s, %s\", code, sent, took)\n				} else {\n					tr.LazyTracef(\"HTTP %d, %s, %s\", code, sent, took)\n				}"))
m("mw-category-twice", "C17", (MW, "	return func(next http.Handler) http.Handler {\n		return", "	return func(next http.Handler) http.Handler {\n		seen := map[string]string{}\n		old := categorize\n		categorize := func(r *http.Request) string {\n			if c, ok := seen[r.URL.Path]; ok {\n				return c\n			}\n			seen[r.URL.Path] = old(r)\n			return seen[r.URL.Path]\n		}\n		return"))
# C18
m("prefix-trim-right", "C18", (HE, "	format = strings.TrimSpace(format)\n	if", "	if"))
m("prefix-cap", "C18", (HE, "	args = args[:len(args):len(args)] // events append to args, and must not share the result\n", ""))
m("region-percent", "C18", (HE, "	name = strings.ReplaceAll(name, \"%\", \"%%\") // it becomes part of a format string\n", ""))
m("region-percent-enter", "C18", (HE, "	inputTrace.LazyTracef(\"→ \" + name)\n", "	inputTrace.LazyTracef(\"→ %s\", name)\n"))
m("region-on-output", "C18", (HE, "		inputTrace.LazyTracef(\"← \"+name", "		outputTrace.LazyTracef(\"← \"+name"))
m("get-put", "C18", (HE, "	tr, ok := ctx.Value(traceContextVal).(Trace)\n	return tr, ok", "	tr, ok := ctx.Value(traceContextVal).(Trace)\n	if ok && tr.Finished() && tr.Category() == \"\" {\n		return nil, false\n	}\n	return tr, ok"))
m("orphan-shared", "C18", (HE, "	return newCoreTrace(\"\", \"(orphan)\")", "	if orphan == nil {\n		orphan = newCoreTrace(\"\", \"(orphan)\")\n	}\n	return orphan"), (HE, "func MaybeGet(", "var orphan Trace\n\nfunc MaybeGet("))
m("prefix-lazy-as-eager", "C18 C01", (HE, "	ptr.Trace.LazyErrorf(", "	ptr.Trace.Errorf("))
m("prefix-err-as-normal", "C18", (HE, "	ptr.Trace.LazyErrorf(", "	ptr.Trace.LazyTracef("))
m("ez-lazy-errorf", "C18", (EZ, "	trc.Get(ctx).LazyErrorf(format, args...)", "	trc.Get(ctx).LazyTracef(format, args...)"))
m("ez-args", "C18", (EZ, "	trc.Get(ctx).Errorf(format, args...)", "	trc.Get(ctx).Errorf(format, args)"))
# C19
m("log-newline-inner", "C19", (DE, "strings.TrimSuffix(format, \"\\n\")", "strings.TrimSpace(format)"))
m("log-finish-before", "C19", (DE, "	ltr.Trace.Finish()\n	var (", "	defer ltr.Trace.Finish()\n	var ("))
m("log-twowrites", "C19", (DE, "	fmt.Fprintf(ltr.dst, format, args...)\n", "	s := fmt.Sprintf(format, args...)\n	io.WriteString(ltr.dst, s[:len(ltr.id)])\n	io.WriteString(ltr.dst, s[len(ltr.id):])\n"))
m("log-no-free", "C19 C07", (DE, "func (ltr *logTrace) Free() {\n	if f, ok := ltr.Trace.(interface{ Free() }); ok {\n		f.Free()\n	}\n", "func (ltr *logTrace) Free() {\n"))
m("log-free-logs", "C19", (DE, "func (ltr *logTrace) Free() {\n", "func (ltr *logTrace) Free() {\n	ltr.logEvent(\"freed\")\n"))
m("decorator-order", "C19", ("trace_core.go", "for _, d := range decorators", "for i := range decorators {\n		d := decorators[len(decorators)-1-i]\n		_ = d"))
m("log-errored-outcome", "C19", (DE, "	case ltr.Errored():\n", "	case ltr.Errored() && len(ltr.Events()) > 0:\n"))
m("logger-newline", "C19", (DE, "	lw.logger.Print(string(p))\n", "	lw.logger.Printf(string(p))\n"))
# C21
m("link-source-drop", "C21", (HT, "{{ range $f.Sources }}\n		{{ $query_params = printf \"%s&source=%s\" $query_params (QueryEscape .) | SafeURL }}", "{{ range $f.Sources }}\n		{{ $query_params = printf \"n=%d&source=%s\" $n (QueryEscape .) | SafeURL }}"))
m("link-path-escape", "C21", (HT, "$query_params (QueryEscape $q)", "$query_params (PathEscape $q)"))
m("link-cat-path-escape", "C21", (HT, "$query_params (QueryEscape $category_name)", "$query_params (PathEscape $category_name)"))
m("form-category", "C21", (HT, "name=\"category\"  value=\"{{.Request.Filter.Category}}\"", "name=\"category\"  value=\"{{QueryEscape .Request.Filter.Category}}\""))
m("form-min", "C21", (HT, "name=\"min\" value=\"{{.Request.Filter.MinDuration}}\"", "name=\"min\" value=\"{{HumanizeDuration .Request.Filter.MinDuration}}\""))
m("form-success", "C21", (HT, "			{{ if .Request.Filter.IsSuccess }}", "			{{ if and .Request.Filter.IsSuccess (not .Request.Filter.IsFinished) }}"))
m("form-limit", "C21", (HT, "(eq .Request.Limit 100) ) }}", "(ge .Request.Limit 100) ) }}"))
m("highlight-inner", "C21", (HT, "mark.textContent = match[0];", "mark.innerHTML = match[0];"))
m("bucket-index", "C21", (HT, "{{ $min := index $r.Bucketing $i }}", "{{ $min := index DefaultBucketing $i }}"))
m("render-percent-panic", "C21", (RN, "func flexGrowPercent(f float64) int {\n", "func flexGrowPercent(f float64) int {\n	if f != f {\n		panic(\"NaN\")\n	}\n"))
m("render-last-event", "C21", (RN, "	for i, ev := range st.TraceEvents {\n		delta", "	for i, ev := range st.TraceEvents {\n		if i > 0 && ev.When == prev && ev.What == st.TraceEvents[i-1].What {\n			continue\n		}\n		delta"))
m("stats-nil-page", "C21 C15", (TS, "	if data.Response.Stats == nil {\n		data.Response.Stats = trc.NewSearchStats(data.Request.Bucketing)\n	}\n", "	if err != nil && data.Response.Stats == nil {\n		data.Response.Stats = trc.NewSearchStats(data.Request.Bucketing)\n	}\n"))
m("breaks-html", "C21", (HT, "{{ range .Response.Sources }} {{.}}<br/>", "{{ range .Response.Sources }} {{InsertBreaks .}}<br/>"))
# C22
m("cli-min-default", "C22", (CM, "ok && f.IsSet() {", "ok && f.IsSet() && rootConfig.minDuration > 0 {"))
m("cli-stack-neg", "C22", (CS, "	if cfg.stackDepth == 0 {", "	if cfg.stackDepth <= 1 {"))
m("cli-uri-path-raw", "C22", (CM, "			u.Path = rootConfig.uriPath\n", "			u.Path = u.Path + rootConfig.uriPath\n"))
m("cli-fail-one", "C22", (CS, "	if !cfg.includeRequest {", "	if len(res.Problems) > 0 && len(res.Traces) == 0 {\n		return fmt.Errorf(\"%s\", res.Problems[0])\n	}\n\n	if !cfg.includeRequest {"))
m("cli-success-flag", "C22", (CM, "IsErrored:   rootConfig.isErrored,", "IsErrored:   rootConfig.isErrored && !rootConfig.isSuccess,"))
m("cli-stream-active", "C22", (CT, "		cfg.filter.IsActive = false\n", ""))
m("cli-stream-finished", "C22", (CT, "			cfg.filter.IsFinished = false\n", ""))
m("cli-stream-first-uri", "C22", (CT, "			cfg.runStream(ctx, uri)\n		}(uri)", "			cfg.runStream(ctx, uri)\n			cfg.traces = nil\n		}(uri)"))
m("cli-pretty-stream", "C22", (CT, "		enc.SetIndent(\"\", \"    \")\n		encode = func(tr trc.Trace) { enc.Encode(tr) }", "		enc.SetIndent(\"\", \"    \")\n		encode = func(tr trc.Trace) { enc.Encode(tr.ID()) }"))
m("cli-exit-canceled", "C22", (CM, "	case err == nil, errors.Is(err, context.Canceled), errors.As(err, &(run.SignalError{})):", "	case err == nil, errors.Is(err, context.Canceled):"))
m("cli-usage-zero", "C22", (CM, "	if len(rootConfig.uris) <= 0 {\n		return fmt.Errorf(\"at least one URI is required\")\n	}", "	if len(rootConfig.uris) <= 0 {\n		return ff.ErrHelp\n	}"))
m("cli-retry-subctx", "C22", (CT, "contextSleep(ctx, cfg.retryInterval)  ", "contextSleep(subctx, cfg.retryInterval)  "))
