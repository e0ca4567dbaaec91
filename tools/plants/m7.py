# Streams, pages and the command line, again.
TS, UT, MW, RN = "trcweb/trace_server.go", "trcweb/util.go", "trcweb/middleware.go", "trcweb/render.go"
HT = "trcweb/assets/traces.html"
CS, CT, CM, CR = "cmd/trc/search.go", "cmd/trc/stream.go", "cmd/trc/main.go", "cmd/trc/trc.go"

# C16
m("stream-own-prefix", "C16", (TS, "if recv.ID() == tr.ID() {", "if recv.ID()[:10] == tr.ID()[:10] {"))
m("stream-own-category", "C16", (TS, "if recv.ID() == tr.ID() {", "if recv.Category() == tr.Category() && recv.Source() == tr.Source() && !recv.Finished() {"))
m("stream-trace-ctx", "C16", (TS, "			case recv := <-tracec:\n", "			case recv := <-tracec:\n				if len(tracec) == cap(tracec) && cap(tracec) > 1 {\n					recv = <-tracec // lagging behind\n				}\n"))
m("stream-stats-drain", "C16", (TS, "				data, err := json.Marshal(stats)\n", "				select {\n				case <-tracec:\n				default:\n				}\n\n				data, err := json.Marshal(stats)\n"))
m("stream-sendbuf-min1", "C16", (TS, "strconv.Atoi, 0, 100, 100000)\n", "strconv.Atoi, 1, 100, 100000)\n"))
m("stream-sendbuf-neg", "C16", (TS, 'parseRange(r.URL.Query().Get("sendbuf"), strconv.Atoi, 0, 100, 100000)', 'parseDefault(r.URL.Query().Get("sendbuf"), strconv.Atoi, 100)'))
m("stream-stats-neg", "C16", (TS, "	if stats <= 0 {\n", "	if stats == 0 {\n"))
m("stream-no-defer-cancel", "C16", (TS, "	ctx, cancel := context.WithCancel(ctx)\n	defer cancel()\n\n	go func() {\n		stats, err", "	ctx, cancel := context.WithCancel(ctx)\n	_ = cancel\n\n	go func() {\n		stats, err"))
m("stream-stop-nocancel", "C16", (TS, "				cancel()\n				return\n			}", "				return\n			}"), (TS, "	defer func() {\n		<-donec\n	}()\n", "	defer func() {\n		select {\n		case <-donec:\n		case <-ctx.Done():\n		}\n	}()\n"))
m("stream-json-partial", "C16", (TS, "using default\", err)\n", "using default\", err)\n			f = trc.Filter{Query: f.Query}\n"))
m("stream-normalize-first", "C16", (TS, "len(normalizeErrs) > 0 {\n		err := fmt.Errorf(\"bad", "len(normalizeErrs) > 1 {\n		err := fmt.Errorf(\"bad"))
m("client-buf-1024", "C16", (TS, "max := 0, 100000; c.SendBuffer", "max := 0, 10000; c.SendBuffer"))
m("client-stats-trunc", "C16", (TS, 'query.Set("stats", c.StatsInterval.String())', 'query.Set("stats", c.StatsInterval.Truncate(time.Second).String())'))
m("client-drop-query", "C16", (TS, "		query := uri.Query()\n		if c.SendBuffer", "		query := url.Values{}\n		if c.SendBuffer"))
m("client-lazy-unmarshal", "C16", (TS, "	for {\n		ev, err := es.Read()\n", "	var str trc.StaticTrace\n	for {\n		ev, err := es.Read()\n"), (TS, "			var str trc.StaticTrace\n			if err := json.Unmarshal(ev.Data, &str); err != nil {\n				return fmt.Errorf(\"decode trace event: %w\", err)\n			}\n			select {\n			case <-ctx.Done():\n			case ch <- &str:\n			}\n", "			if err := json.Unmarshal(ev.Data, &str); err != nil {\n				return fmt.Errorf(\"decode trace event: %w\", err)\n			}\n			next := str\n			select {\n			case <-ctx.Done():\n			case ch <- &next:\n			}\n"))
m("client-done-default", "C16", (TS, "			case <-ctx.Done():\n			case ch <- &str:\n", "			case <-ctx.Done():\n			case ch <- &str:\n			case <-time.After(c.RetryInterval):\n"))
m("client-dup-id", "C16", (TS, "			select {\n			case <-ctx.Done():\n			case ch <- &str:\n			}\n", "			if last == str.TraceID+str.TraceDurationStr && str.TraceFinished {\n				continue\n			}\n			last = str.TraceID + str.TraceDurationStr\n			select {\n			case <-ctx.Done():\n			case ch <- &str:\n			}\n"), (TS, "	for {\n		ev, err := es.Read()\n", "	var last string\n	for {\n		ev, err := es.Read()\n"))
m("encode-q-trim", "C16", (UT, '		q.Set("q", f.Query)\n', '		q.Set("q", strings.TrimSpace(f.Query))\n'), (UT, '	"sort"\n', '	"sort"\n	"strings"\n'))
m("encode-min-seconds", "C16 C22", (UT, 'q.Set("min", f.MinDuration.String())', 'q.Set("min", strconv.FormatFloat(f.MinDuration.Seconds(), \'f\', 6, 64)+"s")'), (UT, '	"sort"\n', '	"sort"\n	"strconv"\n'))
m("parse-ids-comma", "C16 C15", (UT, '		IDs:         urlquery["id"],\n', '		IDs:         splitAll(urlquery["id"]),\n'), (UT, "func parseDefault[T any]", '''func splitAll(ss []string) (all []string) {
	for _, s := range ss {
		all = append(all, strings.Split(s, ",")...)
	}
	return all
}

func parseDefault[T any]'''), (UT, '	"sort"\n', '	"sort"\n	"strings"\n'))
m("parse-min-positive", "C16 C15", (UT, "	d, err := time.ParseDuration(s)\n	if err != nil {\n		return nil, err\n	}\n	return &d, nil", "	d, err := time.ParseDuration(s)\n	if err != nil || d <= 0 {\n		return nil, err\n	}\n	return &d, nil"))

# C15
m("bucketing-dup-zero", "C15", (UT, "	if ds[0] != 0 {\n", "	if len(ds) > 1 && ds[0] > 0 || ds[0] > time.Second {\n"))
m("accept-first", "C15 C16", (RN, '	for _, a := range strings.Split(r.Header.Get("accept"), ",") {', '	for _, a := range strings.SplitN(r.Header.Get("accept"), ",", 3) {'))
m("accept-order", "C15 C21", (RN, "	case useHTML:\n", "	case useHTML && !acceptsJSON:\n"))
m("json-escape-off", "C15", (RN, '	enc.SetIndent("", "    ")\n\n	code', '	enc.SetIndent("\\u2028", "    ")\n\n	code'))
m("search-problem-twice", "C15", (TS, "append(problems, data.Response.Problems...)", "append(problems, trcutil.FlattenErrors(data.Problems...)...)"))

# C21
m("percent-uint8", "C21", (RN, '	"PercentInt":           func(n, d int) int { return int(100 * float64(n) / float64(d)) },', '	"PercentInt":           func(n, d int) int { return 100 * n / d },'))
m("highlight-finished", "C21", (HT, "			elem.replaceChildren(text.slice(0, match.index), mark,", "			elem.replaceChildren(text.slice(0, match.index).trimStart(), mark,"))
m("highlight-first", "C21", (HT, "text.slice(match.index + match[0].length));", "text.slice(match.index + match[1].trim().length));"))
m("page-limit-link", "C21", (HT, '{{ $query_params := printf "n=%d" $n | SafeURL }}', '{{ $query_params := "" | SafeURL }}'))
m("page-overall-cat", "C21", (HT, '{{ if ne $category_name "overall" }}', '{{ if ne $category_name "overall" "" }}'))
m("page-buckets-link", "C21", (HT, '{{ $query_params = printf "%s&b=%s" $query_params . | SafeURL }}', '{{ $query_params = printf "%s&b=%d" $query_params . | SafeURL }}'))
m("page-q-path", "C21", (HT, '&q=%s" $query_params (QueryEscape $q)', '&q=%s" $query_params (PathEscape $q)'))
m("page-id-href", "C21", (HT, '{{ $href := printf "id=%s" .ID | SafeURL }}', '{{ $href := printf "id=%s&n=1" (slice .ID 0 1) | SafeURL }}'))
m("page-src-raw", "C21", (HT, '<a href="?source={{.Source}}">', '<a href="?source={{.Source | SafeURL}}">'))
m("page-min-human", "C21", (HT, 'name="min" value="{{.Request.Filter.MinDuration}}"', 'name="min" value="{{HumanizeDuration .Request.Filter.MinDuration}}"'))
m("page-finished-form", "C21", (HT, '''			{{ if .Request.Filter.IsFinished }}
				<input type="hidden" name="finished"''', '''			{{ if and .Request.Filter.IsFinished (not .Request.Filter.MinDuration) }}
				<input type="hidden" name="finished"'''))
m("page-error-class", "C21", (HT, "{{if .IsError}}error{{end}}", "{{if and .IsError (gt .Index 0)}}error{{end}}"))
m("page-stack-first", "C21", (HT, "								{{ range .Stack }}\n", "								{{ range $i, $_ := .Stack }}{{ if ge $i 16 }}{{ break }}{{ end }}\n"))
m("page-problem-html", "C21", (HT, "{{ range $problems }}<div>{{.}}</div>{{ end }}", "{{ range $problems }}<div>{{.Error | InsertBreaks}}</div>{{ end }}"))
m("page-func-trim", "C21", (RN, 'index > 0 && index < len(s)', 'index > 0 && index < 64'))
m("page-err-raw", "C21", (RN, '			return nil, fmt.Errorf("execute template: %w", err)\n', '			return templateBuf.Bytes(), nil\n') if False else (RN, '		return nil, fmt.Errorf("execute template: %w", err)\n', '		return templateBuf.Bytes(), nil\n'))
m("page-json-link", "C21", (HT, '<a href="?{{$href}}&json">', '<a href="?{{$href}}&format=json">'))

# C22
m("cli-uri-https", "C22", (CM, '!strings.HasPrefix(uri, "http")', '!strings.Contains(uri, ":")'))
m("cli-uri-path-once", "C22", (CM, '		if rootConfig.uriPath != "" {\n', '		if rootConfig.uriPath != "" && i == 0 {\n'))
m("cli-uri-path-keep", "C22", (CM, '		if rootConfig.uriPath != "" {\n', '		if rootConfig.uriPath != "" && u.Path == "" {\n'))
m("cli-duration-nonzero", "C22", (CM, 'ok && f.IsSet() {', 'ok && f.IsSet() && rootConfig.minDuration != 0 {'))
m("cli-limit-cap", "C22", (CS, "		Limit:      cfg.limit,\n", "		Limit:      cfg.limit * len(cfg.uris),\n"))
m("cli-depth-neg", "C22", (CS, "	if cfg.stackDepth == 0 {", "	if cfg.stackDepth <= 1 {"))
m("cli-default-pretty", "C22", (CS, '	case "prettyjson":\n', '	case "prettyjson", "pretty":\n'))
m("cli-search-stats", "C22", (CS, "	if !cfg.includeStats {\n", "	if !cfg.includeStats && !cfg.includeRequest {\n"))
m("cli-search-err", "C22", (CS, "	if !cfg.includeRequest {\n", "	if len(res.Sources) == 0 && len(res.Problems) > 1 {\n		return fmt.Errorf(\"no sources\")\n	}\n\n	if !cfg.includeRequest {\n"))
m("cli-stream-events-active", "C22", (CT, "			cfg.filter.IsFinished = false\n", "			cfg.filter.IsFinished = false\n			cfg.filter.MinDuration = nil\n"))
m("cli-stream-retry-once", "C22", (CT, "			continue                                                        // try again\n", "			if sc.RetryInterval *= 2; sc.RetryInterval > time.Second {\n				return\n			}\n			continue // try again\n"))
m("cli-stream-sendbuf", "C22", (CT, "		SendBuffer:    cfg.sendBuf,\n", "		SendBuffer:    cfg.recvBuf,\n"))
m("cli-stream-wg", "C22", (CT, "	for _, uri := range cfg.uris {\n		wg.Add(1)\n", "	for i, uri := range cfg.uris {\n		if i >= 2 {\n			break\n		}\n		wg.Add(1)\n"))
m("cli-stream-batch", "C22", (CT, "		enc := json.NewEncoder(cfg.stdout)\n		encode = func(tr trc.Trace) { enc.Encode(tr) }\n	case \"pretty", "		w := bufio.NewWriterSize(cfg.stdout, 4096)\n		enc := json.NewEncoder(w)\n		encode = func(tr trc.Trace) {\n			enc.Encode(tr)\n			if len(cfg.traces) == 0 {\n				w.Flush()\n			}\n		}\n	case \"pretty"), (CT, '	"context"\n	"encoding/json"\n', '	"bufio"\n	"context"\n	"encoding/json"\n'))
m("cli-stream-garbage-stop", "C22", (CT, "		case err := <-errc:\n", "		case err := <-errc:\n			if err == nil {\n				cancel()\n				return\n			}\n"))
m("cli-exit-sigterm", "C22", (CM, "errors.Is(err, context.Canceled), errors.As(err, &(run.SignalError{})):", "errors.Is(err, context.Canceled):"))
m("cli-help-exit", "C22", (CM, "			err = nil\n		}\n	}()", "			err = nil\n		}\n		if showHelp {\n			err = nil\n		}\n	}()"))
m("cli-filter-success", "C22", (CM, "			IsSuccess:   rootConfig.isSuccess,\n", "			IsSuccess:   rootConfig.isSuccess && !rootConfig.isErrored,\n"))
