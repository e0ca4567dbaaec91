# Changes that keep the behaviour, in the web parts, the statistics and the wrappers.
exec(open(os.path.dirname(os.path.abspath(sys.argv[1])) + "/r1.py").read().split("def kind(")[0])
def src(p): return open("/repo/" + p).read()
def cut(p, a, b): s = src(p); i = s.index(a); return s[i:s.index(b, i)]

# The middleware's interceptor exposes the original writer and keeps one status field.
q("mw-unwrap", "C17 C15 C16", (MW, src(MW)[src(MW).index("type interceptor struct"):], '''type interceptor struct {
	http.ResponseWriter
	status struct {
		code int
		set  bool
	}
	bytes int64
}

func newInterceptor(w http.ResponseWriter) *interceptor {
	return &interceptor{ResponseWriter: w}
}

// Unwrap is for http.ResponseController.
func (i *interceptor) Unwrap() http.ResponseWriter { return i.ResponseWriter }

func (i *interceptor) final(code int) {
	if !i.status.set {
		i.status.code, i.status.set = code, true
	}
}

func (i *interceptor) WriteHeader(code int) {
	if informational := code/100 == 1 && code != http.StatusSwitchingProtocols; !informational {
		i.final(code)
	}
	i.ResponseWriter.WriteHeader(code)
}

func (i *interceptor) Write(p []byte) (n int, err error) {
	defer func() { i.bytes += int64(n) }()
	i.final(http.StatusOK)
	return i.ResponseWriter.Write(p)
}

func (i *interceptor) Code() int {
	if i.status.set {
		return i.status.code
	}
	return http.StatusOK
}

func (i *interceptor) Written() int { return int(i.bytes) }

func (i *interceptor) Flush() {
	f, ok := i.ResponseWriter.(http.Flusher)
	if !ok {
		return
	}
	i.final(http.StatusOK)
	f.Flush()
}
'''))

# The client reads the whole body before decoding it, and creates its request separately.
q("client-split", "C15 C22 C12", (TS, cut(TS, "	body, err := json.Marshal(req)\n", "	httpRes, err := c.client.Do"), '''	httpReq, err := c.newRequest(ctx, req)
	if err != nil {
		return nil, err
	}

'''), (TS, '''	var res SearchData
	if err := json.NewDecoder(httpRes.Body).Decode(&res); err != nil {
		return nil, fmt.Errorf("decode search response: %w", err)
	}
''', '''	var res SearchData
	dec := json.NewDecoder(bufio.NewReader(httpRes.Body))
	if err = dec.Decode(&res); err != nil {
		err = fmt.Errorf("decode search response: %w", err)
		return nil, err
	}
'''), (TS, '''// Search implements [trc.Searcher].
''', '''func (c *SearchClient) newRequest(ctx context.Context, req *trc.SearchRequest) (*http.Request, error) {
	var body bytes.Buffer
	if err := json.NewEncoder(&body).Encode(req); err != nil {
		return nil, fmt.Errorf("encode search request: %w", err)
	}

	httpReq, err := http.NewRequestWithContext(ctx, http.MethodGet, c.uri, &body)
	if err != nil {
		return nil, fmt.Errorf("create HTTP request: %w", err)
	}

	for k, v := range map[string]string{
		"content-type": "application/json; charset=utf-8",
		"accept":       "application/json",
	} {
		httpReq.Header.Set(k, v)
	}

	return httpReq, nil
}

// Search implements [trc.Searcher].
'''), (TS, '	"bytes"\n', '	"bufio"\n	"bytes"\n'))

# Events are sent by one helper; the init message before the loop.
q("stream-send", "C16 C22 C21", (TS, cut(TS, "		initc := make(chan struct{}, 1)\n", "			case <-ctx.Done():\n				tr.LazyTracef(\"stopping"), '''		send := func(typ string, v any) bool {
			data, err := json.Marshal(v)
			if err == nil {
				err = encoder.Encode(eventsource.Event{Type: typ, Data: data})
			}
			if err != nil {
				tr.Errorf("send %s: %v", typ, err)
			}
			return err == nil
		}

		send("init", struct {
			Filter  trc.Filter `json:"filter"`
			SendBuf int        `json:"sendbuf"`
		}{f, cap(tracec)})

		for {
			select {
			case <-stats.C:
				stats, err := s.Streamer.StreamStats(ctx, tracec)
				if err != nil {
					tr.Errorf("get stats: %v", err)
				} else if send("stats", stats) {
					tr.Tracef("stats: %s", stats.String())
				}

			case recv := <-tracec:
				if own := recv.ID() == tr.ID(); !own {
					send("trace", recv)
				}

'''))

# Statistics: the zero cases by one helper, rates by one function.
RATE = cut(SS, "	var (\n		total      = cs.TotalCount()", "// EventRate is")
RATE2 = cut(SS, "	var (\n		total      = cs.EventCount", "// Merge the other category")
q("stats-rates", "C11 C12 C21 C15", (SS, RATE, "	return cs.perSecond(cs.TotalCount())\n}\n\n"), (SS, RATE2, '''	return cs.perSecond(cs.EventCount)
}

func (cs *CategoryStats) perSecond(n int) float64 {
	if n <= 0 || cs.Newest.IsZero() || cs.Oldest.IsZero() {
		return 0
	}
	if secs := time.Since(cs.Oldest).Seconds(); secs > 0 {
		return float64(n) / secs
	}
	return 0
}

'''), (SS, cut(SS, "func olderOf(", "func newerOf("), '''func olderOf(a, b time.Time) time.Time {
	if a.IsZero() || (!b.IsZero() && b.Before(a)) {
		return b
	}
	return a
}

'''), (SS, src(SS)[src(SS).index("func newerOf("):], '''func newerOf(a, b time.Time) time.Time {
	if a.IsZero() || b.After(a) {
		return b
	}
	return a
}
'''), (SS, cut(SS, "			for i, bucket := range ss.Bucketing {", "		case isErrored:"), '''			n := sort.Search(len(ss.Bucketing), func(i int) bool { return ss.Bucketing[i] > duration })
			for i := 0; i < n; i++ {
				cs.BucketCounts[i]++
			}
'''))

# Not such a change: helpers add frames to the stacks. Prefixed traces share one concatenation; publishing is one helper taking the update.
pub = src(DE)
i, j = pub.index("func (ptr *publishTrace) Tracef"), pub.index("func (ptr *publishTrace) Free")
PUB = '''func (ptr *publishTrace) update(f func()) {
	ptr.mtx.Lock()
	defer ptr.mtx.Unlock()

	if !ptr.Trace.Finished() {
		f()
		ptr.p.Publish(context.Background(), ptr.Trace)
	}
}

'''
for k in ["Tracef", "LazyTracef", "Errorf", "LazyErrorf"]:
    PUB += '''func (ptr *publishTrace) %s(format string, args ...any) {
	ptr.update(func() { ptr.Trace.%s(format, args...) })
}

''' % (k, k)
PUB += '''func (ptr *publishTrace) Finish() {
	ptr.update(ptr.Trace.Finish)
}

'''
he = src(HE); pi = he.index("func (ptr *prefixTrace) Tracef")
PRE = '''func (ptr *prefixTrace) apply(f func(string, ...any), format string, args []any) {
	all := make([]any, 0, len(ptr.args)+len(args))
	all = append(all, ptr.args...)
	all = append(all, args...)
	f(ptr.format+format, all...)
}

'''
for k in ["Tracef", "LazyTracef", "Errorf", "LazyErrorf"]:
    PRE += '''func (ptr *prefixTrace) %s(format string, args ...any) {
	ptr.apply(ptr.Trace.%s, format, args)
}

''' % (k, k)
m("wrappers-helper", "C20", (DE, pub[i:j], PUB), (HE, he[pi:], PRE))

# The server: the request is decoded by a method, the parameters by a table.
q("server-decode", "C15 C16 C21 C22", (TS, cut(TS, "	switch {\n	case isJSON:", "	data.Problems = append(data.Problems, data.Request.Normalize()...)"), '''	decode := decodeParams
	if isJSON {
		decode = decodeBody
	}
	if err := decode(w, r, &data.Request); err != nil {
		tr.Errorf("decode request failed (%v) -- returning error", err)
		http.Error(w, err.Error(), http.StatusBadRequest)
		return
	}

'''), (TS, "func (s *TraceServer) handleSearch(", '''func decodeBody(w http.ResponseWriter, r *http.Request, req *trc.SearchRequest) error {
	r.Body = http.MaxBytesReader(w, r.Body, maxRequestBodySizeBytes)
	return json.NewDecoder(r.Body).Decode(req)
}

func decodeParams(w http.ResponseWriter, r *http.Request, req *trc.SearchRequest) error {
	values := r.URL.Query()
	req.Filter = parseFilter(r)
	req.Bucketing = parseBucketing(values["b"])
	req.StackDepth = parseDefault(values.Get("stack"), strconv.Atoi, 0)
	req.Limit = trc.SearchLimitDefault
	if n, err := strconv.Atoi(values.Get("n")); err == nil {
		req.Limit = max(trc.SearchLimitMin, min(n, trc.SearchLimitMax))
	}
	return nil
}

func (s *TraceServer) handleSearch('''), (UT, cut(UT, "	if f.IsActive {", "	r.URL.RawQuery"), '''	for name, is := range map[string]bool{
		"active": f.IsActive, "finished": f.IsFinished, "success": f.IsSuccess, "errored": f.IsErrored,
	} {
		if is {
			q.Set(name, "1")
		}
	}
	if min := f.MinDuration; min != nil {
		q.Set("min", strconv.FormatInt(int64(*min), 10)+"ns")
	}
	if f.Query != "" {
		q.Set("q", f.Query)
	}
'''), (UT, '	"sort"\n', '	"sort"\n	"strconv"\n'))
