# The TODO in Collector.Search: the categories searched concurrently.
OLD = open("/repo/collector.go").read()
a = OLD.index("	for _, ringBuf := range c.categories.GetAll()")
b = OLD.index("	// Sort most recent first.")
q("search-concurrent", "C05 C06 C07 C09 C10 C11 C12 C15 C17 C21", ("collector.go", OLD[a:b], '''	type result struct {
		stats  *SearchStats
		traces []*StaticTrace
		total  int
	}
	ringBufs := c.categories.GetAll()
	resultc := make(chan result, len(ringBufs))
	for _, ringBuf := range ringBufs {
		go func(ringBuf *trcringbuf.RingBuffer[Trace], filter Filter) {
			res := result{stats: NewSearchStats(req.Bucketing)}
			ringBuf.Walk(func(candidate Trace) error {
				res.stats.Observe(candidate)
				res.total++
				if len(res.traces) >= req.Limit {
					return nil
				}
				if !filter.Allow(candidate) {
					return nil
				}
				static := NewSearchTrace(candidate)
				if !filter.Allow(static) {
					return nil
				}
				res.traces = append(res.traces, static.TrimStacks(req.StackDepth))
				return nil
			})
			resultc <- res
		}(ringBuf, req.Filter)
	}
	for range ringBufs {
		res := <-resultc
		for category, cs := range res.stats.Categories {
			stats.Categories[category] = cs
		}
		totalCount += res.total
		matchCount += len(res.traces)
		traces = append(traces, res.traces...)
	}

'''))
q("search-waitgroup", "C06 C10 C12 C11", ("collector.go", '"sort"\n', '"sort"\n\t"sync"\n'), ("collector.go", OLD[a:b], '''	var (
		mtx sync.Mutex
		wg  sync.WaitGroup
	)
	for _, ringBuf := range c.categories.GetAll() {
		wg.Add(1)
		go func(ringBuf *trcringbuf.RingBuffer[Trace], filter Filter) {
			defer wg.Done()
			var candidates []Trace
			var selected []*StaticTrace
			ringBuf.Walk(func(candidate Trace) error {
				candidates = append(candidates, candidate)
				mtx.Lock()
				stats.Observe(candidate)
				mtx.Unlock()
				if len(selected) < req.Limit && filter.Allow(candidate) {
					if static := NewSearchTrace(candidate); filter.Allow(static) {
						selected = append(selected, static.TrimStacks(req.StackDepth))
					}
				}
				return nil
			})
			mtx.Lock()
			defer mtx.Unlock()
			totalCount += len(candidates)
			matchCount += len(selected)
			traces = append(traces, selected...)
		}(ringBuf, req.Filter)
	}
	wg.Wait()

'''))
