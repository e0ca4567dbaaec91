OLD = open("/repo/collector.go").read()
a = OLD.index("	for _, ringBuf := range c.categories.GetAll()")
b = OLD.index("	// Sort most recent first.")
def conc(observe, collect, wait="	wg.Wait()\n"):
    return '''	var (
		mtx sync.Mutex
		wg  sync.WaitGroup
	)
	_ = &mtx
	for _, ringBuf := range c.categories.GetAll() {
		wg.Add(1)
		go func(ringBuf *trcringbuf.RingBuffer[Trace], filter Filter) {
			defer wg.Done()
			count := 0
			var selected []*StaticTrace
			ringBuf.Walk(func(candidate Trace) error {
				count++
''' + observe + '''
				if len(selected) < req.Limit && filter.Allow(candidate) {
					if static := NewSearchTrace(candidate); filter.Allow(static) {
						selected = append(selected, static.TrimStacks(req.StackDepth))
					}
				}
				return nil
			})
''' + collect + '''
		}(ringBuf, req.Filter)
	}
''' + wait + '\n'
IMP = ("collector.go", '"sort"\n', '"sort"\n\t"sync"\n')
LOCKED = "mtx.Lock()\n stats.Observe(candidate)\n mtx.Unlock()\n"
COLLECT = "totalCount += count\n matchCount += len(selected)\n traces = append(traces, selected...)\n"
m("conc-observe", "C10 C06", IMP, ("collector.go", OLD[a:b], conc("stats.Observe(candidate)\n", "mtx.Lock()\n defer mtx.Unlock()\n" + COLLECT)))
m("conc-collect", "C10 C06", IMP, ("collector.go", OLD[a:b], conc(LOCKED, COLLECT)))
m("conc-done", "C10 C06", IMP, ("collector.go", OLD[a:b], conc(LOCKED, "mtx.Lock()\n defer mtx.Unlock()\n" + COLLECT).replace("defer wg.Done()", "").replace("mtx.Lock()\n defer", "wg.Done()\n mtx.Lock()\n defer")))
