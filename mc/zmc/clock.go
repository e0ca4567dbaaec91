package zmc

import "time"

// Now is the virtual time, or the real time outside of a controlled execution.
//
//go:norace
func Now() time.Time {
	if !Active() {
		return time.Now()
	}
	t := s.now
	if s.cfg.Tick > 0 {
		s.now = s.now.Add(s.cfg.Tick)
		s.touch(s.cur, &s.clockObj, KClock)
	}
	return t
}

// Peek returns the virtual time without side effects.
//
//go:norace
func Peek() time.Time { return s.now }

// Advance the virtual time.
//
//go:norace
func Advance(d time.Duration) {
	s.now = s.now.Add(d)
	s.touch(s.cur, &s.clockObj, KClock)
	for s.fireDue() {
	}
}

//go:norace
func (s *sched) fireDue() bool {
	for _, tm := range s.timers {
		if tm.active && !tm.when.After(s.now) {
			s.fire(tm)
			return true
		}
	}
	return false
}

// fireTimer advances the clock to the earliest timer and fires it.
//
//go:norace
func (s *sched) fireTimer() bool {
	max := s.cfg.MaxTimerFires
	if max == 0 {
		max = 8
	}
	var first *timer
	for _, tm := range s.timers {
		if tm.active && (first == nil || tm.when.Before(first.when)) {
			first = tm
		}
	}
	if first == nil || s.fires >= max {
		return false
	}
	s.fires++
	if first.when.After(s.now) {
		s.now = first.when
	}
	s.fire(first)
	return true
}

//go:norace
func (s *sched) fire(tm *timer) {
	tm.fired = true
	if tm.period > 0 {
		tm.when = tm.when.Add(tm.period)
	} else {
		tm.active = false
	}
	if tm.ch != nil && len(tm.ch) < cap(tm.ch) {
		raceDisable()
		tm.ch <- s.now
		raceEnable()
	}
	if tm.fn != nil {
		prev := s.cur
		t := s.newThread("timer")
		s.cur = prev
		go run(Tok{t}, tm.fn)
	}
}

// Timer is a virtual timer.
type Timer struct{ tm *timer }

// NewTimer creates a virtual timer.
//
//go:norace
func NewTimer(d, period time.Duration, ch chan time.Time, fn func()) *Timer {
	tm := &timer{when: s.now.Add(d), period: period, ch: ch, fn: fn, active: true, seq: s.seq}
	s.seq++
	s.timers = append(s.timers, tm)
	return &Timer{tm}
}

// Stop the timer.
//
//go:norace
func (t *Timer) Stop() bool { was := t.tm.active; t.tm.active = false; return was }

// Reset the timer.
//
//go:norace
func (t *Timer) Reset(d time.Duration) bool {
	was := t.tm.active
	t.tm.active = true
	t.tm.fired = false
	t.tm.when = s.now.Add(d)
	return was
}

// SetPeriod changes the period.
//
//go:norace
func (t *Timer) SetPeriod(d time.Duration) { t.tm.period = d }

// ZReady implements Waiter.
//
//go:norace
func (t *Timer) ZReady() bool { return t.tm.fired }

// Sleep in virtual time.
//
//go:norace
func Sleep(d time.Duration) {
	if !Active() {
		time.Sleep(d)
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	t := NewTimer(d, 0, nil, nil)
	Block(&s.clockObj, KSleep, t)
}

// ActiveTimers is the number of timers that have not been stopped.
//
//go:norace
func ActiveTimers() int {
	n := 0
	for _, tm := range s.timers {
		if tm.active {
			n++
		}
	}
	return n
}
