// Package ztime replaces the clock and timers of package time under a
// controlled scheduler.
package ztime

import (
	"time"

	"github.com/peterbourgon/trc/zmc"
)

func Now() time.Time                  { return zmc.Now() }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { zmc.Sleep(d) }

// Timer is like time.Timer.
type Timer struct {
	C    <-chan time.Time
	ch   chan time.Time
	real *time.Timer
	z    *zmc.Timer
}

// Ticker is like time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	real *time.Ticker
	z    *zmc.Timer
}

// NewTimer is like time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	if !zmc.Active() {
		t := time.NewTimer(d)
		return &Timer{C: t.C, real: t}
	}
	ch := make(chan time.Time, 1)
	return &Timer{C: ch, ch: ch, z: zmc.NewTimer(d, 0, ch, nil)}
}

// AfterFunc is like time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	if !zmc.Active() {
		return &Timer{real: time.AfterFunc(d, f)}
	}
	return &Timer{z: zmc.NewTimer(d, 0, nil, f)}
}

// After is like time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Stop the timer.
func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	return t.z.Stop()
}

// Reset the timer.
func (t *Timer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	return t.z.Reset(d)
}

// NewTicker is like time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if !zmc.Active() {
		t := time.NewTicker(d)
		return &Ticker{C: t.C, real: t}
	}
	ch := make(chan time.Time, 1)
	return &Ticker{C: ch, z: zmc.NewTimer(d, d, ch, nil)}
}

// Tick is like time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Stop the ticker.
func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	t.z.Stop()
}

// Reset the ticker.
func (t *Ticker) Reset(d time.Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	t.z.SetPeriod(d)
	t.z.Reset(d)
}
