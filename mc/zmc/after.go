package zmc

import "context"

// afterCtx is a thread that starts when its context is done.
type afterCtx struct {
	ctx context.Context
	f   func()
}

// ZReady implements Waiter.
//
//go:norace
func (a *afterCtx) ZReady() bool {
	raceDisable()
	done := a.ctx.Err() != nil
	raceEnable()
	return done
}

// AfterFunc replaces context.AfterFunc. The thread of f exists from the start,
// but neither as a goroutine, nor does anything wait for it, until ctx is done.
//
//go:norace
func AfterFunc(ctx context.Context, f func()) (stop func() bool) {
	if !Active() {
		return context.AfterFunc(ctx, f)
	}
	if ctx.Done() == nil {
		stopped := false
		return func() bool { was := stopped; stopped = true; return !was }
	}
	t := s.newThread("after")
	t.waiter = &afterCtx{ctx, f}
	t.late = func() { t.waiter = nil; f() }
	return func() bool {
		if !Active() {
			return false
		}
		Point(&t.obj, KStart)
		if t.done || t.late == nil || t.waiter.ZReady() {
			return false
		}
		t.done = true
		return true
	}
}
