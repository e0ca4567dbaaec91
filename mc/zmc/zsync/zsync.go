// Package zsync replaces package sync under a controlled scheduler.
package zsync

import (
	"sync"
	"unsafe"

	"github.com/peterbourgon/trc/zmc"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is like sync.Mutex.
type Mutex struct {
	real   sync.Mutex
	epoch  uint32
	locked bool
	o      zmc.Obj
}

//go:norace
func (m *Mutex) fresh() {
	if e := zmc.CurEpoch(); m.epoch != e {
		m.epoch, m.locked = e, false
	}
}

// ZReady implements zmc.Waiter.
//
//go:norace
func (m *Mutex) ZReady() bool { return m.epoch != zmc.CurEpoch() || !m.locked }

//go:norace
func (m *Mutex) Lock() {
	if !zmc.Active() {
		m.real.Lock()
		return
	}
	m.fresh()
	zmc.Block(&m.o, zmc.KLock, m)
	m.fresh()
	m.locked = true
	zmc.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if !zmc.Active() {
		return m.real.TryLock()
	}
	m.fresh()
	zmc.Point(&m.o, zmc.KLock)
	if m.locked {
		return false
	}
	m.locked = true
	zmc.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !zmc.Active() {
		m.real.Unlock()
		return
	}
	m.fresh()
	if !m.locked {
		zmc.Misuse("unlock of unlocked mutex")
		panic("zsync: unlock of unlocked mutex")
	}
	zmc.RaceRelease(unsafe.Pointer(m))
	m.locked = false
	zmc.Touch(&m.o, zmc.KUnlock)
}

// RWMutex is like sync.RWMutex.
type RWMutex struct {
	real    sync.RWMutex
	epoch   uint32
	writer  bool
	readers int
	pending int // writers waiting
	o       zmc.Obj
	r       rwReader
	rsync   int
}

type rwReader struct{ rw *RWMutex }

//go:norace
func (r *rwReader) ZReady() bool { return !r.rw.writer && r.rw.pending == 0 }

//go:norace
func (m *RWMutex) ZReady() bool { return !m.writer && m.readers == 0 }

//go:norace
func (m *RWMutex) fresh() {
	if e := zmc.CurEpoch(); m.epoch != e {
		m.epoch, m.writer, m.readers, m.pending = e, false, 0, 0
	}
	m.r.rw = m
}

//go:norace
func (m *RWMutex) Lock() {
	if !zmc.Active() {
		m.real.Lock()
		return
	}
	m.fresh()
	if m.writer || m.readers > 0 {
		m.pending++
		zmc.Block(&m.o, zmc.KLock, m)
		m.pending--
	} else {
		zmc.Block(&m.o, zmc.KLock, m)
	}
	m.writer = true
	zmc.RaceAcquire(unsafe.Pointer(m))
	zmc.RaceAcquire(unsafe.Pointer(&m.rsync))
}

//go:norace
func (m *RWMutex) Unlock() {
	if !zmc.Active() {
		m.real.Unlock()
		return
	}
	m.fresh()
	if !m.writer {
		zmc.Misuse("Unlock of unlocked RWMutex")
		panic("zsync: Unlock of unlocked RWMutex")
	}
	zmc.RaceRelease(unsafe.Pointer(m))
	m.writer = false
	zmc.Touch(&m.o, zmc.KUnlock)
}

//go:norace
func (m *RWMutex) RLock() {
	if !zmc.Active() {
		m.real.RLock()
		return
	}
	m.fresh()
	zmc.Block(&m.o, zmc.KRLock, &m.r)
	m.readers++
	zmc.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) RUnlock() {
	if !zmc.Active() {
		m.real.RUnlock()
		return
	}
	m.fresh()
	if m.readers <= 0 {
		zmc.Misuse("RUnlock of unlocked RWMutex")
		panic("zsync: RUnlock of unlocked RWMutex")
	}
	zmc.RaceRelease(unsafe.Pointer(&m.rsync))
	m.readers--
	zmc.Touch(&m.o, zmc.KUnlock)
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if !zmc.Active() {
		return m.real.TryLock()
	}
	m.fresh()
	zmc.Point(&m.o, zmc.KLock)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	zmc.RaceAcquire(unsafe.Pointer(m))
	zmc.RaceAcquire(unsafe.Pointer(&m.rsync))
	return true
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if !zmc.Active() {
		return m.real.TryRLock()
	}
	m.fresh()
	zmc.Point(&m.o, zmc.KRLock)
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	zmc.RaceAcquire(unsafe.Pointer(m))
	return true
}

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup is like sync.WaitGroup.
type WaitGroup struct {
	real  sync.WaitGroup
	epoch uint32
	n     int
	o     zmc.Obj
}

//go:norace
func (w *WaitGroup) fresh() {
	if e := zmc.CurEpoch(); w.epoch != e {
		w.epoch, w.n = e, 0
	}
}

//go:norace
func (w *WaitGroup) ZReady() bool { return w.epoch != zmc.CurEpoch() || w.n == 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	if !zmc.Active() {
		w.real.Add(d)
		return
	}
	w.fresh()
	zmc.Point(&w.o, zmc.KWait)
	if d < 0 {
		zmc.RaceRelease(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		zmc.Misuse("negative WaitGroup counter")
		panic("zsync: negative WaitGroup counter")
	}
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if !zmc.Active() {
		w.real.Wait()
		return
	}
	w.fresh()
	zmc.Block(&w.o, zmc.KWait, w)
	zmc.RaceAcquire(unsafe.Pointer(w))
}

// Go runs f in a new goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	tok := zmc.PreGo()
	go func() {
		tok.Start()
		defer tok.End()
		defer w.Done()
		f()
	}()
}

// Once is like sync.Once.
type Once struct {
	real  sync.Once
	epoch uint32
	state int // 1 running, 2 done
	inact bool
	o     zmc.Obj
}

//go:norace
func (o *Once) ZReady() bool { return o.state != 1 }

// Do calls f once. The effect is process-wide, also across executions, like
// the real thing, except when an execution was abandoned half way through.
//
//go:norace
func (o *Once) Do(f func()) {
	if !zmc.Active() {
		if o.state == 2 {
			return
		}
		o.real.Do(f)
		o.state = 2
		return
	}
	if o.state == 1 && o.epoch != zmc.CurEpoch() {
		o.state = 0
	}
	zmc.Block(&o.o, zmc.KOnce, o)
	if o.state == 2 {
		zmc.RaceAcquire(unsafe.Pointer(o))
		return
	}
	o.state, o.epoch = 1, zmc.CurEpoch()
	o.run(f)
}

//go:norace
func (o *Once) run(f func()) {
	defer o.finish()
	f()
}

//go:norace
func (o *Once) finish() {
	zmc.RaceRelease(unsafe.Pointer(o))
	o.state = 2
	zmc.Touch(&o.o, zmc.KOnce)
}

// OnceFunc is like sync.OnceFunc.
func OnceFunc(f func()) func() {
	var once Once
	return func() { once.Do(f) }
}

// OnceValue is like sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var once Once
	var v T
	return func() T { once.Do(func() { v = f() }); return v }
}

// OnceValues is like sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var once Once
	var v T
	var u U
	return func() (T, U) { once.Do(func() { v, u = f() }); return v, u }
}

// Cond is like sync.Cond.
type Cond struct {
	L    Locker
	real *sync.Cond
	o    zmc.Obj
	ws   []*condWaiter
}

type condWaiter struct{ woken bool }

//go:norace
func (w *condWaiter) ZReady() bool { return w.woken }

// NewCond is like sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

//go:norace
func (c *Cond) Wait() {
	if !zmc.Active() {
		c.real.Wait()
		return
	}
	w := &condWaiter{}
	c.ws = append(c.ws, w)
	c.L.Unlock()
	zmc.Block(&c.o, zmc.KCond, w)
	zmc.RaceAcquire(unsafe.Pointer(c))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if !zmc.Active() {
		c.real.Signal()
		return
	}
	zmc.Point(&c.o, zmc.KCond)
	zmc.RaceRelease(unsafe.Pointer(c))
	for len(c.ws) > 0 {
		w := c.ws[0]
		c.ws = c.ws[1:]
		if !w.woken {
			w.woken = true
			return
		}
	}
}

//go:norace
func (c *Cond) Broadcast() {
	if !zmc.Active() {
		c.real.Broadcast()
		return
	}
	zmc.Point(&c.o, zmc.KCond)
	zmc.RaceRelease(unsafe.Pointer(c))
	for _, w := range c.ws {
		w.woken = true
	}
	c.ws = nil
}

// Pool is like sync.Pool, and starts every execution empty.
type Pool struct {
	New   func() any
	real  sync.Pool
	epoch uint32
	items []*poolItem
	o     zmc.Obj
}

type poolItem struct {
	v   any
	syn int
}

//go:norace
func (p *Pool) fresh() {
	if e := zmc.CurEpoch(); p.epoch != e {
		p.epoch, p.items = e, nil
	}
}

//go:norace
func (p *Pool) Get() any {
	if !zmc.Active() {
		if v := p.real.Get(); v != nil {
			return v
		}
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	p.fresh()
	zmc.Touch(&p.o, zmc.KPool)
	if n := len(p.items); n > 0 {
		i := n - 1
		if zmc.PoolMode() == 1 {
			i = 0
		}
		it := p.items[i]
		copy(p.items[i:], p.items[i+1:])
		p.items[n-1] = nil
		p.items = p.items[:n-1]
		zmc.RaceAcquire(unsafe.Pointer(&it.syn))
		return it.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	if !zmc.Active() {
		p.real.Put(v)
		return
	}
	if zmc.PoolMode() == 2 {
		return
	}
	p.fresh()
	zmc.Touch(&p.o, zmc.KPool)
	it := &poolItem{v: v}
	zmc.RaceRelease(unsafe.Pointer(&it.syn))
	p.items = append(p.items, it)
}

// Map is like sync.Map. Range iterates in a deterministic order.
type Map struct {
	real  sync.Map
	epoch uint32
	o     zmc.Obj
}

//go:norace
func (m *Map) pt() { zmc.Point(&m.o, zmc.KMap) }

func (m *Map) Load(k any) (any, bool)           { m.pt(); return m.real.Load(k) }
func (m *Map) Store(k, v any)                   { m.pt(); m.real.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { m.pt(); return m.real.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { m.pt(); return m.real.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { m.pt(); m.real.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { m.pt(); return m.real.Swap(k, v) }
func (m *Map) CompareAndSwap(k, a, b any) bool  { m.pt(); return m.real.CompareAndSwap(k, a, b) }
func (m *Map) CompareAndDelete(k, a any) bool   { m.pt(); return m.real.CompareAndDelete(k, a) }

func (m *Map) Range(f func(k, v any) bool) {
	m.pt()
	all := map[any]any{}
	m.real.Range(func(k, v any) bool { all[k] = v; return true })
	for _, it := range zmc.Items(all) {
		m.pt()
		v, ok := m.real.Load(it.K)
		if !ok {
			continue
		}
		if !f(it.K, v) {
			return
		}
	}
}

// Clear deletes all entries.
func (m *Map) Clear() {
	m.pt()
	m.real.Range(func(k, v any) bool { m.real.Delete(k); return true })
}
