// Package zatomic replaces package sync/atomic under a controlled scheduler.
package zatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/peterbourgon/trc/zmc"
)

//go:norace
func pt(o *zmc.Obj) { zmc.Point(o, zmc.KAtomic) }

//go:norace
func ptp(p unsafe.Pointer) { zmc.PointAddr(p, zmc.KAtomic) }

// Int32 is like atomic.Int32.
type Int32 struct {
	o zmc.Obj
	v atomic.Int32
}

func (x *Int32) Load() int32                    { pt(&x.o); return x.v.Load() }
func (x *Int32) Store(n int32)                  { pt(&x.o); x.v.Store(n) }
func (x *Int32) Swap(n int32) int32             { pt(&x.o); return x.v.Swap(n) }
func (x *Int32) Add(n int32) int32              { pt(&x.o); return x.v.Add(n) }
func (x *Int32) CompareAndSwap(a, b int32) bool { pt(&x.o); return x.v.CompareAndSwap(a, b) }
func (x *Int32) And(m int32) (old int32) {
	pt(&x.o)
	for {
		old = x.v.Load()
		if x.v.CompareAndSwap(old, old&m) {
			return old
		}
	}
}
func (x *Int32) Or(m int32) (old int32) {
	pt(&x.o)
	for {
		old = x.v.Load()
		if x.v.CompareAndSwap(old, old|m) {
			return old
		}
	}
}

func LoadInt32(p *int32) int32          { ptp(unsafe.Pointer(p)); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, n int32)      { ptp(unsafe.Pointer(p)); atomic.StoreInt32(p, n) }
func SwapInt32(p *int32, n int32) int32 { ptp(unsafe.Pointer(p)); return atomic.SwapInt32(p, n) }
func AddInt32(p *int32, n int32) int32  { ptp(unsafe.Pointer(p)); return atomic.AddInt32(p, n) }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	ptp(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt32(p, a, b)
}

// Int64 is like atomic.Int64.
type Int64 struct {
	o zmc.Obj
	v atomic.Int64
}

func (x *Int64) Load() int64                    { pt(&x.o); return x.v.Load() }
func (x *Int64) Store(n int64)                  { pt(&x.o); x.v.Store(n) }
func (x *Int64) Swap(n int64) int64             { pt(&x.o); return x.v.Swap(n) }
func (x *Int64) Add(n int64) int64              { pt(&x.o); return x.v.Add(n) }
func (x *Int64) CompareAndSwap(a, b int64) bool { pt(&x.o); return x.v.CompareAndSwap(a, b) }
func (x *Int64) And(m int64) (old int64) {
	pt(&x.o)
	for {
		old = x.v.Load()
		if x.v.CompareAndSwap(old, old&m) {
			return old
		}
	}
}
func (x *Int64) Or(m int64) (old int64) {
	pt(&x.o)
	for {
		old = x.v.Load()
		if x.v.CompareAndSwap(old, old|m) {
			return old
		}
	}
}

func LoadInt64(p *int64) int64          { ptp(unsafe.Pointer(p)); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, n int64)      { ptp(unsafe.Pointer(p)); atomic.StoreInt64(p, n) }
func SwapInt64(p *int64, n int64) int64 { ptp(unsafe.Pointer(p)); return atomic.SwapInt64(p, n) }
func AddInt64(p *int64, n int64) int64  { ptp(unsafe.Pointer(p)); return atomic.AddInt64(p, n) }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	ptp(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt64(p, a, b)
}

// Uint32 is like atomic.Uint32.
type Uint32 struct {
	o zmc.Obj
	v atomic.Uint32
}

func (x *Uint32) Load() uint32                    { pt(&x.o); return x.v.Load() }
func (x *Uint32) Store(n uint32)                  { pt(&x.o); x.v.Store(n) }
func (x *Uint32) Swap(n uint32) uint32            { pt(&x.o); return x.v.Swap(n) }
func (x *Uint32) Add(n uint32) uint32             { pt(&x.o); return x.v.Add(n) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { pt(&x.o); return x.v.CompareAndSwap(a, b) }
func (x *Uint32) And(m uint32) (old uint32) {
	pt(&x.o)
	for {
		old = x.v.Load()
		if x.v.CompareAndSwap(old, old&m) {
			return old
		}
	}
}
func (x *Uint32) Or(m uint32) (old uint32) {
	pt(&x.o)
	for {
		old = x.v.Load()
		if x.v.CompareAndSwap(old, old|m) {
			return old
		}
	}
}

func LoadUint32(p *uint32) uint32           { ptp(unsafe.Pointer(p)); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, n uint32)       { ptp(unsafe.Pointer(p)); atomic.StoreUint32(p, n) }
func SwapUint32(p *uint32, n uint32) uint32 { ptp(unsafe.Pointer(p)); return atomic.SwapUint32(p, n) }
func AddUint32(p *uint32, n uint32) uint32  { ptp(unsafe.Pointer(p)); return atomic.AddUint32(p, n) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	ptp(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint32(p, a, b)
}

// Uint64 is like atomic.Uint64.
type Uint64 struct {
	o zmc.Obj
	v atomic.Uint64
}

func (x *Uint64) Load() uint64                    { pt(&x.o); return x.v.Load() }
func (x *Uint64) Store(n uint64)                  { pt(&x.o); x.v.Store(n) }
func (x *Uint64) Swap(n uint64) uint64            { pt(&x.o); return x.v.Swap(n) }
func (x *Uint64) Add(n uint64) uint64             { pt(&x.o); return x.v.Add(n) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { pt(&x.o); return x.v.CompareAndSwap(a, b) }
func (x *Uint64) And(m uint64) (old uint64) {
	pt(&x.o)
	for {
		old = x.v.Load()
		if x.v.CompareAndSwap(old, old&m) {
			return old
		}
	}
}
func (x *Uint64) Or(m uint64) (old uint64) {
	pt(&x.o)
	for {
		old = x.v.Load()
		if x.v.CompareAndSwap(old, old|m) {
			return old
		}
	}
}

func LoadUint64(p *uint64) uint64           { ptp(unsafe.Pointer(p)); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, n uint64)       { ptp(unsafe.Pointer(p)); atomic.StoreUint64(p, n) }
func SwapUint64(p *uint64, n uint64) uint64 { ptp(unsafe.Pointer(p)); return atomic.SwapUint64(p, n) }
func AddUint64(p *uint64, n uint64) uint64  { ptp(unsafe.Pointer(p)); return atomic.AddUint64(p, n) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	ptp(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint64(p, a, b)
}

// Uintptr is like atomic.Uintptr.
type Uintptr struct {
	o zmc.Obj
	v atomic.Uintptr
}

func (x *Uintptr) Load() uintptr                    { pt(&x.o); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)                  { pt(&x.o); x.v.Store(n) }
func (x *Uintptr) Swap(n uintptr) uintptr           { pt(&x.o); return x.v.Swap(n) }
func (x *Uintptr) Add(n uintptr) uintptr            { pt(&x.o); return x.v.Add(n) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool { pt(&x.o); return x.v.CompareAndSwap(a, b) }
func (x *Uintptr) And(m uintptr) (old uintptr) {
	pt(&x.o)
	for {
		old = x.v.Load()
		if x.v.CompareAndSwap(old, old&m) {
			return old
		}
	}
}
func (x *Uintptr) Or(m uintptr) (old uintptr) {
	pt(&x.o)
	for {
		old = x.v.Load()
		if x.v.CompareAndSwap(old, old|m) {
			return old
		}
	}
}

func LoadUintptr(p *uintptr) uintptr     { ptp(unsafe.Pointer(p)); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, n uintptr) { ptp(unsafe.Pointer(p)); atomic.StoreUintptr(p, n) }
func SwapUintptr(p *uintptr, n uintptr) uintptr {
	ptp(unsafe.Pointer(p))
	return atomic.SwapUintptr(p, n)
}
func AddUintptr(p *uintptr, n uintptr) uintptr {
	ptp(unsafe.Pointer(p))
	return atomic.AddUintptr(p, n)
}
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	ptp(unsafe.Pointer(p))
	return atomic.CompareAndSwapUintptr(p, a, b)
}

// Bool is like atomic.Bool.
type Bool struct {
	o zmc.Obj
	v atomic.Bool
}

func (x *Bool) Load() bool                    { pt(&x.o); return x.v.Load() }
func (x *Bool) Store(n bool)                  { pt(&x.o); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool              { pt(&x.o); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(a, b bool) bool { pt(&x.o); return x.v.CompareAndSwap(a, b) }

// Pointer is like atomic.Pointer.
type Pointer[T any] struct {
	o zmc.Obj
	v atomic.Pointer[T]
}

func (x *Pointer[T]) Load() *T                    { pt(&x.o); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { pt(&x.o); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T                { pt(&x.o); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool { pt(&x.o); return x.v.CompareAndSwap(a, b) }

// Value is like atomic.Value.
type Value struct {
	o zmc.Obj
	v atomic.Value
}

func (x *Value) Load() any                    { pt(&x.o); return x.v.Load() }
func (x *Value) Store(n any)                  { pt(&x.o); x.v.Store(n) }
func (x *Value) Swap(n any) any               { pt(&x.o); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(a, b any) bool { pt(&x.o); return x.v.CompareAndSwap(a, b) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	ptp(unsafe.Pointer(p))
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, n unsafe.Pointer) {
	ptp(unsafe.Pointer(p))
	atomic.StorePointer(p, n)
}
func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	ptp(unsafe.Pointer(p))
	return atomic.SwapPointer(p, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	ptp(unsafe.Pointer(p))
	return atomic.CompareAndSwapPointer(p, a, b)
}

func AndInt32(p *int32, m int32) (old int32) {
	ptp(unsafe.Pointer(p))
	return atomic.AndInt32(p, m)
}
func OrInt32(p *int32, m int32) (old int32) {
	ptp(unsafe.Pointer(p))
	return atomic.OrInt32(p, m)
}

func AndInt64(p *int64, m int64) (old int64) {
	ptp(unsafe.Pointer(p))
	return atomic.AndInt64(p, m)
}
func OrInt64(p *int64, m int64) (old int64) {
	ptp(unsafe.Pointer(p))
	return atomic.OrInt64(p, m)
}

func AndUint32(p *uint32, m uint32) (old uint32) {
	ptp(unsafe.Pointer(p))
	return atomic.AndUint32(p, m)
}
func OrUint32(p *uint32, m uint32) (old uint32) {
	ptp(unsafe.Pointer(p))
	return atomic.OrUint32(p, m)
}

func AndUint64(p *uint64, m uint64) (old uint64) {
	ptp(unsafe.Pointer(p))
	return atomic.AndUint64(p, m)
}
func OrUint64(p *uint64, m uint64) (old uint64) {
	ptp(unsafe.Pointer(p))
	return atomic.OrUint64(p, m)
}

func AndUintptr(p *uintptr, m uintptr) (old uintptr) {
	ptp(unsafe.Pointer(p))
	return atomic.AndUintptr(p, m)
}
func OrUintptr(p *uintptr, m uintptr) (old uintptr) {
	ptp(unsafe.Pointer(p))
	return atomic.OrUintptr(p, m)
}
