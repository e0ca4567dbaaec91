// Package zsilent replaces package sync/atomic for pure debug counters: no
// scheduling points, and no ordering that could hide a data race elsewhere.
package zsilent

// Int32 counter.
type Int32 struct{ v int32 }

//go:norace
func (x *Int32) Load() int32 { return x.v }

//go:norace
func (x *Int32) Store(n int32) { x.v = n }

//go:norace
func (x *Int32) Add(n int32) int32 { x.v += n; return x.v }

// Int64 counter.
type Int64 struct{ v int64 }

//go:norace
func (x *Int64) Load() int64 { return x.v }

//go:norace
func (x *Int64) Store(n int64) { x.v = n }

//go:norace
func (x *Int64) Add(n int64) int64 { x.v += n; return x.v }

// Uint32 counter.
type Uint32 struct{ v uint32 }

//go:norace
func (x *Uint32) Load() uint32 { return x.v }

//go:norace
func (x *Uint32) Store(n uint32) { x.v = n }

//go:norace
func (x *Uint32) Add(n uint32) uint32 { x.v += n; return x.v }

// Uint64 counter.
type Uint64 struct{ v uint64 }

//go:norace
func (x *Uint64) Load() uint64 { return x.v }

//go:norace
func (x *Uint64) Store(n uint64) { x.v = n }

//go:norace
func (x *Uint64) Add(n uint64) uint64 { x.v += n; return x.v }

//go:norace
func (x *Int32) Swap(n int32) (old int32) { old, x.v = x.v, n; return old }

//go:norace
func (x *Int32) And(n int32) (old int32) { old, x.v = x.v, x.v&n; return old }

//go:norace
func (x *Int32) Or(n int32) (old int32) { old, x.v = x.v, x.v|n; return old }

//go:norace
func (x *Int32) CompareAndSwap(a, b int32) bool {
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

//go:norace
func (x *Int64) Swap(n int64) (old int64) { old, x.v = x.v, n; return old }

//go:norace
func (x *Int64) And(n int64) (old int64) { old, x.v = x.v, x.v&n; return old }

//go:norace
func (x *Int64) Or(n int64) (old int64) { old, x.v = x.v, x.v|n; return old }

//go:norace
func (x *Int64) CompareAndSwap(a, b int64) bool {
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

//go:norace
func (x *Uint32) Swap(n uint32) (old uint32) { old, x.v = x.v, n; return old }

//go:norace
func (x *Uint32) And(n uint32) (old uint32) { old, x.v = x.v, x.v&n; return old }

//go:norace
func (x *Uint32) Or(n uint32) (old uint32) { old, x.v = x.v, x.v|n; return old }

//go:norace
func (x *Uint32) CompareAndSwap(a, b uint32) bool {
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

//go:norace
func (x *Uint64) Swap(n uint64) (old uint64) { old, x.v = x.v, n; return old }

//go:norace
func (x *Uint64) And(n uint64) (old uint64) { old, x.v = x.v, x.v&n; return old }

//go:norace
func (x *Uint64) Or(n uint64) (old uint64) { old, x.v = x.v, x.v|n; return old }

//go:norace
func (x *Uint64) CompareAndSwap(a, b uint64) bool {
	if x.v != a {
		return false
	}
	x.v = b
	return true
}
