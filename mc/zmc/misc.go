package zmc

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

func (c *RecvC[T]) zreflect() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}

func (c *SendC[T]) zreflect() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}

func (c *RecvC[T]) zset(v reflect.Value, ok bool) {
	if v.IsValid() {
		if x, is := v.Interface().(T); is {
			c.Val = x
		}
	}
	c.Ok = ok
}

func (c *SendC[T]) zset(v reflect.Value, ok bool) {}

func reflectSelect(hasDefault bool, cases []Case) int {
	var scs []reflect.SelectCase
	for _, c := range cases {
		scs = append(scs, c.(interface{ zreflect() reflect.SelectCase }).zreflect())
	}
	if hasDefault {
		scs = append(scs, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(scs)
	if i >= len(cases) {
		return -1
	}
	cases[i].(interface{ zset(reflect.Value, bool) }).zset(v, ok)
	return i
}

// WrapGo wraps the function of a go statement.
func WrapGo[F any](tok Tok, f F) F {
	if tok.t == nil {
		return f
	}
	fv := reflect.ValueOf(f)
	w := reflect.MakeFunc(fv.Type(), func(args []reflect.Value) []reflect.Value {
		tok.Start()
		defer tok.End()
		if fv.Type().IsVariadic() {
			return fv.CallSlice(args)
		}
		return fv.Call(args)
	})
	return w.Interface().(F)
}

// Item is a key of a map being iterated.
type Item[K comparable, V any] struct {
	K K
	m map[K]V
}

// Live is true if the key is still in the map.
func (it Item[K, V]) Live() bool { _, ok := it.m[it.K]; return ok }

// V returns the current value.
func (it Item[K, V]) V() V { return it.m[it.K] }

// Items returns the items of m in a deterministic order.
func Items[M ~map[K]V, K comparable, V any](m M) []Item[K, V] {
	// Reading the map is an access by the caller, as far as races go.
	its := make([]Item[K, V], 0, len(m))
	for k := range m {
		its = append(its, Item[K, V]{k, m})
	}
	if len(its) < 2 || !Active() {
		return its
	}
	desc := mapDesc()
	sort.SliceStable(its, func(i, j int) bool {
		if desc {
			i, j = j, i
		}
		return keyLess(its[i].K, its[j].K)
	})
	return its
}

//go:norace
func mapDesc() bool { return s.cfg.MapDesc }

func keyLess(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch va.Kind() {
	case reflect.String:
		return va.String() < vb.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return va.Int() < vb.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return va.Uint() < vb.Uint()
	case reflect.Chan, reflect.Pointer, reflect.UnsafePointer:
		return rank(va.UnsafePointer()) < rank(vb.UnsafePointer())
	default:
		return fmt.Sprint(a) < fmt.Sprint(b)
	}
}

// rank of an address, by first use in this execution.
//
//go:norace
func rank(p unsafe.Pointer) int {
	chanObj(p)
	for i, c := range s.chobjs {
		if c.p == p {
			return i
		}
	}
	return -1
}

// NameChan gives a new channel a deterministic rank when used as a map key.
//
//go:norace
func NameChan[C ~chan T, T any](ch C) C {
	if Active() {
		chanObj(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
	}
	return ch
}

// RaceAcquire and RaceRelease announce synchronization to the race detector.
//
//go:norace
func RaceAcquire(p unsafe.Pointer) { raceAcquire(p) }

// RaceRelease announces a release (merging) to the race detector.
//
//go:norace
func RaceRelease(p unsafe.Pointer) { raceReleaseMerge(p) }

//go:norace
func PoolMode() int { return s.cfg.PoolMode }
