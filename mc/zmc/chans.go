package zmc

import (
	"reflect"
	"unsafe"
)

// A selOp is a pending channel operation with one or more cases.
type selOp struct {
	cases      []Case
	hasDefault bool
	chosen     int
}

// Case of a select.
type Case interface {
	zptr() unsafe.Pointer
	zsend() bool
	zready(self *thread) bool
	zexec(self *thread)
	zsync() unsafe.Pointer
}

//go:norace
func (op *selOp) ready(self *thread) bool {
	if op.hasDefault {
		return true
	}
	for _, c := range op.cases {
		if c.zready(self) {
			return true
		}
	}
	return false
}

// peer finds another thread with a pending complementary operation on the
// unbuffered channel p.
//
//go:norace
func peer(self *thread, p unsafe.Pointer, wantSend bool) (*thread, int) {
	for _, t := range s.threads {
		if t == self || t.completed || t.sel == nil || t.sel.hasDefault {
			continue
		}
		for j, c := range t.sel.cases {
			if c.zptr() == p && c.zsend() == wantSend {
				return t, j
			}
		}
	}
	return nil, 0
}

//go:norace
func chanObj(p unsafe.Pointer) *Obj {
	for _, c := range s.chobjs {
		if c.p == p {
			return &c.o
		}
	}
	c := &chobj{p: p}
	s.chobjs = append(s.chobjs, c)
	return &c.o
}

// RecvC is a receive case.
type RecvC[T any] struct {
	ch  <-chan T
	Val T
	Ok  bool
	syn int
}

// SendC is a send case.
type SendC[T any] struct {
	ch  chan<- T
	v   T
	syn int
}

//go:norace
func (c *RecvC[T]) zptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c.ch)) }

//go:norace
func (c *SendC[T]) zptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c.ch)) }

//go:norace
func (c *RecvC[T]) zsend() bool { return false }

//go:norace
func (c *SendC[T]) zsend() bool { return true }

//go:norace
func (c *RecvC[T]) zsync() unsafe.Pointer { return unsafe.Pointer(&c.syn) }

//go:norace
func (c *SendC[T]) zsync() unsafe.Pointer { return unsafe.Pointer(&c.syn) }

//go:norace
func (c *RecvC[T]) zready(self *thread) bool {
	if c.ch == nil {
		return false
	}
	if len(c.ch) > 0 {
		return true
	}
	if cap(c.ch) == 0 {
		if t, _ := peer(self, c.zptr(), true); t != nil {
			return true
		}
	}
	return isClosed(c.ch)
}

// isClosed must only be called when the channel is empty and no real goroutine
// is blocked sending on it.
//
//go:norace
func isClosed[T any](ch <-chan T) (closed bool) {
	raceDisable()
	select {
	case _, ok := <-ch:
		closed = !ok
	default:
	}
	raceEnable()
	return closed
}

// sendClosed probes whether ch has been closed (a send would panic).
//
//go:norace
func sendClosed[T any](ch chan<- T) bool {
	// Convert to a receivable channel; the runtime representation is shared.
	rc := *(*<-chan T)(unsafe.Pointer(&ch))
	return len(rc) == 0 && isClosed(rc)
}

//go:norace
func (c *SendC[T]) zready(self *thread) bool {
	if c.ch == nil {
		return false
	}
	if len(c.ch) < cap(c.ch) {
		return true
	}
	if cap(c.ch) == 0 {
		if t, _ := peer(self, c.zptr(), false); t != nil {
			return true
		}
		return sendClosed(c.ch)
	}
	return false
}

//go:norace
func (c *RecvC[T]) zexec(self *thread) {
	if cap(c.ch) == 0 && len(c.ch) == 0 {
		if t, j := peer(self, c.zptr(), true); t != nil {
			sc := t.sel.cases[j].(*SendC[T])
			raceAcquire(unsafe.Pointer(&sc.syn))
			raceReleaseMerge(unsafe.Pointer(&sc.syn))
			c.Val, c.Ok = sc.v, true
			t.sel.chosen = j
			t.completed = true
			s.touch(t, chanObj(c.zptr()), KSend)
			return
		}
	}
	c.real()
}

func (c *RecvC[T]) real() { c.Val, c.Ok = <-c.ch }

func (c *SendC[T]) real() { c.ch <- c.v }

//go:norace
func (c *SendC[T]) zexec(self *thread) {
	if cap(c.ch) == 0 {
		if t, j := peer(self, c.zptr(), false); t != nil {
			rc := t.sel.cases[j].(*RecvC[T])
			raceAcquire(unsafe.Pointer(&rc.syn))
			raceReleaseMerge(unsafe.Pointer(&rc.syn))
			rc.Val, rc.Ok = c.v, true
			t.sel.chosen = j
			t.completed = true
			s.touch(t, chanObj(c.zptr()), KRecv)
			return
		}
	}
	c.real()
}

// RecvCase makes a receive case.
//
//go:norace
func RecvCase[T any](ch <-chan T) *RecvC[T] { return &RecvC[T]{ch: ch} }

// SendCase makes a function that makes a send case.
//
//go:norace
func SendCase[T any](ch chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{ch: ch, v: v} }
}

// Select performs a select statement. It returns the index of the chosen case,
// or -1 for the default case.
//
//go:norace
func Select(hasDefault bool, cases ...Case) int {
	if !Active() {
		return realSelect(hasDefault, cases)
	}
	k := KSelect
	if len(cases) == 1 && !hasDefault {
		k = KRecv
		if cases[0].zsend() {
			k = KSend
		}
	}
	t := s.cur
	op := &selOp{cases: cases, hasDefault: hasDefault}
	t.kind = k
	t.sel = op
	for _, c := range cases {
		raceReleaseMerge(c.zsync())
	}
	s.dispatch(t, false)
	t.sel = nil
	if tracing {
		s.note(t, k)
	}
	if t.completed {
		t.completed = false
		raceAcquire(cases[op.chosen].zsync())
		return op.chosen
	}
	var readyIdx [16]int
	n := 0
	for i, c := range cases {
		if n < len(readyIdx) && c.zready(t) {
			readyIdx[n] = i
			n++
		}
		if c.zptr() != nil {
			s.touch(t, chanObj(c.zptr()), k)
		}
	}
	if n == 0 {
		return -1
	}
	i := 0
	if n > 1 {
		i = Choose(n)
	}
	cases[readyIdx[i]].zexec(t)
	return readyIdx[i]
}

func realSelect(hasDefault bool, cases []Case) int {
	return reflectSelect(hasDefault, cases)
}

// Recv receives from ch.
//
//go:norace
func Recv[T any](ch <-chan T) T {
	if !Active() {
		return <-ch
	}
	c := &RecvC[T]{ch: ch}
	Select(false, c)
	return c.Val
}

// Recv2 receives from ch, and reports whether the value was sent.
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	c := &RecvC[T]{ch: ch}
	Select(false, c)
	return c.Val, c.Ok
}

// SendTo returns a function that sends to ch.
//
//go:norace
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { send(ch, v) }
}

//go:norace
func send[T any](ch chan<- T, v T) {
	if !Active() {
		ch <- v
		return
	}
	Select(false, &SendC[T]{ch: ch, v: v})
}

// Close closes ch.
//
//go:norace
func Close[T any](ch chan<- T) {
	if Active() {
		Point(chanObj(*(*unsafe.Pointer)(unsafe.Pointer(&ch))), KClose)
	}
	close(ch)
}

// Len is the number of elements in the channel ch.
//
//go:norace
func Len[C any](ch C) int {
	if p := *(*unsafe.Pointer)(unsafe.Pointer(&ch)); p != nil && Active() {
		Point(chanObj(p), KRecv)
	}
	return reflect.ValueOf(ch).Len()
}
