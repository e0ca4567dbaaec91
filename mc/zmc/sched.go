// Package zmc is a controlled scheduler: it runs a group of goroutines
// ("threads") one at a time, and takes every scheduling decision from a choice
// sequence, so that executions can be enumerated and replayed.
//
// The shims zsync, zatomic, ztime, and the channel functions in this package,
// call Point (always enabled) or Block (enabled when Ready) before each
// synchronization operation. Outside of Run, they behave like the real thing.
//
// In a race build, scheduler hand-offs are hidden from the race detector, and
// only the modelled operations are announced to it. All functions that touch
// scheduler state must therefore be go:norace and avoid maps.
package zmc

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

// Kind of a pending operation, for diagnostics and state hashing.
type Kind uint8

// Kinds of operations.
const (
	KStart Kind = iota + 1
	KLock
	KRLock
	KUnlock
	KAtomic
	KSend
	KRecv
	KSelect
	KClose
	KPool
	KWait
	KOnce
	KCond
	KSleep
	KYield
	KIdle
	KJoin
	KClock
	KChoose
	KMap
)

var kindNames = [...]string{"?", "start", "lock", "rlock", "unlock", "atomic", "send", "recv", "select", "close", "pool", "wait", "once", "cond", "sleep", "yield", "idle", "join", "clock", "choose", "map"}

func (k Kind) String() string { return kindNames[k] }

// Waiter is something a thread can be blocked on.
type Waiter interface{ ZReady() bool }

// Obj carries the per-execution causal hash of a shared object.
type Obj struct {
	epoch uint32
	hash  uint64
}

type thread struct {
	id        int
	name      string
	wake      chan struct{}
	done      bool
	idle      bool
	kind      Kind
	waiter    Waiter // nil: always enabled
	sel       *selOp // channel operations
	completed bool   // a peer completed our channel operation
	hash      uint64
	obj       Obj
	sync      int // address for race annotations
	parent    *thread
	late      func() // body, if the goroutine is started when first chosen
}

// PointRec describes one decision.
type PointRec struct {
	N          uint8 // alternatives
	Chosen     uint8
	CurEnabled bool // alternative 0 is the running thread
	Data       bool // a data choice, not a scheduling choice
	Preempts   uint8
	Cur        uint8
	Enabled    uint64 // set of enabled threads (scheduling choices)
	FP         uint64
}

// FailKind classifies failures.
type FailKind string

// Failure kinds.
const (
	FailAssert   FailKind = "assert"
	FailPanic    FailKind = "panic"
	FailDeadlock FailKind = "deadlock"
	FailRace     FailKind = "race"
	FailSteps    FailKind = "steps"
	FailHang     FailKind = "hang"
	FailMisuse   FailKind = "misuse"
)

// Failure of an execution.
type Failure struct {
	Kind FailKind `json:"kind"`
	Msg  string   `json:"msg"`
}

// Config of one execution.
type Config struct {
	Prefix        []uint8
	MaxSteps      int           // default 1000000
	Tick          time.Duration // clock advance per reading
	MapDesc       bool          // iterate maps in descending order
	PoolMode      int           // 0: reuse LIFO, 1: reuse FIFO, 2: never reuse
	MaxTimerFires int           // default 8
	Fixed         int           // 1: lowest enabled thread when one blocks, 2: highest; only data is explored
	HangAfter     time.Duration // default 120s
}

// Result of one execution.
type Result struct {
	Points   []PointRec
	Steps    int
	Threads  int
	Fail     *Failure
	Diverged bool
	Trace    []string
}

type timer struct {
	when   time.Time
	period time.Duration
	ch     chan time.Time
	fn     func()
	fired  bool
	active bool
	seq    int
}

type sched struct {
	cfg      Config
	threads  []*thread // not ended, in order of creation
	created  int
	dead     uint64 // hashes of threads that ended
	list     []*thread
	cur      *thread
	points   []PointRec
	steps    int
	preempts uint8
	next     int
	now      time.Time
	clockObj Obj
	timers   []*timer
	fires    int
	seq      int
	fail     *Failure
	over     bool
	diverged bool
	endc     chan struct{}
	endSync  int
	chobjs   []*chobj
	trace    []string
}

type chobj struct {
	p unsafe.Pointer
	o Obj
}

var (
	s        *sched
	active   bool
	epoch    uint32
	progress uint64
	hangs    int
	watching bool
	tracing  bool
)

// Epoch of the virtual clock at the start of every execution.
var Epoch = time.Date(2030, 1, 2, 3, 4, 5, 456_789_123, time.UTC)

// SetTracing makes executions record a readable trace of their steps.
func SetTracing(b bool) { tracing = b }

// Active is true when a controlled execution is in progress.
//
//go:norace
func Active() bool { return active && !s.over }

// CurEpoch identifies the current execution.
//
//go:norace
func CurEpoch() uint32 { return epoch }

//go:norace
func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 30
	a *= 0xbf58476d1ce4e5b9
	a ^= a >> 27
	a *= 0x94d049bb133111eb
	a ^= a >> 31
	return a
}

//go:norace
func (s *sched) touch(t *thread, o *Obj, k Kind) {
	if o == nil {
		t.hash = mix(t.hash, uint64(k))
		return
	}
	if o.epoch != epoch {
		o.epoch = epoch
		o.hash = 0x1234567
	}
	h := mix(mix(t.hash, o.hash), uint64(k))
	t.hash = h
	o.hash = h
}

// Touch records that the running thread accesses o, without a decision.
//
//go:norace
func Touch(o *Obj, k Kind) {
	if active {
		s.touch(s.cur, o, k)
	}
}

//go:norace
func (s *sched) fingerprint() uint64 {
	fp := s.dead
	for _, t := range s.threads {
		fp += mix(t.hash, uint64(t.id)+1)
	}
	return fp
}

//go:norace
func (s *sched) enabled(t *thread) bool {
	if t.done {
		return false
	}
	if t.completed {
		return true
	}
	if t.idle {
		for _, o := range s.threads {
			if o != t && !o.idle && s.enabled(o) {
				return false
			}
		}
		return true
	}
	if t.sel != nil {
		return t.sel.ready(t)
	}
	if t.waiter == nil {
		return true
	}
	return t.waiter.ZReady()
}

// pick chooses the next thread to run. cur is the thread that is giving up
// control, or nil if it ended. It returns nil if the execution is over.
//
//go:norace
func (s *sched) pick(cur *thread, yielding bool) *thread {
	for {
		if s.over {
			return nil
		}
		list := s.list[:0]
		curEnabled := false
		if cur != nil && !yielding && s.enabled(cur) {
			list = append(list, cur)
			curEnabled = true
		}
		for _, t := range s.threads {
			if t != cur && s.enabled(t) {
				list = append(list, t)
			}
		}
		if yielding && s.enabled(cur) {
			list = append(list, cur)
		}
		s.list = list
		n := len(list)
		if n == 0 {
			alldone := true
			for _, t := range s.threads {
				if t.late == nil {
					alldone = false
				}
			}
			if alldone {
				s.finish()
				return nil
			}
			if s.fireTimer() {
				continue
			}
			s.setFail(FailDeadlock, s.describe())
			s.finish()
			return nil
		}
		if n == 1 {
			return list[0]
		}
		switch s.cfg.Fixed {
		case 1:
			return list[0]
		case 2:
			if curEnabled {
				return cur
			}
			return list[n-1]
		}
		c := s.decide(n, curEnabled, false, cur, list)
		if curEnabled && c != 0 {
			s.preempts++
		}
		return list[c]
	}
}

//go:norace
func (s *sched) decide(n int, curEnabled, data bool, cur *thread, list []*thread) int {
	if n > 255 {
		n = 255 // of the threads that can run
	}
	c := 0
	if s.next < len(s.cfg.Prefix) {
		c = int(s.cfg.Prefix[s.next])
		if c >= n {
			s.diverged = true
			c = 0
		}
	}
	s.next++
	curid := uint8(255)
	if cur != nil {
		curid = uint8(cur.id)
	}
	var en uint64
	for _, t := range list {
		en |= 1 << uint(t.id&63)
	}
	s.points = append(s.points, PointRec{N: uint8(n), Chosen: uint8(c), CurEnabled: curEnabled, Data: data, Preempts: s.preempts, Cur: curid, Enabled: en, FP: s.fingerprint()})
	return c
}

//go:norace
func (s *sched) setFail(k FailKind, msg string) {
	if s.fail == nil {
		s.fail = &Failure{k, msg}
	}
}

//go:norace
func (s *sched) finish() {
	if s.over {
		return
	}
	s.over = true
	close(s.endc)
}

//go:norace
func (s *sched) describe() string {
	var b strings.Builder
	b.WriteString("no thread can run:")
	for _, t := range s.threads {
		if t.late == nil {
			fmt.Fprintf(&b, " [%s blocked at %s]", t.name, t.kind)
		}
	}
	return b.String()
}

//go:norace
func (s *sched) step(t *thread) {
	s.steps++
	progress++
	max := s.cfg.MaxSteps
	if max == 0 {
		max = 1000000
	}
	if s.steps > max {
		s.setFail(FailSteps, "step limit exceeded (livelock?): "+s.describe())
		s.finish()
	}
}

//go:norace
func (t *thread) park() {
	raceDisable()
	<-t.wake
	raceEnable()
}

//go:norace
func (t *thread) unpark() {
	if f := t.late; f != nil {
		t.late = nil
		go run(Tok{t}, f)
	}
	raceDisable()
	t.wake <- struct{}{}
	raceEnable()
}

// dispatch gives up control at a pending operation of t, and returns when t is
// chosen to perform it. If the execution is over, it blocks forever.
//
//go:norace
func (s *sched) dispatch(t *thread, yielding bool) {
	s.step(t)
	next := s.pick(t, yielding)
	if next == nil {
		select {} // abandoned
	}
	if next != t {
		s.cur = next
		next.unpark()
		t.park()
		if s.over {
			select {}
		}
	}
	s.cur = t
}

// Point is a scheduling point before an operation that is always enabled.
//
//go:norace
func Point(o *Obj, k Kind) {
	if !Active() {
		return
	}
	t := s.cur
	t.kind = k
	t.waiter = nil
	s.dispatch(t, false)
	s.touch(t, o, k)
	if tracing {
		s.note(t, k)
	}
}

// PointAddr is Point for an object identified by its address.
//
//go:norace
func PointAddr(p unsafe.Pointer, k Kind) {
	if Active() {
		Point(chanObj(p), k)
	}
}

// Block is a scheduling point before an operation that is enabled when w is.
//
//go:norace
func Block(o *Obj, k Kind, w Waiter) {
	if !Active() {
		return
	}
	t := s.cur
	t.kind = k
	t.waiter = w
	s.dispatch(t, false)
	t.waiter = nil
	s.touch(t, o, k)
	if tracing {
		s.note(t, k)
	}
}

//go:norace
func (s *sched) note(t *thread, k Kind) {
	st := string(debug.Stack())
	line := ""
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "\t") && !strings.Contains(l, "/zmc/") && !strings.Contains(l, "runtime/debug") {
			line = strings.TrimSpace(l)
			if i := strings.Index(line, " +0x"); i > 0 {
				line = line[:i]
			}
			break
		}
	}
	s.trace = append(s.trace, fmt.Sprintf("%s: %s at %s", t.name, k, line))
}

// Yield lets other threads run.
//
//go:norace
func Yield() {
	if !Active() {
		return
	}
	t := s.cur
	t.kind = KYield
	t.waiter = nil
	s.dispatch(t, true)
	s.touch(t, nil, KYield)
}

// Idle waits until no other thread can run.
//
//go:norace
func Idle() {
	if !Active() {
		return
	}
	t := s.cur
	t.kind = KIdle
	t.idle = true
	s.dispatch(t, false)
	t.idle = false
	// Idle is a barrier with respect to every other thread's progress.
	t.hash = mix(t.hash, s.fingerprint())
}

// Choose is a data decision between n alternatives.
//
//go:norace
func Choose(n int) int {
	if !Active() || n <= 1 {
		return 0
	}
	if n > 255 {
		panic("zmc: too many alternatives")
	}
	c := s.decide(n, false, true, s.cur, nil)
	s.cur.hash = mix(s.cur.hash, uint64(c)+1000)
	return c
}

// Failf records a failure of this execution.
//
//go:norace
func Failf(format string, args ...any) {
	if s != nil {
		s.setFail(FailAssert, fmt.Sprintf(format, args...))
	}
}

// Misuse records a failure caused by misuse of a primitive.
//
//go:norace
func Misuse(msg string) {
	if s != nil {
		s.setFail(FailMisuse, msg)
	}
}

// Failed is true if the current execution has failed.
//
//go:norace
func Failed() bool { return s.fail != nil }

//go:norace
func (s *sched) newThread(name string) *thread {
	t := &thread{id: s.created, name: name, wake: make(chan struct{}, 1), kind: KStart}
	if s.cur != nil {
		t.parent = s.cur
		t.hash = mix(s.cur.hash, 0xabcdef)
		s.cur.hash = mix(s.cur.hash, 0xfedcba)
	}
	s.threads = append(s.threads, t)
	s.created++
	return t
}

// Tok identifies a thread between its creation and its start.
type Tok struct{ t *thread }

// PreGo is called before a go statement.
//
//go:norace
func PreGo() Tok {
	if !Active() {
		return Tok{}
	}
	name := "g"
	if s.cur != nil {
		name = s.cur.name + ".g"
	}
	return Tok{s.newThread(name)}
}

// Start is called first thing in a new goroutine.
//
//go:norace
func (tok Tok) Start() {
	t := tok.t
	if t == nil {
		return
	}
	t.park()
	if s.over {
		select {}
	}
	s.cur = t
}

// End must be deferred directly by a new goroutine.
//
//go:norace
func (tok Tok) End() {
	t := tok.t
	if t == nil {
		return
	}
	if x := recover(); x != nil {
		s.setFail(FailPanic, fmt.Sprintf("panic in %s: %v\n%s", t.name, x, trimStack(debug.Stack())))
	}
	s.exit(t)
}

//go:norace
func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "/zmc") || strings.Contains(lines[i], "runtime/debug") || strings.HasPrefix(lines[i], "goroutine ") || strings.HasPrefix(lines[i], "panic(") {
			continue
		}
		if strings.HasPrefix(lines[i], "\t") {
			out = append(out, strings.TrimSpace(lines[i]))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

//go:norace
func (s *sched) exit(t *thread) {
	raceReleaseMerge(unsafe.Pointer(&t.sync))
	raceReleaseMerge(unsafe.Pointer(&s.endSync))
	t.done = true
	s.touch(t, &t.obj, KJoin)
	s.dead += mix(mix(t.hash, 77), uint64(t.id)+1)
	for i, o := range s.threads {
		if o == t {
			for ; i+1 < len(s.threads); i++ {
				s.threads[i] = s.threads[i+1]
			}
			s.threads = s.threads[:i]
			break
		}
	}
	s.step(t)
	next := s.pick(nil, false)
	if next == nil {
		return
	}
	s.cur = next
	next.unpark()
}

// Handle of a thread started with Go.
type Handle struct{ t *thread }

// ZReady implements Waiter.
//
//go:norace
func (h *Handle) ZReady() bool { return h.t.done }

// Go starts a named thread.
//
//go:norace
func Go(name string, f func()) *Handle {
	t := s.newThread(name)
	tok := Tok{t}
	go run(tok, f)
	return &Handle{t}
}

func run(tok Tok, f func()) {
	tok.Start()
	defer tok.End()
	f()
}

// Join waits for the thread to end.
//
//go:norace
func (h *Handle) Join() {
	Block(&h.t.obj, KJoin, h)
	raceAcquire(unsafe.Pointer(&h.t.sync))
}

// Done is true if the thread has ended.
//
//go:norace
func (h *Handle) Done() bool { return h.t.done }

// Steps executed so far.
//
//go:norace
func Steps() int { return s.steps }

// Run one execution of main under control of cfg.
func Run(cfg Config, main func()) *Result {
	epoch++
	sc := &sched{cfg: cfg, now: Epoch, endc: make(chan struct{}), points: make([]PointRec, 0, 64)}
	s = sc
	active = true
	before := RaceErrors()
	t := sc.newThread("main")
	sc.cur = t
	if !watching {
		watching = true
		go watchdog()
	}
	go run(Tok{t}, main)
	t.unpark()
	<-sc.endc
	return collect(sc, before)
}

// watchdog ends the execution if no step is made for a long time, which means
// that a thread blocks or loops outside of the scheduler's control.
//
//go:norace
func watchdog() {
	var last uint64
	var lastEpoch uint32
	at := time.Now()
	for {
		time.Sleep(time.Second)
		sc := s
		if p := progress; p != last || epoch != lastEpoch || !active {
			last, lastEpoch, at = p, epoch, time.Now()
			continue
		}
		hang := sc.cfg.HangAfter
		if hang == 0 {
			hang = 60 * time.Second
		}
		if time.Since(at) > hang && !sc.over {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			sc.setFail(FailHang, "a thread blocks or loops forever\n"+string(buf))
			sc.finish()
		}
	}
}

//go:norace
func collect(sc *sched, before int) *Result {
	raceAcquire(unsafe.Pointer(&sc.endSync))
	active = false
	if n := RaceErrors(); n > before {
		sc.setFail(FailRace, "data race")
	}
	return &Result{Points: sc.points, Steps: sc.steps, Threads: sc.created, Fail: sc.fail, Diverged: sc.diverged, Trace: sc.trace}
}

// Progress tells the watchdog that work is being done.
//
//go:norace
func Progress() { progress++ }
