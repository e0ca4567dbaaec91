package main

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"github.com/peterbourgon/trc/zmc"
)

// X is the interface between a harness body and the explorer.
type X struct {
	outcomes []string
	cover    []string
}

// Choose is a decision between n alternatives, all of which are explored.
func (x *X) Choose(n int) int { return zmc.Choose(n) }

// Bool is a decision between false and true.
func (x *X) Bool() bool { return zmc.Choose(2) == 1 }

// Failf reports a violation.
func (x *X) Failf(format string, args ...any) { zmc.Failf(format, args...) }

// Failed is true if a violation has been reported.
func (x *X) Failed() bool { return zmc.Failed() }

// Go starts a thread.
func (x *X) Go(name string, f func()) *zmc.Handle { return zmc.Go(name, f) }

// Outcome describes what happened, to see how many distinct things do.
func (x *X) Outcome(format string, args ...any) {
	x.outcomes = append(x.outcomes, fmt.Sprintf(format, args...))
}

// Advance the virtual clock.
func (x *X) Advance(d time.Duration) { zmc.Advance(d) }

// Now is the virtual time.
func (x *X) Now() time.Time { return zmc.Peek() }

// pickFrom chooses one of the alternatives.
func pickFrom[T any](x *X, alts ...T) T { return alts[x.Choose(len(alts))] }

// Variant of a check: one closed program, explored exhaustively.
type Variant struct {
	Name  string
	Race  bool // run in the race detecting binary
	Bound int  // preemption bound
	Cfg   zmc.Config
	Body  func(x *X)
	Real  func(r *Real) // instead of Body: an enumeration in real time
	Seq   bool          // single threaded: no cache needed, no schedules
}

// Real is the interface between a real-time enumeration and the runner.
type Real struct {
	Cases    int
	Steps    int
	outcomes map[string]int
	Fail     *zmc.Failure
	Deadline time.Time
	Capped   bool
}

// Failf reports a violation.
func (r *Real) Failf(format string, args ...any) {
	if r.Fail == nil {
		r.Fail = &zmc.Failure{Kind: zmc.FailAssert, Msg: fmt.Sprintf(format, args...)}
	}
}

// Outcome of a case.
func (r *Real) Outcome(format string, args ...any) { r.outcomes[fmt.Sprintf(format, args...)]++ }

// Over is true when the enumeration should stop.
func (r *Real) Over() bool {
	if r.Fail != nil {
		return true
	}
	if !r.Deadline.IsZero() && time.Now().After(r.Deadline) {
		r.Capped = true
		return true
	}
	return false
}

// Stats of an exploration.
type Stats struct {
	Variant     string       `json:"variant"`
	Race        bool         `json:"race,omitempty"`
	Bound       int          `json:"bound"`       // completed preemption bound, -1 none
	WantBound   int          `json:"want_bound"`  // requested
	Executions  int          `json:"executions"`  // complete executions of the real code
	States      int          `json:"states"`      // distinct states (happens-before classes) at decision points and ends
	Transitions int          `json:"transitions"` // scheduler steps plus data decisions
	Outcomes    int          `json:"outcomes"`    // distinct outcomes
	Threads     int          `json:"threads"`
	MaxPoints   int          `json:"max_points"`
	Diverged    int          `json:"diverged,omitempty"`
	Capped      bool         `json:"capped,omitempty"`
	WallS       float64      `json:"wall_s"`
	Samples     []string     `json:"samples,omitempty"`
	Fail        *zmc.Failure `json:"fail,omitempty"`
	FailPrefix  []uint8      `json:"fail_prefix,omitempty"`
	FailTrace   []string     `json:"fail_trace,omitempty"`
	outcomeSet  map[uint64]struct{}
}

const maxStates = 6_000_000

func resetGlobals() {
	trc.SetTraceMaxEvents(1000)
	trc.SetTraceStacks(true)
	eztrc.Collector().SetCategorySize(4) // it lives as long as the process
}

func runOnce(v *Variant, prefix []uint8) (*zmc.Result, *X) {
	cfg := v.Cfg
	cfg.Prefix = prefix
	if v.Seq && cfg.Fixed == 0 {
		cfg.Fixed = 1 // should the code start goroutines of its own
	}
	x := &X{}
	res := zmc.Run(cfg, func() {
		resetGlobals()
		v.Body(x)
	})
	return res, x
}

func h64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// explore all executions of v up to its preemption bound.
func explore(v *Variant, deadline time.Time) *Stats {
	st := &Stats{Variant: v.Name, Race: v.Race, Bound: -1, WantBound: v.Bound, outcomeSet: map[uint64]struct{}{}}
	begin := time.Now()
	defer func() {
		st.WallS = time.Since(begin).Seconds()
		st.Outcomes = len(st.outcomeSet)
	}()

	if v.Real != nil {
		r := &Real{outcomes: map[string]int{}, Deadline: deadline}
		func() {
			defer func() {
				if p := recover(); p != nil {
					r.Failf("panic: %v", p)
				}
			}()
			v.Real(r)
		}()
		st.Bound = 0
		st.Executions = r.Cases
		st.Transitions = max(r.Steps, r.Cases)
		st.Capped = r.Capped
		st.Fail = r.Fail
		for o := range r.outcomes {
			st.outcomeSet[h64(o)] = struct{}{}
			if len(st.Samples) < 3 {
				st.Samples = append(st.Samples, o)
			}
		}
		st.States = len(st.outcomeSet)
		sort.Strings(st.Samples)
		return st
	}

	states := map[uint64]struct{}{}
	for bound := 0; bound <= v.Bound; bound++ {
		if bound > 0 && st.Threads <= 1 {
			st.Bound = v.Bound // bounds make no difference
			break
		}
		seen := map[uint64]uint8{}
		stack := [][]uint8{nil}
		var arena []uint8
		for len(stack) > 0 {
			if !deadline.IsZero() && st.Executions&15 == 0 && time.Now().After(deadline) {
				st.Capped = true
				st.States = len(states)
				return st
			}
			prefix := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			res, x := runOnce(v, prefix)
			st.Executions++
			st.Transitions += res.Steps
			if res.Threads > st.Threads {
				st.Threads = res.Threads
			}
			if len(res.Points) > st.MaxPoints {
				st.MaxPoints = len(res.Points)
			}
			if res.Diverged {
				st.Diverged++
			}
			if res.Fail != nil {
				st.Fail = res.Fail
				st.FailPrefix = choicesOf(res.Points)
				st.States = len(states)
				return st
			}
			for _, o := range x.outcomes {
				k := h64(o)
				if _, ok := st.outcomeSet[k]; !ok {
					if len(st.outcomeSet) < 100000 {
						st.outcomeSet[k] = struct{}{}
					}
					if len(st.Samples) < 3 {
						st.Samples = append(st.Samples, fmt.Sprintf("choices %v -> %s", choicesOf(res.Points), clip(o, 300)))
					}
				}
			}
			arena = arena[:0]
			for _, p := range res.Points {
				arena = append(arena, p.Chosen)
			}
			for i := len(prefix); i < len(res.Points); i++ {
				p := &res.Points[i]
				st.Transitions++
				key := p.FP*31 + uint64(p.Cur) + 7
				if !v.Seq {
					budget := uint8(bound) - p.Preempts + 1
					if seen[key] >= budget {
						break
					}
					if len(seen) < maxStates {
						seen[key] = budget
					}
				}
				if len(states) < maxStates {
					states[key] = struct{}{}
				}
				if p.CurEnabled && !p.Data && int(p.Preempts) >= bound {
					continue
				}
				for alt := int(p.N) - 1; alt >= 1; alt-- {
					np := make([]uint8, i+1)
					copy(np, arena[:i])
					np[i] = uint8(alt)
					stack = append(stack, np)
				}
			}
		}
		st.Bound = bound
	}
	st.States = len(states) + 1
	return st
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func choicesOf(ps []zmc.PointRec) []uint8 {
	out := make([]uint8, len(ps))
	for i, p := range ps {
		out[i] = p.Chosen
	}
	for len(out) > 0 && out[len(out)-1] == 0 {
		out = out[:len(out)-1]
	}
	return out
}

func join(ss []string) string { return strings.Join(ss, " ") }
