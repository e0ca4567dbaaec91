package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/peterbourgon/trc/zmc"
)

// Check of a property.
type Check struct {
	ID       string
	Variants func(tier string) []*Variant
	Notes    []string // assumptions
}

var checks = map[string]*Check{}

func register(id string, f func(tier string) []*Variant, notes ...string) {
	checks[id] = &Check{ID: id, Variants: f, Notes: notes}
}

func (c *Check) find(tier, name string) *Variant {
	for _, v := range c.Variants(tier) {
		if v.Name == name {
			return v
		}
	}
	return nil
}

type job struct {
	Prop    string  `json:"prop"`
	Tier    string  `json:"tier"`
	Variant string  `json:"variant"`
	Seconds float64 `json:"seconds"`
	Replay  bool    `json:"replay"`
	Prefix  []int   `json:"prefix"`
	Tracing bool    `json:"tracing"`
}

func main() {
	debug.SetMaxStack(256 << 20)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness run PROP | worker | replay FILE | list PROP")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker()
	case "run":
		os.Exit(runCheck(os.Args[2]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "list":
		for _, v := range checks[os.Args[2]].Variants(tier()) {
			fmt.Println(v.Name, v.Race, v.Bound)
		}
	case "dbg": // dbg PROP VARIANT
		dbg()
	case "bench": // bench PROP VARIANT-SUBSTRING SECONDS
		sec, _ := strconv.ParseFloat(os.Args[4], 64)
		for _, v := range checks[os.Args[2]].Variants(tier()) {
			if strings.Contains(v.Name, os.Args[3]) && v.Race == zmc.RaceEnabled {
				st := explore(v, time.Now().Add(time.Duration(sec*float64(time.Second))))
				b, _ := json.Marshal(st)
				fmt.Println(string(b))
				if st.Fail != nil {
					fmt.Println(st.Fail.Msg)
				}
			}
		}
	}
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func worker() {
	out := json.NewEncoder(os.Stdout)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		var j job
		if err := json.Unmarshal(sc.Bytes(), &j); err != nil {
			panic(err)
		}
		v := checks[j.Prop].find(j.Tier, j.Variant)
		var st *Stats
		if j.Replay && v.Real == nil {
			prefix := make([]uint8, len(j.Prefix))
			for i := range prefix {
				prefix[i] = uint8(j.Prefix[i])
			}
			zmc.SetTracing(j.Tracing)
			res, _ := runOnce(v, prefix)
			st = &Stats{Variant: v.Name, Fail: res.Fail, FailTrace: res.Trace, FailPrefix: choicesOf(res.Points)}
			if res.Diverged {
				st.Diverged = 1
			}
		} else {
			st = explore(v, time.Now().Add(time.Duration(j.Seconds*float64(time.Second))))
		}
		out.Encode(st)
		if st.Fail != nil {
			os.Exit(0) // the process state is not trusted any more
		}
	}
}

type proc struct {
	cmd    *exec.Cmd
	in     *json.Encoder
	out    *bufio.Reader
	stderr *bytes.Buffer
	race   bool
	log    string
}

func startWorker(race bool) (*proc, error) {
	self, _ := os.Executable()
	bin := filepath.Join(filepath.Dir(self), "harness")
	if race {
		bin = filepath.Join(filepath.Dir(self), "harness-race")
	}
	cmd := exec.Command(bin, "worker")
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=halt_on_error=0 exitcode=0 history_size=4", "GOTRACEBACK=all")
	p := &proc{cmd: cmd, race: race, stderr: &bytes.Buffer{}}
	cmd.Stderr = p.stderr
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.in = json.NewEncoder(in)
	p.out = bufio.NewReaderSize(out, 1<<20)
	return p, cmd.Start()
}

func (p *proc) do(j job) (*Stats, error) {
	if err := p.in.Encode(j); err != nil {
		return nil, err
	}
	line, err := p.out.ReadBytes('\n')
	if err != nil {
		p.cmd.Wait()
		return nil, fmt.Errorf("worker died: %v: %s", err, clipTail(p.stderr.String(), 6000))
	}
	var st Stats
	if err := json.Unmarshal(line, &st); err != nil {
		return nil, err
	}
	return &st, nil
}

func clipTail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n[...]"
	}
	return s
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

type outcome struct {
	v    *Variant
	st   *Stats
	err  error
	race string // race report
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func runCheck(id string) int {
	c := checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	begin := time.Now()
	t := tier()
	variants := c.Variants(t)
	names := map[string]bool{}
	for _, v := range variants {
		if names[v.Name] {
			fmt.Fprintln(os.Stderr, "duplicate variant", v.Name)
			return 2
		}
		names[v.Name] = true
	}
	budget := 240.0
	if t == "thorough" {
		budget = 3600
	}
	if s, err := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64); err == nil {
		budget = s
	}
	deadline := begin.Add(time.Duration(budget * float64(time.Second)))
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}

	queue := make(chan *Variant, len(variants))
	for _, v := range variants {
		queue <- v
	}
	close(queue)
	results := make(chan outcome)
	stop := make(chan struct{})
	var mtx sync.Mutex
	live := map[*proc]bool{}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			procs := map[bool]*proc{}
			defer func() {
				for _, p := range procs {
					p.kill()
				}
			}()
			for v := range queue {
				select {
				case <-stop:
					return
				default:
				}
				left := time.Until(deadline).Seconds()
				if left < 0.2 {
					left = 0.2
				}
				p := procs[v.Race]
				if p == nil {
					var err error
					if p, err = startWorker(v.Race); err != nil {
						results <- outcome{v: v, err: err}
						continue
					}
					procs[v.Race] = p
					mtx.Lock()
					live[p] = true
					mtx.Unlock()
				}
				st, err := p.do(job{Prop: id, Tier: t, Variant: v.Name, Seconds: left})
				o := outcome{v: v, st: st, err: err}
				if err != nil || st.Fail != nil {
					p.cmd.Wait()
					o.race = clipTail(p.stderr.String(), 8000)
					delete(procs, v.Race)
				}
				select {
				case results <- o:
				case <-stop:
					return
				}
			}
		}()
	}
	go func() { wg.Wait(); close(results) }()

	var all []*Stats
	violations := 0
	unconfirmed := 0
	code := 0
	for o := range results {
		o := o
		if o.err == nil && o.st.Fail == nil {
			all = append(all, o.st)
			continue
		}
		if unconfirmed > 0 && time.Now().After(deadline.Add(60*time.Second)) {
			unconfirmed++
			continue // no time left
		}
		path, confirmed := confirm(id, t, &o)
		if !confirmed { // the other variants decide
			unconfirmed++
			fmt.Printf("UNCONFIRMED property=%s %s (not reported: it did not happen again)\n", id, path)
			continue
		}
		violations = 1
		code = 1
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		break
	}
	close(stop)
	if code != 0 {
		mtx.Lock()
		for p := range live {
			p.cmd.Process.Kill()
		}
		mtx.Unlock()
	}
	if err := writeEvidence(c, t, all, violations, unconfirmed, time.Since(begin).Seconds()); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return code
}

// confirm runs the failing execution again in fresh processes.
func confirm(id, t string, o *outcome) (string, bool) {
	v := o.v
	rec := map[string]any{"property": id, "tier": t, "variant": v.Name, "race": v.Race}
	msg := ""
	confirmed := 0
	attempts := 0
	if o.st != nil && o.st.Fail != nil && v.Real == nil {
		prefix := make([]int, len(o.st.FailPrefix))
		for i := range prefix {
			prefix[i] = int(o.st.FailPrefix[i])
		}
		rec["choices"] = prefix
		msg = string(o.st.Fail.Kind) + ": " + o.st.Fail.Msg
		for ; attempts < 5; attempts++ {
			p, err := startWorker(v.Race)
			if err != nil {
				continue
			}
			st, err := p.do(job{Prop: id, Tier: t, Variant: v.Name, Replay: true, Prefix: prefix, Tracing: attempts == 0 && o.st.Fail.Kind != zmc.FailRace})
			p.kill()
			if err != nil {
				confirmed++
				rec["crash"] = err.Error()
				continue
			}
			if st.Fail != nil {
				confirmed++
				if len(st.FailTrace) > 0 && len(st.FailTrace) < 2000 {
					rec["trace"] = st.FailTrace
				}
				if v.Race && rec["race_report"] == nil {
					rec["race_report"] = clipTail(p.stderr.String(), 8000)
				}
			}
			if confirmed > 0 && attempts >= 1 && o.st.Fail.Kind == zmc.FailHang {
				break
			}
		}
	} else if o.err != nil {
		msg = "crash: " + o.err.Error()
	} else {
		msg = string(o.st.Fail.Kind) + ": " + o.st.Fail.Msg
	}
	// State that accumulates over executions of one process may matter: run
	// the whole variant again.
	if confirmed == 0 {
		for i := 0; i < 3; i++ {
			attempts++
			p, err := startWorker(v.Race)
			if err != nil {
				continue
			}
			st, err := p.do(job{Prop: id, Tier: t, Variant: v.Name, Seconds: 120})
			p.kill()
			if err != nil || st.Fail != nil {
				confirmed++
				rec["whole_variant"] = true
				if i > 0 || confirmed == 2 {
					break
				}
			}
		}
	}
	rec["message"] = msg
	if o.race != "" && rec["race_report"] == nil {
		rec["stderr"] = o.race
	}
	rec["confirmed"] = fmt.Sprintf("%d of %d re-runs", confirmed, attempts)
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, id+".json")
	b, _ := json.MarshalIndent(rec, "", " ")
	os.WriteFile(path, b, 0o644)
	fmt.Printf("%s\n", clipTail(msg, 3000))
	return path, confirmed > 0
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rec struct {
		Property, Tier, Variant string
		Race                    bool
		Choices                 []int
		WholeVariant            bool `json:"whole_variant"`
	}
	if err := json.Unmarshal(b, &rec); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p, err := startWorker(rec.Race)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	st, err := p.do(job{Prop: rec.Property, Tier: rec.Tier, Variant: rec.Variant, Replay: !rec.WholeVariant, Prefix: rec.Choices, Tracing: true, Seconds: 600})
	p.kill()
	if err != nil {
		fmt.Println(err)
		return 1
	}
	for _, l := range st.FailTrace {
		fmt.Println("  ", l)
	}
	if st.Fail != nil {
		fmt.Printf("%s: %s\n%s", st.Fail.Kind, st.Fail.Msg, p.stderr.String())
		return 1
	}
	fmt.Println("no failure")
	return 0
}

func writeEvidence(c *Check, t string, all []*Stats, violations, unconfirmed int, wall float64) error {
	sort.Slice(all, func(i, j int) bool { return all[i].Variant < all[j].Variant })
	var states, trans, execs, outcomes, diverged, threads, raceExecs int
	exhaustive := violations+unconfirmed == 0
	var samples []any
	table := []map[string]any{}
	bounds := map[string]int{}
	for i, st := range all {
		states += st.States
		trans += st.Transitions
		execs += st.Executions
		outcomes += st.Outcomes
		diverged += st.Diverged
		if st.Race {
			raceExecs += st.Executions
		}
		if st.Threads > threads {
			threads = st.Threads
		}
		if st.Capped || st.Bound < st.WantBound {
			exhaustive = false
		}
		if st.Threads > 1 {
			bounds[strconv.Itoa(st.Bound)]++
		}
		if len(samples) < 12 && (len(all) <= 12 || i%(len(all)/12+1) == 0) {
			for _, s := range st.Samples[:min(1, len(st.Samples))] {
				samples = append(samples, map[string]any{"variant": st.Variant, "case": s})
			}
		}
		if len(table) < 60 {
			table = append(table, map[string]any{"variant": st.Variant, "race": st.Race, "executions": st.Executions, "states": st.States, "transitions": st.Transitions, "distinct_outcomes": st.Outcomes, "completed_preemption_bound": st.Bound, "capped": st.Capped, "wall_s": float64(int(st.WallS*100)) / 100})
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no complete variant in this run")
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": c.ID,
		"tier":     t,
		"seed":     seed,
		"level":    "model_checking",
		"coverage": map[string]any{
			"states":                                 states,
			"transitions":                            trans,
			"traces_validated_against_impl":          execs,
			"samples":                                samples,
			"exhaustive":                             exhaustive,
			"distinct_outcomes":                      outcomes,
			"race_checked_executions":                raceExecs,
			"variants":                               len(all),
			"max_threads":                            threads,
			"variants_by_completed_preemption_bound": bounds,
			"replay_divergences":                     diverged,
			"per_variant":                            table,
			"how":                                    "every execution runs the real code, instrumented from the current tree; states are distinct causal histories at decision points, transitions are scheduler steps and data decisions",
		},
		"assumptions": c.Notes,
		"wall_s":      wall,
		"violations":  violations,
	}
	if c.Notes == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	status := "held on everything explored"
	if violations > 0 {
		status = "VIOLATED"
	}
	fmt.Printf("%s %s: %s: variants=%d executions=%d states=%d transitions=%d outcomes=%d exhaustive=%v diverged=%d wall=%.1fs\n", c.ID, t, status, len(all), execs, states, trans, outcomes, exhaustive, diverged, wall)
	return os.WriteFile(filepath.Join(dir, c.ID+".json"), b, 0o644)
}
