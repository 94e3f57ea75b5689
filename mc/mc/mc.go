// Package mc is a small stateless model checker: it executes a body again and again, and every value the body asks for
// through a choice point (an operation, an argument, an environment answer, a scheduling decision) is enumerated
// exhaustively, depth first, within the bounds the body states.
package mc

import (
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const (
	maxViolations = 10
	maxStates     = 4_000_000
	// a single execution of a body takes micro to milliseconds, this is how long it may take before it counts as hung
	hangAfter = 120 * time.Second
	// an execution that makes the heap grow beyond this has run away
	maxHeap = 12 << 30
)

type known struct{ key, what string }

// Run is one run of one check
type Run struct {
	ID, Level string
	Thorough  bool
	Seed      int
	verifDir  string
	start     time.Time
	deadline  time.Time
	known     []known

	mu         sync.Mutex
	spaces     []*space
	violations []string
	dups       int
	findings   map[string]bool
	samples    []string
	notes      map[string]any
	replay     *replaySpec
	workers    []*worker
	stop       atomic.Bool
}

type replaySpec struct {
	Property string   `json:"property"`
	Space    string   `json:"space"`
	Choices  []int    `json:"choices"`
	Key      string   `json:"key"`
	What     string   `json:"what"`
	Trace    []string `json:"trace"`
	HowTo    string   `json:"how_to_replay"`
}

type space struct {
	name       string
	bound      string
	execs      int64
	points     int64
	ops        int64
	exhaustive bool
	deviations int
	wall       time.Duration
	mu         sync.Mutex
	states     map[uint64]struct{}
	outcomes   map[uint64]struct{}
	statesFull bool
}

type worker struct {
	cur   atomic.Pointer[C]
	began atomic.Int64
}

var hseed = maphash.MakeSeed()

// Main runs a check and exits
func Main(id, level string, assumptions []string, body func(*Run)) {
	r := &Run{ID: id, Level: level, start: time.Now(), findings: map[string]bool{}, notes: map[string]any{}}
	r.Thorough = os.Getenv("VERIF_TIER") == "thorough"
	r.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	r.verifDir = os.Getenv("VERIF_DIR")
	if r.verifDir == "" {
		r.verifDir = "/verif"
	}
	budget := 400 * time.Second
	if r.Thorough {
		budget = 3 * time.Hour
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	r.deadline = r.start.Add(budget)
	for i, a := range os.Args {
		if a == "-replay" && i+1 < len(os.Args) {
			b, err := os.ReadFile(os.Args[i+1])
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			r.replay = &replaySpec{}
			if err := json.Unmarshal(b, r.replay); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
		}
	}
	r.loadKnown()
	debug.SetGCPercent(200)
	go r.watchdog()
	body(r)
	r.finish(assumptions)
}

func (r *Run) loadKnown() {
	b, err := os.ReadFile(filepath.Join(r.verifDir, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> key=<key> :: <what>
		pre := "finding: property=" + r.ID + " key="
		if strings.HasPrefix(l, pre) {
			k, w, _ := strings.Cut(l[len(pre):], " :: ")
			r.known = append(r.known, known{strings.TrimSpace(k), w})
		}
	}
}

func (r *Run) watchdog() {
	var ms runtime.MemStats
	for {
		time.Sleep(2 * time.Second)
		r.mu.Lock()
		ws := append([]*worker{}, r.workers...)
		r.mu.Unlock()
		now := time.Now().UnixNano()
		for _, w := range ws {
			c, b := w.cur.Load(), w.began.Load()
			if c != nil && b != 0 && time.Duration(now-b) > hangAfter {
				r.abort(c, "hang", fmt.Sprintf("an execution did not finish within %v", hangAfter))
			}
		}
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > maxHeap {
			var oldest *C
			var ob int64
			for _, w := range ws {
				c, b := w.cur.Load(), w.began.Load()
				if c != nil && b != 0 && (oldest == nil || b < ob) {
					oldest, ob = c, b
				}
			}
			if oldest != nil && time.Duration(now-ob) > 500*time.Millisecond {
				r.abort(oldest, "runaway", "an execution made the heap grow without bound")
			}
		}
	}
}

func (r *Run) abort(c *C, key, what string) {
	// racy read of the trace of a stuck execution, on purpose
	r.report(c, c.sp.name+"/"+key, what)
	r.finish(nil)
}

// Budget picks a bound by tier
func (r *Run) Budget(quick, thorough int) int {
	if r.Thorough {
		return thorough
	}
	return quick
}

// Note puts a measured value in the evidence
func (r *Run) Note(k string, v any) { r.mu.Lock(); r.notes[k] = v; r.mu.Unlock() }

func (r *Run) report(c *C, key, what string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range r.known {
		if k.key == key {
			if !r.findings[key] {
				r.findings[key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s :: %s\n", r.ID, key, k.what)
			}
			return
		}
	}
	same := 0
	for _, k := range r.violations {
		if k == key {
			same++
		}
	}
	if same >= 3 {
		// enough examples of this one
		if r.dups++; r.dups > 10_000 {
			r.stop.Store(true)
		}
		return
	}
	if len(r.violations) >= maxViolations {
		r.stop.Store(true)
		return
	}
	dir := filepath.Join(r.verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.ID, len(r.violations)+1))
	spec := replaySpec{Property: r.ID, Key: key, What: what, HowTo: "cd " + r.verifDir + " && ./run.sh " + r.ID + " -replay " + p}
	if c != nil {
		spec.Space, spec.Choices, spec.Trace = c.sp.name, append([]int{}, c.choices...), append([]string{}, c.trace...)
	}
	b, _ := json.MarshalIndent(spec, "", " ")
	os.WriteFile(p, b, 0o644)
	r.violations = append(r.violations, key)
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s: %s\n", r.ID, p, key, what)
	if c != nil {
		for _, t := range c.trace {
			fmt.Printf("    | %s\n", t)
		}
	}
}

func (r *Run) finish(assumptions []string) {
	r.mu.Lock()
	cov := map[string]any{}
	var execs, points, ops, states, outs int64
	exh := true
	var table []map[string]any
	for _, s := range r.spaces {
		execs += s.execs
		points += s.points
		ops += s.ops
		st := int64(len(s.states))
		states += st
		outs += int64(len(s.outcomes))
		exh = exh && s.exhaustive
		m := map[string]any{"space": s.name, "bound": s.bound, "executions": s.execs, "choice_points": s.points,
			"operations": s.ops, "distinct_states": st, "distinct_outcomes": len(s.outcomes), "exhaustive": s.exhaustive, "wall_s": round(s.wall)}
		if s.statesFull {
			m["distinct_states_capped"] = true
		}
		table = append(table, m)
	}
	exh = exh && len(r.violations) == 0
	cov["exhaustive"] = exh
	cov["spaces"] = table
	if len(r.samples) == 0 {
		r.samples = append(r.samples, "(none)")
	}
	cov["samples"] = r.samples
	switch r.Level {
	case "model_checking":
		cov["states"] = states
		cov["transitions"] = ops
		cov["traces_validated_against_impl"] = execs
		cov["distinct_outcomes"] = outs
	default:
		cov["evaluations"] = execs
		cov["distinct_nontrivial"] = outs
		cov["operations"] = ops
		cov["distinct_states"] = states
		cov["rule"] = "every combination of the choice points of each space is executed once on the real code; an execution is non-trivial and distinct when its observed outcome (recorded result of the operations) differs from all the others of its space"
	}
	for k, v := range r.notes {
		cov[k] = v
	}
	ev := map[string]any{"property": r.ID, "tier": map[bool]string{true: "thorough", false: "quick"}[r.Thorough], "seed": r.Seed,
		"level": r.Level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.Since(r.start)), "violations": len(r.violations)}
	if assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(r.verifDir, "evidence"), 0o755)
	if r.replay == nil {
		if err := os.WriteFile(filepath.Join(r.verifDir, "evidence", r.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	sort.Strings(r.violations)
	fmt.Printf("%s: executions=%d operations=%d states=%d outcomes=%d exhaustive=%v wall=%.1fs violations=%d\n", r.ID, execs, ops, states, outs, exh,
		time.Since(r.start).Seconds(), len(r.violations))
	for _, f := range atExit {
		f()
	}
	if len(r.violations) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

var atExit []func()

// AtExit has f called when the check is done
func AtExit(f func()) { atExit = append(atExit, f) }

func round(d time.Duration) float64 { return float64(d.Milliseconds()) / 1000 }

// C is the choice context of one execution
type C struct {
	r       *Run
	sp      *space
	prefix  []int
	choices []int
	arity   []int
	devs    []int // deviations spent before each point
	isDev   []bool
	dev     int
	bound   int // deviation bound, -1 = none
	trace   []string
	ops     int64
	pruned  bool
	quiet   bool
	outcome maphash.Hash
	hasOut  bool
	states  []uint64
	failed  bool
}

type prune struct{}

// Choose enumerates 0..n-1
func (c *C) Choose(n int) int { return c.choose(n, false) }

// Deviate enumerates 0..n-1, where any answer but 0 is a deviation from the default, and counts against the bound
func (c *C) Deviate(n int) int { return c.choose(n, true) }

func (c *C) choose(n int, dev bool) int {
	if n <= 0 {
		panic("mc: choice of nothing")
	}
	i := len(c.choices)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(fmt.Sprintf("mc: replay diverged: choice %d of %d at point %d", v, n, i))
		}
	}
	c.choices = append(c.choices, v)
	c.arity = append(c.arity, n)
	c.devs = append(c.devs, c.dev)
	c.isDev = append(c.isDev, dev)
	if dev && v != 0 {
		c.dev++
	}
	return v
}

// Bool is Choose(2) == 1
func (c *C) Bool() bool { return c.Choose(2) == 1 }

// Pick enumerates the elements of a slice
func Pick[T any](c *C, from []T) T { return from[c.Choose(len(from))] }

// Prune drops this execution (an equivalent one is enumerated elsewhere)
func (c *C) Prune() { c.pruned = true; panic(prune{}) }

// Op counts an operation executed on the real code, and remembers what it was
func (c *C) Op(format string, args ...any) {
	c.ops++
	if len(c.trace) < 400 {
		if len(args) == 0 {
			c.trace = append(c.trace, format)
		} else {
			c.trace = append(c.trace, fmt.Sprintf(format, args...))
		}
	}
}

// Ops counts n operations without describing them
func (c *C) Ops(n int) { c.ops += int64(n) }

// State records a (canonical) model state as visited
func (c *C) State(key string) { c.states = append(c.states, maphash.String(hseed, key)) }

// Outcome folds an observation into the outcome of this execution
func (c *C) Outcome(s string) {
	if !c.hasOut {
		c.outcome.SetSeed(hseed)
		c.hasOut = true
	}
	c.outcome.WriteString(s)
	c.outcome.WriteByte(0)
}

type failure struct{ key, what string }

// Fail reports a violation and ends the execution
func (c *C) Fail(key, format string, args ...any) {
	panic(failure{key, fmt.Sprintf(format, args...)})
}

// Check fails when cond is false
func (c *C) Check(cond bool, key, format string, args ...any) {
	if !cond {
		c.Fail(key, format, args...)
	}
}

// Try calls f and returns what it panicked with, passing on the panics of the explorer itself
func Try(f func()) (pv any) {
	defer func() {
		if p := recover(); p != nil {
			switch p.(type) {
			case failure, prune:
				panic(p)
			}
			if s, ok := p.(string); ok && strings.HasPrefix(s, "mc: ") {
				panic(p)
			}
			pv = p
		}
	}()
	f()
	return nil
}

func (c *C) exec(body func(*C)) {
	defer func() {
		if p := recover(); p != nil {
			switch x := p.(type) {
			case prune:
			case failure:
				c.failed = true
				c.r.report(c, c.sp.name+"/"+x.key, x.what)
			default:
				if s, ok := p.(string); ok && strings.HasPrefix(s, "mc: ") {
					fmt.Fprintln(os.Stderr, s)
					os.Exit(2)
				}
				c.failed = true
				st := strings.Split(string(debug.Stack()), "\n")
				var where []string
				for _, l := range st {
					if strings.Contains(l, ".go:") && !strings.Contains(l, "/mc/mc/") && !strings.Contains(l, "runtime/") {
						where = append(where, strings.TrimSpace(l))
					}
				}
				if len(where) > 8 {
					where = where[:8]
				}
				c.r.report(c, c.sp.name+"/panic", fmt.Sprintf("unexpected panic: %v at %s", p, strings.Join(where, " < ")))
			}
		}
	}()
	body(c)
}

// Explore enumerates every execution of body. dev is the deviation bound (-1: no bound)
func (r *Run) Explore(name, bound string, dev int, body func(*C)) {
	if r.stop.Load() {
		return
	}
	sp := &space{name: name, bound: bound, exhaustive: true, deviations: dev, states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}}
	if r.replay != nil {
		if r.replay.Space != name {
			return
		}
		r.mu.Lock()
		r.spaces = append(r.spaces, sp)
		r.mu.Unlock()
		for i := 0; i < 5; i++ {
			c := &C{r: r, sp: sp, prefix: r.replay.Choices, bound: -1}
			c.exec(body)
		}
		return
	}
	t0 := time.Now()
	r.mu.Lock()
	r.spaces = append(r.spaces, sp)
	r.mu.Unlock()

	nw := runtime.GOMAXPROCS(0)
	if nw > 8 {
		nw = 8
	}
	q := &queue{items: [][]int{{}}}
	q.cond = sync.NewCond(&q.mu)
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		w := &worker{}
		r.mu.Lock()
		r.workers = append(r.workers, w)
		r.mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.work(w, sp, dev, q, nw, body)
			w.cur.Store(nil)
		}()
	}
	wg.Wait()
	sp.wall = time.Since(t0)
	if sp.execs == 0 {
		fmt.Fprintf(os.Stderr, "mc: space %s is empty\n", name)
		os.Exit(2)
	}
}

type queue struct {
	mu     sync.Mutex
	cond   *sync.Cond
	items  [][]int
	idle   int
	hungry atomic.Int32
	done   bool
}

func (q *queue) pop(nw int) ([]int, bool) {
	q.mu.Lock()
	defer q.mu.Unlock()
	q.idle++
	for len(q.items) == 0 && !q.done {
		if q.idle == nw {
			q.done = true
			q.cond.Broadcast()
			return nil, false
		}
		q.hungry.Add(1)
		q.cond.Wait()
		q.hungry.Add(-1)
	}
	if q.done {
		return nil, false
	}
	q.idle--
	n := len(q.items) - 1
	it := q.items[n]
	q.items = q.items[:n]
	return it, true
}

func (q *queue) push(it []int) {
	q.mu.Lock()
	q.items = append(q.items, it)
	q.cond.Signal()
	q.mu.Unlock()
}

func (r *Run) work(w *worker, sp *space, dev int, q *queue, nw int, body func(*C)) {
	var (
		execs, points, ops int64
		states             = map[uint64]struct{}{}
		outcomes           = map[uint64]struct{}{}
		c                  = &C{r: r, sp: sp, bound: dev}
	)
	flush := func() {
		sp.mu.Lock()
		sp.execs += execs
		sp.points += points
		sp.ops += ops
		for k := range states {
			if len(sp.states) >= maxStates {
				sp.statesFull = true
				break
			}
			sp.states[k] = struct{}{}
		}
		for k := range outcomes {
			if len(sp.outcomes) >= maxStates {
				break
			}
			sp.outcomes[k] = struct{}{}
		}
		sp.mu.Unlock()
		execs, points, ops = 0, 0, 0
		clear(states)
		clear(outcomes)
	}
	defer flush()
	for {
		prefix, ok := q.pop(nw)
		if !ok {
			return
		}
		base := len(prefix)
		cur := append([]int{}, prefix...)
		n := 0
		for {
			if r.stop.Load() || (n&63 == 0 && time.Now().After(r.deadline)) {
				sp.mu.Lock()
				sp.exhaustive = false
				sp.mu.Unlock()
				break
			}
			*c = C{r: r, sp: sp, bound: dev, prefix: cur, choices: c.choices[:0], arity: c.arity[:0], devs: c.devs[:0], isDev: c.isDev[:0],
				trace: c.trace[:0], states: c.states[:0]}
			w.began.Store(time.Now().UnixNano())
			w.cur.Store(c)
			c.exec(body)
			w.began.Store(0)
			if len(c.choices) < len(cur) && !c.failed && !c.pruned {
				fmt.Fprintf(os.Stderr, "mc: replay diverged in %s: an execution ended before its prefix (%v of %v): %v\n", sp.name, c.choices, cur, c.trace)
				os.Exit(2)
			}
			n++
			if !c.pruned {
				execs++
				points += int64(len(c.choices))
				ops += c.ops
				for _, s := range c.states {
					states[s] = struct{}{}
				}
				if c.hasOut {
					outcomes[c.outcome.Sum64()] = struct{}{}
				}
				if len(states)+len(outcomes) > 100_000 {
					flush()
				}
				if sp.execs+execs == 1 || (execs&(execs-1) == 0 && execs >= 1024) {
					r.sample(sp, c)
				}
			}
			// next alternative, depth first
			i := len(c.choices) - 1
			for ; i >= base; i-- {
				if c.choices[i]+1 < c.arity[i] {
					if dev >= 0 && c.isDev[i] && c.devs[i]+1 > dev {
						continue
					}
					break
				}
			}
			if i < base {
				break
			}
			next := append(cur[:0:0], c.choices[:i+1]...)
			next[i]++
			cur = next
			// give work away
			if q.hungry.Load() > 0 {
				for j := base; j < len(cur); j++ {
					if j >= len(c.arity) {
						break
					}
					if dev >= 0 && c.isDev[j] && c.devs[j]+1 > dev {
						continue
					}
					if cur[j]+1 < c.arity[j] {
						for alt := cur[j] + 1; alt < c.arity[j]; alt++ {
							q.push(append(append([]int{}, cur[:j]...), alt))
						}
						base = j + 1
						break
					}
				}
			}
		}
	}
}

func (r *Run) sample(sp *space, c *C) {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, s := range r.samples {
		if strings.HasPrefix(s, sp.name+": ") {
			n++
		}
	}
	if n >= 2 || len(r.samples) > 60 {
		return
	}
	t := strings.Join(c.trace, "; ")
	if len(t) > 400 {
		t = t[:400] + "..."
	}
	r.samples = append(r.samples, sp.name+": "+t)
}
