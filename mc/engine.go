package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strings"
	"time"
)

// ---------------------------------------------------------------------------
// Stateless explorer: one execution = one sequence of choices.

type point struct {
	n, c  int
	dev   bool
	label string
}

type skipUnit struct{}

type Failure struct {
	Key string `json:"key"`
	Msg string `json:"msg"`
}

// X is one execution of a scenario.
type X struct {
	prefix  []int
	pts     []point
	devUsed int
	devMax  int

	// sharding
	scIdx, unitDepth int
	worker, workers  int
	unitChecked      bool

	h        uint64
	sink     *stats
	trans    int
	tracing  bool
	trace    []string
	fails    []Failure
	diverged bool
	vacuous  bool
	dict     *dictState
	pert     *pertState
	burst    *burstState
}

type stats struct {
	states map[uint64]struct{}
	capped bool
}

const stateCap = 3000000

func fnvAdd(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	h ^= 0xff
	h *= 1099511628211
	return h
}

func (x *X) unitMine() bool {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|", x.scIdx)
	for i := 0; i < len(x.pts); i++ {
		fmt.Fprintf(h, "%d,", x.pts[i].c)
	}
	v := h.Sum64()
	v ^= v >> 29
	v *= 0xbf58476d1ce4e5b9
	v ^= v >> 32
	return int(v%uint64(x.workers)) == x.worker
}

func (x *X) choose(label string, n int, dev bool) int {
	if n <= 0 {
		panic("choose: n<=0 at " + label)
	}
	if b := x.burst; b != nil && b.playing {
		c := 0
		if b.at < len(b.rec[b.cur]) && b.rec[b.cur][b.at] < n {
			c = b.rec[b.cur][b.at]
		}
		b.at++
		return c
	}
	if dev && x.devUsed >= x.devMax {
		n = 1
	}
	i := len(x.pts)
	c := 0
	if i < len(x.prefix) {
		c = x.prefix[i]
		if c >= n {
			// The real code took another path than it did when this prefix was first seen:
			// hidden state.  Clamp, note it, and let the oracle judge what happens.
			c = n - 1
			x.diverged = true
		}
	}
	if dev && c > 0 {
		x.devUsed++
	}
	x.pts = append(x.pts, point{n, c, dev, label})
	if x.unitDepth > 0 && len(x.pts) >= x.unitDepth || len(x.pts) >= 14 {
		x.checkUnit()
	}
	if n > 1 && x.tracing {
		x.trace = append(x.trace, fmt.Sprintf("choose %s = %d/%d", label, c, n))
	}
	return c
}

// checkUnit decides, once per execution, whether this worker explores it.
func (x *X) checkUnit() {
	if x.workers > 1 && !x.unitChecked {
		x.unitChecked = true
		if !x.unitMine() {
			panic(skipUnit{})
		}
	}
}

// commit marks the end of set-up choices: what follows is only executed by the worker in charge.
func (x *X) commit() {
	if x.unitDepth == 0 {
		x.checkUnit()
	}
}

// Choose picks one of n alternatives; all are explored.
func (x *X) Choose(label string, n int) int { return x.choose(label, n, false) }

// Dev picks one of n alternatives, 0 being the default; the others cost one deviation.
func (x *X) Dev(label string, n int) int { return x.choose(label, n, true) }

func Pick[T any](x *X, label string, opts []T) T {
	return opts[x.Choose(label, len(opts))]
}

// PickDev: like Pick, but any choice but the first costs a deviation.
func PickDev[T any](x *X, label string, opts []T) T {
	return opts[x.Dev(label, len(opts))]
}

// Step records a transition: the history so far, extended with s, is a state.
func (x *X) Step(s string) {
	x.commit()
	x.trans++
	x.h = fnvAdd(x.h, s)
	if len(x.sink.states) < stateCap {
		x.sink.states[x.h] = struct{}{}
	} else {
		x.sink.capped = true
	}
	if x.tracing {
		x.trace = append(x.trace, s)
	}
}

func (x *X) Stepf(f string, a ...interface{}) { x.Step(fmt.Sprintf(f, a...)) }

func (x *X) Logf(f string, a ...interface{}) {
	if x.tracing {
		x.trace = append(x.trace, fmt.Sprintf(f, a...))
	}
}

// Fail reports that the property is broken in this execution. key identifies what failed.
func (x *X) Fail(key, f string, a ...interface{}) {
	for _, p := range x.fails {
		if p.Key == key {
			return
		}
	}
	x.fails = append(x.fails, Failure{key, fmt.Sprintf(f, a...)})
}

type Scenario struct {
	Name   string
	Bound  int  // deviation bound
	Unit   int  // sharding depth; 0: the choices made before the first step
	Loop   bool // Run is a history of steps counted by more: explored as bursts too
	Simple bool // of one step each
	Run    func(x *X)
	// Custom scenarios explore themselves (explicit-state search); the engine shards by calling it
	// with worker/workers.
	Custom func(r *Runner, sc *Scenario)
	Replay func(path []int) ([]Failure, []string)
}

type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Scenarios   func(tier string) []*Scenario
	// Pre runs once in the parent before the workers (eg. subprocess checks); it may report failures.
	Extra func(tier string, r *Result)
}

type Violation struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Tier     string   `json:"tier"`
	Choices  []int    `json:"choices"`
	Failure  Failure  `json:"failure"`
	Trace    []string `json:"trace,omitempty"`
	Mode     string   `json:"mode"` // "replay" (choices alone reproduce it) or "worker" (needs the worker's history)
	Worker   int      `json:"worker"`
	Workers  int      `json:"workers"`
}

type Result struct {
	Executions  int64             `json:"executions"`
	Transitions int64             `json:"transitions"`
	States      int64             `json:"states"`
	Distinct    int64             `json:"distinct"`
	Validated   int64             `json:"validated"`
	Diverged    int64             `json:"diverged"`
	Capped      bool              `json:"capped"`
	Complete    bool              `json:"complete"`
	PerScenario map[string]int64  `json:"per_scenario"`
	Incomplete  []string          `json:"incomplete"`
	Violations  []Violation       `json:"violations"`
	Findings    map[string]string `json:"findings"`
	Samples     []string          `json:"samples"`
	Extra       map[string]int64  `json:"extra"`
	Panic       string            `json:"panic,omitempty"`
}

type Runner struct {
	check           *Check
	tier            string
	worker, workers int
	deadline        time.Time
	known           map[string]bool
	res             *Result
	st              *stats
	distinct        map[uint64]struct{}
	stop            bool
}

func newRunner(c *Check, tier string, worker, workers int, deadline time.Time, known map[string]bool) *Runner {
	return &Runner{check: c, tier: tier, worker: worker, workers: workers, deadline: deadline, known: known,
		res: &Result{PerScenario: map[string]int64{}, Findings: map[string]string{}, Extra: map[string]int64{}, Complete: true},
		st:  &stats{states: map[uint64]struct{}{}}, distinct: map[uint64]struct{}{}}
}

func (r *Runner) note(v Violation) {
	if r.known[v.Failure.Key] {
		r.res.Findings[v.Failure.Key] = v.Failure.Msg
		return
	}
	for _, o := range r.res.Violations {
		if o.Failure.Key == v.Failure.Key {
			return
		}
	}
	r.res.Violations = append(r.res.Violations, v)
	if len(r.res.Violations) >= 3 {
		r.stop = true
	}
}

func (r *Runner) outOfTime() bool { return time.Now().After(r.deadline) }

// one runs a single execution; returns false if the unit belongs to another worker.
func (r *Runner) one(sc *Scenario, x *X) (mine bool) {
	mine = true
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(skipUnit); ok {
					mine = false
					return
				}
				panic(e)
			}
		}()
		sc.Run(x)
	}()
	if mine && x.workers > 1 && !x.unitChecked {
		x.unitChecked = true
		if !x.unitMine() {
			mine = false
		}
	}
	return mine
}

func (r *Runner) explore(sc *Scenario, idx int) {
	if sc.Custom != nil {
		sc.Custom(r, sc)
		return
	}
	var prefix []int
	unit := sc.Unit
	seed := fnvAdd(14695981039346656037, sc.Name)
	samples := 0
	for {
		if r.stop {
			return
		}
		if r.outOfTime() {
			r.res.Complete = false
			r.res.Incomplete = append(r.res.Incomplete, sc.Name)
			return
		}
		x := &X{prefix: prefix, devMax: sc.Bound, scIdx: idx, unitDepth: unit,
			worker: r.worker, workers: r.workers, h: seed, sink: r.st, tracing: samples == 0 && r.worker == idx%r.workers}
		mine := r.one(sc, x)
		if mine {
			r.res.Executions++
			r.res.Validated++
			r.res.PerScenario[sc.Name]++
			r.res.Transitions += int64(x.trans)
			if x.diverged {
				r.res.Diverged++
			}
			if len(r.distinct) < stateCap {
				r.distinct[x.h] = struct{}{}
			}
			if x.tracing && len(r.res.Samples) < 6 {
				samples++
				s := sc.Name + ": " + strings.Join(x.trace, "; ")
				if len(s) > 1500 {
					s = s[:1500] + "..."
				}
				r.res.Samples = append(r.res.Samples, s)
			}
			for _, f := range x.fails {
				cs := make([]int, len(x.pts))
				for i, p := range x.pts {
					cs[i] = p.c
				}
				r.note(Violation{Property: r.check.ID, Scenario: sc.Name, Tier: r.tier, Choices: cs, Failure: f,
					Mode: "replay", Worker: r.worker, Workers: r.workers})
			}
		}
		// backtrack
		i := len(x.pts) - 1
		for i >= 0 && x.pts[i].c+1 >= x.pts[i].n {
			i--
		}
		if i < 0 {
			return
		}
		np := make([]int, i+1)
		for j := 0; j < i; j++ {
			np[j] = x.pts[j].c
		}
		np[i] = x.pts[i].c + 1
		prefix = np
	}
}

func (r *Runner) runAll() {
	for i, sc := range r.check.scenarios(r.tier) {
		t0 := time.Now()
		r.explore(sc, i)
		if os.Getenv("MC_TIMES") != "" {
			fmt.Fprintf(os.Stderr, "w%d %s %.1fs\n", r.worker, sc.Name, time.Since(t0).Seconds())
		}
		if r.stop {
			r.res.Complete = false
			break
		}
	}
	r.res.States = int64(len(r.st.states))
	r.res.Distinct = int64(len(r.distinct))
	r.res.Capped = r.st.capped
}

// replayOnce runs one recorded execution; returns its failures and trace.
func replayOnce(c *Check, v *Violation) ([]Failure, []string) {
	for i, sc := range c.scenarios(v.Tier) {
		if sc.Name != v.Scenario {
			continue
		}
		if sc.Replay != nil {
			return sc.Replay(v.Choices)
		}
		if sc.Custom != nil {
			r := newRunner(c, v.Tier, v.Worker, v.Workers, time.Now().Add(10*time.Minute), map[string]bool{})
			sc.Custom(r, sc)
			var fs []Failure
			var tr []string
			for _, o := range r.res.Violations {
				fs = append(fs, o.Failure)
				tr = append(tr, o.Trace...)
			}
			return fs, tr
		}
		x := &X{prefix: v.Choices, devMax: sc.Bound, scIdx: i, unitDepth: 0, workers: 1,
			h: fnvAdd(14695981039346656037, sc.Name), sink: &stats{states: map[uint64]struct{}{}}, tracing: true}
		sc.Run(x)
		return x.fails, x.trace
	}
	return nil, nil
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		panic(err)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
