// Package mc is a small stateless model checker: a scenario is a function that asks for
// choices, and the explorer runs it once for every possible sequence of answers.
package mc

import (
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// C is one execution of a scenario.
type C struct {
	t      *T
	sc     *scenario
	prefix []int
	vec    []int
	arity  []int
	Budget int // deviations left, see Dev

	logOn   bool
	log     []string
	steps   int64
	traces  int64
	slot    *slot
	cleanup []func()
	Scratch map[string]any // per worker cache, survives executions
}

type failure struct{ msg string }
type abandon struct{}
type divergence struct{ msg string }

// Choose asks for a value in [0,n).
func (c *C) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	i := len(c.vec)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(divergence{fmt.Sprintf("choice %d: %d of %d", i, v, n)})
		}
	}
	c.vec = append(c.vec, v)
	c.arity = append(c.arity, n)
	if c.slot != nil {
		c.slot.put(i, v)
	}
	return v
}

// Bool asks for a truth value.
func (c *C) Bool() bool { return c.Choose(2) == 1 }

// Dev asks for a value in [0,n) where anything but 0 is a deviation; when the budget of
// deviations is used up the answer is 0.
func (c *C) Dev(n int) int {
	if c.Budget <= 0 {
		return 0
	}
	v := c.Choose(n)
	if v > 0 {
		c.Budget--
	}
	return v
}

// Pick chooses an element.
func Pick[V any](c *C, s []V) V { return s[c.Choose(len(s))] }

// PickDev chooses an element, other than the first one only as a deviation.
func PickDev[V any](c *C, s []V) V { return s[c.Dev(len(s))] }

// Subset chooses a subset.
func Subset[V any](c *C, s []V) (r []V) {
	for _, v := range s {
		if c.Bool() {
			r = append(r, v)
		}
	}
	return
}

// Perm chooses a permutation of 0..n-1.
func (c *C) Perm(n int) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	r := make([]int, 0, n)
	for len(rest) > 0 {
		k := c.Choose(len(rest))
		r = append(r, rest[k])
		rest = append(rest[:k:k], rest[k+1:]...)
	}
	return r
}

// Abandon ends this execution without a verdict (the choices made are outside the space).
func (c *C) Abandon() { panic(abandon{}) }

// Fail reports a violation of the property.
func (c *C) Fail(format string, args ...any) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Known reports a deviation from the property that is acceptable only if it is listed as a
// known finding under key.
func (c *C) Known(key, format string, args ...any) {
	if _, ok := c.t.known[key]; ok {
		c.t.mu.Lock()
		c.t.knownHits[key]++
		if c.t.knownHits[key] == 1 {
			c.t.knownEx[key] = fmt.Sprintf(format, args...)
		}
		c.t.mu.Unlock()
		return
	}
	c.Fail("%s [deviation %q is not a known finding]", fmt.Sprintf(format, args...), key)
}

// Step counts one call of the implementation compared with the model.
func (c *C) Step() { c.steps++ }

// Steps counts n.
func (c *C) Steps(n int) { c.steps += int64(n) }

// Traces counts n additional complete traces inside this execution.
func (c *C) Traces(n int) { c.traces += int64(n) }

var hseed = maphash.MakeSeed()

// State records a distinct state of the explored space.
func (c *C) State(parts ...string) bool {
	var h maphash.Hash
	h.SetSeed(hseed)
	h.WriteString(c.sc.name)
	for _, p := range parts {
		h.WriteByte(0)
		h.WriteString(p)
	}
	return c.t.addState(h.Sum64())
}

// Outcome counts an observed outcome class.
func (c *C) Outcome(s string) {
	c.sc.omu.Lock()
	c.sc.outcomes[s]++
	c.sc.omu.Unlock()
}

// Logf adds to the readable trace (only when one is wanted).
func (c *C) Logf(format string, args ...any) {
	if c.logOn {
		c.log = append(c.log, fmt.Sprintf(format, args...))
	}
}

// Logging tells whether a readable trace is wanted.
func (c *C) Logging() bool { return c.logOn }

// Quick tells the tier.
func (c *C) Quick() bool { return c.t.Tier == "quick" }

// Defer runs f when the execution ends.
func (c *C) Defer(f func()) { c.cleanup = append(c.cleanup, f) }

type scenario struct {
	name     string
	bound    string
	fn       func(*C)
	budget   int
	workers  int
	execs    atomic.Int64
	steps    atomic.Int64
	maxDepth int
	complete bool
	omu      sync.Mutex
	outcomes map[string]int64
	samples  [][]int
	wall     float64
}

// Opt configures a scenario.
type Opt func(*scenario)

// Budget sets the number of deviations.
func Budget(n int) Opt { return func(s *scenario) { s.budget = n } }

// Serial makes the scenario run on one worker.
func Serial() Opt { return func(s *scenario) { s.workers = 1 } }

// Workers limits the workers.
func Workers(n int) Opt { return func(s *scenario) { s.workers = n } }

// Bound describes what is enumerated.
func Bound(format string, args ...any) Opt {
	return func(s *scenario) { s.bound = fmt.Sprintf(format, args...) }
}

const shards = 256

type stateShard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
	_  [40]byte
}

// T is one run of a property's check.
type T struct {
	ID, Tier  string
	Seed      int64
	known     map[string]string
	knownHits map[string]int64
	knownEx   map[string]string
	mu        sync.Mutex
	scs       []*scenario
	st        [shards]stateShard
	nstates   atomic.Int64
	stateCap  bool
	deadline  time.Time
	viol      *Violation
	replay    *Replay
	replayLog []string
	replayed  bool
	slots     []*slot
	Assume    []string
	diverged  atomic.Int64
	nondet    int
	Extra     map[string]any

	shardSamples []any
}

// Quick tells the tier.
func (t *T) Quick() bool { return t.Tier != "thorough" }

// Sel returns a for the quick tier and b for the thorough one.
func Sel[V any](t *T, a, b V) V {
	if t.Quick() {
		return a
	}
	return b
}

// Violation is what a check found.
type Violation struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Scenario string   `json:"scenario"`
	Choices  []int    `json:"choices"`
	What     string   `json:"what"`
	Trace    []string `json:"trace,omitempty"`
	Reruns   string   `json:"reruns,omitempty"`
}

// Replay asks for one execution.
type Replay = Violation

const maxStates = 40_000_000

func (t *T) addState(h uint64) bool {
	s := &t.st[h%shards]
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, ok := s.m[h]; ok {
		return false
	}
	if len(s.m) >= maxStates/shards {
		t.stateCap = true
		return true
	}
	if s.m == nil {
		s.m = map[uint64]struct{}{}
	}
	s.m[h] = struct{}{}
	t.nstates.Add(1)
	return true
}

// runOne runs one execution and returns its failure, if any.
func (t *T) runOne(sc *scenario, c *C) (f *failure) {
	c.Budget = sc.budget
	defer func() {
		e := recover()
		for i := len(c.cleanup) - 1; i >= 0; i-- {
			c.cleanup[i]()
		}
		c.cleanup = nil
		switch e := e.(type) {
		case nil:
		case failure:
			f = &e
		case abandon:
			c.traces = -1
		case divergence:
			t.diverged.Add(1)
			f = &failure{"harness: replay of a prefix diverged: " + e.msg}
		default:
			f = &failure{fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack()))}
		}
	}()
	sc.fn(c)
	return nil
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var keep []string
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			keep = lines[i:]
		}
	}
	if keep == nil {
		keep = lines
	}
	if len(keep) > 16 {
		keep = keep[:16]
	}
	return strings.Join(keep, "\n")
}

type frame struct {
	vec []int // vec[len-1] is the next value to try
	n   int   // arity of the last choice
}

// Explore runs fn once for every sequence of choices.
func (t *T) Explore(name string, fn func(*C), opts ...Opt) {
	sc := &scenario{name: name, fn: fn, outcomes: map[string]int64{}, workers: runtime.GOMAXPROCS(0)}
	for _, o := range opts {
		o(sc)
	}
	if t.replay != nil {
		if t.replay.Scenario != name || t.replayed {
			return
		}
		t.replayed = true
		c := &C{t: t, sc: sc, prefix: t.replay.Choices, logOn: true, Scratch: map[string]any{}}
		if len(t.slots) > 0 {
			c.slot = t.slots[0]
			c.slot.begin(name)
		}
		f := t.runOne(sc, c)
		if c.slot != nil {
			c.slot.end()
		}
		t.replayLog = c.log
		if f != nil {
			t.viol = &Violation{Property: t.ID, Tier: t.Tier, Scenario: name, Choices: c.vec, What: f.msg, Trace: c.log}
		}
		return
	}
	if t.viol != nil {
		return
	}
	if o := os.Getenv("VMC_ONLY"); o != "" && !strings.Contains(name, o) {
		return
	}
	t.mu.Lock()
	t.scs = append(t.scs, sc)
	t.mu.Unlock()
	start := time.Now()
	var (
		mu      sync.Mutex
		cond    = sync.NewCond(&mu)
		global  = []frame{{vec: []int{}, n: 1}}
		idle    int
		idleA   atomic.Int32
		stop    atomic.Bool
		capped  atomic.Bool
		wg      sync.WaitGroup
		violMu  sync.Mutex
		firstCh = true
	)
	nw := sc.workers
	if nw < 1 {
		nw = 1
	}
	worker := func(id int) {
		defer wg.Done()
		c := &C{t: t, sc: sc, Scratch: map[string]any{}}
		if id < len(t.slots) {
			c.slot = t.slots[id]
		}
		var local []frame
		var execs, steps int64
		maxDepth := 0
		flush := func() {
			sc.execs.Add(execs)
			sc.steps.Add(steps)
			execs, steps = 0, 0
		}
		defer func() {
			flush()
			mu.Lock()
			if maxDepth > sc.maxDepth {
				sc.maxDepth = maxDepth
			}
			mu.Unlock()
		}()
		for iter := 0; ; iter++ {
			if stop.Load() {
				mu.Lock()
				cond.Broadcast()
				mu.Unlock()
				return
			}
			if len(local) == 0 {
				mu.Lock()
				for len(global) == 0 {
					if stop.Load() { // set before the broadcast, so not missed here
						mu.Unlock()
						return
					}
					idle++
					idleA.Store(int32(idle))
					if idle == nw {
						stop.Store(true)
						cond.Broadcast()
						mu.Unlock()
						return
					}
					cond.Wait()
					idle--
					idleA.Store(int32(idle))
					if stop.Load() {
						mu.Unlock()
						return
					}
				}
				local = append(local, global[len(global)-1])
				global = global[:len(global)-1]
				mu.Unlock()
			}
			fr := local[len(local)-1]
			local = local[:len(local)-1]
			prefix := fr.vec
			c.prefix = prefix
			c.vec = c.vec[:0]
			c.arity = c.arity[:0]
			c.steps = 0
			c.traces = 1
			c.logOn = false
			if c.slot != nil {
				c.slot.begin(name)
			}
			f := t.runOne(sc, c)
			if c.slot != nil {
				c.slot.end()
			}
			if c.traces > 0 {
				execs += c.traces
			}
			steps += c.steps
			if len(c.vec) > maxDepth {
				maxDepth = len(c.vec)
			}
			if f != nil {
				vec := append([]int{}, c.vec...)
				violMu.Lock()
				if t.viol == nil || t.viol.Scenario == name && less(vec, t.viol.Choices) {
					t.viol = &Violation{Property: t.ID, Tier: t.Tier, Scenario: name, Choices: vec, What: f.msg}
				}
				violMu.Unlock()
				stop.Store(true)
				continue
			}
			// next sibling of the popped frame
			if len(prefix) > 0 && prefix[len(prefix)-1]+1 < fr.n {
				nv := append([]int{}, prefix...)
				nv[len(nv)-1]++
				local = append(local, frame{nv, fr.n})
			}
			for i := len(prefix); i < len(c.vec); i++ {
				if c.arity[i] > 1 {
					nv := make([]int, i+1)
					copy(nv, c.vec[:i])
					nv[i] = 1
					local = append(local, frame{nv, c.arity[i]})
				}
			}
			if iter&63 == 0 || len(c.vec) == 0 {
				if time.Now().After(t.deadline) {
					capped.Store(true)
					stop.Store(true)
				}
				flush()
			}
			if firstCh && id == 0 || iter&(iter-1) == 0 && id == 0 && iter > 8 {
				firstCh = false
				vec := append([]int{}, c.vec...)
				sc.omu.Lock()
				if c.traces > 0 {
					sc.samples = append(sc.samples, vec)
				}
				sc.omu.Unlock()
			}
			if idleA.Load() > 0 && len(local) > 1 {
				mu.Lock()
				k := (len(local) + 1) / 2
				if k > 8 {
					k = 8
				}
				global = append(global, local[:k]...)
				local = append([]frame{}, local[k:]...)
				cond.Broadcast()
				mu.Unlock()
			}
		}
	}
	wg.Add(nw)
	for i := 0; i < nw; i++ {
		go worker(i)
	}
	wg.Wait()
	sc.complete = !capped.Load() && t.viol == nil
	sc.wall = time.Since(start).Seconds()
	if t.viol != nil && t.viol.Scenario == name {
		again := 0
		for i := 0; i < 5; i++ {
			c := &C{t: t, sc: sc, prefix: t.viol.Choices, logOn: true, Scratch: map[string]any{}}
			if len(t.slots) > 0 {
				c.slot = t.slots[0]
				c.slot.begin(name)
			}
			f := t.runOne(sc, c)
			if c.slot != nil {
				c.slot.end()
			}
			if f != nil {
				again++
				t.viol.Trace = c.log
			}
		}
		t.viol.Reruns = fmt.Sprintf("failed again in %d of 5 re-runs", again)
	}
}

func less(a, b []int) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// collectSamples re-runs chosen executions with logging; each twice, to see that a choice
// vector determines what is observed.
func (t *T) collectSamples() []any {
	out := t.shardSamples
	for _, sc := range t.scs {
		if sc.fn == nil {
			continue
		}
		s := sc.samples
		pick := [][]int{}
		if len(s) > 0 {
			pick = append(pick, s[0])
		}
		if len(s) > 2 {
			pick = append(pick, s[len(s)-1])
		}
		per := 2
		if len(t.scs) > 6 {
			per = 1
		}
		if len(pick) > per {
			pick = pick[len(pick)-per:]
		}
		for _, vec := range pick {
			var logs [2]string
			var log []string
			for i := range logs {
				c := &C{t: t, sc: sc, prefix: vec, logOn: true, Scratch: map[string]any{}}
				t.runOne(sc, c)
				logs[i] = strings.Join(c.log, "\n")
				log = c.log
			}
			if logs[0] != logs[1] {
				t.nondet++
			}
			if len(log) > 12 {
				log = append(log[:12:12], "...")
			}
			for i, l := range log {
				if len(l) > 400 {
					log[i] = l[:400] + "..."
				}
			}
			out = append(out, map[string]any{"scenario": sc.name, "choices": vec, "trace": log})
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
