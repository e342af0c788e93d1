// Package vsched decides which goroutine runs between any two statements of instrumented
// code. Control is handed over without synchronisation that the race detector could see, so
// that it still judges the code's own synchronisation; hence the norace functions that spin.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"time"
)

const (
	maxThreads = 8
	controller = -1
)

const (
	ready = iota
	blocked
	done
)

const maxSites = 1 << 13

// Repeat is how often each statement is a scheduling point for each thread of a run.
var Repeat uint8 = 2

var seen [maxThreads][maxSites]uint8

type word struct {
	v int64
	_ [56]byte
}

// All of this is read and written only by the goroutine whose turn it is.
var (
	on     word
	turn   word
	free   word // control given up: everything runs
	quiet  word // the running thread need not ask before it ends or blocks
	state  [maxThreads]word
	count  word
	yields word
	fails  [maxThreads]string
	resets []func()
	inits  []func()
)

//go:norace
//go:noinline
func get(p *word) int64 { return p.v }

//go:norace
//go:noinline
func set(p *word, v int64) { p.v = v }

// OnReset registers what brings a file's variables back to the state they have when a
// process starts, and the file's own initialisation.
func OnReset(vars, init func()) { resets = append(resets, vars); inits = append(inits, init) }

// Instrumented tells whether any package is.
func Instrumented() bool { return len(resets) > 0 }

// Reset brings all instrumented packages back to the state they have when a process starts.
func Reset() {
	for range 2 { // initialisers may depend on variables of files that come later
		for _, f := range resets {
			f()
		}
	}
	for _, f := range inits {
		f()
	}
}

// Y is called before every statement.
//
//go:norace
func Y(site int) {
	if on.v == 0 {
		return
	}
	yields.v++
	if quiet.v != 0 || free.v != 0 {
		return
	}
	me := turn.v
	if me < 0 {
		return
	}
	if p := &seen[me][site%maxSites]; *p < Repeat {
		*p++
		pass(me, ready)
	}
}

// Block is called by a thread that cannot go on until another one has done something.
//
//go:norace
func Block() {
	if on.v == 0 || free.v != 0 {
		runtime.Gosched()
		return
	}
	pass(turn.v, blocked)
}

// Wake is called when a blocked thread may be able to go on.
//
//go:norace
func Wake() {
	if on.v == 0 {
		return
	}
	for i := int64(0); i < count.v; i++ {
		if state[i].v == blocked {
			state[i].v = ready
		}
	}
}

//go:norace
func pass(me int64, st int64) {
	set(&state[me], st)
	set(&turn, controller)
	wait(me)
}

//go:norace
func wait(me int64) {
	for get(&turn) != me {
		if get(&free) != 0 {
			return
		}
		runtime.Gosched()
	}
}

//go:norace
func body(me int64, f func(), ended chan<- struct{}) {
	wait(me)
	call(me, f)
	set(&state[me], done)
	ended <- struct{}{}
	if get(&free) == 0 {
		set(&turn, controller)
	}
}

func call(me int64, f func()) {
	defer func() {
		if e := recover(); e != nil {
			fails[me] = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
		}
	}()
	f()
}

var ended chan struct{}

// Go runs f in a goroutine, as a controlled thread when schedules are being explored.
//
//go:norace
func Go(f func()) {
	if on.v == 0 || free.v != 0 || count.v == maxThreads {
		go f()
		return
	}
	me := count.v
	state[me].v = ready
	count.v++
	go body(me, f, ended)
}

// Result is what one schedule did.
type Result struct {
	Yields   int64 // statements
	Switches int
	Preempts int
	Threads  int
	Free     bool // a thread blocked outside the scheduler's control; the rest ran freely
	Deadlock bool
	Panic    string
}

// Run runs the threads under control. preempt is asked, before every statement of a running
// thread while it returns ok, which thread to go on with; 0 means the same.
//
//go:norace
func Run(threads []func(), choose func(n int) int, dev func(n int) int, left func() bool) (r Result) {
	n := len(threads)
	for i := range state {
		state[i].v, fails[i] = ready, ""
		seen[i] = [maxSites]uint8{}
	}
	ended = make(chan struct{}, maxThreads)
	count.v, yields.v, free.v, quiet.v = int64(n), 0, 0, 0
	turn.v = controller
	for i, f := range threads {
		go body(int64(i), f, ended)
	}
	on.v = 1
	cur := int64(-1)
	for {
		var run []int64
		alive := 0
		for i := int64(0); i < count.v; i++ {
			if state[i].v != done {
				alive++
			}
			if state[i].v == ready && i != cur {
				run = append(run, i)
			}
		}
		if alive == 0 {
			break
		}
		next := cur
		switch {
		case cur >= 0 && state[cur].v == ready:
			if k := dev(1 + len(run)); k > 0 {
				next = run[k-1]
				r.Preempts++
				r.Switches++
			}
		case len(run) == 0:
			r.Deadlock = true
		default:
			next = run[choose(len(run))]
			r.Switches++
		}
		if r.Deadlock {
			break
		}
		cur = next
		quiet.v = 0
		if !left() {
			quiet.v = 1
		}
		set(&turn, cur)
		if !back() {
			r.Free = true
			set(&free, 1)
			break
		}
	}
	r.Threads = int(count.v)
	if r.Deadlock {
		on.v = 0
		return
	}
	for range r.Threads {
		select {
		case <-ended:
		case <-time.After(20 * time.Second):
			r.Deadlock = true
			on.v = 0
			return
		}
	}
	on.v = 0
	r.Yields = yields.v
	for _, f := range fails {
		if f != "" {
			r.Panic = f
			break
		}
	}
	return
}

// back waits until the running thread gives control back.
//
//go:norace
func back() bool {
	var start time.Time
	for i := 0; get(&turn) != controller; i++ {
		runtime.Gosched()
		if i&0xfff == 0xfff {
			if start.IsZero() {
				start = time.Now()
			} else if time.Since(start) > 5*time.Second {
				return false
			}
		}
	}
	return true
}
