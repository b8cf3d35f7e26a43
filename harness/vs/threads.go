package vs

import (
	"bytes"
	"runtime"
	"strconv"
	"sync"
	"time"
)

// Threads, run natively: real goroutines that pass the points of preemption in the order of a schedule
// the engine found. What keeps them in order is invisible to the race detector, so that it sees only
// the synchronisation of the code itself: plain variables in functions that are not instrumented.

const maxThreads = 6

const (
	running = iota
	gated
	done
)

var (
	schedule []int
	pos      int
	state    [maxThreads]int
	gids     [maxThreads]uint64
	nThreads int
	active   bool
	changed  time.Time
	clock    int
	group    sync.WaitGroup
	panics   [maxThreads]any
)

// Replay sets the schedule to follow.
func Replay(s []int) {
	schedule, pos, nThreads, active, clock = s, 0, 1, false, 0
	panics = [maxThreads]any{}
}

// Failed is what a goroutine panicked with.
func Failed() any {
	for _, p := range panics {
		if p != nil {
			return p
		}
	}
	return nil
}

//go:norace
func goid() uint64 {
	var b [64]byte
	f := bytes.Fields(b[:runtime.Stack(b[:], false)])
	n, _ := strconv.ParseUint(string(f[1]), 10, 64)
	return n
}

//go:norace
func self() int {
	if !active {
		return -1
	}
	g := goid()
	for i := 1; i < nThreads; i++ {
		if gids[i] == g {
			return i
		}
	}
	return -1
}

//go:norace
func begin(id int) {
	gids[id] = goid()
}

//go:norace
func end(id int) {
	state[id] = done
	changed = time.Now()
}

// Gate is a point of preemption.
//
//go:norace
func Gate() {
	Turn()
}

// Turn waits for the turn of this thread. It tells whether there is a schedule to follow.
//
//go:norace
func Turn() bool {
	me := self()
	if me < 0 {
		return false
	}
	state[me] = gated
	changed = time.Now()
	follows := false
	for pos < len(schedule) {
		idle := time.Since(changed)
		if schedule[pos] == me && (quiet(me) || idle > 15*time.Millisecond) {
			pos++
			follows = true
			break
		}
		if idle > 300*time.Millisecond {
			// the schedule does not fit
			pos = len(schedule)
			break
		}
		time.Sleep(20 * time.Microsecond)
	}
	state[me] = running
	changed = time.Now()
	return follows
}

//go:norace
func quiet(me int) bool {
	for i := 1; i < nThreads; i++ {
		if i != me && state[i] == running {
			return false
		}
	}
	return true
}

// Go runs f in a goroutine.
func Go(f func()) {
	id := nThreads
	nThreads++
	active = true
	state[id] = running
	changed = time.Now()
	group.Add(1)
	go func() {
		defer group.Done()
		defer end(id)
		defer func() { panics[id] = recover() }()
		begin(id)
		Gate()
		f()
	}()
}

// Wait waits for the goroutines.
func Wait() {
	group.Wait()
	active = false
	if p := Failed(); p != nil {
		panic(p)
	}
}

// Clock tells when things happen: a larger number each time.
//
//go:norace
func Clock() int {
	clock++
	return clock
}

// Preempt bounds how many times threads are preempted. Going on with another thread when one ends or has
// to wait is no preemption.
func Preempt(n int) {}
