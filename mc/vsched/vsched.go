// Package vsched is a cooperative scheduler for the instrumented code: of the
// registered threads exactly one runs, and another one gets the processor only
// at a scheduling point, when the running one blocks, or when it ends. All
// hand-offs are invisible to the race detector (plain variables in norace
// functions), so that a race-enabled build of the instrumented code sees only
// the synchronisation of the code under test itself.
package vsched

import (
	"runtime"
	"sync"
)

// Kinds of points.
const (
	Stmt   = 0 // a statement of the package under test
	Shared = 1 // a statement that names a package-level variable, or a synchronisation operation of the package
	Lib    = 2 // a synchronisation operation of the antlr runtime
)

const (
	maxThreads = 12
	maxPoints  = 1 << 20
)

// Dev is a deviation from the default schedule: at step Step thread Thread
// continues instead of the default one.
type Dev struct{ Step, Thread int }

// Point of one execution.
type Point struct {
	Thread  uint8
	Forced  bool // the running thread cannot go on: any choice is free
	Chosen  uint8
	Enabled uint16
}

const (
	none = iota
	runnable
	blocked
	done
)

var (
	active   bool
	cur      int
	nThreads int
	status   [maxThreads]uint8
	waitOn   [maxThreads]*byte
	steps    int
	mask     int
	devs     [16]Dev
	nDevs    int
	di       int
	points   [maxPoints]Point
	streak   int
	maxRun   = 200000

	deadlock bool
	diverged bool
	overflow bool
	aborted  bool

	wg sync.WaitGroup
)

// Result of one execution.
type Result struct {
	Points   []Point
	Deadlock bool
	Diverged bool
	Overflow bool
	Channel  bool // deadlock, but of threads that wait for channels
}

// Run executes the bodies under the schedule given by the deviations, with
// scheduling points of the kinds in kindMask.
func Run(bodies []func(), kindMask int, ds []Dev) Result {
	setup(len(bodies), kindMask, ds)
	wg.Add(len(bodies))
	for i, b := range bodies {
		go thread(i, b)
	}
	start()
	wg.Wait()
	return finish()
}

//go:norace
func setup(n, kindMask int, ds []Dev) {
	nThreads, mask, steps, di, streak = n, kindMask, 0, 0, 0
	deadlock, diverged, overflow, aborted = false, false, false, false
	for i := range status {
		status[i] = none
		waitOn[i] = nil
	}
	for i := 0; i < n; i++ {
		status[i] = runnable
	}
	nDevs = 0
	for i := 0; i < len(ds); i++ {
		devs[i] = ds[i]
		nDevs++
	}
	cur = -1
	active = true
}

//go:norace
func start() { cur = choose(-1, true) }

//go:norace
func finish() Result {
	active = false
	if di < nDevs {
		diverged = true
	}
	r := Result{Deadlock: deadlock, Diverged: diverged, Overflow: overflow, Channel: deadlock && ChannelWait()}
	r.Points = make([]Point, steps)
	for i := 0; i < steps; i++ {
		r.Points[i] = points[i]
	}
	return r
}

func thread(id int, body func()) {
	defer wg.Done()
	defer end(id)
	await(id)
	body()
}

//go:norace
func await(id int) {
	for cur != id {
		if aborted {
			runtime.Goexit()
		}
		runtime.Gosched()
	}
}

//go:norace
func end(id int) {
	if aborted {
		return
	}
	status[id] = done
	if enabled() == 0 {
		for i := 0; i < nThreads; i++ {
			if status[i] == blocked {
				deadlock = true
			}
		}
		aborted = deadlock
		cur = -1
		return
	}
	cur = choose(id, true)
}

//go:norace
func enabled() (m uint16) {
	for i := 0; i < nThreads; i++ {
		if status[i] == runnable {
			m |= 1 << uint(i)
		}
	}
	return
}

// choose decides who runs next; forced: the running thread cannot go on.
//
//go:norace
func choose(me int, forced bool) int {
	if steps >= maxPoints {
		overflow = true
	}
	en := enabled()
	t := me
	if forced {
		for t = 0; en&(1<<uint(t)) == 0; t++ {
		}
		streak = 0
	} else if streak++; streak > maxRun {
		// a thread that runs this long is waiting for another one: be fair
		streak = 0
		forced = true
		for k := 1; k <= nThreads; k++ {
			if x := (me + k) % nThreads; en&(1<<uint(x)) != 0 {
				t = x
				break
			}
		}
	}
	if di < nDevs && devs[di].Step == steps {
		d := devs[di].Thread
		di++
		if d < 0 || d >= nThreads || en&(1<<uint(d)) == 0 {
			diverged = true
		} else {
			t = d
		}
	}
	if t != me {
		streak = 0
	}
	if steps < maxPoints {
		points[steps] = Point{Thread: uint8(me), Forced: forced, Chosen: uint8(t), Enabled: en}
		steps++
	}
	return t
}

// P is a scheduling point.
//
//go:norace
func P(kind int) {
	if !active || mask&(1<<uint(kind)) == 0 || aborted {
		return
	}
	me := cur
	t := choose(me, false)
	if t != me {
		cur = t
		await(me)
	}
}

// Yield gives way to the other threads.
//
//go:norace
func Yield() {
	if !active || aborted {
		runtime.Gosched()
		return
	}
	me := cur
	if enabled() == 1<<uint(me) {
		return
	}
	status[me] = blocked
	t := choose(me, true)
	status[me] = runnable
	cur = t
	await(me)
}

// Block parks the running thread until Wake is called for obj.
//
//go:norace
func Block(obj *byte) {
	if !active {
		panic("vsched: blocked for ever outside a controlled execution")
	}
	if aborted {
		runtime.Goexit()
	}
	me := cur
	status[me] = blocked
	waitOn[me] = obj
	if enabled() == 0 {
		deadlock, aborted = true, true
		cur = -1
		runtime.Goexit()
	}
	cur = choose(me, true)
	await(me)
}

// Wake makes the threads that wait for obj runnable.
//
//go:norace
func Wake(obj *byte) {
	for i := 0; i < nThreads; i++ {
		if status[i] == blocked && waitOn[i] == obj {
			status[i] = runnable
			waitOn[i] = nil
		}
	}
}

// Aborted tells that the execution is being torn down.
//
//go:norace
func Aborted() bool { return aborted }

// Active tells that an execution is under control.
//
//go:norace
func Active() bool { return active }

// Go starts a goroutine of the code under test as a thread.
func Go(f func()) {
	id := register()
	if id < 0 {
		go f()
		return
	}
	wg.Add(1)
	go thread(id, f)
	P(Shared)
}

//go:norace
func register() int {
	if !active || aborted || nThreads >= maxThreads {
		if active {
			overflow = true
		}
		return -1
	}
	id := nThreads
	status[id] = runnable
	nThreads++
	return id
}

// ---- channels: buffered ones are polled ----

var chanKey byte

// Send stands in for ch <- v.
func Send[T any](ch chan<- T, v T) {
	P(Shared)
	if !Active() {
		ch <- v
		return
	}
	for {
		select {
		case ch <- v:
			Wake(&chanKey)
			return
		default:
			Block(&chanKey)
		}
	}
}

// Recv2 stands in for v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	P(Shared)
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	for {
		select {
		case v, ok := <-ch:
			Wake(&chanKey)
			return v, ok
		default:
			Block(&chanKey)
		}
	}
}

// Recv stands in for <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Close stands in for close(ch).
func Close[T any](ch chan<- T) {
	P(Shared)
	close(ch)
	Wake(&chanKey)
}

// ChannelWait tells whether a thread waits for a channel: an unbuffered
// channel never becomes ready here, so this is no evidence of a deadlock.
//
//go:norace
func ChannelWait() bool {
	for i := 0; i < nThreads; i++ {
		if status[i] == blocked && waitOn[i] == &chanKey {
			return true
		}
	}
	return false
}
