// Package sched runs the instrumented library under a controlled scheduler: of all goroutines of a run
// exactly one moves at a time, and control passes to another only where the plan says so, where a
// goroutine has to wait, or where it ends. The instrumented code calls Y before every statement that may
// touch memory others can see.
//
// Handing over control is invisible to the race detector, so that in a race build every pair of
// conflicting accesses that the library's own synchronisation does not order is reported, whatever the
// order in which they were executed.
package sched

import (
	"fmt"
	"reflect"
	"strings"
	"time"
	"unsafe"
)

// Segment lets a thread run up to its At-th scheduling point (-1: until it ends).
type Segment struct {
	Thread, At int
}

type thread struct {
	id      int
	body    func()
	points  int   // scheduling points passed
	stop    int   // the point at which to hand over, -1 none
	trace   []int // sites of the points, while recording
	done    bool
	waiting bool
	onChan  bool
	seen    int // progress of the others when it began to wait
	wake    chan struct{}
}

// Result is what happened in a run.
type Result struct {
	Traces   [][]int // per thread, the sites of its points
	Deadlock bool    // all threads that have not ended wait
	Stuck    bool    // a thread waits for something the scheduler does not know
	Switches int
	Missed   bool // a planned preemption did not happen: the thread ended or waited before
	Cut      bool // a thread spun for so long that another one was given control
}

var (
	active   bool
	threads  []*thread
	cur      *thread
	plan     []Segment
	next     int
	progress int // points passed by all
	mains    int // threads that are calls, not goroutines of the library
	sinceSw  int
	record   bool
	finished chan struct{}
	res      Result
	resets   []func()
	joined   int64
	poisoned bool
)

// Poisoned says that an earlier run left goroutines behind that may still run.
func Poisoned() bool { return poisoned }

// a thread that runs this far while others could may be spinning: they get their turn
const spin = 300000

// OnReset registers the function that puts a package's variables back into their initial state.
func OnReset(f func()) { resets = append(resets, f) }

// Reset puts the library back into the state of a new process. It reports whether that is possible.
func Reset() bool {
	for _, f := range resets {
		f()
	}
	return len(resets) > 0
}

// Y is a scheduling point.
//
//go:norace
func Y(site int) {
	if !active {
		return
	}
	t := cur
	t.points++
	progress++
	sinceSw++
	if record {
		t.trace = append(t.trace, site)
	}
	if t.points == t.stop || sinceSw > spin {
		yield(t)
	}
}

// C is a scheduling point in a condition.
//
//go:norace
func C(site int) bool {
	Y(site)
	return true
}

// Zero clears a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

var sites = map[int]string{}

// AddSites names the scheduling points of a package.
func AddSites(first int, names string) {
	for i, n := range strings.Split(names, "\n") {
		sites[first+i] = n
	}
}

// Site is the place of a scheduling point.
func Site(n int) string {
	if n < 0 {
		return "synchronisation"
	}
	return sites[n]
}

// Instrumented says whether the library in this program has scheduling points.
func Instrumented() bool { return len(resets) > 0 }

//go:norace
func yield(t *thread) {
	raceOff()
	if sinceSw > spin {
		res.Cut = true
	}
	if t.points == t.stop {
		t.stop = -1
		res.Switches++
	}
	u := choose(t)
	if u != nil && u != t {
		pass(t, u)
	}
	sinceSw = 0
	raceOn()
}

// choose picks the thread that runs next: the one of the next segment of the plan that can run, else the
// first that can; t itself only if no other can.
//
//go:norace
func choose(t *thread) *thread {
	for next < len(plan) {
		s := plan[next]
		next++
		if s.Thread >= len(threads) {
			continue
		}
		u := threads[s.Thread]
		if u.done || u != t && !ready(u) {
			res.Missed = true
			continue
		}
		u.stop = s.At
		if s.At >= 0 && u.points >= s.At {
			u.stop = -1
			res.Missed = true
		}
		return u
	}
	for _, u := range threads {
		if u != t && !u.done && ready(u) {
			return u
		}
	}
	if t != nil && !t.done && ready(t) {
		return t
	}
	return nil
}

//go:norace
func ready(t *thread) bool { return !t.waiting || progress > t.seen }

//go:norace
func pass(t, u *thread) {
	cur = u
	sinceSw = 0
	u.wake <- struct{}{}
	if t != nil && !t.done {
		<-t.wake
		cur = t
	}
}

//go:norace
func run(t *thread) {
	t.body()
	end(t)
}

//go:norace
func end(t *thread) {
	RaceReleaseMerge(unsafe.Pointer(&joined))
	raceOff()
	t.done = true
	progress++
	if u := choose(t); u != nil {
		pass(t, u)
	} else {
		for _, u := range threads {
			if !u.done {
				dead()
			}
		}
		finished <- struct{}{}
	}
	raceOn()
}

// dead records that no thread can go on. Goroutines of the library that wait for more work after all calls
// have returned are left alone.
//
//go:norace
func dead() {
	waits, inexact := false, false
	for _, u := range threads {
		if !u.done {
			waits = waits || u.id < mains
			inexact = inexact || u.onChan
		}
	}
	switch {
	case !waits:
	case inexact:
		res.Stuck = true // the treatment of channels is not exact
		poisoned = true
	default:
		res.Deadlock = true
	}
}

// Wait is called when the running thread cannot go on before another one does something.
//
//go:norace
func Wait() { wait(false) }

// WaitChan is Wait for a thread at a channel.
//
//go:norace
func WaitChan() { wait(true) }

//go:norace
func wait(onChan bool) {
	if !active {
		time.Sleep(10 * time.Microsecond)
		return
	}
	if cur.id >= mains {
		// it may never go on: what it did so far comes before the next run
		RaceReleaseMerge(unsafe.Pointer(&joined))
	}
	raceOff()
	t := cur
	t.waiting, t.seen, t.onChan = true, progress, onChan
	u := choose(t)
	if u == nil {
		dead()
		finished <- struct{}{}
		<-t.wake // forever
	}
	if u != t {
		pass(t, u)
	}
	t.waiting, t.onChan = false, false
	raceOn()
}

// loose: there are goroutines of the library that the scheduler does not control. Nothing can be explored then.
var loose bool

// waitBuffered waits at a buffered channel. Only the runtime could end such a wait apart from the threads.
//
//go:norace
func waitBuffered[T any](n int) {
	_, timer := any(*new(T)).(time.Time)
	wait(timer || n == 0)
}

// Go starts a goroutine of the library as a thread of its own.
//
//go:norace
func Go(f func()) {
	if !active {
		loose = true
		go f()
		return
	}
	t := &thread{id: len(threads), body: f, stop: -1, wake: make(chan struct{})}
	threads = append(threads, t)
	progress++
	go park(t)
}

// Current is the number of the running thread, -1 outside of runs.
//
//go:norace
func Current() int {
	if !active {
		return -1
	}
	return cur.id
}

// Points is the number of points the running thread has passed.
//
//go:norace
func Points() int { return cur.points }

// Run executes the bodies by the plan.
//
//go:norace
func Run(bodies []func(), p []Segment, rec bool, limit time.Duration) Result {
	if active {
		panic("sched: nested run")
	}
	if loose {
		poisoned = true
		return Result{Stuck: true, Traces: make([][]int, len(bodies))}
	}
	threads = make([]*thread, 0, 256)
	for i, b := range bodies {
		threads = append(threads, &thread{id: i, body: b, stop: -1, wake: make(chan struct{})})
	}
	plan, next, progress, sinceSw, record = p, 0, 0, 0, rec
	mains = len(bodies)
	res = Result{}
	boxes = nil
	finished = make(chan struct{}, 1)
	active = true
	first := choose(nil)
	cur = first
	// the threads start one after the other, all of them after what the caller did before
	for _, t := range threads {
		if t != first {
			go park(t)
		}
	}
	go run(first)
	timer := time.NewTimer(limit)
	select {
	case <-finished:
	case <-timer.C:
		res.Stuck, poisoned = true, true
	}
	timer.Stop()
	RaceAcquire(unsafe.Pointer(&joined))
	active = false
	for _, t := range threads {
		res.Traces = append(res.Traces, t.trace)
	}
	return res
}

//go:norace
func park(t *thread) {
	raceOff()
	<-t.wake
	raceOn()
	cur = t
	run(t)
}

// ---- replacements of channel operations and go statements ----

// box stands for an unbuffered channel: senders leave their value in it. (Lists, not maps or slices: their
// runtime functions would talk to the race detector.)
type box struct {
	key  uintptr
	next *box
	full bool
	v    any
	mark int64
}

var boxes *box

//go:norace
func boxOf(key uintptr) *box {
	for b := boxes; b != nil; b = b.next {
		if b.key == key {
			return b
		}
	}
	boxes = &box{key: key, next: boxes}
	return boxes
}

func key(c any) uintptr { return reflect.ValueOf(c).Pointer() }

//go:norace
func (b *box) offer(v any) bool {
	if b.full {
		return false
	}
	RaceReleaseMerge(unsafe.Pointer(&b.mark))
	b.full, b.v = true, v
	progress++
	return true
}

//go:norace
func (b *box) take() (any, bool) {
	if !b.full {
		return nil, false
	}
	RaceAcquire(unsafe.Pointer(&b.mark))
	RaceReleaseMerge(unsafe.Pointer(&b.mark))
	v := b.v
	b.full, b.v = false, nil
	progress++
	return v, true
}

//go:norace
func (b *box) busy() bool { return b.full }

// Send is c <- v.
func Send[C ~chan T | ~chan<- T, T any](c C, v T) {
	if !active {
		c <- v
		return
	}
	Y(-1)
	if cap(c) == 0 && c != nil {
		b := boxOf(key(c))
		for !b.offer(v) {
			WaitChan()
		}
		for b.busy() {
			WaitChan()
		}
		RaceAcquire(unsafe.Pointer(&b.mark))
		return
	}
	for {
		select {
		case c <- v:
			return
		default:
		}
		waitBuffered[T](cap(c))
	}
}

// Recv is <-c.
func Recv[C ~chan T | ~<-chan T, T any](c C) T {
	v, _ := Recv2[C, T](c)
	return v
}

// Recv2 is v, ok := <-c.
func Recv2[C ~chan T | ~<-chan T, T any](c C) (T, bool) {
	if !active {
		v, ok := <-c
		return v, ok
	}
	Y(-1)
	for {
		if cap(c) == 0 && c != nil {
			if v, ok := boxOf(key(c)).take(); ok {
				w, _ := v.(T)
				return w, true
			}
		}
		select {
		case v, ok := <-c:
			return v, ok
		default:
		}
		waitBuffered[T](cap(c))
	}
}

func Go1[A any](f func(A), a A)                       { Go(func() { f(a) }) }
func Go2[A, B any](f func(A, B), a A, b B)            { Go(func() { f(a, b) }) }
func Go3[A, B, C any](f func(A, B, C), a A, b B, c C) { Go(func() { f(a, b, c) }) }
func Go4[A, B, C, D any](f func(A, B, C, D), a A, b B, c C, d D) {
	Go(func() { f(a, b, c, d) })
}

func (r Result) String() string {
	return fmt.Sprintf("deadlock %v, stuck %v, cut %v", r.Deadlock, r.Stuck, r.Cut)
}
