// Package ssync stands in for package sync in the instrumented library: the same types, on top of the real
// ones, but who has to wait hands over to the scheduler.
package ssync

import (
	"sync"
	"unsafe"

	"verif/mc/sched"
)

type Locker = sync.Locker

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	sched.Y(-2)
	for !m.m.TryLock() {
		sched.Wait()
	}
}

func (m *Mutex) TryLock() bool {
	sched.Y(-2)
	return m.m.TryLock()
}

func (m *Mutex) Unlock() {
	m.m.Unlock()
	sched.Y(-3)
}

// RWMutex lets no new readers in while a writer waits, as the one of package sync.
type RWMutex struct {
	m       sync.RWMutex
	writers int // that wait
}

//go:norace
func (m *RWMutex) pending(d int) int {
	m.writers += d
	return m.writers
}

func (m *RWMutex) Lock() {
	sched.Y(-2)
	if m.m.TryLock() {
		return
	}
	m.pending(1)
	for !m.m.TryLock() {
		sched.Wait()
	}
	m.pending(-1)
}

func (m *RWMutex) TryLock() bool {
	sched.Y(-2)
	return m.m.TryLock()
}

func (m *RWMutex) Unlock() {
	m.m.Unlock()
	sched.Y(-3)
}

func (m *RWMutex) RLock() {
	sched.Y(-2)
	for m.pending(0) > 0 || !m.m.TryRLock() {
		sched.Wait()
	}
}

func (m *RWMutex) TryRLock() bool {
	sched.Y(-2)
	return m.pending(0) == 0 && m.m.TryRLock()
}

func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	sched.Y(-3)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var p any
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var r T
	var s U
	g := OnceFunc(func() { r, s = f() })
	return func() (T, U) { g(); return r, s }
}

type WaitGroup struct {
	w sync.WaitGroup
	m sync.Mutex
	n int
}

func (w *WaitGroup) Add(d int) {
	w.w.Add(d)
	w.m.Lock()
	w.n += d
	w.m.Unlock()
	sched.Y(-4)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	sched.Y(-4)
	for {
		w.m.Lock()
		n := w.n
		w.m.Unlock()
		if n == 0 {
			break
		}
		sched.Wait()
	}
	w.w.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L Locker
	m sync.Mutex
	// tickets of the waiting and of the woken
	waiting, woken int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.m.Lock()
	c.waiting++
	my := c.waiting
	c.m.Unlock()
	c.L.Unlock()
	for {
		c.m.Lock()
		ok := c.woken >= my
		c.m.Unlock()
		if ok {
			break
		}
		sched.Wait()
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.m.Lock()
	if c.woken < c.waiting {
		c.woken++
	}
	c.m.Unlock()
	sched.Y(-5)
}

func (c *Cond) Broadcast() {
	c.m.Lock()
	c.woken = c.waiting
	c.m.Unlock()
	sched.Y(-5)
}

// Pool hands out what was put last. As with the real one, only Put and Get of the same object are ordered.
type Pool struct {
	New   func() any
	items *item
}

type item struct {
	v    any
	next *item
	mark int64
}

//go:norace
func (p *Pool) push(i *item) { i.next, p.items = p.items, i }

//go:norace
func (p *Pool) pop() *item {
	i := p.items
	if i != nil {
		p.items = i.next
	}
	return i
}

//go:norace
func (i *item) value() any { return i.v }

//go:norace
func newItem(v any) *item { return &item{v: v} }

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	sched.Y(-6)
	i := newItem(v)
	sched.RaceReleaseMerge(unsafe.Pointer(&i.mark))
	p.push(i)
	sched.Y(-6)
}

func (p *Pool) Get() any {
	sched.Y(-6)
	if i := p.pop(); i != nil {
		sched.RaceAcquire(unsafe.Pointer(&i.mark))
		v := i.value()
		sched.Y(-6)
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) { sched.Y(-7); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { sched.Y(-7); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	sched.Y(-7)
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) { sched.Y(-7); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                    { sched.Y(-7); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)       { sched.Y(-7); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool { sched.Y(-7); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool  { sched.Y(-7); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)     { sched.Y(-7); m.m.Range(f) }
func (m *Map) Clear()                          { sched.Y(-7); m.m.Clear() }
