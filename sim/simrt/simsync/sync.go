// Package sync replaces the standard package sync in the instrumented library:
// blocking is a scheduling decision of the simulator, and every primitive gives
// the race detector the same happens-before edges as the original.
package sync

import (
	"geosim/simrt"
	real "sync"
)

type Locker = real.Locker
type Map = real.Map

type Mutex struct{ held, ev int32 }

//go:norace
func (m *Mutex) TryLock() bool {
	if m.held != 0 {
		return false
	}
	m.held = 1
	simrt.RaceAcquire(&m.ev)
	return true
}

//go:norace
func (m *Mutex) Lock() {
	simrt.Y(0)
	for m.held != 0 {
		if !simrt.Block(&m.ev) {
			panic("simsync: deadlock: mutex held and nobody to release it")
		}
	}
	m.held = 1
	simrt.RaceAcquire(&m.ev)
}

//go:norace
func (m *Mutex) Unlock() {
	if m.held == 0 {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.RaceRelease(&m.ev)
	m.held = 0
	simrt.Wake(&m.ev)
	simrt.Y(0)
}

type RWMutex struct {
	w, r    int32
	ev, rev int32
}

//go:norace
func (m *RWMutex) Lock() {
	simrt.Y(0)
	for m.w != 0 || m.r != 0 {
		if !simrt.Block(&m.ev) {
			panic("simsync: deadlock: rwmutex held and nobody to release it")
		}
	}
	m.w = 1
	simrt.RaceAcquire(&m.ev)
	simrt.RaceAcquire(&m.rev)
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if m.w != 0 || m.r != 0 {
		return false
	}
	m.w = 1
	simrt.RaceAcquire(&m.ev)
	simrt.RaceAcquire(&m.rev)
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if m.w == 0 {
		panic("sync: unlock of unlocked rwmutex")
	}
	simrt.RaceRelease(&m.ev)
	m.w = 0
	simrt.Wake(&m.ev)
	simrt.Y(0)
}

//go:norace
func (m *RWMutex) RLock() {
	simrt.Y(0)
	for m.w != 0 {
		if !simrt.Block(&m.ev) {
			panic("simsync: deadlock: rwmutex held and nobody to release it")
		}
	}
	m.r++
	simrt.RaceAcquire(&m.ev)
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if m.w != 0 {
		return false
	}
	m.r++
	simrt.RaceAcquire(&m.ev)
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked rwmutex")
	}
	simrt.RaceRelease(&m.rev)
	m.r--
	if m.r == 0 {
		simrt.Wake(&m.ev)
	}
	simrt.Y(0)
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done int32
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

//go:norace
func (o *Once) isDone() bool { return o.done != 0 }

//go:norace
func (o *Once) setDone() { o.done = 1 }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type WaitGroup struct{ n, ev int32 }

//go:norace
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		simrt.RaceRelease(&w.ev)
	}
	w.n += int32(d)
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		simrt.Wake(&w.ev)
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	simrt.Y(0)
	for w.n > 0 {
		if !simrt.Block(&w.ev) {
			panic("simsync: deadlock: wait group never reaches zero")
		}
	}
	simrt.RaceAcquire(&w.ev)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

// Pool hands the most recently returned item to the next caller: legal, and the
// choice that exposes use after Put soonest. (The original may do anything.)
type Pool struct {
	New   func() interface{}
	items [64]interface{}
	n     int
	ev    int32
	epoch int64
}

//go:norace
func (p *Pool) fresh() {
	if e := simrt.Epoch(); p.epoch != e {
		p.epoch, p.n = e, 0
	}
}

//go:norace
func (p *Pool) Get() interface{} {
	simrt.Y(0)
	p.fresh()
	if p.n > 0 {
		p.n--
		x := p.items[p.n]
		p.items[p.n] = nil
		simrt.RaceAcquire(&p.ev)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.fresh()
	simrt.RaceRelease(&p.ev)
	if p.n < len(p.items) {
		p.items[p.n] = x
		p.n++
	}
	simrt.Y(0)
}

type Cond struct {
	L            Locker
	ev           int32
	wait, notify int32
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Waiters are released in the order they came.
//
//go:norace
func (c *Cond) Wait() {
	t := c.wait
	c.wait++
	c.L.Unlock()
	for c.notify-t <= 0 {
		if !simrt.Block(&c.ev) {
			panic("simsync: deadlock: condition never signalled")
		}
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Broadcast() { c.notify = c.wait; simrt.Wake(&c.ev) }

//go:norace
func (c *Cond) Signal() {
	if c.notify != c.wait {
		c.notify++
		simrt.Wake(&c.ev)
	}
}
