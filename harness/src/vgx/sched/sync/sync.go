// Package sync stands in for sync in instrumented code: the blocking
// primitives wait at scheduling points instead of blocking the process.
package sync

import (
	"sync"
	"unsafe"

	"vgx/sched"
)

type (
	Locker = sync.Locker
	Pool   = sync.Pool
	Map    = sync.Map
)

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	sched.Yield()
	sched.Wait(func() bool { return !m.held })
	m.held = true
	sched.Acquire(uintptr(unsafe.Pointer(m)))
}

func (m *Mutex) TryLock() bool {
	sched.Yield()
	if m.held {
		return false
	}
	m.held = true
	sched.Acquire(uintptr(unsafe.Pointer(m)))
	return true
}

func (m *Mutex) Unlock() {
	sched.Yield()
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	sched.Release(uintptr(unsafe.Pointer(m)))
	m.held = false
}

type RWMutex struct {
	w       bool
	pending int
	r       int
}

func (m *RWMutex) at() uintptr { return uintptr(unsafe.Pointer(m)) }

func (m *RWMutex) Lock() {
	sched.Yield()
	m.pending++
	sched.Wait(func() bool { return !m.w && m.r == 0 })
	m.pending--
	m.w = true
	sched.Acquire(m.at())
}

func (m *RWMutex) TryLock() bool {
	sched.Yield()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	sched.Acquire(m.at())
	return true
}

func (m *RWMutex) Unlock() {
	sched.Yield()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	sched.Release(m.at())
	m.w = false
}

func (m *RWMutex) RLock() {
	sched.Yield()
	sched.Wait(func() bool { return !m.w && m.pending == 0 })
	m.r++
	sched.Acquire(m.at())
}

func (m *RWMutex) TryRLock() bool {
	sched.Yield()
	if m.w || m.pending > 0 {
		return false
	}
	m.r++
	sched.Acquire(m.at())
	return true
}

func (m *RWMutex) RUnlock() {
	sched.Yield()
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	sched.Release(m.at())
	m.r--
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (m *rlocker) Lock()   { (*RWMutex)(m).RLock() }
func (m *rlocker) Unlock() { (*RWMutex)(m).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Cond struct {
	L   Locker
	seq int
	ok  int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	my := c.seq
	c.seq++
	c.L.Unlock()
	sched.Wait(func() bool { return my < c.ok })
	c.L.Lock()
}

func (c *Cond) Signal() {
	sched.Yield()
	if c.ok < c.seq {
		c.ok++
	}
}

func (c *Cond) Broadcast() { sched.Yield(); c.ok = c.seq }
