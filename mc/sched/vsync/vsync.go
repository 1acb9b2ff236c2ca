// Package vsync replaces package sync in the code under test.
package vsync

import (
	"sync"

	"verif/mc/sched"
)

type (
	Locker = sync.Locker
	Pool   = sync.Pool
	Map    = sync.Map
)

type WaitGroup struct {
	n      int
	native sync.WaitGroup
}

func (w *WaitGroup) Add(d int) {
	if !sched.Active() {
		w.native.Add(d)
		return
	}
	sched.Point()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() {
	if !sched.Active() {
		w.native.Done()
		return
	}
	w.Add(-1)
}
func (w *WaitGroup) Wait() {
	if !sched.Active() {
		w.native.Wait()
		return
	}
	sched.Point()
	if w.n > 0 {
		sched.Block("a wait group", func() bool { return w.n > 0 })
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() {
		defer w.Done()
		f()
	})
}

type Mutex struct {
	locked bool
	native sync.Mutex
}

func (m *Mutex) Lock() {
	if !sched.Active() {
		m.native.Lock()
		return
	}
	sched.Point()
	if m.locked {
		sched.Block("a mutex", func() bool { return m.locked })
	}
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	if !sched.Active() {
		return m.native.TryLock()
	}
	sched.Point()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	if !sched.Active() {
		m.native.Unlock()
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	sched.Point()
}

type RWMutex struct {
	w      bool
	r      int
	native sync.RWMutex
}

func (m *RWMutex) Lock() {
	if !sched.Active() {
		m.native.Lock()
		return
	}
	sched.Point()
	if m.w || m.r > 0 {
		sched.Block("a mutex", func() bool { return m.w || m.r > 0 })
	}
	m.w = true
}
func (m *RWMutex) Unlock() {
	if !sched.Active() {
		m.native.Unlock()
		return
	}
	m.w = false
	sched.Point()
}
func (m *RWMutex) RLock() {
	if !sched.Active() {
		m.native.RLock()
		return
	}
	sched.Point()
	if m.w {
		sched.Block("a mutex", func() bool { return m.w })
	}
	m.r++
}
func (m *RWMutex) RUnlock() {
	if !sched.Active() {
		m.native.RUnlock()
		return
	}
	m.r--
	sched.Point()
}
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() { var o Once; return func() { o.Do(f) } }
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

type Cond struct {
	L      Locker
	gen    int
	wait   []*bool
	native *sync.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l, native: sync.NewCond(l)} }
func (c *Cond) Wait() {
	if !sched.Active() {
		c.native.Wait()
		return
	}
	w := true
	c.wait = append(c.wait, &w)
	c.L.Unlock()
	sched.Block("a condition", func() bool { return w })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if !sched.Active() {
		c.native.Signal()
		return
	}
	if len(c.wait) > 0 {
		*c.wait[0] = false
		c.wait = c.wait[1:]
	}
	sched.Point()
}
func (c *Cond) Broadcast() {
	if !sched.Active() {
		c.native.Broadcast()
		return
	}
	for _, w := range c.wait {
		*w = false
	}
	c.wait = nil
	sched.Point()
}
