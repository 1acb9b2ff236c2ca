// Package sched is a controlled scheduler. The model checker compiles the code under test with its goroutines,
// channels and sync primitives replaced by those of this package (see rewrite.go): inside Explore they run one
// at a time, switching only at scheduling points, and every schedule within a bound of preemptions is run.
// Outside Explore the same primitives act natively.
package sched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
)

var (
	Instrumented bool // the code under test has been rewritten for this package
	Batches      int  // number of uses of a batch size that were rewritten
	cpus         int
	batch        int
	batchMu      sync.Mutex
)

// Mark is called by the rewritten code.
func Mark(batches int, scheduler bool) bool {
	Instrumented = Instrumented || scheduler
	Batches += batches
	return true
}

// NumCPU replaces runtime.NumCPU.
func NumCPU() int {
	if cpus > 0 {
		return cpus
	}
	return runtime.NumCPU()
}
func SetNumCPU(n int) { cpus = n }
func GOMAXPROCS(n int) int {
	if cpus > 0 {
		return cpus
	}
	return runtime.GOMAXPROCS(n)
}

// Batch replaces a constant that is a batch size.
func Batch(orig int) int {
	if batch > 0 && batch < orig {
		return batch
	}
	return orig
}
func SetBatch(n int) { batch = n }

type thread struct {
	id      int
	wake    chan struct{}
	done    bool
	blocked func() bool // tells whether it still is, nil: it isn't
	what    string
}

type choice struct {
	n, picked int
	preempt   bool // picking another one than 0 is a preemption
}

type execution struct {
	threads []*thread
	cur     *thread
	prefix  []int
	trace   []choice
	level   int
	steps   int
	run1    int  // points which the current thread has passed in a row
	yield   bool // the current thread lets others go first
	abort   bool
	fail    string
	over    chan struct{}
	wg      sync.WaitGroup
}

var active *execution

const (
	maxSteps = 2000000
	maxInRow = 5000 // a thread that goes on for longer, perhaps waiting for another one in a loop, lets the others go first
)

// Options bound an exploration.
type Options struct {
	Preemptions int  // bound of the switches away from a goroutine that could go on
	Delays      bool // bound the deviations from the default order instead, also where a goroutine has to wait
	Level       int  // 0: synchronization only, 1: and iterations of loops, 2: and statements
	Max         int  // number of schedules
	Until       time.Time
}

// Result of an exploration.
type Result struct {
	Schedules, Points, MaxThreads int
	Complete                      bool
	Fail                          string // deadlock, panic or endless run
	FailTrace                     []int
}

// Explore runs body under every schedule within the bounds; after each, check says whether to go on.
func Explore(o Options, body func(), check func() bool) Result {
	var r Result
	if o.Max == 0 {
		o.Max = 1 << 30
	}
	var prefix []int
	for {
		e := &execution{prefix: prefix, level: o.Level, over: make(chan struct{})}
		e.run(body)
		r.Schedules++
		r.Points += len(e.trace)
		if len(e.threads) > r.MaxThreads {
			r.MaxThreads = len(e.threads)
		}
		if e.fail != "" {
			r.Fail = e.fail
			r.FailTrace = picks(e.trace)
			return r
		}
		if !check() {
			r.FailTrace = picks(e.trace)
			return r
		}
		// the next schedule: the deepest choice that has an alternative left within the bound
		used := make([]int, len(e.trace)+1)
		for i, c := range e.trace {
			used[i+1] = used[i]
			used[i+1] += o.cost(c, c.picked)
		}
		i := len(e.trace) - 1
		for ; i >= 0; i-- {
			c := e.trace[i]
			if c.picked+1 >= c.n {
				continue
			}
			if used[i]+o.cost(c, c.picked+1) > o.Preemptions {
				continue
			}
			break
		}
		if i < 0 {
			r.Complete = true
			return r
		}
		if r.Schedules >= o.Max || !o.Until.IsZero() && time.Now().After(o.Until) {
			return r
		}
		prefix = append(picks(e.trace[:i]), e.trace[i].picked+1)
	}
}

func (o Options) cost(c choice, k int) int {
	if o.Delays {
		return k
	}
	if c.preempt && k > 0 {
		return 1
	}
	return 0
}

func picks(t []choice) []int {
	var p []int
	for _, c := range t {
		p = append(p, c.picked)
	}
	return p
}

func (e *execution) run(body func()) {
	active = e
	e.spawn(body)
	first := e.threads[0]
	e.cur = first
	first.wake <- struct{}{}
	<-e.over
	// end what is left (after a failure)
	e.abort = true
	for _, t := range e.threads {
		if !t.done {
			select {
			case t.wake <- struct{}{}:
			default:
			}
		}
	}
	e.wg.Wait()
	active = nil
}

func (e *execution) spawn(f func()) {
	t := &thread{id: len(e.threads), wake: make(chan struct{}, 1)}
	e.threads = append(e.threads, t)
	e.wg.Add(1)
	go func() {
		defer e.wg.Done()
		normal := false
		defer func() {
			if e.abort {
				t.done = true
				recover()
				return
			}
			if !normal {
				if p := recover(); p != nil {
					e.stop(fmt.Sprintf("panic in a goroutine: %v\n%s", p, debug.Stack()))
					t.done = true
					return
				}
			}
			t.done = true
			e.next(t)
		}()
		<-t.wake
		if e.abort {
			return
		}
		f()
		normal = true
	}()
}

func (e *execution) stop(why string) {
	if e.fail == "" {
		e.fail = why
	}
	e.abort = true
	close(e.over)
}

// next gives control to the next thread, from t, which is the running one (and perhaps blocked or done).
func (e *execution) next(t *thread) {
	e.steps++
	if e.steps > maxSteps {
		e.stop("the run doesn't end")
		if !t.done {
			runtime.Goexit()
		}
		return
	}
	var opts []*thread
	curOK := !t.done && (t.blocked == nil || !t.blocked())
	later := curOK && (e.yield || e.run1 >= maxInRow)
	e.yield = false
	if curOK && !later {
		opts = append(opts, t)
	}
	alive := false
	for _, u := range e.threads {
		if u.done {
			continue
		}
		alive = true
		if u != t && (u.blocked == nil || !u.blocked()) {
			opts = append(opts, u)
		}
	}
	if later {
		opts = append(opts, t)
		curOK = false
	}
	if len(opts) == 0 {
		if !alive || e.threads[0].done { // what is left waits forever, which nobody notices
			close(e.over)
			return
		}
		s := "deadlock:"
		for _, u := range e.threads {
			if !u.done {
				s += fmt.Sprintf(" goroutine %d waits for %s;", u.id, u.what)
			}
		}
		e.stop(s)
		if !t.done {
			runtime.Goexit()
		}
		return
	}
	k := 0
	if len(opts) > 1 {
		if len(e.trace) < len(e.prefix) {
			k = e.prefix[len(e.trace)]
			if k >= len(opts) {
				k = 0 // the run isn't deterministic
			}
		}
		e.trace = append(e.trace, choice{len(opts), k, curOK})
	}
	u := opts[k]
	e.cur = u
	e.run1++
	if u != t || later {
		e.run1 = 0
	}
	if u == t {
		t.blocked = nil
		return
	}
	u.blocked = nil
	done := t.done
	u.wake <- struct{}{}
	if done {
		return
	}
	<-t.wake
	if e.abort {
		runtime.Goexit()
	}
}

// Active tells whether the caller is in an exploration.
func Active() bool { return active != nil }

func point(level int) {
	if e := active; e != nil && level <= e.level && !e.abort {
		e.next(e.cur)
	}
}

// Point is a scheduling point of the synchronization level.
func Point() { point(0) }

// PointL and PointS are scheduling points at iterations and statements.
func PointL() { point(1) }
func PointS() { point(2) }

// Block waits until cond doesn't hold any more.
func Block(what string, cond func() bool) {
	e := active
	if e.abort {
		runtime.Goexit()
	}
	t := e.cur
	t.blocked, t.what = cond, what
	e.next(t)
}

// Go replaces the go statement.
func Go(f func()) {
	if e := active; e != nil && !e.abort {
		e.spawn(f)
		e.next(e.cur)
		return
	}
	go f()
}
func Go1[A any](f func(A), a A)                                  { Go(func() { f(a) }) }
func Go2[A, B any](f func(A, B), a A, b B)                       { Go(func() { f(a, b) }) }
func Go3[A, B, C any](f func(A, B, C), a A, b B, c C)            { Go(func() { f(a, b, c) }) }
func Go4[A, B, C, D any](f func(A, B, C, D), a A, b B, c C, d D) { Go(func() { f(a, b, c, d) }) }
func Go5[A, B, C, D, E any](f func(A, B, C, D, E), a A, b B, c C, d D, x E) {
	Go(func() { f(a, b, c, d, x) })
}
func Go6[A, B, C, D, E, F any](f func(A, B, C, D, E, F), a A, b B, c C, d D, x E, y F) {
	Go(func() { f(a, b, c, d, x, y) })
}
func Go7[A, B, C, D, E, F, G any](f func(A, B, C, D, E, F, G), a A, b B, c C, d D, x E, y F, z G) {
	Go(func() { f(a, b, c, d, x, y, z) })
}

func Gosched() {
	if active != nil {
		active.yield = true
		Point()
		return
	}
	runtime.Gosched()
}
func Sleep(d time.Duration) {
	if active != nil {
		active.yield = true
		Point()
		return
	}
	time.Sleep(d)
}

// Chan replaces a channel.
type Chan[T any] struct {
	native  chan T
	cap     int
	buf     []T
	closed  bool
	recvers int // waiting receivers (of an unbuffered channel)
	taken   int // elements taken by receivers, to tell an unbuffered sender
	got     T
	gotOK   bool
}

func MakeChan[T any](n ...int) *Chan[T] {
	c := 0
	if len(n) > 0 {
		c = n[0]
	}
	return &Chan[T]{native: make(chan T, c), cap: c}
}

func (c *Chan[T]) Len() int {
	if active == nil {
		return len(c.native)
	}
	return len(c.buf)
}
func (c *Chan[T]) Cap() int { return c.cap }

func (c *Chan[T]) Send(v T) {
	if active == nil {
		c.native <- v
		return
	}
	if c == nil {
		Block("a nil channel", func() bool { return true })
	}
	Point()
	if c.closed {
		panic("send on closed channel")
	}
	if c.cap > 0 {
		if len(c.buf) >= c.cap {
			Block("room in a channel", func() bool { return len(c.buf) >= c.cap && !c.closed })
		}
		if c.closed {
			panic("send on closed channel")
		}
		c.buf = append(c.buf, v)
		return
	}
	c.buf = append(c.buf, v)
	at := c.taken + len(c.buf)
	Block("a receiver of a channel", func() bool { return c.taken < at })
}

func (c *Chan[T]) Recv() T { v, _ := c.Recv2(); return v }

func (c *Chan[T]) Recv2() (T, bool) {
	if active == nil {
		if c == nil {
			select {}
		}
		v, ok := <-c.native
		return v, ok
	}
	if c == nil {
		Block("a nil channel", func() bool { return true })
	}
	Point()
	if len(c.buf) == 0 && !c.closed {
		c.recvers++
		Block("a value from a channel", func() bool { return len(c.buf) == 0 && !c.closed })
		c.recvers--
	}
	var v T
	if len(c.buf) == 0 {
		return v, false
	}
	v = c.buf[0]
	c.buf = c.buf[1:]
	c.taken++
	return v, true
}

func (c *Chan[T]) Close() {
	if active == nil {
		close(c.native)
		return
	}
	Point()
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
}

// Got is what a chosen case of Select has received.
func (c *Chan[T]) Got() T          { return c.got }
func (c *Chan[T]) Got2() (T, bool) { return c.got, c.gotOK }

type SelCase struct {
	ready func() bool
	do    func()
	try   func() bool // natively
}

func RecvCase[T any](c *Chan[T]) SelCase {
	return SelCase{
		ready: func() bool { return c != nil && (len(c.buf) > 0 || c.closed) },
		do:    func() { c.got, c.gotOK = c.Recv2() },
		try: func() bool {
			if c == nil {
				return false
			}
			select {
			case c.got, c.gotOK = <-c.native:
				return true
			default:
				return false
			}
		},
	}
}
func SendCase[T any](c *Chan[T], v T) SelCase {
	return SelCase{
		ready: func() bool {
			return c != nil && (c.closed || c.cap > 0 && len(c.buf) < c.cap || c.cap == 0 && c.recvers > len(c.buf))
		},
		do: func() { c.Send(v) },
		try: func() bool {
			if c == nil {
				return false
			}
			select {
			case c.native <- v:
				return true
			default:
				return false
			}
		},
	}
}

// Select returns the index of the case done, -1 for the default. Of several ready cases it takes the first.
func Select(def bool, cs ...SelCase) int {
	if active == nil {
		for {
			for i, c := range cs {
				if c.try() {
					return i
				}
			}
			if def {
				return -1
			}
			time.Sleep(20 * time.Microsecond)
		}
	}
	Point()
	for {
		for i, c := range cs {
			if c.ready() {
				c.do()
				return i
			}
		}
		if def {
			return -1
		}
		Block("a select", func() bool {
			for _, c := range cs {
				if c.ready() {
					return false
				}
			}
			return true
		})
	}
}
