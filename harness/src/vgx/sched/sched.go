// Package sched runs a few threads of instrumented code under a generated
// schedule: exactly one of them runs at a time, control moves only at Yield
// points (before every statement and around every atomic operation of the
// instrumented code), and which thread runs for how many points comes from a
// plan. A run is therefore a pure function of the code and the plan.
//
// It also tracks the happens-before order that the atomic operations create
// (vector clocks), so that a critical section can tell whether everything done
// under the lock before is really ordered before it.
package sched

import "fmt"

// Slice lets one thread run for n yield points.
type Slice struct{ Thread, Points int }

type thread struct {
	id   int
	wake chan bool // false: give up
	done bool
	vc   []int
}

type Run struct {
	threads []*thread
	cur     *thread
	plan    []Slice
	pos     int
	left    int
	quantum int
	steps   int
	max     int
	end     chan interface{}
	over    bool
	clocks  map[uintptr][]int
	keep    []interface{}
	// Switches counts how often control moved between threads.
	Switches int
}

type giveUp struct{}

// Stuck is what a run ends with when the threads are not done within the
// allowed number of points although every one of them got its fair share.
type Stuck struct{ Waiting []int }

func (s Stuck) String() string { return fmt.Sprintf("threads %v never finish", s.Waiting) }

var active *Run

// Go runs the threads to their end: by the plan first, then in turns. It
// returns nil, a Stuck, or what a thread panicked with.
func Go(plan []Slice, quantum, max int, fs ...func(r *Run, id int)) (r *Run, failed interface{}) {
	r = &Run{plan: plan, quantum: quantum, max: max, end: make(chan interface{}, 1), clocks: map[uintptr][]int{}}
	for i := range fs {
		t := &thread{id: i, wake: make(chan bool, 1), vc: make([]int, len(fs))}
		t.vc[i] = 1
		r.threads = append(r.threads, t)
	}
	gone := make(chan bool, len(fs))
	for i, f := range fs {
		t, f := r.threads[i], f
		go func() {
			defer func() { gone <- true }()
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(giveUp); !ok {
						r.finish(x)
					}
				}
			}()
			if !<-t.wake {
				return
			}
			f(r, t.id)
			t.done = true
			r.next(nil)
		}()
	}
	active = r
	r.cur = nil
	r.next(nil)
	failed = <-r.end
	active = nil
	for _, t := range r.threads {
		select {
		case t.wake <- false:
		default:
		}
	}
	for range fs {
		<-gone
	}
	return r, failed
}

func (r *Run) finish(x interface{}) {
	if !r.over {
		r.over = true
		r.end <- x
	}
}

// Yield is a point at which control may move to another thread.
func Yield() {
	r := active
	if r == nil || r.cur == nil {
		return
	}
	if r.over {
		panic(giveUp{})
	}
	r.steps++
	if r.steps > r.max {
		s := Stuck{}
		for _, t := range r.threads {
			if !t.done {
				s.Waiting = append(s.Waiting, t.id)
			}
		}
		r.finish(s)
		panic(giveUp{})
	}
	if r.left--; r.left > 0 {
		return
	}
	t := r.cur
	r.next(t)
}

// next picks the thread to run; from is the calling thread, nil if it ended.
func (r *Run) next(from *thread) {
	var to *thread
	for to == nil && r.pos < len(r.plan) {
		s := r.plan[r.pos]
		r.pos++
		if t := r.threads[s.Thread%len(r.threads)]; !t.done && s.Points > 0 {
			to, r.left = t, s.Points
		}
	}
	if to == nil { // in turns
		at := 0
		if r.cur != nil {
			at = r.cur.id + 1
		}
		for i := 0; i < len(r.threads) && to == nil; i++ {
			if t := r.threads[(at+i)%len(r.threads)]; !t.done {
				to, r.left = t, r.quantum
			}
		}
	}
	if to == nil {
		r.finish(nil)
		return
	}
	r.cur = to
	if to == from {
		return
	}
	r.Switches++
	to.wake <- true
	if from != nil {
		if !<-from.wake {
			panic(giveUp{})
		}
	}
}

// Wait yields until cond holds (for blocking stand-ins and for harnesses).
func Wait(cond func() bool) {
	for !cond() {
		if active == nil || active.cur == nil {
			panic("sched: blocked outside of a run")
		}
		Yield()
	}
}

// Steps is the number of points passed so far.
func (r *Run) Steps() int { return r.steps }

// Set assigns with a point between the evaluation of the value and the store.
func Set[T any](p *T, v T) {
	Yield()
	*p = v
}

func join(a, b []int) {
	for i, v := range b {
		if v > a[i] {
			a[i] = v
		}
	}
}

// Acquire and Release order the running thread after / before the operations
// on the synchronising object at addr.
func Acquire(addr uintptr) {
	if r := active; r != nil && r.cur != nil {
		if c := r.clocks[addr]; c != nil {
			join(r.cur.vc, c)
		}
	}
}

func Release(addr uintptr) {
	if r := active; r != nil && r.cur != nil {
		c := r.clocks[addr]
		if c == nil {
			c = make([]int, len(r.threads))
			r.clocks[addr] = c
		}
		join(c, r.cur.vc)
		r.cur.vc[r.cur.id]++
	}
}

// Cell is plain memory, protected only by what the code under test provides.
type Cell struct {
	V      int
	writes []int // per thread: clock of its last write
	reads  []int
}

func (c *Cell) access(write bool) (ok bool) {
	r := active
	n := len(r.threads)
	if c.writes == nil {
		c.writes, c.reads = make([]int, n), make([]int, n)
	}
	me := r.cur
	ok = true
	for i := 0; i < n; i++ {
		if i == me.id {
			continue
		}
		if c.writes[i] > me.vc[i] || write && c.reads[i] > me.vc[i] {
			ok = false
		}
	}
	if write {
		c.writes[me.id] = me.vc[me.id]
	} else {
		c.reads[me.id] = me.vc[me.id]
	}
	return ok
}

// Read and Write report whether every conflicting access of other threads
// happened before this one.
func (c *Cell) Read() (int, bool) { ok := c.access(false); return c.V, ok }

func (c *Cell) Write(v int) bool { ok := c.access(true); c.V = v; return ok }
