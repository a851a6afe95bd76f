// P37: the lock-free containers, generated from their templates.
package main

import (
	"fmt"
	"runtime"

	ilf "instr/lf"
	ilf2 "instr/lf_go"
	"tpl/lf"
	lf2 "tpl/lf_go"
	. "vgx/pbt"
	"vgx/sched"
)

type queueI interface {
	PushFront(int) bool
	PopFront() (int, bool)
	Clear()
	Size() int
	Empty() bool
}

type dequeI interface {
	Init(int32)
	PushFront(int) bool
	PushBack(int) bool
	PopFront() (int, bool)
	PopBack() (int, bool)
	Clear()
	Cap() uint32
	Size() uint32
	Empty() bool
}

type ringI interface {
	Init(int)
	MustPush(int) bool
	MustPop() (int, bool)
	Push(int) bool
	Pop() (int, bool)
	Cap() uint32
	Size() int
	Empty() bool
}

func main() {
	var checks []Check
	add := func(name string, iq, pq func() queueI, id, pd func() dequeI) {
		checks = append(checks,
			Check{Name: "queue-schedules" + name, Quick: 20000, Thorough: 1500000, Enum: 10000, EnumThor: 1000000, Fn: queueSchedules(iq)},
			Check{Name: "deque-schedules" + name, Quick: 20000, Thorough: 1500000, Enum: 10000, EnumThor: 1000000, Fn: dequeSchedules(id)},
			Check{Name: "queue-history" + name, Quick: 8000, Thorough: 400000, Fn: queueHistory(pq)},
			Check{Name: "deque-history" + name, Quick: 20000, Thorough: 1000000, Fn: dequeHistory(id)},
			Check{Name: "queue-threads" + name, Quick: 600, Thorough: 30000, Fn: queueThreads(pq), Race: true},
			Check{Name: "deque-large" + name, Quick: 6, Thorough: 200, Fn: dequeLarge(id)},
			Check{Name: "deque-threads" + name, Quick: 600, Thorough: 30000, Fn: dequeThreads(pd), Race: true})
	}
	add("", func() queueI { return &ilf.LfLFQueue{} }, func() queueI { return &lf.LfLFQueue{} },
		func() dequeI { return &ilf.LfLFDeque{} }, func() dequeI { return &lf.LfLFDeque{} })
	add(".go", func() queueI { return &ilf2.LfLFQueue{} }, func() queueI { return &lf2.LfLFQueue{} },
		func() dequeI { return &ilf2.LfLFDeque{} }, func() dequeI { return &lf2.LfLFDeque{} })
	checks = append(checks,
		Check{Name: "ring-schedules.go", Quick: 20000, Thorough: 1500000, Enum: 10000, EnumThor: 1000000, Fn: ringSchedules(func() ringI { return &ilf2.LfRingBuffer{} })},
		Check{Name: "ring-history.go", Quick: 10000, Thorough: 500000, Fn: ringHistory(func() ringI { return &ilf2.LfRingBuffer{} })},
		Check{Name: "ring-large.go", Quick: 6, Thorough: 200, Fn: ringLarge(func() ringI { return &ilf2.LfRingBuffer{} })},
		Check{Name: "ring-threads.go", Quick: 600, Thorough: 30000, Fn: ringThreads(func() ringI { return &lf2.LfRingBuffer{} }), Race: true})
	Main(Spec{
		Prop:   "P37",
		Rule:   "a case is a generated schedule of threads on a container generated at check time from the repository's template, with control moving at every statement and atomic operation of the container: 2 to 4 threads that push, pop, clear and ask on a lock-free queue, 2 to 4 threads that push and pop, waiting or not, on a ring buffer, or one that pushes and one that pops at either end of a lock-free deque of a small capacity (a push that finds it full waits); the history of calls and results must be linearizable against a plain sequence (search over all orders), the size must be right when all is quiet, and everybody finishes under a fair schedule; or such threads really, watched by the race detector, where no value is lost or doubled; or a history of calls by one thread, compared call by call with a plain sequence; non-trivial: calls of different threads overlap (schedules), five or more calls that reach three or more values (histories)",
		Checks: checks,
		Assume: []string{"control moves only at statements and atomic operations", "the small generator in harness/prep/gogp.py expands templates as the gogp tool does"},
	})
}

// op is one call of a thread, with the points at which it began and ended.
type op struct {
	kind     string
	v        int
	ok       bool
	inv, ret int
	slack    int // of a refusal: calls at work that may be the reason for it
}

func (o op) String() string { return fmt.Sprintf("%s(%d)=%v@%d-%d", o.kind, o.v, o.ok, o.inv, o.ret) }

// step applies o to the sequence m, if its result is right there.
func step(m []int, o op, limit int) ([]int, bool) {
	n := len(m)
	switch o.kind {
	case "pushFront":
		if n >= limit {
			return nil, false
		}
		return append([]int{o.v}, m...), true
	case "pushBack":
		if n >= limit {
			return nil, false
		}
		return append(append([]int(nil), m...), o.v), true
	case "popFront":
		if o.ok != (n > 0) || o.ok && m[0] != o.v {
			return nil, false
		}
		if o.ok {
			m = m[1:]
		}
		return m, true
	case "popBack":
		if o.ok != (n > 0) || o.ok && m[n-1] != o.v {
			return nil, false
		}
		if o.ok {
			m = m[:n-1]
		}
		return m, true
	case "push": // of the ring, in at the end and out at the front
		if !o.ok {
			return m, n+o.slack >= limit
		}
		if n >= limit {
			return nil, false
		}
		return append(append([]int(nil), m...), o.v), true
	case "pop":
		if !o.ok {
			return m, n <= o.slack
		}
		if n == 0 || m[0] != o.v {
			return nil, false
		}
		return m[1:], true
	case "clear":
		return nil, true
	case "empty":
		return m, o.ok == (n == 0)
	}
	panic(o.kind)
}

// linearizable looks for an order of the calls that respects their times and
// explains every result; it returns the sequence at the end.
func linearizable(hist [][]op, limit int) ([]int, bool) {
	seen := map[string]bool{}
	pos := make([]int, len(hist))
	var end []int
	var try func(m []int) bool
	try = func(m []int) bool {
		key := fmt.Sprint(pos, m)
		if seen[key] {
			return false
		}
		seen[key] = true
		first, left := int(^uint(0)>>1), false // the earliest end of a call to come
		for t, i := range pos {
			if i < len(hist[t]) {
				left = true
				if r := hist[t][i].ret; r < first {
					first = r
				}
			}
		}
		if !left {
			end = m
			return true
		}
		for t, i := range pos {
			if i < len(hist[t]) && hist[t][i].inv <= first {
				if m2, ok := step(m, hist[t][i], limit); ok {
					pos[t]++
					if try(m2) {
						return true
					}
					pos[t]--
				}
			}
		}
		return false
	}
	ok := try(nil)
	return end, ok
}

func overlap(hist [][]op) bool {
	for t := range hist {
		for u := 0; u < t; u++ {
			for _, a := range hist[t] {
				for _, b := range hist[u] {
					if a.inv < b.ret && b.inv < a.ret {
						return true
					}
				}
			}
		}
	}
	return false
}

func plan(g *G, n int) []sched.Slice {
	var p []sched.Slice
	g.Steps(16, 60, func(int) {
		s := sched.Slice{Thread: g.N(n)}
		if g.Enum() {
			s.Points = 1 + g.N(14)
		} else {
			switch g.N(3) {
			case 0:
				s.Points = 1 + g.N(4)
			case 1:
				s.Points = 1 + g.N(14)
			default:
				s.Points = 1 + g.N(50)
			}
		}
		p = append(p, s)
	})
	return p
}

func end(g *G, failed interface{}, hist [][]op) {
	switch x := failed.(type) {
	case nil:
	case sched.Stuck:
		g.Fatalf("under a fair schedule %v; calls so far: %v", x, hist)
	default:
		panic(x)
	}
}

func queueSchedules(mk func() queueI) func(*G) {
	return func(g *G) {
		n, max := 2, 3
		if !g.Enum() {
			n = 2 + g.N(3)
			max = 1 + g.N(4)
		}
		q := mk()
		kinds := make([][]int, n)
		start := g.N(3)
		next := 100
		hist := make([][]op, n+1)
		for i := 0; i < start; i++ { // what is there before
			q.PushFront(i + 1)
			hist[n] = append(hist[n], op{kind: "pushFront", v: i + 1, ok: true, inv: -9 + 2*i, ret: -8 + 2*i})
		}
		for t := range kinds {
			for k := 0; k < max; k++ {
				kinds[t] = append(kinds[t], g.N(9))
			}
		}
		p := plan(g, n)
		quantum := 1 + g.N(9)
		g.Logf("%d threads, calls %v, %d values at first, plan %v, then %d points in turn", n, kinds, start, p, quantum)
		clock := 0
		fs := make([]func(*sched.Run, int), n)
		for t := range fs {
			fs[t] = func(r *sched.Run, id int) {
				for _, k := range kinds[id] {
					sched.Yield()
					clock++
					o := op{inv: clock}
					switch {
					case k < 4:
						o.kind, o.v, o.ok = "pushFront", next, true
						next++
						if !q.PushFront(o.v) {
							g.Fatalf("a push of %d is refused", o.v)
						}
					case k < 7:
						o.kind = "popFront"
						o.v, o.ok = q.PopFront()
					case k == 7:
						o.kind = "empty"
						o.ok = q.Empty()
					default:
						o.kind = "clear"
						q.Clear()
						o.ok = true
					}
					clock++
					o.ret = clock
					hist[id] = append(hist[id], o)
					g.Logf("thread %d: %v", id, o)
				}
			}
		}
		_, failed := sched.Go(p, quantum, 100000, fs...)
		end(g, failed, hist)
		if overlap(hist[:n]) {
			g.NonTrivial()
		}
		size := q.Size()
		for t := 0; ; t++ { // what is left
			v, ok := q.PopFront()
			hist[n] = append(hist[n], op{kind: "popFront", v: v, ok: ok, inv: 1000000 + 2*t, ret: 1000001 + 2*t})
			if !ok {
				g.Check(t == size, "the size is %d with %d values in it, after %v", size, t, hist)
				break
			}
			if t > 100 {
				g.Fatalf("the queue does not end, after %v", hist)
			}
		}
		g.Check(q.Size() == 0 && q.Empty(), "emptied: size %d, empty %v", q.Size(), q.Empty())
		if _, ok := linearizable(hist, 1<<30); !ok {
			g.Fatalf("no order of the calls explains the results: %v", hist)
		}
	}
}

func dequeSchedules(mk func() dequeI) func(*G) {
	return func(g *G) {
		d := mk()
		c := 2 + g.N(4)
		d.Init(int32(c))
		g.Check(int(d.Cap()) == c, "a capacity of %d becomes %d", c, d.Cap())
		limit := c - 1
		hist := make([][]op, 3)
		clock := 0
		// turn the ring before
		for i := g.N(2 * c); i > 0; i-- {
			if g.Bool() {
				d.PushBack(7)
				d.PopFront()
			} else {
				d.PushFront(7)
				d.PopBack()
			}
		}
		g.Check(d.Size() == 0, "one value in and out leaves %d", d.Size())
		total := 1 + g.N(4)
		if !g.Enum() {
			total = 1 + g.N(9)
		}
		mode := g.N(3) // both ends, or a plain queue
		fronts, backs := make([]bool, total), make([]bool, 8)
		for i := range fronts {
			fronts[i] = mode == 0 && g.Bool()
		}
		for i := range backs {
			backs[i] = mode < 2 && g.Bool()
		}
		p := plan(g, 2)
		quantum := 1 + g.N(9)
		g.Logf("capacity %d, %d values, to the front: %v, from the back: %v, plan %v, then %d points in turn", c, total, fronts, backs, p, quantum)
		_, failed := sched.Go(p, quantum, 100000,
			func(r *sched.Run, id int) {
				for i := 0; i < total; i++ {
					sched.Yield()
					clock++
					o := op{kind: "pushBack", v: i + 1, ok: true, inv: clock}
					if fronts[i] {
						o.kind = "pushFront"
						o.ok = d.PushFront(o.v)
					} else {
						o.ok = d.PushBack(o.v)
					}
					if !o.ok {
						g.Fatalf("%v refused", o)
					}
					clock++
					o.ret = clock
					hist[0] = append(hist[0], o)
					g.Logf("%v", o)
				}
			},
			func(r *sched.Run, id int) {
				for got, i := 0, 0; got < total; i++ {
					sched.Yield()
					clock++
					o := op{kind: "popFront", inv: clock}
					if backs[i%len(backs)] {
						o.kind = "popBack"
						o.v, o.ok = d.PopBack()
					} else {
						o.v, o.ok = d.PopFront()
					}
					if o.ok {
						got++
					}
					clock++
					o.ret = clock
					hist[1] = append(hist[1], o)
					g.Logf("%v", o)
				}
			})
		end(g, failed, hist)
		if overlap(hist[:2]) {
			g.NonTrivial()
		}
		g.Check(d.Size() == 0 && d.Empty(), "all taken out: size %d, empty %v, after %v", d.Size(), d.Empty(), hist)
		if _, ok := linearizable(hist, limit); !ok {
			g.Fatalf("no order of the calls explains the results: %v", hist)
		}
	}
}

func queueHistory(mk func() queueI) func(*G) {
	return func(g *G) {
		q := mk()
		var m []int
		calls := 0
		g.Steps(20, 200, func(int) {
			calls++
			switch g.N(7) {
			case 0, 1, 2, 3:
				v := g.Val()
				g.Logf("push %d", v)
				g.Check(q.PushFront(v), "a push is refused")
				m = append([]int{v}, m...)
			case 4, 5:
				v, ok := q.PopFront()
				g.Logf("pop %d, %v", v, ok)
				g.Check(ok == (len(m) > 0) && (!ok || v == m[0]), "pop of %v: %d, %v", m, v, ok)
				if ok {
					m = m[1:]
				}
			default:
				if g.OneIn(4) {
					g.Logf("clear")
					q.Clear()
					m = nil
				}
			}
			g.Check(q.Size() == len(m) && q.Empty() == (len(m) == 0), "size %d, empty %v with %v", q.Size(), q.Empty(), m)
			if calls >= 5 && len(m) >= 3 {
				g.NonTrivial()
			}
		})
	}
}

func dequeHistory(mk func() dequeI) func(*G) {
	return func(g *G) {
		d := mk()
		c := 8 // of one used without Init
		if g.N(4) > 0 {
			c = g.N(12)
			if c == 1 {
				c = -1
			}
			g.Logf("init with %d", c)
			d.Init(int32(c))
			if c <= 0 {
				c = 8
			}
			g.Check(int(d.Cap()) == c, "the capacity is %d, want %d", d.Cap(), c)
		}
		var m []int
		calls := 0
		g.Steps(30, 300, func(int) {
			calls++
			switch k := g.N(9); {
			case k < 5:
				if len(m) == c-1 {
					return
				}
				v := g.Val()
				if k < 3 {
					g.Logf("push %d to the back", v)
					g.Check(d.PushBack(v), "a push is refused")
					m = append(append([]int(nil), m...), v)
				} else {
					g.Logf("push %d to the front", v)
					g.Check(d.PushFront(v), "a push is refused")
					m = append([]int{v}, m...)
				}
			case k == 5 || k == 6:
				v, ok := d.PopFront()
				g.Logf("pop %d, %v from the front", v, ok)
				g.Check(ok == (len(m) > 0) && (!ok || v == m[0]), "pop from the front of %v: %d, %v", m, v, ok)
				if ok {
					m = m[1:]
				}
			case k == 7:
				v, ok := d.PopBack()
				g.Logf("pop %d, %v from the back", v, ok)
				g.Check(ok == (len(m) > 0) && (!ok || v == m[len(m)-1]), "pop from the back of %v: %d, %v", m, v, ok)
				if ok {
					m = m[:len(m)-1]
				}
			default:
				if g.OneIn(6) {
					g.Logf("clear")
					d.Clear()
					m = nil
				} else if g.OneIn(6) && calls > 1 {
					g.Logf("init again")
					d.Init(int32(c))
					m = nil
					g.Check(int(d.Cap()) == c, "the capacity is %d, want %d", d.Cap(), c)
				}
			}
			g.Check(int(d.Size()) == len(m) && d.Empty() == (len(m) == 0), "size %d, empty %v with %v", d.Size(), d.Empty(), m)
			if calls >= 5 && len(m) >= 3 {
				g.NonTrivial()
			}
		})
	}
}

// real threads under the race detector: nothing is lost, nothing comes out twice
func queueThreads(mk func() queueI) func(g *G) {
	return func(g *G) {
		q := mk()
		n := 2 + g.N(3)
		ops := make([][]bool, n)
		for i := range ops {
			for k := 1 + g.N(5); k > 0; k-- {
				ops[i] = append(ops[i], g.Bool())
			}
		}
		g.Logf("threads push (true) or pop: %v", ops)
		got := make([][]int, n)
		Together(n, func(t int) {
			for k, push := range ops[t] {
				if push {
					q.PushFront(t*100 + k + 1)
				} else if v, ok := q.PopFront(); ok {
					got[t] = append(got[t], v)
				}
				_, _ = q.Size(), q.Empty()
			}
		})
		left := map[int]bool{}
		for t := range ops {
			for k, push := range ops[t] {
				if push {
					left[t*100+k+1] = true
				}
			}
		}
		out := func(v int) {
			g.Check(left[v], "%d comes out a second time, or was never put in (%v)", v, got)
			delete(left, v)
		}
		for _, l := range got {
			for _, v := range l {
				out(v)
			}
		}
		g.Check(q.Size() == len(left), "%d values are left, the size is %d", len(left), q.Size())
		for len(left) > 0 {
			v, ok := q.PopFront()
			g.Check(ok, "the values %v are lost", left)
			out(v)
		}
		g.Check(q.Empty(), "not empty at the end")
		g.NonTrivial()
	}
}

func dequeThreads(mk func() dequeI) func(g *G) {
	return func(g *G) {
		d := mk()
		d.Init(int32(2 + g.N(6)))
		push := make([]bool, 1+g.N(12))
		pop := make([]bool, len(push))
		for i := range push {
			push[i], pop[i] = g.Bool(), g.Bool()
		}
		g.Logf("capacity %d, pushes at the back %v, pops there %v", d.Cap(), push, pop)
		left := map[int]bool{}
		for i := range push {
			left[i+1] = true
		}
		Together(2, func(t int) {
			if t == 0 {
				for i, back := range push {
					if back {
						d.PushBack(i + 1)
					} else {
						d.PushFront(i + 1)
					}
					_, _ = d.Size(), d.Empty()
				}
				return
			}
			for _, back := range pop {
				for {
					f := d.PopFront
					if back {
						f = d.PopBack
					}
					x, ok := f()
					if ok {
						g.Check(left[x], "%d comes out a second time, or was never put in", x)
						delete(left, x)
						break
					}
					runtime.Gosched()
				}
			}
		})
		g.Check(d.Empty() && len(left) == 0, "not empty at the end, or lost: %v", left)
		g.NonTrivial()
	}
}

// a ring with a capacity, turned and with some values in it
func ring(g *G, mk func() ringI) (q ringI, c int, hist []op) {
	q = mk()
	ask := g.N(9)
	if g.OneIn(4) {
		ask = 9 + g.N(9)
	}
	q.Init(ask)
	c = ringCap(ask)
	g.Check(int(q.Cap()) == c, "a capacity of %d becomes %d, want %d", ask, q.Cap(), c)
	for i := g.N(2 * c); i > 0; i-- {
		g.Check(q.Push(7), "a push on an empty ring is refused")
		v, ok := q.Pop()
		g.Check(ok && v == 7, "7 goes in, %d, %v comes out", v, ok)
	}
	start := g.N(c + 1)
	if g.Bool() {
		start = c - g.N(3)
	}
	for i := 0; i < start; i++ {
		g.Check(q.Push(i+1), "a push is refused with %d values of %d", i, c)
		hist = append(hist, op{kind: "push", v: i + 1, ok: true, inv: -100 + 2*i, ret: -99 + 2*i})
	}
	return q, c, hist
}

func ringCap(ask int) int {
	c := 8
	for c < ask {
		c *= 2
	}
	return c
}

// who of n threads pushes and pops what: threads that do both use only the
// calls that do not wait; where there are calls that wait, the numbers make
// sure that nobody has to wait for ever.
func ringRoles(g *G, n, c, start, max int) (must [][]bool, push [][]bool) {
	must, push = make([][]bool, n), make([][]bool, n)
	waits := g.Bool()
	mustPush, mustPop, pushes, pops := 0, 0, 0, 0
	for k := 0; k < max; k++ {
		for t := range push {
			m, p := waits && g.N(3) > 0, g.Bool()
			if waits {
				p = t%2 == 0
			}
			if waits && (p && start+mustPush+pushes >= mustPop+c || !p && mustPop+pops >= start+mustPush) {
				continue // might leave somebody waiting for ever
			}
			must[t], push[t] = append(must[t], m), append(push[t], p)
			switch {
			case m && p:
				mustPush++
			case m:
				mustPop++
			case p:
				pushes++
			default:
				pops++
			}
		}
	}
	return
}

func ringCall(q ringI, must, push bool, v int) op {
	switch {
	case must && push:
		return op{kind: "push", v: v, ok: q.MustPush(v)}
	case must:
		v, ok := q.MustPop()
		return op{kind: "pop", v: v, ok: ok}
	case push:
		return op{kind: "push", v: v, ok: q.Push(v)}
	}
	v, ok := q.Pop()
	return op{kind: "pop", v: v, ok: ok}
}

// slack counts, for each refusal, the calls of the other kind it overlaps with: a
// place is not free before the pop of its value has ended, and a value is not
// there before its push has.
func slack(hist [][]op) {
	for t := range hist {
		for i := range hist[t] {
			o := &hist[t][i]
			if o.ok {
				continue
			}
			for u := range hist {
				for _, x := range hist[u] {
					if u != t && x.ok && x.kind != o.kind && x.inv < o.ret && o.inv < x.ret {
						o.slack++
					}
				}
			}
		}
	}
}

func ringSchedules(mk func() ringI) func(*G) {
	return func(g *G) {
		n, max := 2, 3
		if !g.Enum() {
			n = 2 + g.N(3)
			max = 1 + g.N(4)
		}
		q, c, before := ring(g, mk)
		hist := make([][]op, n+1)
		hist[n] = before
		must, push := ringRoles(g, n, c, len(before), max)
		p := plan(g, n)
		quantum := 1 + g.N(9)
		g.Logf("%d threads, waiting calls %v, pushes %v, capacity %d, %d values at first, plan %v, then %d points in turn", n, must, push, c, len(before), p, quantum)
		clock, next := 0, 100
		fs := make([]func(*sched.Run, int), n)
		for t := range fs {
			fs[t] = func(r *sched.Run, id int) {
				for k := range push[id] {
					sched.Yield()
					clock++
					inv := clock
					next++
					o := ringCall(q, must[id][k], push[id][k], next)
					clock++
					o.inv, o.ret = inv, clock
					if must[id][k] && !o.ok {
						g.Fatalf("a call that waits says false: %v", o)
					}
					hist[id] = append(hist[id], o)
					g.Logf("thread %d: %v", id, o)
				}
			}
		}
		_, failed := sched.Go(p, quantum, 100000, fs...)
		end(g, failed, hist)
		if overlap(hist[:n]) {
			g.NonTrivial()
		}
		slack(hist[:n])
		size := q.Size()
		g.Check(q.Empty() == (size == 0), "size %d, empty %v", size, q.Empty())
		for t := 0; ; t++ { // what is left
			v, ok := q.Pop()
			hist[n] = append(hist[n], op{kind: "pop", v: v, ok: ok, inv: 1000000 + 2*t, ret: 1000001 + 2*t})
			if !ok {
				g.Check(t == size, "the size is %d with %d values in it, after %v", size, t, hist)
				break
			}
			if t > 100 {
				g.Fatalf("the ring does not end, after %v", hist)
			}
		}
		g.Check(q.Size() == 0 && q.Empty(), "emptied: size %d, empty %v", q.Size(), q.Empty())
		if _, ok := linearizable(hist, c); !ok {
			g.Fatalf("no order of the calls explains the results: %v", hist)
		}
	}
}

func ringHistory(mk func() ringI) func(*G) {
	return func(g *G) {
		q := mk()
		ask := g.Int(-3, 20)
		if g.OneIn(5) {
			ask = g.Int(20, 300)
		}
		c := ringCap(ask)
		g.Logf("init with %d", ask)
		q.Init(ask)
		g.Check(int(q.Cap()) == c, "the capacity is %d, want %d", q.Cap(), c)
		var m []int
		calls := 0
		up := true
		g.Steps(60, 600, func(int) {
			calls++
			if g.OneIn(12) {
				up = !up
			}
			p := g.N(4) > 0
			if !up {
				p = !p
			}
			must := g.N(3) == 0
			if must && p && len(m) >= c || must && !p && len(m) == 0 {
				must = false // would wait for ever
			}
			o := ringCall(q, must, p, g.Val())
			g.Logf("%s (waiting %v) %d, %v", o.kind, must, o.v, o.ok)
			m2, ok := step(m, o, c)
			g.Check(ok, "%s (waiting %v) %d, %v with %d of %d there: %v", o.kind, must, o.v, o.ok, len(m), c, m)
			m = m2
			g.Check(q.Size() == len(m) && q.Empty() == (len(m) == 0), "size %d, empty %v with %v", q.Size(), q.Empty(), m)
			if calls >= 5 && len(m) >= 3 {
				g.NonTrivial()
			}
		})
		for i := 0; len(m) > 0; i++ {
			v, ok := q.Pop()
			g.Check(ok && v == m[0], "%d, %v comes out, want %v", v, ok, m)
			m = m[1:]
		}
		_, ok := q.Pop()
		g.Check(!ok && q.Empty(), "not empty at the end")
	}
}

func ringThreads(mk func() ringI) func(*G) {
	return func(g *G) {
		q, c, before := ring(g, mk)
		n := 2 + g.N(3)
		must, push := ringRoles(g, n, c, len(before), 1+g.N(6))
		g.Logf("waiting calls %v, pushes %v, capacity %d, %d values at first", must, push, c, len(before))
		hist := make([][]op, n)
		Together(n, func(t int) {
			for k := range push[t] {
				hist[t] = append(hist[t], ringCall(q, must[t][k], push[t][k], 100*(t+1)+k))
				_, _ = q.Size(), q.Empty()
			}
		})
		left := map[int]bool{}
		for _, h := range append(hist, before) {
			for _, o := range h {
				if o.kind == "push" && o.ok {
					left[o.v] = true
				}
			}
		}
		out := func(v int) {
			g.Check(left[v], "%d comes out a second time, or was never put in (%v)", v, hist)
			delete(left, v)
		}
		for t, h := range hist {
			last := map[int]int{}
			for k, o := range h {
				g.Check(o.ok || !must[t][k], "a call that waits says false: %v", o)
				if o.kind == "pop" && o.ok {
					out(o.v)
					who := o.v / 100
					g.Check(last[who] < o.v, "%d comes out after %d, to the same thread", o.v, last[who])
					last[who] = o.v
				}
			}
		}
		g.Check(q.Size() == len(left), "%d values are left, the size is %d", len(left), q.Size())
		for len(left) > 0 {
			v, ok := q.Pop()
			g.Check(ok, "the values %v are lost", left)
			out(v)
		}
		g.Check(q.Empty(), "not empty at the end")
		g.NonTrivial()
	}
}

// alone runs f as the only thread: a call that waits for ever fails the case
func alone(g *G, f func()) {
	_, failed := sched.Go(nil, 1<<40, 200000000, func(*sched.Run, int) { f() })
	end(g, failed, nil)
}

// capacities beyond what few bits count
func dequeLarge(mk func() dequeI) func(*G) {
	return func(g *G) {
		c := g.Big(60000, 140000)
		d := mk()
		d.Init(int32(c))
		g.Logf("capacity %d", c)
		g.Check(int(d.Cap()) == c, "the capacity is %d, want %d", d.Cap(), c)
		alone(g, func() {
			turn := g.N(c)
			for i := 0; i < turn; i++ {
				d.PushBack(i)
				if v, ok := d.PopFront(); !ok || v != i {
					g.Fatalf("%d goes in at the back, %d, %v comes out at the front", i, v, ok)
				}
			}
			m := c - 1
			front := g.N(m + 1) // how many of them go in at the front
			g.Logf("turned by %d, %d values, %d of them at the front", turn, m, front)
			for i := 0; i < m; i++ {
				ok := false
				if i < front {
					ok = d.PushFront(front - 1 - i)
				} else {
					ok = d.PushBack(i)
				}
				if !ok || int(d.Size()) != i+1 || d.Empty() {
					g.Fatalf("pushed %d values: %v, size %d, empty %v", i+1, ok, d.Size(), d.Empty())
				}
			}
			back := g.N(m + 1)
			for i := 0; i < m; i++ {
				want, v, ok := 0, 0, false
				if i < back {
					want = m - 1 - i
					v, ok = d.PopBack()
				} else {
					want = i - back
					v, ok = d.PopFront()
				}
				if !ok || v != want || int(d.Size()) != m-1-i || d.Empty() != (i == m-1) {
					g.Fatalf("value %d of %d to come out is %d, %v instead of %d, size %d, empty %v", i, m, v, ok, want, d.Size(), d.Empty())
				}
			}
			_, ok := d.PopFront()
			g.Check(!ok, "not empty at the end")
		})
		g.NonTrivial()
	}
}

func ringLarge(mk func() ringI) func(*G) {
	return func(g *G) {
		ask := g.Big(200, 140000)
		c := ringCap(ask)
		q := mk()
		q.Init(ask)
		g.Logf("asked for %d", ask)
		g.Check(int(q.Cap()) == c, "the capacity is %d, want %d", q.Cap(), c)
		alone(g, func() {
			turn := g.N(c)
			must := g.Bool()
			for i := 0; i < turn; i++ {
				ringCall(q, must, true, i)
				if o := ringCall(q, must, false, 0); !o.ok || o.v != i {
					g.Fatalf("%d goes in, %d, %v comes out", i, o.v, o.ok)
				}
			}
			for i := 0; i < c; i++ {
				if o := ringCall(q, must, true, i); !o.ok || q.Size() != i+1 || q.Empty() {
					g.Fatalf("pushed %d values of %d: %v, size %d, empty %v", i+1, c, o.ok, q.Size(), q.Empty())
				}
			}
			g.Check(!q.Push(1), "more than %d values go in", c)
			for i := 0; i < c; i++ {
				if o := ringCall(q, must, false, 0); !o.ok || o.v != i || q.Size() != c-1-i || q.Empty() != (i == c-1) {
					g.Fatalf("value %d of %d to come out is %d, %v, size %d, empty %v", i, c, o.v, o.ok, q.Size(), q.Empty())
				}
			}
			_, ok := q.Pop()
			g.Check(!ok, "not empty at the end")
		})
		g.NonTrivial()
	}
}
