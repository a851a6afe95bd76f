// P24: the spin lock.
package main

import (
	"runtime"
	"sync"

	real "github.com/vipally/gx/sync"
	gxsync "instr/gxsync"
	. "vgx/pbt"
	"vgx/sched"
)

func main() {
	Main(Spec{
		Prop: "P24",
		Rule: "a case is a generated schedule of 2 to 4 threads that lock, work on unprotected memory and unlock a few times each, with control moving at every statement and atomic operation of the lock (and every step inside the section); checked at every step: at most one thread inside, everything done inside before is ordered before (vector clocks over the atomic operations), nobody panics, everybody finishes under a fair schedule; plus a waiter that is refused a million times, a waiter on a lock that is never released, unlocks of unlocked locks, and real threads, also watched by the race detector; non-trivial: a thread was stopped inside its section while another one tried to enter",
		Checks: []Check{
			{Name: "schedules", Quick: 60000, Thorough: 3000000, Enum: 60000, EnumThor: 6000000, Fn: schedules},
			{Name: "patience", Quick: 8, Thorough: 64, Fn: patience},
			{Name: "misuse", Quick: 20000, Thorough: 400000, Enum: 3000, EnumThor: 30000, Fn: misuse},
			{Name: "threads", Quick: 64, Thorough: 4000, Fn: threads},
			{Name: "watched", Quick: 1500, Thorough: 60000, Fn: watched, Race: true},
		},
		Final:  endless,
		Assume: []string{"control moves only at statements and atomic operations of the lock: an interleaving inside a single plain memory access is not explored"},
	})
}

func plan(g *G, n int) []sched.Slice {
	var p []sched.Slice
	g.Steps(14, 60, func(int) {
		s := sched.Slice{Thread: g.N(n)}
		if g.Enum() {
			s.Points = 1 + g.N(24)
		} else {
			switch g.N(3) {
			case 0:
				s.Points = 1 + g.N(4)
			case 1:
				s.Points = 1 + g.N(16)
			default:
				s.Points = 1 + g.N(60)
			}
		}
		p = append(p, s)
	})
	return p
}

func schedules(g *G) {
	n, rounds := 2, 1
	if g.Enum() {
		n = 2 + g.N(2)
	} else {
		n, rounds = 2+g.N(3), 1+g.N(3)
	}
	p := plan(g, n)
	quantum := 1 + g.N(9)
	g.Logf("%d threads, %d rounds each, plan %v, then %d points in turn", n, rounds, p, quantum)
	var l gxsync.SpinLock
	var cell sched.Cell
	inside, trying, contended := 0, 0, false
	body := func(r *sched.Run, id int) {
		for k := 0; k < rounds; k++ {
			sched.Yield()
			trying++
			if inside > 0 {
				contended = true
			}
			l.Lock()
			trying--
			inside++
			if inside != 1 {
				g.Fatalf("%d threads are inside at once", inside)
			}
			g.Logf("thread %d enters at point %d", id, r.Steps())
			v, ok := cell.Read()
			if !ok {
				g.Fatalf("thread %d enters without seeing what was done under the lock before (not ordered after it)", id)
			}
			sched.Yield()
			if inside != 1 {
				g.Fatalf("%d threads are inside at once", inside)
			}
			if trying > 0 {
				contended = true
			}
			sched.Yield()
			if !cell.Write(v + 1) {
				g.Fatalf("thread %d writes while other work under the lock is not ordered before it", id)
			}
			if inside != 1 {
				g.Fatalf("%d threads are inside at once", inside)
			}
			inside--
			g.Logf("thread %d leaves at point %d", id, r.Steps())
			l.Unlock()
		}
	}
	fs := make([]func(*sched.Run, int), n)
	for i := range fs {
		fs[i] = body
	}
	r, failed := sched.Go(p, quantum, 200000, fs...)
	end(g, failed)
	if contended && r.Switches > n {
		g.NonTrivial()
	}
	if cell.V != n*rounds {
		g.Fatalf("%d increments under the lock gave %d", n*rounds, cell.V)
	}
}

// end passes on what a run ended with.
func end(g *G, failed interface{}) {
	switch x := failed.(type) {
	case nil:
	case sched.Stuck:
		g.Fatalf("under a fair schedule %v", x)
	default:
		panic(x)
	}
}

// a holder that takes its time does not make the waiters give up
func patience(g *G) {
	hold := 1000000 + g.N(1000000)
	g.Logf("a waiter is refused for %d points", hold)
	g.NonTrivial()
	var l gxsync.SpinLock
	got := 0
	_, failed := sched.Go([]sched.Slice{{0, 40}, {1, hold}}, 50, 20000000,
		func(r *sched.Run, id int) {
			l.Lock()
			for i := 0; i < 100; i++ {
				sched.Yield()
			}
			if got != 0 {
				g.Fatalf("two threads inside")
			}
			l.Unlock()
		},
		func(r *sched.Run, id int) {
			l.Lock()
			got++
			l.Unlock()
		})
	end(g, failed)
	g.Check(got == 1, "the waiter did not get the lock")
}

func misuse(g *G) {
	l := &real.SpinLock{}
	held, bad := false, 0
	g.Steps(10, 60, func(int) {
		if held {
			l.Unlock()
			held = false
			g.Logf("unlock")
			return
		}
		if g.Bool() {
			l.Lock()
			held = true
			g.Logf("lock")
			return
		}
		g.Logf("unlock of the unlocked lock")
		bad++
		p, _ := g.Panics(l.Unlock)
		g.Check(p, "unlocking an unlocked lock goes unnoticed")
	})
	if !held {
		l.Lock()
	}
	l.Unlock()
	if bad > 0 {
		g.NonTrivial()
	}
}

func threads(g *G) {
	n, rounds := 2+g.N(5), 50+g.N(400)
	var l real.SpinLock
	v, inside, unclear := 0, 0, false
	var wg sync.WaitGroup
	var mu sync.Mutex
	fail := ""
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil { // spun too long: the machine is busy
					mu.Lock()
					unclear = true
					mu.Unlock()
				}
			}()
			for k := 0; k < rounds; k++ {
				l.Lock()
				inside++
				if inside != 1 {
					mu.Lock()
					fail = "two threads inside at once"
					mu.Unlock()
				}
				v++
				if k%16 == 0 {
					runtime.Gosched()
				}
				inside--
				l.Unlock()
			}
		}()
	}
	wg.Wait()
	if fail != "" {
		g.Fatalf("%d threads, %d rounds: %s", n, rounds, fail)
	}
	if unclear {
		g.Label("gave up spinning")
		return
	}
	g.NonTrivial()
	g.Check(v == n*rounds, "%d threads incrementing %d times under the lock gave %d", n, rounds, v)
}

// real threads under the race detector
func watched(g *G) {
	n := 2 + g.N(4)
	rounds := make([]int, n)
	sum := 0
	for i := range rounds {
		rounds[i] = 1 + g.N(4)
		sum += rounds[i]
	}
	g.Logf("threads enter %v times", rounds)
	var l real.SpinLock
	v := 0
	gaveUp := make([]bool, n)
	Together(n, func(i int) {
		defer func() { gaveUp[i] = recover() != nil }() // spun too long: the machine is busy
		for k := 0; k < rounds[i]; k++ {
			l.Lock()
			v++
			l.Unlock()
		}
	})
	for _, x := range gaveUp {
		if x {
			g.Discard()
		}
	}
	g.NonTrivial()
	g.Check(v == sum, "%d increments under the lock gave %d", sum, v)
}

// a lock that is never released is reported rather than waited for without end
func endless(g *G) {
	l := &real.SpinLock{}
	l.Lock()
	p, _ := g.Panics(l.Lock)
	g.Check(p, "a second Lock of a held lock returned")
}
