// P25: the readers-writer spin lock.
package main

import (
	"runtime"
	"sync"
	"sync/atomic"

	real "github.com/vipally/gx/sync"
	gxsync "instr/gxsync"
	. "vgx/pbt"
	"vgx/sched"
)

func main() {
	Main(Spec{
		Prop: "P25",
		Rule: "a case is a generated schedule of 2 to 4 threads that read- or write-lock, work on unprotected memory and unlock a few times each, with control moving at every statement and atomic operation of the lock; checked at every step: a writer is alone, readers only share with readers, everything done under conflicting locks before is ordered before (vector clocks), nobody panics, everybody finishes under a fair schedule; plus generated single-step histories against a model of who must be let in and who must wait, unlocks without lock, waits without end, and real threads, also watched by the race detector; non-trivial: a thread tried to enter while a conflicting one was inside",
		Checks: []Check{
			{Name: "schedules", Quick: 60000, Thorough: 3000000, Enum: 60000, EnumThor: 6000000, Fn: schedules},
			{Name: "admission", Quick: 4000, Thorough: 200000, Enum: 2000, EnumThor: 60000, Fn: admission},
			{Name: "misuse", Quick: 20000, Thorough: 400000, Enum: 3000, EnumThor: 30000, Fn: misuse},
			{Name: "threads", Quick: 64, Thorough: 4000, Fn: threads},
			{Name: "crowd", Quick: 60, Thorough: 2000, Fn: crowd},
			{Name: "watched", Quick: 1500, Thorough: 60000, Fn: watched, Race: true},
		},
		Final:  endless,
		Assume: []string{"control moves only at statements and atomic operations of the lock: an interleaving inside a single plain memory access is not explored"},
	})
}

func plan(g *G, n int) []sched.Slice {
	var p []sched.Slice
	g.Steps(14, 60, func(int) {
		s := sched.Slice{Thread: g.N(n)}
		if g.Enum() {
			s.Points = 1 + g.N(24)
		} else {
			switch g.N(3) {
			case 0:
				s.Points = 1 + g.N(4)
			case 1:
				s.Points = 1 + g.N(16)
			default:
				s.Points = 1 + g.N(60)
			}
		}
		p = append(p, s)
	})
	return p
}

func end(g *G, failed interface{}) {
	switch x := failed.(type) {
	case nil:
	case sched.Stuck:
		g.Fatalf("under a fair schedule %v", x)
	default:
		panic(x)
	}
}

func schedules(g *G) {
	n, rounds := 2, 1
	if g.Enum() {
		n = 2 + g.N(2)
	} else {
		n, rounds = 2+g.N(3), 1+g.N(3)
	}
	writes := make([][]bool, n)
	total := 0
	for i := range writes {
		for k := 0; k < rounds; k++ {
			w := g.Bool()
			writes[i] = append(writes[i], w)
			if w {
				total++
			}
		}
	}
	p := plan(g, n)
	quantum := 1 + g.N(9)
	g.Logf("%d threads, writes %v, plan %v, then %d points in turn", n, writes, p, quantum)
	var l gxsync.RWSpinLock
	var cell sched.Cell
	readers, writers, contended := 0, 0, false
	check := func() {
		if writers > 1 || writers == 1 && readers > 0 {
			g.Fatalf("%d writers and %d readers are inside at once", writers, readers)
		}
	}
	shared := false
	body := func(r *sched.Run, id int) {
		for k := 0; k < rounds; k++ {
			sched.Yield()
			if writes[id][k] {
				if readers+writers > 0 {
					contended = true
				}
				l.Lock()
				writers++
				check()
				g.Logf("writer %d enters at point %d", id, r.Steps())
				v, ok := cell.Read()
				if !ok {
					g.Fatalf("writer %d enters without seeing what was written under the lock before (not ordered after it)", id)
				}
				sched.Yield()
				check()
				sched.Yield()
				if !cell.Write(v + 1) {
					g.Fatalf("writer %d writes while other work under the lock is not ordered before it", id)
				}
				check()
				writers--
				g.Logf("writer %d leaves at point %d", id, r.Steps())
				l.Unlock()
				continue
			}
			if writers > 0 {
				contended = true
			}
			l.RLock()
			readers++
			check()
			g.Logf("reader %d enters at point %d", id, r.Steps())
			v, ok := cell.Read()
			if !ok {
				g.Fatalf("reader %d enters without seeing what was written under the lock before (not ordered after it)", id)
			}
			sched.Yield()
			check()
			if readers > 1 {
				shared = true
			}
			sched.Yield()
			if w, ok := cell.Read(); w != v || !ok {
				g.Fatalf("reader %d sees %d, then %d", id, v, w)
			}
			check()
			readers--
			g.Logf("reader %d leaves at point %d", id, r.Steps())
			l.RUnlock()
		}
	}
	fs := make([]func(*sched.Run, int), n)
	for i := range fs {
		fs[i] = body
	}
	_, failed := sched.Go(p, quantum, 200000, fs...)
	end(g, failed)
	if contended {
		g.NonTrivial()
	}
	if shared {
		g.Label("readers share")
	}
	if cell.V != total {
		g.Fatalf("%d increments under the write lock gave %d", total, cell.V)
	}
}

// admission: the operations are started one at a time, each running alone until
// it is through or has tried long enough; who gets in follows the model.
func admission(g *G) {
	const patience = 600
	type act struct {
		write, unlock bool
		who           int
	}
	n := 3
	if !g.Enum() {
		n = 2 + g.N(4)
	}
	const (
		idle = iota
		waitR
		waitW
		inR
		inW
	)
	state := make([]int, n) // of the model
	var ctl *sched.Run
	cmd := make([]int, n)     // what a thread shall do next
	through := make([]int, n) // state the real thread reached
	stop := false
	var l gxsync.RWSpinLock
	thread := func(r *sched.Run, id int) {
		for {
			sched.Wait(func() bool { return cmd[id] != 0 || stop })
			if cmd[id] == 0 {
				return
			}
			c := cmd[id]
			cmd[id] = 0
			switch c {
			case waitR:
				l.RLock()
				through[id] = inR
			case waitW:
				l.Lock()
				through[id] = inW
			case inR:
				l.RUnlock()
				through[id] = idle
			case inW:
				l.Unlock()
				through[id] = idle
			}
		}
	}
	count := func(st int) (k int) {
		for _, s := range state {
			if s == st {
				k++
			}
		}
		return
	}
	settle := func() { // give everybody many turns
		for i := 0; i < patience; i++ {
			sched.Yield()
		}
	}
	conflict := false
	// verify compares what happened with what must have happened
	verify := func() {
		settle()
		// let the model catch up on choices it leaves open: who of several
		// waiters is next when nobody is inside
		for i := range state {
			if through[i] == state[i] {
				continue
			}
			if state[i] == waitW && through[i] == inW || state[i] == waitR && through[i] == inR {
				state[i] = through[i]
				continue
			}
			g.Fatalf("thread %d: expected state %d, is in %d", i, state[i], through[i])
		}
		r, w := count(inR), count(inW)
		if w > 1 || w == 1 && r > 0 {
			g.Fatalf("%d writers and %d readers are inside at once", w, r)
		}
		if w == 0 && r == 0 && count(waitR)+count(waitW) > 0 {
			g.Fatalf("nobody is inside, yet %d readers and %d writers keep waiting", count(waitR), count(waitW))
		}
		if w == 0 && count(waitW) == 0 && count(waitR) > 0 {
			g.Fatalf("no writer is inside or waiting, yet %d readers keep waiting", count(waitR))
		}
	}
	fs := []func(*sched.Run, int){}
	for i := 0; i < n; i++ {
		fs = append(fs, thread)
	}
	driver := func(r *sched.Run, id int) {
		ctl = r
		g.Steps(10, 40, func(int) {
			i := g.N(n)
			write := g.Bool()
			w, ww := count(inW), count(waitW)
			switch state[i] {
			case idle:
				readers := count(inR)
				if write {
					g.Logf("thread %d wants to write (%d readers, %d writers inside)", i, readers, w)
					state[i], through[i], cmd[i] = waitW, waitW, waitW
					if readers+w > 0 {
						conflict = true
					}
				} else {
					g.Logf("thread %d wants to read (%d readers, %d writers inside, %d writers waiting)", i, readers, w, ww)
					state[i], through[i], cmd[i] = waitR, waitR, waitR
					if w > 0 {
						conflict = true
					}
				}
				verify()
				if !write && w == 0 && ww > 0 && through[i] == inR {
					g.Fatalf("reader %d is let in although a writer is waiting", i)
				}
			case inR, inW:
				g.Logf("thread %d leaves", i)
				cmd[i] = state[i]
				state[i] = idle
				verify()
			}
		})
		for more := true; more; { // let everybody out
			more = false
			for i := range state {
				if state[i] == inR || state[i] == inW {
					cmd[i], state[i], more = state[i], idle, true
					verify()
				}
			}
		}
		for i := range state {
			if state[i] != idle {
				g.Fatalf("thread %d never gets in", i)
			}
		}
		stop = true
	}
	_, failed := sched.Go(nil, 20, 2000000, append(fs, driver)...)
	_ = ctl
	end(g, failed)
	if conflict {
		g.NonTrivial()
	}
}

func misuse(g *G) {
	l := &real.RWSpinLock{}
	readers, writer, bad := 0, false, 0
	must := func(what string, f func()) {
		g.Logf("%s", what)
		bad++
		p, _ := g.Panics(f)
		g.Check(p, "%s goes unnoticed", what)
	}
	g.Steps(10, 60, func(int) {
		switch k := g.N(4); {
		case writer:
			l.Unlock()
			writer = false
			g.Logf("unlock")
		case k == 0 && readers == 0:
			l.Lock()
			writer = true
			g.Logf("lock")
		case k == 1:
			l.RLock()
			readers++
			g.Logf("rlock")
		case k >= 2 && readers > 0:
			l.RUnlock()
			readers--
			g.Logf("runlock")
		}
	})
	// one misuse ends the history: what a lock does afterwards is not promised
	switch {
	case writer && g.Bool():
		must("RUnlock of a lock a writer holds", l.RUnlock)
	case readers > 0 && g.Bool():
		must("Unlock of a lock readers hold", l.Unlock)
	case writer:
		l.Unlock()
		must("unlocking twice", l.Unlock)
	case readers > 0:
		for ; readers > 0; readers-- {
			l.RUnlock()
		}
		must("one RUnlock too many", l.RUnlock)
	case g.Bool():
		must("Unlock of an unlocked lock", l.Unlock)
	default:
		must("RUnlock of an unlocked lock", l.RUnlock)
	}
	if bad > 0 {
		g.NonTrivial()
	}
}

func threads(g *G) {
	n, rounds := 2+g.N(5), 50+g.N(400)
	var l real.RWSpinLock
	a, b, unclear := 0, 0, false
	var wg sync.WaitGroup
	var mu sync.Mutex
	fail, wrote := "", 0
	for i := 0; i < n; i++ {
		write := i == 0 || g.Bool()
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil { // spun too long: the machine is busy
					mu.Lock()
					unclear = true
					mu.Unlock()
				}
			}()
			for k := 0; k < rounds; k++ {
				if write {
					l.Lock()
					a++
					if k%16 == 0 {
						runtime.Gosched()
					}
					b++
					l.Unlock()
					mu.Lock()
					wrote++
					mu.Unlock()
					continue
				}
				l.RLock()
				if a != b {
					mu.Lock()
					fail = "a reader sees a writer's work half done"
					mu.Unlock()
				}
				l.RUnlock()
			}
		}()
	}
	wg.Wait()
	if fail != "" {
		g.Fatalf("%d threads, %d rounds: %s", n, rounds, fail)
	}
	if unclear {
		g.Label("gave up spinning")
		return
	}
	g.NonTrivial()
	g.Check(a == wrote && b == wrote, "%d increments under the write lock gave %d and %d", wrote, a, b)
}

// very many readers at once
func crowd(g *G) {
	n := g.Big(1, 1<<20)
	var l real.RWSpinLock
	for i := 0; i < n; i++ {
		l.RLock()
	}
	writer := g.Bool()
	g.Logf("%d readers, a writer waits for them: %v", n, writer)
	if n > 1 {
		g.NonTrivial()
	}
	var out atomic.Bool
	early, unclear := false, false
	done := make(chan bool)
	wait := func() {
		defer close(done)
		defer func() { unclear = recover() != nil }() // spun too long: the machine is busy
		l.Lock()
		early = !out.Load()
		l.Unlock()
	}
	if writer {
		go wait()
		for k := g.N(200); k > 0; k-- {
			runtime.Gosched()
		}
	}
	for i := 0; i < n; i++ {
		if i == n-1 {
			out.Store(true)
		}
		p, v := g.Panics(l.RUnlock)
		g.Check(!p, "with %d readers inside, the release of number %d panics: %v", n, i, v)
	}
	if !writer {
		go wait()
	}
	<-done
	g.Check(!early, "a writer is let in among %d readers", n)
	if unclear && !writer {
		g.Fatalf("after %d readers left no writer is let in", n)
	}
	if unclear {
		g.Label("gave up spinning")
	}
}

// real threads under the race detector
func watched(g *G) {
	n := 2 + g.N(4)
	ops := make([][]bool, n)
	sum := 0
	for i := range ops {
		for k := 1 + g.N(4); k > 0; k-- {
			w := g.Bool()
			ops[i] = append(ops[i], w)
			if w {
				sum++
			}
		}
	}
	g.Logf("threads write (true) or read: %v", ops)
	var l real.RWSpinLock
	v := 0
	gaveUp := make([]bool, n)
	Together(n, func(i int) {
		defer func() { gaveUp[i] = recover() != nil }() // spun too long: the machine is busy
		mine := 0
		for _, w := range ops[i] {
			if w {
				l.Lock()
				v++
				mine++
				l.Unlock()
			} else {
				l.RLock()
				_ = v >= mine
				l.RUnlock()
			}
		}
	})
	for _, x := range gaveUp {
		if x {
			g.Discard()
		}
	}
	g.NonTrivial()
	g.Check(v == sum, "%d increments under the write lock gave %d", sum, v)
}

// a lock that is never released is reported rather than waited for without end
func endless(g *G) {
	try := func(what string, held, want func(*real.RWSpinLock)) {
		l := &real.RWSpinLock{}
		held(l)
		p, _ := g.Panics(func() { want(l) })
		g.Check(p, "%s: the wait ends without the lock being released", what)
	}
	w, r := (*real.RWSpinLock).Lock, (*real.RWSpinLock).RLock
	try("a writer for a writer", w, w)
	try("a reader for a writer", w, r)
	try("a writer for a reader", r, w)
}
