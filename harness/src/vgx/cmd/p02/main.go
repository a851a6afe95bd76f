// P02: the queue is a FIFO sequence for every history of operations.
package main

import (
	"github.com/vipally/gx/stl"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P02",
		Rule: "a case is a generated history of push/pop/shrink/clear/init calls in phases of different push/pop balance on a queue (zero value or generated initial capacity 1..40), compared call by call with a plain slice and drained at the end; non-trivial: more pushes than the initial capacity with pops in between, or a successful shrink with content",
		Checks: []Check{
			{Name: "history", Quick: 60000, Thorough: 3000000, Fn: func(g *G) { history(g, 40, 60) }},
			{Name: "small", Quick: 20000, Thorough: 400000, Enum: 60000, EnumThor: 1000000, Fn: func(g *G) { history(g, 4, 10) }},
			{Name: "long", Quick: 400, Thorough: 20000, Fn: func(g *G) { history(g, 100, 1200) }},
			{Name: "bulk", Quick: 60, Thorough: 4000, Fn: bulk},
			{Name: "huge", Quick: 4, Thorough: 200, Fn: huge},
		},
	})
}

func history(g *G, maxCap, avg int) {
	var q *stl.IntQueue
	switch g.N(3) {
	case 0:
		c := 1 + g.N(maxCap)
		q = stl.NewGOGPQueueNamePrefixQueue(c)
		g.Logf("new(%d)", c)
	case 1:
		q = &stl.IntQueue{}
		g.Logf("zero value")
	case 2:
		q = stl.NewGOGPQueueNamePrefixQueue(-g.N(2))
		g.Logf("new(<=0)")
	}
	var m []int
	next := 1
	bias := 5
	popped, pushed, cap0 := 0, 0, q.Cap()
	obs := func() {
		g.Check(q.Size() == len(m), "Size = %d want %d", q.Size(), len(m))
		g.Check(q.Empty() == (len(m) == 0), "Empty = %v with %d elements", q.Empty(), len(m))
		g.Check(q.Cap() >= len(m), "Cap = %d below the size %d", q.Cap(), len(m))
		f, ok := q.Front()
		g.Check(ok == (len(m) > 0), "Front ok=%v with %d elements", ok, len(m))
		b, okb := q.Back()
		g.Check(okb == (len(m) > 0), "Back ok=%v with %d elements", okb, len(m))
		if ok {
			g.Check(f == m[0], "Front = %d want %d", f, m[0])
			g.Check(b == m[len(m)-1], "Back = %d want %d", b, m[len(m)-1])
		}
	}
	pop := func() {
		v, ok := q.Pop()
		g.Logf("Pop() = %d,%v", v, ok)
		g.Check(ok == (len(m) > 0), "Pop ok=%v with %d elements", ok, len(m))
		if ok {
			w := m[0]
			m = m[1:]
			popped++
			g.Check(v == w, "Pop returned %d, the oldest value is %d", v, w)
		}
	}
	g.Steps(avg, avg*12, func(int) {
		if !g.Enum() && g.OneIn(12) {
			bias = g.N(11) // out of 10
		}
		k := 0
		if g.Enum() {
			k = []int{0, 5, 10}[g.N(3)]
		} else {
			k = g.N(10)
			if g.OneIn(10) {
				k = 10
			}
		}
		switch {
		case k == 10:
			switch x := g.N(8); {
			case x <= 5:
				c := q.Cap()
				ok := q.Shrink()
				g.Logf("Shrink() = %v (cap %d -> %d, size %d)", ok, c, q.Cap(), len(m))
				if ok {
					g.Check(q.Cap() < c, "Shrink reported success but the capacity went from %d to %d", c, q.Cap())
					if len(m) > 0 {
						g.NonTrivial()
						g.Label("shrunk with content")
					}
				} else {
					g.Check(q.Cap() == c, "Shrink reported failure but the capacity went from %d to %d", c, q.Cap())
				}
			case x == 6:
				g.Logf("Clear()")
				q.Clear()
				m = nil
			case x == 7:
				c := g.Size(20) - 1
				g.Logf("Init(%d)", c)
				q.Init(c)
				m = nil
			}
		case k < bias:
			v := next
			if !g.Enum() && g.OneIn(8) {
				v = g.Val()
			}
			next++
			g.Logf("Push(%d)", v)
			g.Check(q.Push(v), "Push reported failure")
			m = append(m, v)
			pushed++
			if pushed > cap0 && popped > 0 {
				g.NonTrivial()
				g.Label("pushed past the initial capacity after pops")
			}
		default:
			pop()
		}
		obs()
	})
	for len(m) > 0 {
		pop()
		obs()
	}
	pop()
}

// bulk: thousands of values, in phases of pushes, pops and shrinks.
func bulk(g *G) { phases(g, 200000) }

// millions of values
func huge(g *G) { phases(g, 3000000) }

func phases(g *G, most int) {
	q := &stl.IntQueue{}
	if g.Bool() {
		q = stl.NewGOGPQueueNamePrefixQueue(g.Big(1, 5000))
	}
	r := g.Rng()
	var m []int
	obs := func() {
		g.Check(q.Size() == len(m) && q.Empty() == (len(m) == 0), "Size = %d, Empty = %v want %d", q.Size(), q.Empty(), len(m))
		f, ok := q.Front()
		b, okb := q.Back()
		g.Check(ok == (len(m) > 0) && okb == ok, "Front %v and Back %v with %d values", ok, okb, len(m))
		if ok {
			g.Check(f == m[0] && b == m[len(m)-1], "ends %d, %d want %d, %d", f, b, m[0], m[len(m)-1])
		}
	}
	pop := func(n int) {
		for i := 0; i < n; i++ {
			v, ok := q.Pop()
			g.Check(ok && v == m[0], "Pop = %d,%v want %d", v, ok, m[0])
			m = m[1:]
			obs()
		}
	}
	for k := 1 + g.N(4); k > 0; k-- {
		n := g.Big(300, most)
		g.Logf("push %d values", n)
		for i := 0; i < n; i++ {
			v := int(r.U64())
			g.Check(q.Push(v), "Push reported failure")
			m = append(m, v)
			obs()
		}
		g.NonTrivial()
		d := g.N(len(m) + 1)
		g.Logf("pop %d values", d)
		pop(d)
		for g.Bool() {
			ok := q.Shrink()
			g.Logf("Shrink() = %v (cap %d, size %d)", ok, q.Cap(), len(m))
			obs()
			if !ok {
				break
			}
		}
	}
	pop(len(m))
	_, ok := q.Pop()
	g.Check(!ok, "Pop of the drained queue reported a value")
}
