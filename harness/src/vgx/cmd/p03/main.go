// P03: the deque is a double-ended sequence for every history of operations.
package main

import (
	"github.com/vipally/gx/stl"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P03",
		Rule: "a case is a generated history of push/pop at both ends, shrink, clear and init on a deque (zero value or generated initial capacity 1..40), in phases of different balance, compared call by call with a plain slice and drained from generated ends; non-trivial: content was pushed at both ends past the initial capacity, or a successful shrink with content",
		Checks: []Check{
			{Name: "history", Quick: 60000, Thorough: 3000000, Fn: func(g *G) { history(g, 40, 60) }},
			{Name: "small", Quick: 20000, Thorough: 400000, Enum: 60000, EnumThor: 1000000, Fn: func(g *G) { history(g, 4, 10) }},
			{Name: "long", Quick: 400, Thorough: 20000, Fn: func(g *G) { history(g, 100, 1200) }},
			{Name: "bulk", Quick: 60, Thorough: 4000, Fn: bulk},
			{Name: "huge", Quick: 4, Thorough: 200, Fn: huge},
		},
	})
}

func history(g *G, maxCap, avg int) {
	var q *stl.IntDeque
	switch g.N(3) {
	case 0:
		c := 1 + g.N(maxCap)
		q = stl.NewGOGPDequeNamePrefixDeque(c)
		g.Logf("new(%d)", c)
	case 1:
		q = &stl.IntDeque{}
		g.Logf("zero value")
	case 2:
		q = stl.NewGOGPDequeNamePrefixDeque(-g.N(2))
		g.Logf("new(<=0)")
	}
	var m []int
	next := 1
	bias, side := 5, 5
	fronts, backs, cap0 := 0, 0, q.Cap()
	obs := func() {
		g.Check(q.Size() == len(m), "Size = %d want %d", q.Size(), len(m))
		g.Check(q.Empty() == (len(m) == 0), "Empty = %v with %d elements", q.Empty(), len(m))
		g.Check(q.Cap() >= len(m), "Cap = %d below the size %d", q.Cap(), len(m))
		f, ok := q.Front()
		g.Check(ok == (len(m) > 0), "Front ok=%v with %d elements", ok, len(m))
		b, okb := q.Back()
		g.Check(okb == (len(m) > 0), "Back ok=%v with %d elements", okb, len(m))
		if ok {
			g.Check(f == m[0], "Front = %d want %d", f, m[0])
			g.Check(b == m[len(m)-1], "Back = %d want %d", b, m[len(m)-1])
		}
	}
	pop := func(front bool) {
		var v int
		var ok bool
		if front {
			v, ok = q.PopFront()
			g.Logf("PopFront() = %d,%v", v, ok)
		} else {
			v, ok = q.PopBack()
			g.Logf("PopBack() = %d,%v", v, ok)
		}
		g.Check(ok == (len(m) > 0), "pop ok=%v with %d elements", ok, len(m))
		if ok {
			var w int
			if front {
				w, m = m[0], m[1:]
			} else {
				w, m = m[len(m)-1], m[:len(m)-1]
			}
			g.Check(v == w, "pop (front=%v) returned %d want %d", front, v, w)
		}
	}
	g.Steps(avg, avg*12, func(int) {
		if !g.Enum() && g.OneIn(12) {
			bias, side = g.N(11), g.N(11)
		}
		k, front := 0, false
		if g.Enum() {
			k = []int{0, 5, 10}[g.N(3)]
			if k < 10 {
				front = g.Bool()
			}
		} else {
			k = g.N(10)
			front = g.N(10) < side
			if g.OneIn(10) {
				k = 10
			}
		}
		switch {
		case k == 10:
			switch x := g.N(8); {
			case x <= 5:
				c := q.Cap()
				ok := q.Shrink()
				g.Logf("Shrink() = %v (cap %d -> %d, size %d)", ok, c, q.Cap(), len(m))
				if ok {
					g.Check(q.Cap() < c, "Shrink reported success but the capacity went from %d to %d", c, q.Cap())
					if len(m) > 0 {
						g.NonTrivial()
						g.Label("shrunk with content")
					}
				} else {
					g.Check(q.Cap() == c, "Shrink reported failure but the capacity went from %d to %d", c, q.Cap())
				}
			case x == 6:
				g.Logf("Clear()")
				q.Clear()
				m = nil
			case x == 7:
				c := g.Size(20) - 1
				g.Logf("Init(%d)", c)
				q.Init(c)
				m = nil
			}
		case k < bias:
			v := next
			if !g.Enum() && g.OneIn(8) {
				v = g.Val()
			}
			next++
			if front {
				g.Logf("PushFront(%d)", v)
				g.Check(q.PushFront(v), "PushFront reported failure")
				m = append([]int{v}, m...)
				fronts++
			} else {
				g.Logf("PushBack(%d)", v)
				g.Check(q.PushBack(v), "PushBack reported failure")
				m = append(m, v)
				backs++
			}
			if fronts > 0 && backs > 0 && fronts+backs > cap0 {
				g.NonTrivial()
			}
		default:
			pop(front)
		}
		obs()
	})
	front := !g.Enum() && g.Bool()
	for len(m) > 0 {
		pop(front)
		obs()
	}
	pop(!front)
}

// bulk: thousands of values at both ends, in phases of pushes, pops and shrinks.
func bulk(g *G) { phases(g, 200000) }

// millions of values
func huge(g *G) { phases(g, 3000000) }

func phases(g *G, most int) {
	q := &stl.IntDeque{}
	if g.Bool() {
		q = stl.NewGOGPDequeNamePrefixDeque(g.Big(1, 5000))
	}
	r := g.Rng()
	mid := 4*most + 10
	buf := make([]int, 2*mid) // the model: buf[lo:hi]
	lo, hi := mid, mid
	obs := func() {
		n := hi - lo
		g.Check(q.Size() == n && q.Empty() == (n == 0), "Size = %d, Empty = %v want %d", q.Size(), q.Empty(), n)
		f, ok := q.Front()
		b, okb := q.Back()
		g.Check(ok == (n > 0) && okb == ok, "Front %v and Back %v with %d values", ok, okb, n)
		if ok {
			g.Check(f == buf[lo] && b == buf[hi-1], "ends %d, %d want %d, %d", f, b, buf[lo], buf[hi-1])
		}
	}
	pop := func(n, side int) {
		for i := 0; i < n; i++ {
			if r.N(10) < side {
				v, ok := q.PopFront()
				g.Check(ok && v == buf[lo], "PopFront = %d,%v want %d", v, ok, buf[lo])
				lo++
			} else {
				v, ok := q.PopBack()
				g.Check(ok && v == buf[hi-1], "PopBack = %d,%v want %d", v, ok, buf[hi-1])
				hi--
			}
			obs()
		}
	}
	for k := 1 + g.N(4); k > 0; k-- {
		n, side := g.Big(300, most), g.N(11)
		g.Logf("push %d values, %d/10 of them in front", n, side)
		for i := 0; i < n; i++ {
			v := int(r.U64())
			if r.N(10) < side {
				g.Check(q.PushFront(v), "PushFront reported failure")
				lo--
				buf[lo] = v
			} else {
				g.Check(q.PushBack(v), "PushBack reported failure")
				buf[hi] = v
				hi++
			}
			obs()
		}
		g.NonTrivial()
		d, side := g.N(hi-lo+1), g.N(11)
		g.Logf("pop %d values, %d/10 of them in front", d, side)
		pop(d, side)
		for g.Bool() {
			ok := q.Shrink()
			g.Logf("Shrink() = %v (cap %d, size %d)", ok, q.Cap(), hi-lo)
			obs()
			if !ok {
				break
			}
		}
	}
	pop(hi-lo, g.N(11))
	_, ok := q.PopFront()
	_, okb := q.PopBack()
	g.Check(!ok && !okb, "Pop of the drained deque reported a value")
}
