// P01: the stack is a LIFO sequence for every history of operations.
package main

import (
	"github.com/vipally/gx/stl"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P01",
		Rule: "a case is a generated history of push/pop/top/clear/init calls on one or two stacks (zero value or constructed with a generated capacity), compared call by call with a plain slice and drained at the end; non-trivial: it pops a value after at least two pushes were pending, or clears a non-empty stack",
		Checks: []Check{
			{Name: "history", Quick: 60000, Thorough: 3000000, Enum: 30000, EnumThor: 600000, Fn: history},
			{Name: "bulk", Quick: 60, Thorough: 4000, Fn: bulk},
			{Name: "huge", Quick: 4, Thorough: 200, Fn: huge},
		},
	})
}

type pair struct {
	s *stl.IntStack
	m []int
}

func history(g *G) {
	n := 1 + g.N(2)
	ps := make([]*pair, n)
	for i := range ps {
		if g.Bool() {
			var z stl.IntStack
			ps[i] = &pair{s: &z}
			g.Logf("s%d: zero value", i)
		} else {
			c := g.Size(40) - 1
			ps[i] = &pair{s: stl.NewGOGPStackNamePrefixStack(c)}
			g.Logf("s%d: new(%d)", i, c)
		}
	}
	bias := g.N(4)
	g.Steps(30, 400, func(int) {
		i := 0
		if n > 1 {
			i = g.N(n)
		}
		p := ps[i]
		if !g.Enum() && g.OneIn(20) {
			bias = g.N(4)
		}
		k := 0
		if g.Enum() {
			k = g.N(4)
		} else {
			k = g.N(6 + bias)
		}
		switch {
		case k == 0 || k > 3 && k%2 == 0:
			v := g.Val()
			g.Logf("s%d.Push(%d)", i, v)
			g.Check(p.s.Push(v), "Push(%d) reported failure", v)
			p.m = append(p.m, v)
		case k == 1 || k == 5:
			v, ok := p.s.Pop()
			g.Logf("s%d.Pop() = %d,%v", i, v, ok)
			g.Check(ok == (len(p.m) > 0), "Pop reported ok=%v with %d elements", ok, len(p.m))
			if ok {
				if len(p.m) > 1 {
					g.NonTrivial()
				}
				w := p.m[len(p.m)-1]
				p.m = p.m[:len(p.m)-1]
				g.Check(v == w, "Pop returned %d, the last value pushed is %d", v, w)
			}
		case k == 2:
			if g.N(4) == 0 {
				if len(p.m) > 0 {
					g.NonTrivial()
				}
				if g.Bool() {
					c := g.Size(20) - 1
					g.Logf("s%d.Init(%d)", i, c)
					p.s.Init(c)
				} else {
					g.Logf("s%d.Clear()", i)
					p.s.Clear()
				}
				p.m = p.m[:0]
			}
		}
		for j, q := range ps {
			observe(g, j, q)
		}
	})
	for j, q := range ps {
		for len(q.m) > 0 {
			v, ok := q.s.Pop()
			w := q.m[len(q.m)-1]
			g.Check(ok && v == w, "draining s%d: Pop = %d,%v want %d,true", j, v, ok, w)
			q.m = q.m[:len(q.m)-1]
			observe(g, j, q)
		}
		_, ok := q.s.Pop()
		g.Check(!ok, "Pop of the drained stack reported a value")
	}
}

func observe(g *G, j int, q *pair) {
	g.Check(q.s.Size() == len(q.m), "s%d: Size = %d want %d", j, q.s.Size(), len(q.m))
	g.Check(q.s.Empty() == (len(q.m) == 0), "s%d: Empty = %v with %d elements", j, q.s.Empty(), len(q.m))
	t, ok := q.s.Top()
	g.Check(ok == (len(q.m) > 0), "s%d: Top ok=%v with %d elements", j, ok, len(q.m))
	if ok {
		g.Check(t == q.m[len(q.m)-1], "s%d: Top = %d want %d", j, t, q.m[len(q.m)-1])
	}
}

// bulk: thousands of values, in phases of pushes and pops.
func bulk(g *G) { phases(g, 200000) }

// millions of values
func huge(g *G) { phases(g, 3000000) }

func phases(g *G, most int) {
	s := &stl.IntStack{}
	if g.Bool() {
		s = stl.NewGOGPStackNamePrefixStack(g.Big(1, 5000))
	}
	r := g.Rng()
	q := &pair{s: s}
	for k := 1 + g.N(3); k > 0; k-- {
		n := g.Big(300, most)
		g.Logf("push %d values", n)
		for i := 0; i < n; i++ {
			v := int(r.U64())
			g.Check(s.Push(v), "Push reported failure")
			q.m = append(q.m, v)
			observe(g, 0, q)
		}
		g.NonTrivial()
		d := g.N(len(q.m) + 1)
		g.Logf("pop %d values", d)
		for i := 0; i < d; i++ {
			v, ok := s.Pop()
			w := q.m[len(q.m)-1]
			q.m = q.m[:len(q.m)-1]
			g.Check(ok && v == w, "Pop = %d,%v want %d", v, ok, w)
			observe(g, 0, q)
		}
	}
	if g.OneIn(4) {
		s.Clear()
		q.m = nil
		g.Logf("Clear()")
		observe(g, 0, q)
	}
	for len(q.m) > 0 {
		v, ok := s.Pop()
		w := q.m[len(q.m)-1]
		q.m = q.m[:len(q.m)-1]
		g.Check(ok && v == w, "draining: Pop = %d,%v want %d", v, ok, w)
	}
	_, ok := s.Pop()
	g.Check(!ok, "Pop of the drained stack reported a value")
}
