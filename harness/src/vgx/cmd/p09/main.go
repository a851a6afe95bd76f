// P09: list sorting is a stable ascending permutation of the same nodes.
package main

import (
	"fmt"
	"sort"

	"github.com/vipally/gx/stl"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P09",
		Rule: "a case is a generated sequence of values (few distinct values, runs, extremes, lengths around powers of two) loaded into a doubly or singly linked list, sorted, and compared node by node with a stable sort of the same nodes; the list is then modified and sorted again; non-trivial: at least three nodes, not already in order",
		Checks: []Check{
			{Name: "list", Quick: 60000, Thorough: 2000000, Enum: 40000, EnumThor: 400000, Fn: func(g *G) { double(g, false) }},
			{Name: "slist", Quick: 60000, Thorough: 2000000, Enum: 40000, EnumThor: 400000, Fn: func(g *G) { single(g, false) }},
			{Name: "list-bulk", Quick: 40, Thorough: 4000, Fn: func(g *G) { double(g, true) }},
			{Name: "slist-bulk", Quick: 40, Thorough: 4000, Fn: func(g *G) { single(g, true) }},
		},
	})
}

func values(g *G, big bool) []int {
	n := 0
	if big {
		n = g.Big(100, 200000)
		r, b := g.Rng(), make([]int, n)
		kind, dom := g.N(4), []int{2, 100, n, 1 << 50}[g.N(4)]
		g.Logf("%d values below %d, order %d", n, dom, kind)
		for i := range b {
			b[i] = r.N(dom)
		}
		switch kind {
		case 1:
			sort.Ints(b)
		case 2:
			sort.Sort(sort.Reverse(sort.IntSlice(b)))
		case 3: // sawtooth
			for i := range b {
				b[i] = i % (1 + dom%1000)
			}
		}
		return b
	}
	if g.Enum() {
		n = g.N(6)
	} else {
		switch g.N(5) {
		case 0:
			n = g.N(8)
		case 1:
			n = 1<<uint(g.N(8)) + g.N(3) - 1
		case 2:
			n = g.N(60)
		default:
			n = g.N(24)
		}
	}
	b := make([]int, n)
	kind, v := 1, 0
	if !g.Enum() {
		kind = g.N(6)
	}
	for i := range b {
		switch kind {
		case 0:
			b[i] = g.Val()
		case 1:
			b[i] = g.N(3)
		case 2:
			b[i], v = v, v+g.N(3)
		case 3:
			b[i], v = v, v-g.N(3)
		case 4:
			b[i] = g.N(n + 1)
		case 5:
			b[i] = int(g.Bits64())
		}
	}
	return b
}

func note(g *G, v []int) {
	if len(v) <= 300 {
		g.Logf("sort %v", v)
	}
	if len(v) >= 3 && !sort.IntsAreSorted(v) {
		g.NonTrivial()
	}
}

func double(g *G, big bool) {
	l := stl.NewIntList()
	var m []*stl.IntListNode
	load := func() {
		for i, v := range values(g, big) {
			if g.Enum() || big && i%500 != 7 || !big && g.N(4) > 0 {
				m = append(m, l.PushBack(v))
			} else {
				m = append([]*stl.IntListNode{l.PushFront(v)}, m...)
			}
		}
	}
	for round := 0; round < 2; round++ {
		load()
		var vs []int
		for _, n := range m {
			vs = append(vs, n.Get())
		}
		note(g, vs)
		text := brief(vs)
		want := append([]*stl.IntListNode(nil), m...)
		vals := map[*stl.IntListNode]int{}
		for _, n := range m {
			vals[n] = n.Get()
		}
		stable(want, vs)
		l.Sort()
		n := len(want)
		if n == 0 {
			g.Check(l.Empty() && l.Front() == nil && l.Back() == nil, "sorting the empty list leaves something")
		} else {
			g.Check(l.Front() == want[0], "the first node after sorting is wrong")
			g.Check(l.Back() == want[n-1], "the last node after sorting is wrong")
		}
		for i, x := range want {
			g.Check(x.Get() == vals[x], "sorting changed the value of a node from %d to %d", vals[x], x.Get())
			g.Check(x.Next() == want[(i+1)%n], "after sorting %s: successor of position %d is wrong", text, i)
			g.Check(x.Prev() == want[(i+n-1)%n], "after sorting %s: predecessor of position %d is wrong", text, i)
		}
		m = want
		if g.Enum() {
			break
		}
		// modify and sort again
		if len(m) > 0 && g.Bool() {
			i := g.N(len(m))
			l.Remove(m[i])
			m = append(m[:i:i], m[i+1:]...)
		}
		if len(m) > 0 && g.Bool() {
			m[g.N(len(m))].Set(g.Val())
		}
	}
}

func single(g *G, big bool) {
	l := stl.NewIntSList()
	var m []*stl.IntSListNode
	for round := 0; round < 2; round++ {
		var front []*stl.IntSListNode
		for _, v := range values(g, big) {
			front = append(front, l.PushFront(v))
		}
		for i, j := 0, len(front)-1; i < j; i, j = i+1, j-1 {
			front[i], front[j] = front[j], front[i]
		}
		m = append(front, m...)
		var vs []int
		vals := map[*stl.IntSListNode]int{}
		for _, n := range m {
			vs = append(vs, n.Get())
			vals[n] = n.Get()
		}
		note(g, vs)
		text := brief(vs)
		want := append([]*stl.IntSListNode(nil), m...)
		stable(want, vs)
		l.Sort()
		x := l.Front()
		for i, y := range want {
			g.Check(x == y, "after sorting %s: the node at position %d is wrong", text, i)
			g.Check(x.Get() == vals[y], "sorting changed the value of a node from %d to %d", vals[y], x.Get())
			x = x.Next()
		}
		g.Check(x == nil, "after sorting %s: the list does not end", text)
		g.Check(l.Len() == len(want), "after sorting %s: Len = %d", text, l.Len())
		m = want
		if g.Enum() {
			break
		}
		if len(m) > 0 && g.Bool() {
			i := g.N(len(m))
			l.Remove(m[i])
			m = append(m[:i:i], m[i+1:]...)
		}
		if len(m) > 0 && g.Bool() {
			m[g.N(len(m))].Set(g.Val())
		}
	}
}

func brief(v []int) string {
	if len(v) > 40 {
		return fmt.Sprintf("%v ... (%d values)", v[:40], len(v))
	}
	return fmt.Sprint(v)
}

// stable sorts nodes by their values.
func stable[N any](nodes []N, vals []int) {
	type pair struct {
		n N
		v int
	}
	ps := make([]pair, len(nodes))
	for i := range ps {
		ps[i] = pair{nodes[i], vals[i]}
	}
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].v < ps[j].v })
	for i := range ps {
		nodes[i] = ps[i].n
	}
}
