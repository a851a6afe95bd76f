// P08: the singly linked list is a sequence of nodes for every history.
package main

import (
	"github.com/vipally/gx/stl"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P08",
		Rule: "a case is a generated history of push/pop/insert/remove/move/splice/reverse/clear/reachability calls on two singly linked lists with node handles picked from the lists, from removed nodes or nil, both lists being walked after every call and compared node by node with plain slices; or a generated chain with or without a closing link, for cycle detection; non-trivial: a node is moved, spliced, inserted at a mark or removed from the middle of a list of at least three nodes, or a cycle is present",
		Checks: []Check{
			{Name: "history", Quick: 80000, Thorough: 3000000, Fn: func(g *G) { run(g, 25, 250) }},
			{Name: "small", Quick: 40000, Thorough: 500000, Enum: 150000, EnumThor: 3000000, Fn: func(g *G) { run(g, 6, 8) }},
			{Name: "bulk", Quick: 60, Thorough: 4000, Fn: bulk},
			{Name: "cycle", Quick: 40000, Thorough: 300000, Fn: cycle},
		},
	})
}

type node = *stl.IntSListNode

type list struct {
	l    *stl.IntSList
	m    []node
	vals map[node]int
}

func (x *list) at(n node) int {
	for i, y := range x.m {
		if y == n {
			return i
		}
	}
	return -1
}

func (x *list) remove(i int) { x.m = append(append([]node(nil), x.m[:i]...), x.m[i+1:]...) }
func (x *list) insert(i int, n node) {
	x.m = append(append(append([]node(nil), x.m[:i]...), n), x.m[i:]...)
}

func run(g *G, avg, max int) {
	vals := map[node]int{}
	ls := []*list{{l: stl.NewIntSList(), vals: vals}, {l: &stl.IntSList{}, vals: vals}}
	var loose []node
	names := map[node]int{}
	name := func(n node) int {
		if n == nil {
			return 0
		}
		if names[n] == 0 {
			names[n] = len(names) + 1
		}
		return names[n]
	}
	val := func() int {
		if g.Enum() {
			return 7
		}
		return g.Val()
	}
	if g.Enum() || g.OneIn(2) {
		k := 3
		if !g.Enum() {
			k = g.Size(8)
		}
		for i := 0; i < k; i++ {
			n := ls[0].l.PushFront(i)
			vals[n] = i
			ls[0].insert(0, n)
			name(n)
		}
		g.Logf("L0 = %d nodes pushed at the front", k)
	}
	fresh := func() node {
		if len(loose) > 0 && (g.Enum() || g.Bool()) {
			i := g.N(len(loose))
			n := loose[i]
			loose = append(append([]node(nil), loose[:i]...), loose[i+1:]...)
			return n
		}
		n := &stl.IntSListNode{}
		v := val()
		g.Check(n.Set(v) == 0 && n.Get() == v, "Set/Get of a node")
		vals[n] = v
		return n
	}
	g.Steps(avg, max, func(int) {
		li := 0
		if g.Enum() {
			li = g.N(2)
		} else if g.OneIn(4) {
			li = 1
		}
		x, y := ls[li], ls[1-li]
		member := func() node {
			if len(x.m) == 0 {
				return nil
			}
			return x.m[g.N(len(x.m))]
		}
		nt := func() {
			if len(x.m) >= 3 {
				g.NonTrivial()
			}
		}
		switch op := g.N(16); op {
		case 0, 1:
			v := val()
			n := x.l.PushFront(v)
			g.Logf("L%d.PushFront(%d) = #%d", li, v, name(n))
			g.Check(n != nil && x.at(n) < 0, "PushFront returned no new node")
			vals[n] = v
			x.insert(0, n)
		case 2:
			n := fresh()
			g.Logf("L%d.InsertFront(#%d)", li, name(n))
			g.Check(x.l.InsertFront(n) == n, "InsertFront returned another node")
			x.insert(0, n)
		case 3:
			mark, v := member(), val()
			n := x.l.PushAfter(v, mark)
			g.Logf("L%d.PushAfter(%d, #%d) = #%d", li, v, name(mark), name(n))
			g.Check((n != nil) == (mark != nil), "PushAfter returned node=%v for mark=%v", n != nil, mark != nil)
			if n != nil {
				nt()
				g.Check(x.at(n) < 0, "PushAfter returned an old node")
				vals[n] = v
				x.insert(x.at(mark)+1, n)
			}
		case 4:
			mark := member()
			if mark == nil {
				return
			}
			nt()
			n := fresh()
			g.Logf("L%d.InsertAfter(#%d, #%d)", li, name(n), name(mark))
			g.Check(x.l.InsertAfter(n, mark) == n, "InsertAfter returned another node")
			x.insert(x.at(mark)+1, n)
		case 5:
			v, ok := x.l.PopFront()
			g.Logf("L%d.PopFront() = %d,%v", li, v, ok)
			g.Check(ok == (len(x.m) > 0), "PopFront of %d nodes: ok=%v", len(x.m), ok)
			if ok {
				n := x.m[0]
				g.Check(v == vals[n], "PopFront = %d want %d", v, vals[n])
				x.remove(0)
				loose = append(loose, n)
			}
		case 6:
			n := x.l.RemoveFront()
			g.Logf("L%d.RemoveFront() = #%d", li, name(n))
			g.Check((n != nil) == (len(x.m) > 0), "RemoveFront of %d nodes returned node=%v", len(x.m), n != nil)
			if n != nil {
				g.Check(n == x.m[0], "RemoveFront returned another node")
				x.remove(0)
				loose = append(loose, n)
			}
		case 7, 8:
			n := member()
			switch g.N(6) {
			case 4:
				if len(loose) > 0 {
					n = loose[g.N(len(loose))]
				}
			case 5:
				if len(y.m) > 0 {
					n = y.m[g.N(len(y.m))]
				}
			}
			r := x.l.Remove(n)
			g.Logf("L%d.Remove(#%d) = #%d", li, name(n), name(r))
			if i := x.at(n); i >= 0 {
				if i > 0 && i < len(x.m)-1 {
					nt()
				}
				g.Check(r == n, "Remove of a member returned another node")
				x.remove(i)
				loose = append(loose, n)
			} else {
				g.Check(r == nil, "Remove of a node that is not in the list returned a node")
			}
		case 9:
			n := member()
			if len(loose) > 0 && g.N(6) == 5 {
				n = loose[g.N(len(loose))]
			}
			r := x.l.MoveFront(n)
			g.Logf("L%d.MoveFront(#%d) = #%d", li, name(n), name(r))
			if i := x.at(n); i >= 0 {
				nt()
				if i > 0 {
					g.Check(r == n, "MoveFront returned another node")
				}
				x.remove(i)
				x.insert(0, n)
			} else {
				g.Check(r == nil, "MoveFront of a node that is not in the list returned a node")
			}
		case 10:
			n, mark := member(), member()
			r := x.l.MoveAfter(n, mark)
			g.Logf("L%d.MoveAfter(#%d, #%d) = #%d", li, name(n), name(mark), name(r))
			if n != nil && n != mark {
				nt()
				i, j := x.at(n), x.at(mark)
				if i != j+1 {
					g.Check(r == n, "MoveAfter returned another node")
				}
				x.remove(i)
				x.insert(x.at(mark)+1, n)
			}
		case 11:
			g.Logf("L%d.PushFrontList(L%d)", li, 1-li)
			x.l.PushFrontList(y.l)
			if len(y.m) > 0 {
				nt()
			}
			x.m = append(append([]node(nil), y.m...), x.m...)
			y.m = nil
		case 12:
			g.Logf("L%d.Reverse()", li)
			x.l.Reverse()
			nt()
			r := make([]node, 0, len(x.m))
			for i := len(x.m) - 1; i >= 0; i-- {
				r = append(r, x.m[i])
			}
			x.m = r
		case 13:
			if g.N(6) == 0 {
				g.Logf("L%d.Clear()", li)
				x.l.Clear()
				x.m = nil
			} else if n := member(); n != nil {
				v := val()
				old := n.Set(v)
				g.Logf("#%d.Set(%d) = %d", name(n), v, old)
				g.Check(old == vals[n], "Set returned %d, the value was %d", old, vals[n])
				vals[n] = v
			}
		case 15: // missing, removed and foreign nodes change nothing
			mark := member()
			var gone node
			switch g.N(3) {
			case 1:
				if len(loose) > 0 {
					gone = loose[g.N(len(loose))]
				}
			case 2:
				if len(y.m) > 0 {
					gone = y.m[g.N(len(y.m))]
				}
			}
			g.Logf("L%d: operation with the missing, removed or foreign node #%d at #%d", li, name(gone), name(mark))
			switch g.N(5) {
			case 0:
				g.Check(x.l.InsertFront(nil) == nil, "InsertFront(nil) returned a node")
			case 1:
				x.l.InsertAfter(nil, mark)
				x.l.InsertAfter(mark, mark)
				if gone == nil || y.at(gone) < 0 {
					x.l.InsertAfter(gone, nil)
				}
			case 2:
				g.Check(x.l.MoveAfter(gone, mark) == nil, "MoveAfter of a node that is not in the list returned a node")
			case 3:
				g.Check(x.l.MoveAfter(mark, nil) == nil, "MoveAfter to no mark returned a node")
			case 4:
				g.Check(x.l.MoveFront(gone) == nil && x.l.Remove(gone) == nil, "move or removal of a node that is not in the list returned a node")
			}
		case 14:
			n, d := member(), member()
			switch g.N(4) {
			case 1:
				if len(loose) > 0 {
					d = loose[g.N(len(loose))]
				}
			case 2:
				if len(y.m) > 0 {
					d = y.m[g.N(len(y.m))]
				}
			}
			want := n != nil && d != nil && x.at(d) >= x.at(n)
			r := x.l.Reachable(n, d)
			g.Logf("L%d.Reachable(#%d, #%d) = %v", li, name(n), name(d), r)
			g.Check(r == want, "Reachable = %v want %v", r, want)
			g.Check(x.l.IsValidNode(d) == (d != nil && x.at(d) >= 0), "IsValidNode = %v for member=%v", x.l.IsValidNode(d), d != nil && x.at(d) >= 0)
		}
		for i, l := range ls {
			l.check(g, i)
		}
	})
}

func (x *list) check(g *G, li int) {
	n := len(x.m)
	g.Check(x.l.Empty() == (n == 0), "L%d: Empty = %v with %d nodes", li, x.l.Empty(), n)
	f := x.l.Front()
	v := x.l.Visitor()
	for i, y := range x.m {
		g.Check(f == y, "L%d: node %d of %d is wrong", li, i, n)
		g.Check(f.Get() == x.vals[y], "L%d: node %d holds %d want %d", li, i, f.Get(), x.vals[y])
		g.Check(v.Next() && v.Get() == y, "L%d: visit: node %d of %d is wrong", li, i, n)
		f = f.Next()
	}
	g.Check(f == nil, "L%d: the list goes on after its %d nodes", li, n)
	g.Check(!v.Next(), "L%d: the visit goes on after the %d nodes", li, n)
	g.Check(x.l.Len() == n, "L%d: Len = %d want %d", li, x.l.Len(), n)
	g.Check(!x.l.HasCycle(x.l.Front()), "L%d: HasCycle of a list without one", li)
	t, size := x.l.Front().Tail()
	g.Check(size == n, "L%d: Tail counts %d nodes of %d", li, size, n)
	if n > 0 {
		g.Check(t == x.m[n-1], "L%d: Tail is not the last node", li)
	}
}

// cycle detection on every chain shape: a node inserted after a mark that
// already precedes it closes a ring; further insertions bend the chain at random
func cycle(g *G) {
	n := 1 + g.Size(60)
	l := stl.NewIntSList()
	var m []node
	for i := 0; i < n; i++ {
		m = append([]node{l.PushFront(i)}, m...)
	}
	g.Logf("chain of %d nodes", n)
	shape(g, l, m[0])
	g.Check(!l.HasCycle(nil), "HasCycle(nil)")
	for k := 1 + g.N(3); k > 0 && n > 1; k-- {
		i := g.N(n - 1)
		j := i + 1 + g.N(n-1-i)
		if g.OneIn(4) {
			i, j = j, i
		}
		l.InsertAfter(m[j], m[i])
		g.Logf("node %d inserted after node %d", j, i)
		shape(g, l, l.Front())
		shape(g, l, m[i])
		shape(g, l, m[j])
		shape(g, l, m[g.N(n)])
	}
}

func shape(g *G, l *stl.IntSList, h node) {
	seen := map[node]bool{}
	n, cyc := h, false
	for ; n != nil; n = n.Next() {
		if cyc = seen[n]; cyc {
			break
		}
		seen[n] = true
	}
	if cyc {
		g.Label("cyclic")
		g.NonTrivial()
	}
	r := l.HasCycle(h)
	g.Check(r == cyc, "HasCycle = %v for a chain of %d nodes with cycle=%v", r, len(seen), cyc)
}

// bulk: long lists, a few operations of each kind.
func bulk(g *G) {
	r := g.Rng()
	vals := map[node]int{}
	mk := func(n int) *list {
		x := &list{l: stl.NewIntSList(), vals: vals}
		for i := 0; i < n; i++ {
			v := int(r.U64())
			nd := x.l.PushFront(v)
			vals[nd] = v
			x.m = append(x.m, nd)
		}
		rev(x.m)
		g.Logf("list of %d nodes", n)
		return x
	}
	x, y := mk(g.Big(50, 4000)), mk(g.Big(50, 4000))
	x.check(g, 0)
	y.check(g, 1)
	g.NonTrivial()
	for k := 2 + g.N(8); k > 0; k-- {
		n := len(x.m)
		a, b := x.m[r.N(n)], x.m[r.N(n)]
		op := g.N(6)
		g.Logf("operation %d on %d nodes", op, n)
		switch op {
		case 0:
			x.l.Reverse()
			rev(x.m)
		case 1:
			x.l.MoveFront(a)
			x.remove(x.at(a))
			x.insert(0, a)
		case 2:
			if a != b {
				x.l.MoveAfter(a, b)
				x.remove(x.at(a))
				x.insert(x.at(b)+1, a)
			}
		case 3:
			g.Check(x.l.Reachable(a, b) == (x.at(a) <= x.at(b)) && x.l.IsValidNode(a) && x.l.IsValidNode(x.m[n-1]), "reachability in the long list is wrong")
			if len(y.m) > 0 {
				g.Check(!x.l.Reachable(a, y.m[0]) && !x.l.IsValidNode(y.m[len(y.m)-1]), "a node of another list is found")
			}
		case 4:
			if n > 1 {
				g.Check(x.l.Remove(a) == a, "Remove returned another node")
				x.remove(x.at(a))
				y.l.InsertFront(a)
				y.m = append([]node{a}, y.m...)
			}
		case 5:
			g.Check(!x.l.HasCycle(x.l.Front()), "HasCycle of a list of %d nodes without one", n)
		}
		x.check(g, 0)
	}
	x.l.PushFrontList(y.l)
	x.m = append(y.m, x.m...)
	y.m = nil
	x.check(g, 0)
	y.check(g, 1)
	// close a ring at any node
	l := stl.NewIntSList()
	var c []node
	for i, n := 0, g.Big(2, 4000); i < n; i++ {
		c = append(c, l.PushFront(i))
	}
	rev(c)
	shape(g, l, c[0])
	i := g.N(len(c) - 1)
	j := i + 1 + g.N(len(c)-1-i)
	l.InsertAfter(c[j], c[i])
	g.Logf("chain of %d nodes, node %d inserted after node %d", len(c), j, i)
	shape(g, l, c[0])
	shape(g, l, c[j])
}

func rev(m []node) {
	for i, j := 0, len(m)-1; i < j; i, j = i+1, j-1 {
		m[i], m[j] = m[j], m[i]
	}
}
