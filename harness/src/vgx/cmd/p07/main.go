// P07: the doubly linked list is a sequence of nodes for every history.
package main

import (
	"github.com/vipally/gx/stl"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P07",
		Rule: "a case is a generated history of push/pop/insert/remove/move/rotate/splice/reverse/clear/reachability calls on two lists with node handles picked from the lists, from removed nodes or nil; after every call both lists are walked in both directions (links and visitors) and compared node by node with plain slices; non-trivial: a node is moved, spliced, inserted at a mark or removed from the middle in a list of at least three nodes",
		Checks: []Check{
			{Name: "history", Quick: 80000, Thorough: 3000000, Fn: history},
			{Name: "small", Quick: 40000, Thorough: 500000, Enum: 150000, EnumThor: 3000000, Fn: small},
			{Name: "bulk", Quick: 60, Thorough: 4000, Fn: bulk},
		},
	})
}

type node = *stl.IntListNode

type list struct {
	l    *stl.IntList
	m    []node
	vals map[node]int
}

func (x *list) at(n node) int {
	for i, y := range x.m {
		if y == n {
			return i
		}
	}
	return -1
}

func (x *list) remove(i int) { x.m = append(append([]node(nil), x.m[:i]...), x.m[i+1:]...) }
func (x *list) insert(i int, n node) {
	x.m = append(append(append([]node(nil), x.m[:i]...), n), x.m[i:]...)
}

func history(g *G) { run(g, 25, 250) }
func small(g *G)   { run(g, 6, 8) }

func run(g *G, avg, max int) {
	vals := map[node]int{}
	ls := []*list{{l: stl.NewIntList(), vals: vals}, {l: &stl.IntList{}, vals: vals}}
	var loose []node // removed nodes, free to be inserted again
	names := map[node]int{}
	name := func(n node) int {
		if n == nil {
			return 0
		}
		if names[n] == 0 {
			names[n] = len(names) + 1
		}
		return names[n]
	}
	if g.Enum() || g.OneIn(2) { // start from some content
		k := 3
		if !g.Enum() {
			k = g.Size(8)
		}
		for i := 0; i < k; i++ {
			n := ls[0].l.PushBack(i)
			vals[n] = i
			ls[0].m = append(ls[0].m, n)
			name(n)
		}
		g.Logf("L0 = %d nodes pushed at the back", k)
	}
	val := func() int {
		if g.Enum() {
			return 7
		}
		return g.Val()
	}
	fresh := func() node { // a node that is in no list
		if len(loose) > 0 && (g.Enum() || g.Bool()) {
			i := g.N(len(loose))
			n := loose[i]
			loose = append(append([]node(nil), loose[:i]...), loose[i+1:]...)
			return n
		}
		n := &stl.IntListNode{}
		v := val()
		g.Check(n.Set(v) == 0 && n.Get() == v, "Set/Get of a node")
		vals[n] = v
		return n
	}
	g.Steps(avg, max, func(int) {
		li := 0
		if !g.Enum() {
			if g.OneIn(4) {
				li = 1
			}
		} else {
			li = g.N(2)
		}
		x, y := ls[li], ls[1-li]
		member := func() node {
			if len(x.m) == 0 {
				return nil
			}
			return x.m[g.N(len(x.m))]
		}
		nt := func() {
			if len(x.m) >= 3 {
				g.NonTrivial()
			}
		}
		op := g.N(24)
		switch op {
		case 0, 1:
			v := val()
			n := x.l.PushBack(v)
			g.Logf("L%d.PushBack(%d) = #%d", li, v, name(n))
			g.Check(n != nil && x.at(n) < 0, "PushBack returned no new node")
			vals[n] = v
			x.m = append(x.m, n)
		case 2:
			v := val()
			n := x.l.PushFront(v)
			g.Logf("L%d.PushFront(%d) = #%d", li, v, name(n))
			g.Check(n != nil && x.at(n) < 0, "PushFront returned no new node")
			vals[n] = v
			x.insert(0, n)
		case 3:
			n := fresh()
			g.Logf("L%d.InsertFront(#%d)", li, name(n))
			g.Check(x.l.InsertFront(n) == n, "InsertFront returned another node")
			x.insert(0, n)
		case 4:
			n := fresh()
			g.Logf("L%d.InsertBack(#%d)", li, name(n))
			g.Check(x.l.InsertBack(n) == n, "InsertBack returned another node")
			x.m = append(x.m, n)
		case 5, 6:
			mark := member()
			v := val()
			var n node
			if op == 5 {
				n = x.l.PushBefore(v, mark)
			} else {
				n = x.l.PushAfter(v, mark)
			}
			g.Logf("L%d.Push%s(%d, #%d) = #%d", li, []string{"Before", "After"}[op-5], v, name(mark), name(n))
			g.Check((n != nil) == (mark != nil), "push at a mark returned node=%v for mark=%v", n != nil, mark != nil)
			if n != nil {
				nt()
				g.Check(x.at(n) < 0, "push at a mark returned an old node")
				vals[n] = v
				x.insert(x.at(mark)+op-5, n)
			}
		case 7, 8:
			mark := member()
			if mark == nil {
				return
			}
			nt()
			n := fresh()
			g.Logf("L%d.Insert%s(#%d, #%d)", li, []string{"Before", "After"}[op-7], name(n), name(mark))
			var r node
			if op == 7 {
				r = x.l.InsertBefore(n, mark)
			} else {
				r = x.l.InsertAfter(n, mark)
			}
			g.Check(r == n, "insert at a mark returned another node")
			x.insert(x.at(mark)+op-7, n)
		case 9, 10:
			var v int
			var ok bool
			i := 0
			if op == 9 {
				v, ok = x.l.PopFront()
			} else {
				i = len(x.m) - 1
				v, ok = x.l.PopBack()
			}
			g.Logf("L%d.Pop%s() = %d,%v", li, []string{"Front", "Back"}[op-9], v, ok)
			g.Check(ok == (len(x.m) > 0), "pop of %d nodes: ok=%v", len(x.m), ok)
			if ok {
				n := x.m[i]
				g.Check(v == vals[n], "pop = %d want %d", v, vals[n])
				x.remove(i)
				loose = append(loose, n)
			}
		case 11, 12:
			i := 0
			var n node
			if op == 11 {
				n = x.l.RemoveFront()
			} else {
				i = len(x.m) - 1
				n = x.l.RemoveBack()
			}
			g.Logf("L%d.Remove%s() = #%d", li, []string{"Front", "Back"}[op-11], name(n))
			g.Check((n != nil) == (len(x.m) > 0), "removal of an end of %d nodes returned node=%v", len(x.m), n != nil)
			if n != nil {
				g.Check(n == x.m[i], "removal of an end returned another node")
				x.remove(i)
				loose = append(loose, n)
			}
		case 13:
			n := member()
			if len(loose) > 0 && g.N(5) == 4 {
				n = loose[g.N(len(loose))]
			}
			r := x.l.Remove(n)
			g.Logf("L%d.Remove(#%d) = #%d", li, name(n), name(r))
			if i := x.at(n); i >= 0 {
				if i > 0 && i < len(x.m)-1 {
					nt()
				}
				g.Check(r == n, "Remove of a member returned another node")
				x.remove(i)
				loose = append(loose, n)
			} else {
				g.Check(r == nil, "Remove of a node that is in no list returned a node")
			}
		case 14, 15:
			n := member()
			if len(loose) > 0 && g.N(6) == 5 {
				n = loose[g.N(len(loose))]
			}
			g.Logf("L%d.Move%s(#%d)", li, []string{"Front", "Back"}[op-14], name(n))
			var r node
			if op == 14 {
				r = x.l.MoveFront(n)
			} else {
				r = x.l.MoveBack(n)
			}
			if i := x.at(n); i >= 0 {
				nt()
				j := 0
				if op == 15 {
					j = len(x.m) - 1
				}
				if i != j {
					g.Check(r == n, "a move returned another node")
				}
				x.remove(i)
				x.insert(j, n)
			} else {
				g.Check(r == nil, "move of a node that is in no list returned a node")
			}
		case 16, 17:
			n, mark := member(), member()
			g.Logf("L%d.Move%s(#%d, #%d)", li, []string{"Before", "After"}[op-16], name(n), name(mark))
			var r node
			if op == 16 {
				r = x.l.MoveBefore(n, mark)
			} else {
				r = x.l.MoveAfter(n, mark)
			}
			if n != nil && n != mark {
				nt()
				i, j := x.at(n), x.at(mark)
				if !(op == 16 && i+1 == j || op == 17 && j+1 == i) {
					g.Check(r == n, "a move returned another node")
				}
				x.remove(i)
				x.insert(x.at(mark)+op-16, n)
			}
		case 18:
			if g.Bool() {
				g.Logf("L%d.RotateForward()", li)
				x.l.RotateForward()
				if len(x.m) > 1 {
					x.m = append(append([]node(nil), x.m[1:]...), x.m[0])
				}
			} else {
				g.Logf("L%d.RotateBackward()", li)
				x.l.RotateBackward()
				if k := len(x.m); k > 1 {
					x.m = append([]node{x.m[k-1]}, x.m[:k-1]...)
				}
			}
		case 19:
			if g.Bool() {
				ok := x.l.InsertBackList(y.l)
				g.Logf("L%d.InsertBackList(L%d) = %v", li, 1-li, ok)
				g.Check(ok == (len(y.m) > 0), "splice of %d nodes: ok=%v", len(y.m), ok)
				x.m = append(append([]node(nil), x.m...), y.m...)
			} else {
				ok := x.l.InsertFrontList(y.l)
				g.Logf("L%d.InsertFrontList(L%d) = %v", li, 1-li, ok)
				g.Check(ok == (len(y.m) > 0), "splice of %d nodes: ok=%v", len(y.m), ok)
				x.m = append(append([]node(nil), y.m...), x.m...)
			}
			if len(y.m) > 0 {
				nt()
			}
			y.m = nil
		case 20:
			g.Logf("L%d.Reverse()", li)
			x.l.Reverse()
			nt()
			r := make([]node, 0, len(x.m))
			for i := len(x.m) - 1; i >= 0; i-- {
				r = append(r, x.m[i])
			}
			x.m = r
		case 21:
			if g.N(6) == 0 {
				g.Logf("L%d.Clear()", li)
				x.l.Clear()
				x.m = nil
			} else if n := member(); n != nil {
				v := val()
				old := n.Set(v)
				g.Logf("#%d.Set(%d) = %d", name(n), v, old)
				g.Check(old == vals[n], "Set returned %d, the value was %d", old, vals[n])
				vals[n] = v
			}
		case 23: // missing and removed nodes change nothing
			mark := member()
			var gone node
			if len(loose) > 0 && g.Bool() {
				gone = loose[g.N(len(loose))]
			}
			g.Logf("L%d: operation with the missing or removed node #%d at #%d", li, name(gone), name(mark))
			switch g.N(8) {
			case 0:
				g.Check(x.l.InsertFront(nil) == nil, "InsertFront(nil) returned a node")
			case 1:
				g.Check(x.l.InsertBack(nil) == nil, "InsertBack(nil) returned a node")
			case 2:
				x.l.InsertBefore(nil, mark)
				x.l.InsertBefore(mark, mark)
			case 3:
				x.l.InsertAfter(nil, mark)
				x.l.InsertAfter(mark, mark)
			case 4:
				g.Check(x.l.MoveBefore(gone, mark) == nil, "MoveBefore of a node that is in no list returned a node")
			case 5:
				g.Check(x.l.MoveAfter(gone, mark) == nil, "MoveAfter of a node that is in no list returned a node")
			case 6:
				g.Check(x.l.MoveBefore(mark, nil) == nil && x.l.MoveAfter(mark, nil) == nil, "a move to no mark returned a node")
			case 7:
				g.Check(x.l.MoveBack(gone) == nil && x.l.MoveFront(gone) == nil && x.l.Remove(gone) == nil, "move or removal of a node that is in no list returned a node")
			}
		case 22:
			n, d := member(), member()
			switch g.N(4) {
			case 1:
				if len(loose) > 0 {
					d = loose[g.N(len(loose))]
				}
			case 2:
				if len(y.m) > 0 {
					d = y.m[g.N(len(y.m))]
				}
			}
			want := n != nil && d != nil && x.at(d) >= 0
			r := x.l.Reachable(n, d)
			g.Logf("L%d.Reachable(#%d, #%d) = %v", li, name(n), name(d), r)
			g.Check(r == want, "Reachable = %v want %v", r, want)
			g.Check(x.l.IsValidNode(d) == (d != nil && x.at(d) >= 0), "IsValidNode = %v for member=%v", x.l.IsValidNode(d), d != nil && x.at(d) >= 0)
		}
		for i, l := range ls {
			l.check(g, i)
		}
	})
}

func (x *list) check(g *G, li int) {
	n := len(x.m)
	g.Check(x.l.Empty() == (n == 0), "L%d: Empty = %v with %d nodes", li, x.l.Empty(), n)
	if n == 0 {
		g.Check(x.l.Front() == nil && x.l.Back() == nil, "L%d: the empty list has an end", li)
		v := x.l.Visitor()
		g.Check(!v.Next(), "L%d: the visitor of the empty list finds a node", li)
		v.Reset()
		g.Check(!v.Prev(), "L%d: the visitor of the empty list finds a node", li)
		return
	}
	g.Check(x.l.Front() == x.m[0], "L%d: Front is not the first node", li)
	g.Check(x.l.Back() == x.m[n-1], "L%d: Back is not the last node", li)
	for i, y := range x.m {
		g.Check(y.Get() == x.vals[y], "L%d: node %d holds %d want %d", li, i, y.Get(), x.vals[y])
		g.Check(y.Next() == x.m[(i+1)%n], "L%d: Next of node %d of %d is wrong", li, i, n)
		g.Check(y.Prev() == x.m[(i+n-1)%n], "L%d: Prev of node %d of %d is wrong", li, i, n)
	}
	v := x.l.Visitor()
	for pass := 0; pass < 2; pass++ {
		for i := 0; i < n; i++ {
			g.Check(v.Next() && v.Get() == x.m[i], "L%d: forward visit: node %d of %d is wrong", li, i, n)
		}
		g.Check(!v.Next(), "L%d: the forward visit does not end", li)
		v.Reset()
		for i := n - 1; i >= 0; i-- {
			g.Check(v.Prev() && v.Get() == x.m[i], "L%d: backward visit: node %d of %d is wrong", li, i, n)
		}
		g.Check(!v.Prev(), "L%d: the backward visit does not end", li)
		v.Reset()
	}
	if g.Enum() || n > 40 {
		return
	}
	// a mixed visit is a cursor on the sequence
	v = x.l.Visitor()
	at := -1
	for s := 0; s < 6; s++ {
		back := s == 5 && at > 0 || at > 0 && (s*7+n+li)%3 == 0
		if back {
			g.Check(v.Prev(), "L%d: mixed visit: Prev ends at node %d of %d", li, at, n)
			at--
		} else {
			ok := v.Next()
			g.Check(ok == (at+1 < n), "L%d: mixed visit: Next = %v at node %d of %d", li, ok, at, n)
			if !ok {
				break
			}
			at++
		}
		g.Check(v.Get() == x.m[at], "L%d: mixed visit: node %d of %d is wrong", li, at, n)
	}
}

// bulk: long lists, a few operations of each kind.
func bulk(g *G) {
	r := g.Rng()
	vals := map[node]int{}
	mk := func(n int) *list {
		x := &list{l: stl.NewIntList(), vals: vals}
		var front []node
		for i := 0; i < n; i++ {
			v := int(r.U64())
			var nd node
			if r.N(3) == 0 {
				nd = x.l.PushFront(v)
				front = append(front, nd)
			} else {
				nd = x.l.PushBack(v)
				x.m = append(x.m, nd)
			}
			vals[nd] = v
		}
		for i, j := 0, len(front)-1; i < j; i, j = i+1, j-1 {
			front[i], front[j] = front[j], front[i]
		}
		x.m = append(front, x.m...)
		g.Logf("list of %d nodes", n)
		return x
	}
	x, y := mk(g.Big(50, 80000)), mk(g.Big(50, 80000))
	x.check(g, 0)
	y.check(g, 1)
	g.NonTrivial()
	for k := 2 + g.N(8); k > 0; k-- {
		n := len(x.m)
		a, b := x.m[r.N(n)], x.m[r.N(n)]
		op := g.N(7)
		g.Logf("operation %d on %d nodes", op, n)
		switch op {
		case 0:
			x.l.Reverse()
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				x.m[i], x.m[j] = x.m[j], x.m[i]
			}
		case 1:
			x.l.MoveFront(a)
			x.remove(x.at(a))
			x.insert(0, a)
		case 2:
			x.l.MoveBack(a)
			x.remove(x.at(a))
			x.insert(n-1, a)
		case 3, 4:
			if a != b {
				if op == 3 {
					x.l.MoveBefore(a, b)
				} else {
					x.l.MoveAfter(a, b)
				}
				x.remove(x.at(a))
				x.insert(x.at(b)+op-3, a)
			}
		case 5:
			g.Check(x.l.Reachable(a, b) && x.l.IsValidNode(a) && x.l.IsValidNode(x.m[n-1]), "a node of the long list is not found")
			if len(y.m) > 0 {
				g.Check(!x.l.Reachable(a, y.m[0]) && !x.l.IsValidNode(y.m[len(y.m)-1]), "a node of another list is found")
			}
		case 6:
			if n > 1 {
				g.Check(x.l.Remove(a) == a, "Remove returned another node")
				x.remove(x.at(a))
				y.l.InsertBack(a)
				y.m = append(y.m, a)
			}
		}
		x.check(g, 0)
	}
	if g.Bool() {
		x.l.InsertBackList(y.l)
		x.m = append(x.m, y.m...)
	} else {
		x.l.InsertFrontList(y.l)
		x.m = append(y.m, x.m...)
	}
	y.m = nil
	x.check(g, 0)
	y.check(g, 1)
}
