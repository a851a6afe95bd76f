// P36: containers generated from the templates for other types.
package main

import (
	"sort"

	"tpl/mapping"
	mapping2 "tpl/mapping_go"
	. "vgx/pbt"
)

func main() {
	var checks []Check
	checks = append(checks, all("text", textKit)...)
	checks = append(checks, all("recs", recsKit)...)
	checks = append(checks, all("text.go", textKit2)...)
	checks = append(checks, all("recs.go", recsKit2)...)
	checks = append(checks,
		one("mapping", 6000, bijection(func() mapI[mapping.DirMappingIdType] { return mapping.NewDirMapping() }, func() mapI[mapping.DirMappingIdType] { return &mapping.DirMapping{} })),
		one("mapping.go", 6000, bijection(func() mapI[mapping2.DirMappingIdType] { return mapping2.NewDirMapping() }, func() mapI[mapping2.DirMappingIdType] { return &mapping2.DirMapping{} })))
	Main(Spec{
		Prop:   "P36",
		Rule:   "a case is a generated history on a container generated at check time from the repository's template for a type that is not shipped (strings with the built-in order; records with their own comparison, descending by default), compared call by call with a plain model: stack, queue, deque, heap, both lists (with splices and visits), sort slice and tree (with visits); or thousands of values put through all of them; or on the two-way mapping; non-trivial: five or more calls and three or more values at some time",
		Checks: checks,
		Assume: []string{"the small generator in harness/prep/gogp.py expands templates as the gogp tool does: expanding them for the shipped types gives the shipped files"},
	})
}

func one(name string, quick int, fn func(*G)) Check {
	return Check{Name: name, Quick: quick, Thorough: quick * 60, Fn: fn}
}

func all[T, L, S, N comparable](name string, k *kit[T, L, S, N]) []Check {
	return []Check{
		one(name+"-buffers", 3000, buffers(k)),
		one(name+"-heap", 3000, heap(k)),
		one(name+"-list", 3000, list(k)),
		one(name+"-slist", 3000, slist(k)),
		one(name+"-slice", 3000, slice(k)),
		one(name+"-tree", 2000, tree(k)),
		one(name+"-bulk", 12, bulk(k)),
	}
}

type mapI[I ~int] interface {
	Init()
	Insert(int, string) (I, error)
	RemoveByKey(int) bool
	RemoveByValue(string) bool
	Find(int) (string, bool)
	ReverseFind(string) (int, bool)
	Clear()
}

// kit is what the templates give for a type.
type kit[T comparable, L, S, N comparable] struct {
	val     func(g *G) T
	less    func(a, b T) bool // of the type itself
	down    bool              // sorted descending by default
	stack   func(int) stackI[T]
	queue   func(int) queueI[T]
	deque   func(int) dequeI[T]
	heap    func(c, l int, max bool) heapI[T]
	list    func() listI[T, L]
	slist   func() slistI[T, S]
	slice   func(int) sliceI[T]
	root    func(T) N
	lget    func(L) lnode[T, L]
	sget    func(S) snode[T, S]
	tget    func(N) tnode[T, N]
	mklist  func() L
	mksl    func() S
	lsplice func(a, b listI[T, L], front bool) bool
	lvisit  func(l listI[T, L]) lvisitI[L]
	ssplice func(a, b slistI[T, S])
	svisit  func(l slistI[T, S]) svisitI[S]
	tvisit  func(n N) tvisitI[T]
}

type lvisitI[L any] interface {
	Reset()
	Next() bool
	Prev() bool
	Get() L
}
type svisitI[S any] interface {
	Next() bool
	Get() S
}
type tvisitI[T any] interface {
	Next() bool
	Prev() bool
	Get() T
}

func (k *kit[T, L, S, N]) before(a, b T) bool {
	if k.down {
		return k.less(b, a)
	}
	return k.less(a, b)
}

type stackI[T any] interface {
	Init(int)
	Push(T) bool
	Pop() (T, bool)
	Top() (T, bool)
	Size() int
	Empty() bool
	Clear()
}
type queueI[T any] interface {
	Init(int)
	Push(T) bool
	Pop() (T, bool)
	Front() (T, bool)
	Back() (T, bool)
	Shrink() bool
	Cap() int
	Size() int
	Empty() bool
	Clear()
}
type dequeI[T any] interface {
	Init(int)
	PushFront(T) bool
	PushBack(T) bool
	PopFront() (T, bool)
	PopBack() (T, bool)
	Front() (T, bool)
	Back() (T, bool)
	Shrink() bool
	Cap() int
	Size() int
	Empty() bool
	Clear()
}
type heapI[T any] interface {
	Init(c, l int, max bool)
	Push(T)
	Pop() (T, bool)
	Top() (T, bool)
	Size() int
	Empty() bool
	Buffer() []T
	PushHeap([]T, T) []T
	PopHeap([]T) ([]T, T, bool)
	CheckHeap([]T) bool
	MakeHeap([]T)
	SortHeap([]T) []T
	Reverse([]T)
}
type lnode[T, L any] interface {
	Get() T
	Set(T) T
	Next() L
	Prev() L
}
type listI[T, L any] interface {
	Front() L
	Back() L
	PushFront(T) L
	PushBack(T) L
	InsertFront(L) L
	InsertBack(L) L
	PopFront() (T, bool)
	PopBack() (T, bool)
	PushBefore(T, L) L
	PushAfter(T, L) L
	Remove(L) L
	MoveFront(L) L
	MoveBack(L) L
	MoveBefore(a, b L) L
	MoveAfter(a, b L) L
	IsValidNode(L) bool
	Reachable(a, b L) bool
	InsertBefore(a, b L) L
	InsertAfter(a, b L) L
	RemoveFront() L
	RemoveBack() L
	RotateForward()
	RotateBackward()
	Reverse()
	Sort()
	Clear()
	Empty() bool
}
type snode[T, S any] interface {
	Get() T
	Set(T) T
	Next() S
	Tail() (S, int)
}
type slistI[T, S any] interface {
	Front() S
	PushFront(T) S
	PopFront() (T, bool)
	PushAfter(T, S) S
	InsertFront(S) S
	Remove(S) S
	MoveFront(S) S
	MoveAfter(a, b S) S
	IsValidNode(S) bool
	Reachable(a, b S) bool
	HasCycle(S) bool
	InsertAfter(a, b S) S
	RemoveFront() S
	Len() int
	Reverse()
	Sort()
	Clear()
	Empty() bool
}
type sliceI[T any] interface {
	Push(T) int
	Insert(T, int) int
	Remove(int) (T, bool)
	Pop() (T, bool)
	Get(int) (T, bool)
	Len() int
	Buffer() []T
	Sort()
	Init(int)
	Less(i, j int) bool
	Swap(i, j int)
	MustGet(int) T
}
type tnode[T, N any] interface {
	AddChild(T, int) N
	AddChildNode(N, int) N
	Children() []N
	RemoveChild(int) (N, bool)
	GetChild(int) (N, bool)
	NumChildren() int
	SortChildren()
	All() []T
	Less(N) bool
}

// note marks a case as non-trivial after some calls with some values.
func note(g *G, calls, values int) {
	if calls >= 5 && values >= 3 {
		g.NonTrivial()
	}
}

func equal[T comparable](g *G, what string, got, want []T) {
	if len(got) != len(want) {
		g.Fatalf("%s: %d values %v, want %d: %v", what, len(got), got, len(want), want)
	}
	for i := range got {
		if got[i] != want[i] {
			g.Fatalf("%s: %v, want %v", what, got, want)
		}
	}
}

func ends[T comparable](g *G, what string, v T, ok bool, m []T, i int) {
	if ok != (len(m) > 0) || ok && v != m[i] {
		g.Fatalf("%s: %v, %v of %v", what, v, ok, m)
	}
}

func buffers[T, L, S, N comparable](k *kit[T, L, S, N]) func(*G) {
	return func(g *G) {
		st, qu, de := k.stack(g.Size(20)), k.queue(g.Size(20)), k.deque(g.Size(20))
		var ms, mq, md []T
		calls := 0
		g.Steps(30, 300, func(int) {
			calls++
			switch op := g.N(14); op {
			case 0, 1:
				v := k.val(g)
				g.Logf("push %v on the stack", v)
				g.Check(st.Push(v), "the stack refuses a value")
				ms = append(ms, v)
			case 2:
				v, ok := st.Pop()
				g.Logf("pop %v, %v from the stack", v, ok)
				ends(g, "stack pop", v, ok, ms, len(ms)-1)
				if ok {
					ms = ms[:len(ms)-1]
				}
			case 3, 4, 5:
				v := k.val(g)
				g.Logf("push %v to the queue", v)
				g.Check(qu.Push(v), "the queue refuses a value")
				mq = append(mq, v)
			case 6:
				v, ok := qu.Pop()
				g.Logf("pop %v, %v from the queue", v, ok)
				ends(g, "queue pop", v, ok, mq, 0)
				if ok {
					mq = mq[1:]
				}
			case 7, 8:
				v := k.val(g)
				g.Logf("push %v to the back of the deque", v)
				g.Check(de.PushBack(v), "the deque refuses a value")
				md = append(md, v)
			case 9:
				v := k.val(g)
				g.Logf("push %v to the front of the deque", v)
				g.Check(de.PushFront(v), "the deque refuses a value")
				md = append([]T{v}, md...)
			case 10:
				v, ok := de.PopFront()
				g.Logf("pop %v, %v from the front of the deque", v, ok)
				ends(g, "deque pop front", v, ok, md, 0)
				if ok {
					md = md[1:]
				}
			case 11:
				v, ok := de.PopBack()
				g.Logf("pop %v, %v from the back of the deque", v, ok)
				ends(g, "deque pop back", v, ok, md, len(md)-1)
				if ok {
					md = md[:len(md)-1]
				}
			case 12:
				g.Logf("shrink")
				qu.Shrink()
				de.Shrink()
				g.Check(qu.Cap() >= len(mq) && de.Cap() >= len(md), "capacities %d and %d for %d and %d values", qu.Cap(), de.Cap(), len(mq), len(md))
			case 13:
				if g.OneIn(8) {
					c := g.N(30)
					g.Logf("initialise for %d", c)
					st.Init(c)
					qu.Init(c)
					de.Init(c)
					ms, mq, md = nil, nil, nil
				} else if g.OneIn(6) {
					g.Logf("clear")
					st.Clear()
					qu.Clear()
					de.Clear()
					ms, mq, md = nil, nil, nil
				}
			}
			g.Check(st.Size() == len(ms) && qu.Size() == len(mq) && de.Size() == len(md), "sizes %d %d %d want %d %d %d", st.Size(), qu.Size(), de.Size(), len(ms), len(mq), len(md))
			g.Check(st.Empty() == (len(ms) == 0) && qu.Empty() == (len(mq) == 0) && de.Empty() == (len(md) == 0), "empty %v %v %v with %d %d %d values", st.Empty(), qu.Empty(), de.Empty(), len(ms), len(mq), len(md))
			v, ok := st.Top()
			ends(g, "stack top", v, ok, ms, len(ms)-1)
			v, ok = qu.Front()
			ends(g, "queue front", v, ok, mq, 0)
			v, ok = qu.Back()
			ends(g, "queue back", v, ok, mq, len(mq)-1)
			v, ok = de.Front()
			ends(g, "deque front", v, ok, md, 0)
			v, ok = de.Back()
			ends(g, "deque back", v, ok, md, len(md)-1)
			note(g, calls, len(ms)+len(mq)+len(md))
		})
	}
}

// take removes one v from m.
func take[T comparable](m []T, v T) ([]T, bool) {
	for i := range m {
		if m[i] == v {
			return append(append([]T(nil), m[:i]...), m[i+1:]...), true
		}
	}
	return m, false
}

func perm[T comparable](a, b []T) bool {
	cnt := map[T]int{}
	for _, v := range a {
		cnt[v]++
	}
	for _, v := range b {
		cnt[v]--
	}
	for _, c := range cnt {
		if c != 0 {
			return false
		}
	}
	return len(a) == len(b)
}

func heap[T, L, S, N comparable](k *kit[T, L, S, N]) func(*G) {
	return func(g *G) {
		limit, maxTop := 0, g.Bool()
		if g.Bool() {
			limit = g.N(9)
		}
		better := func(a, b T) bool { // a comes out before b
			if maxTop {
				return k.less(b, a)
			}
			return k.less(a, b)
		}
		best := func(m []T, v T) bool {
			for _, x := range m {
				if better(x, v) {
					return false
				}
			}
			return true
		}
		h := k.heap(g.Size(20), limit, maxTop)
		g.Logf("heap, limit %d, largest on top: %v", limit, maxTop)
		var m []T
		calls := 0
		g.Steps(20, 200, func(int) {
			calls++
			if g.OneIn(40) {
				c := g.N(30)
				if g.Bool() {
					limit = g.N(9)
				}
				maxTop = g.Bool()
				g.Logf("initialise for %d, limit %d, largest on top: %v", c, limit, maxTop)
				h.Init(c, limit, maxTop)
				m = nil
			}
			switch op := g.N(8); {
			case op < 5:
				v := k.val(g)
				g.Logf("push %v", v)
				old := append([]T(nil), m...)
				h.Push(v)
				if limit > 0 && len(m) == limit {
					// drops the one that would come out first of all, or one that is equal to it
					b := append([]T(nil), h.Buffer()...)
					with := append(old, v)
					g.Check(len(b) == limit, "a full heap of %d has %d values", limit, len(b))
					rest, ok := with, true
					for _, x := range b {
						if rest, ok = take(rest, x); !ok {
							g.Fatalf("a full heap of %v and %v holds %v", m, v, b)
						}
					}
					g.Check(best(with, rest[0]), "the full heap of %v and %v drops %v", m, v, rest[0])
					m = b
				} else {
					m = append(m, v)
				}
			default:
				v, ok := h.Pop()
				g.Logf("pop %v, %v", v, ok)
				g.Check(ok == (len(m) > 0), "pop of %d values: %v", len(m), ok)
				if ok {
					g.Check(best(m, v), "pop of %v gives %v", m, v)
					if m, ok = take(m, v); !ok {
						g.Fatalf("pop of %v gives %v", m, v)
					}
				}
			}
			v, ok := h.Top()
			g.Check(ok == (len(m) > 0) && h.Size() == len(m) && h.Empty() == !ok, "%d values: size %d, empty %v, top %v", len(m), h.Size(), h.Empty(), ok)
			g.Check(!ok || best(m, v), "the top of %v is %v", m, v)
			g.Check(perm(h.Buffer(), m) && h.CheckHeap(h.Buffer()), "the heap of %v has %v", m, h.Buffer())
			note(g, calls, len(m))
		})
		// on slices
		var b []T
		for n := g.Size(30); n > 0; n-- {
			b = append(b, k.val(g))
		}
		b = append([]T(nil), b...)
		was := append([]T(nil), b...)
		isHeap := true
		for i := 1; i < len(b); i++ {
			isHeap = isHeap && !better(b[i], b[(i-1)/2])
		}
		g.Check(h.CheckHeap(b) == isHeap, "checking whether %v is a heap: %v", b, !isHeap)
		h.MakeHeap(b)
		g.Check(perm(b, was), "making a heap of %v gives %v", was, b)
		for i := 1; i < len(b); i++ {
			g.Check(!better(b[i], b[(i-1)/2]), "making a heap of %v gives %v", was, b)
		}
		v := k.val(g)
		b = h.PushHeap(b, v)
		was = append(was, v)
		g.Check(perm(b, was) && h.CheckHeap(b), "pushing %v gives %v", v, b)
		for len(b) > 0 && g.Bool() {
			c, v, ok := h.PopHeap(b)
			g.Check(ok && len(c) == len(b)-1 && best(c, v), "popping from %v gives %v and leaves %v", was, v, c)
			was, ok = take(was, v)
			g.Check(ok && perm(c, was) && h.CheckHeap(c), "popping %v leaves %v of %v", v, c, was)
			b = c
		}
		b = h.SortHeap(b)
		g.Check(perm(b, was), "sorting %v gives %v", was, b)
		for i := 1; i < len(b); i++ {
			g.Check(!better(b[i-1], b[i]), "sorting %v by the heap gives %v", was, b) // the best last
		}
		rev := append([]T(nil), b...)
		h.Reverse(rev)
		for i := range b {
			g.Check(rev[i] == b[len(b)-1-i], "reversing %v gives %v", b, rev)
		}
	}
}

func list[T, L, S, N comparable](k *kit[T, L, S, N]) func(*G) {
	return func(g *G) {
		l := k.list()
		var m, loose []L
		vals := map[L]T{}
		var none L
		calls := 0
		show := func() (r []T) {
			for _, n := range m {
				r = append(r, vals[n])
			}
			return
		}
		at := func(n L) int {
			for i := range m {
				if m[i] == n {
					return i
				}
			}
			return -1
		}
		put := func(i int, n L) { m = append(append(append([]L(nil), m[:i]...), n), m[i:]...) }
		del := func(n L) { m = append(append([]L(nil), m[:at(n)]...), m[at(n)+1:]...) }
		g.Steps(20, 200, func(int) {
			calls++
			v := k.val(g)
			var a, b L
			if len(m) > 0 {
				a, b = m[g.N(len(m))], m[g.N(len(m))]
			}
			op := g.N(26)
			g.Logf("operation %d on %v, value %v, nodes %d and %d", op, show(), v, at(a), at(b))
			switch {
			case op < 2:
				n := l.PushBack(v)
				vals[n] = v
				put(len(m), n)
			case op == 2:
				n := l.PushFront(v)
				vals[n] = v
				put(0, n)
			case op < 5:
				var w T
				var ok bool
				i := 0
				if op == 3 {
					w, ok = l.PopFront()
				} else {
					w, ok = l.PopBack()
					i = len(m) - 1
				}
				ends(g, "pop", w, ok, show(), i)
				if ok {
					del(m[i])
				}
			case op == 5 || op == 6:
				n := k.mklist()
				if len(loose) > 0 {
					n, loose = loose[0], loose[1:]
				} else {
					k.lget(n).Set(v)
					vals[n] = v
				}
				if op == 5 {
					g.Check(l.InsertFront(n) == n, "InsertFront returns another node")
					put(0, n)
				} else {
					g.Check(l.InsertBack(n) == n, "InsertBack returns another node")
					put(len(m), n)
				}
			case op == 23 || op == 24:
				o := k.list()
				var mo []L
				for i := g.N(4); i > 0; i-- {
					w := k.val(g)
					n := o.PushBack(w)
					vals[n] = w
					mo = append(mo, n)
				}
				g.Logf("%d nodes spliced in", len(mo))
				if g.Bool() { // the other way round
					l, o, m, mo = o, l, mo, m
				}
				ok := k.lsplice(l, o, op == 23)
				g.Check(ok == (len(mo) > 0) && o.Empty() && o.Front() == none, "splicing %d nodes: %v, left empty: %v", len(mo), ok, o.Empty())
				if op == 23 {
					m = append(append([]L(nil), mo...), m...)
				} else {
					m = append(append([]L(nil), m...), mo...)
				}
			case len(m) == 0:
			case op == 7:
				n := l.PushBefore(v, a)
				vals[n] = v
				put(at(a), n)
			case op == 8:
				n := l.PushAfter(v, a)
				vals[n] = v
				put(at(a)+1, n)
			case op == 9:
				g.Check(l.Remove(a) == a, "Remove returns another node")
				del(a)
				loose = append(loose, a)
			case op == 10:
				l.MoveFront(a)
				del(a)
				put(0, a)
			case op == 11:
				l.MoveBack(a)
				del(a)
				put(len(m), a)
			case op == 12 && a != b:
				l.MoveBefore(a, b)
				del(a)
				put(at(b), a)
			case op == 13 && a != b:
				l.MoveAfter(a, b)
				del(a)
				put(at(b)+1, a)
			case op == 14 && g.Bool():
				l.RotateForward()
				m = append(append([]L(nil), m[1:]...), m[0])
			case op == 14:
				l.RotateBackward()
				m = append([]L{m[len(m)-1]}, m[:len(m)-1]...)
			case op == 20 || op == 21:
				n := k.mklist()
				if len(loose) > 0 {
					n, loose = loose[0], loose[1:]
				} else {
					k.lget(n).Set(v)
					vals[n] = v
				}
				if op == 20 {
					g.Check(l.InsertBefore(n, a) == n, "InsertBefore returns another node")
					put(at(a), n)
				} else {
					g.Check(l.InsertAfter(n, a) == n, "InsertAfter returns another node")
					put(at(a)+1, n)
				}
			case op == 22 && g.Bool():
				n := l.RemoveFront()
				g.Check(n == m[0], "RemoveFront returns another node")
				del(n)
				loose = append(loose, n)
			case op == 22:
				n := l.RemoveBack()
				g.Check(n == m[len(m)-1], "RemoveBack returns another node")
				del(n)
				loose = append(loose, n)
			case op == 25: // what is not there changes nothing
				gone := none
				if len(loose) > 0 && g.Bool() {
					gone = loose[g.N(len(loose))]
				}
				l.Remove(gone)
				l.MoveFront(gone)
				l.MoveBack(gone)
				l.MoveBefore(gone, a)
				l.MoveAfter(gone, a)
				l.InsertFront(none)
				l.InsertBack(none)
				l.InsertBefore(none, a)
				l.InsertAfter(none, a)
				g.Check(l.PushBefore(v, none) == none && l.PushAfter(v, none) == none && !l.Reachable(a, none) && !l.Reachable(none, a), "a missing node is taken for one")
			case op == 15:
				l.Reverse()
				for i, j := 0, len(m)-1; i < j; i, j = i+1, j-1 {
					m[i], m[j] = m[j], m[i]
				}
			case op == 16:
				g.Check(k.lget(a).Set(v) == vals[a], "Set returns another value")
				vals[a] = v
			case op == 17 && g.OneIn(8):
				l.Clear()
				m = nil
			case op > 17:
				l.Sort()
				sort.SliceStable(m, func(i, j int) bool { return k.before(vals[m[i]], vals[m[j]]) })
			}
			n := l.Front()
			g.Check(l.Empty() == (len(m) == 0) && (n == none) == (len(m) == 0), "empty: %v, with %d nodes", l.Empty(), len(m))
			for i, want := range m {
				g.Check(n == want && k.lget(n).Get() == vals[want], "node %d of %v is another one or has %v", i, show(), k.lget(n).Get())
				g.Check(k.lget(n).Prev() == m[(i+len(m)-1)%len(m)], "what comes before node %d of %v is wrong", i, show())
				n = k.lget(n).Next()
			}
			it := k.lvisit(l)
			for i := range m {
				g.Check(it.Next() && it.Get() == m[i], "visit of %v: node %d is another one", show(), i)
			}
			g.Check(!it.Next(), "the visit of %v does not end", show())
			it.Reset()
			for i := len(m) - 1; i >= 0; i-- {
				g.Check(it.Prev() && it.Get() == m[i], "visit of %v backwards: node %d is another one", show(), i)
			}
			g.Check(!it.Prev(), "the visit of %v backwards does not end", show())
			if len(m) > 0 {
				g.Check(l.Reachable(m[len(m)/2], m[len(m)-1]) && l.Reachable(m[len(m)-1], m[0]), "the nodes of %v do not reach each other", show())
				g.Check(n == m[0] && l.Back() == m[len(m)-1] && l.IsValidNode(m[len(m)-1]), "the end of %v is wrong", show())
			}
			for _, n := range loose {
				g.Check(!l.IsValidNode(n), "a removed node is said to be in the list")
			}
			note(g, calls, len(m))
		})
	}
}

func slist[T, L, S, N comparable](k *kit[T, L, S, N]) func(*G) {
	return func(g *G) {
		l := k.slist()
		var m, loose []S
		vals := map[S]T{}
		calls := 0
		show := func() (r []T) {
			for _, n := range m {
				r = append(r, vals[n])
			}
			return
		}
		at := func(n S) int {
			for i := range m {
				if m[i] == n {
					return i
				}
			}
			return -1
		}
		put := func(i int, n S) { m = append(append(append([]S(nil), m[:i]...), n), m[i:]...) }
		del := func(n S) { m = append(append([]S(nil), m[:at(n)]...), m[at(n)+1:]...) }
		g.Steps(20, 200, func(int) {
			calls++
			v := k.val(g)
			var a, b S
			if len(m) > 0 {
				a, b = m[g.N(len(m))], m[g.N(len(m))]
			}
			op := g.N(19)
			g.Logf("operation %d on %v, value %v, nodes %d and %d", op, show(), v, at(a), at(b))
			switch {
			case op < 3:
				n := l.PushFront(v)
				vals[n] = v
				put(0, n)
			case op == 3:
				w, ok := l.PopFront()
				ends(g, "pop", w, ok, show(), 0)
				if ok {
					del(m[0])
				}
			case op == 4:
				n := k.mksl()
				if len(loose) > 0 {
					n, loose = loose[0], loose[1:]
				} else {
					k.sget(n).Set(v)
					vals[n] = v
				}
				g.Check(l.InsertFront(n) == n, "InsertFront returns another node")
				put(0, n)
			case op == 14 || op == 15:
				o := k.slist()
				var mo []S
				for i := g.N(4); i > 0; i-- {
					w := k.val(g)
					n := o.PushFront(w)
					vals[n] = w
					mo = append([]S{n}, mo...)
				}
				g.Logf("%d nodes spliced in", len(mo))
				if g.Bool() {
					l, o, m, mo = o, l, mo, m
				}
				k.ssplice(l, o)
				g.Check(o.Empty() && o.Len() == 0, "the list spliced in keeps nodes")
				m = append(append([]S(nil), mo...), m...)
			case len(m) == 0:
			case op == 16:
				n := k.mksl()
				if len(loose) > 0 {
					n, loose = loose[0], loose[1:]
				} else {
					k.sget(n).Set(v)
					vals[n] = v
				}
				g.Check(l.InsertAfter(n, a) == n, "InsertAfter returns another node")
				put(at(a)+1, n)
			case op == 17:
				n := l.RemoveFront()
				g.Check(n == m[0], "RemoveFront returns another node")
				del(n)
				loose = append(loose, n)
			case op == 18: // what is not there changes nothing
				var gone S
				if len(loose) > 0 && g.Bool() {
					gone = loose[g.N(len(loose))]
				}
				var none S
				l.Remove(gone)
				l.MoveFront(gone)
				l.MoveAfter(gone, a)
				l.InsertFront(none)
				l.InsertAfter(none, a)
				g.Check(l.PushAfter(v, none) == none && !l.Reachable(a, none) && !l.Reachable(none, a), "a missing node is taken for one")
			case op == 5:
				n := l.PushAfter(v, a)
				vals[n] = v
				put(at(a)+1, n)
			case op == 6:
				g.Check(l.Remove(a) == a, "Remove returns another node")
				del(a)
				loose = append(loose, a)
			case op == 7:
				l.MoveFront(a)
				del(a)
				put(0, a)
			case op == 8 && a != b:
				l.MoveAfter(a, b)
				del(a)
				put(at(b)+1, a)
			case op == 9:
				l.Reverse()
				for i, j := 0, len(m)-1; i < j; i, j = i+1, j-1 {
					m[i], m[j] = m[j], m[i]
				}
			case op == 10:
				g.Check(k.sget(a).Set(v) == vals[a], "Set returns another value")
				vals[a] = v
			case op == 11 && g.OneIn(8):
				l.Clear()
				m = nil
			case op > 11:
				l.Sort()
				sort.SliceStable(m, func(i, j int) bool { return k.before(vals[m[i]], vals[m[j]]) })
			}
			var none S
			n := l.Front()
			g.Check(l.Empty() == (len(m) == 0) && l.Len() == len(m), "empty: %v, length %d, with %d nodes", l.Empty(), l.Len(), len(m))
			for i, want := range m {
				g.Check(n == want && k.sget(n).Get() == vals[want] && l.IsValidNode(want), "node %d of %v is another one or has another value", i, show())
				n = k.sget(n).Next()
			}
			g.Check(n == none, "the list of %v does not end", show())
			it := k.svisit(l)
			for i := range m {
				g.Check(it.Next() && it.Get() == m[i], "visit of %v: node %d is another one", show(), i)
			}
			g.Check(!it.Next(), "the visit of %v does not end", show())
			if len(m) > 0 {
				i := g.N(len(m))
				t, size := k.sget(m[i]).Tail()
				g.Check(t == m[len(m)-1] && size == len(m)-i, "the tail of %v from node %d: %d nodes", show(), i, size)
				g.Check(!l.HasCycle(m[i]) && l.Reachable(m[i], t) && (i == 0 || !l.Reachable(t, m[0])), "cycle or reach of %v from node %d", show(), i)
			}
			for _, n := range loose {
				g.Check(!l.IsValidNode(n), "a removed node is said to be in the list")
			}
			note(g, calls, len(m))
		})
	}
}

func slice[T, L, S, N comparable](k *kit[T, L, S, N]) func(*G) {
	return func(g *G) {
		s := k.slice(g.Size(20))
		var m []T
		calls := 0
		g.Steps(20, 200, func(int) {
			calls++
			v, i := k.val(g), g.N(len(m)+3)-1
			op := g.N(8)
			g.Logf("operation %d on %v, value %v, index %d", op, m, v, i)
			in := i >= 0 && i < len(m)
			switch op {
			case 6:
				if g.OneIn(6) {
					s.Init(g.N(20))
					m = nil
				}
			case 7:
				if in {
					j := g.N(len(m))
					g.Check(s.Less(i, j) == k.before(m[i], m[j]), "Less(%d, %d) of %v: %v", i, j, m, s.Less(i, j))
					s.Swap(i, j)
					m[i], m[j] = m[j], m[i]
					g.Check(s.MustGet(i) == m[i], "MustGet(%d) of %v: %v", i, m, s.MustGet(i))
				}
			case 0, 1:
				m = append(m, v)
				g.Check(s.Push(v) == len(m), "Push returns another length")
			case 2:
				at := i
				if !in {
					at = len(m)
				}
				m = append(append(append([]T(nil), m[:at]...), v), m[at:]...)
				g.Check(s.Insert(v, i) == len(m), "Insert returns another length")
			case 3:
				w, ok := s.Remove(i)
				g.Check(ok == in && (!in || w == m[i]), "Remove(%d) of %v: %v, %v", i, m, w, ok)
				if in {
					m = append(append([]T(nil), m[:i]...), m[i+1:]...)
				}
			case 4:
				w, ok := s.Pop()
				ends(g, "Pop", w, ok, m, len(m)-1)
				if ok {
					m = m[:len(m)-1]
				}
			case 5:
				s.Sort()
				b := append([]T(nil), s.Buffer()...)
				g.Check(perm(b, m), "sorting %v gives %v", m, b)
				for i := 1; i < len(b); i++ {
					g.Check(!k.before(b[i], b[i-1]), "sorting %v gives %v", m, b)
				}
				m = b
			}
			equal(g, "content", s.Buffer(), m)
			g.Check(s.Len() == len(m), "Len = %d of %v", s.Len(), m)
			w, ok := s.Get(i)
			in = i >= 0 && i < len(m)
			g.Check(ok == in && (!in || w == m[i]), "Get(%d) of %v: %v, %v", i, m, w, ok)
			note(g, calls, len(m))
		})
	}
}

type mtree[T, N any] struct {
	n    N
	v    T
	subs []*mtree[T, N]
}

func (t *mtree[T, N]) all() []T {
	r := []T{t.v}
	for _, s := range t.subs {
		r = append(r, s.all()...)
	}
	return r
}

func tree[T, L, S, N comparable](k *kit[T, L, S, N]) func(*G) {
	return func(g *G) {
		v := k.val(g)
		root := &mtree[T, N]{n: k.root(v), v: v}
		nodes := []*mtree[T, N]{root}
		calls := 0
		g.Steps(14, 100, func(int) {
			calls++
			x := nodes[g.N(len(nodes))]
			n := k.tget(x.n)
			i := g.N(len(x.subs)+3) - 1
			in := i >= 0 && i < len(x.subs)
			switch op := g.N(6); op {
			default:
				v := k.val(g)
				g.Logf("add %v at %d of %v", v, i, x.v)
				var s *mtree[T, N]
				if op == 3 {
					s = &mtree[T, N]{n: k.root(v), v: v}
					g.Check(n.AddChildNode(s.n, i) == s.n, "AddChildNode returns another node")
				} else {
					s = &mtree[T, N]{n: n.AddChild(v, i), v: v}
				}
				if in {
					x.subs = append(append(append([]*mtree[T, N](nil), x.subs[:i]...), s), x.subs[i:]...)
				} else {
					x.subs = append(x.subs, s)
				}
				nodes = append(nodes, s)
			case 4:
				g.Logf("remove at %d of %v", i, x.v)
				c, ok := n.RemoveChild(i)
				g.Check(ok == in && (!in || c == x.subs[i].n), "RemoveChild(%d) of %d children: %v", i, len(x.subs), ok)
				if in {
					x.subs = append(append([]*mtree[T, N](nil), x.subs[:i]...), x.subs[i+1:]...)
				}
			case 5:
				g.Logf("sort the children of %v", x.v)
				n.SortChildren()
				var s []*mtree[T, N]
				for j := range x.subs {
					c, ok := n.GetChild(j)
					g.Check(ok, "child %d is missing after sorting", j)
					for _, y := range x.subs {
						if y.n == c {
							s = append(s, y)
						}
					}
				}
				g.Check(len(s) == len(x.subs), "sorting loses children")
				for j := 1; j < len(s); j++ {
					g.Check(!k.before(s[j].v, s[j-1].v), "children sorted wrongly: %v before %v", s[j-1].v, s[j].v)
				}
				x.subs = s
			}
			g.Check(n.NumChildren() == len(x.subs), "%d children, want %d", n.NumChildren(), len(x.subs))
			for j, s := range x.subs {
				c, ok := n.GetChild(j)
				g.Check(ok && c == s.n, "child %d is another one", j)
				g.Check(k.tget(c).Less(x.n) == k.less(s.v, x.v), "%v less than %v: %v", s.v, x.v, k.tget(c).Less(x.n))
			}
			g.Check(len(n.Children()) == len(x.subs), "%d children listed, want %d", len(n.Children()), len(x.subs))
			equal(g, "all", k.tget(root.n).All(), root.all())
			// the visitor: forwards, backwards, and turning round
			want := x.all()
			it, at := k.tvisit(x.n), -1
			for at++; at < len(want); at++ {
				g.Check(it.Next() && it.Get() == want[at], "visit of %v: value %d is %v", want, at, it.Get())
				if at > 0 && g.OneIn(6) {
					g.Check(it.Prev() && it.Get() == want[at-1], "visit of %v: before value %d is %v", want, at, it.Get())
					g.Check(it.Next() && it.Get() == want[at], "visit of %v: turned round, value %d is %v", want, at, it.Get())
				}
			}
			g.Check(!it.Next(), "the visit of %v does not end", want)
			it = k.tvisit(x.n)
			for at = len(want) - 1; at >= 0; at-- {
				g.Check(it.Prev() && it.Get() == want[at], "visit of %v backwards: value %d is %v", want, at, it.Get())
			}
			g.Check(!it.Prev(), "the visit of %v backwards does not end", want)
			note(g, calls, len(root.all()))
		})
	}
}

// bulk: thousands of values
func bulk[T, L, S, N comparable](k *kit[T, L, S, N]) func(*G) {
	return func(g *G) {
		var pool []T
		for i := 0; i < 300; i++ {
			pool = append(pool, k.val(g))
		}
		r := g.Rng()
		n := g.Big(100, 12000)
		g.Logf("%d values", n)
		g.NonTrivial()
		vs := make([]T, n)
		for i := range vs {
			vs[i] = pool[r.N(len(pool))]
		}
		st, qu, de := k.stack(g.Size(20)), k.queue(g.Size(20)), k.deque(g.Size(20))
		drop := r.N(n/2 + 1)
		side := make([]bool, n)
		var md []T
		for i, v := range vs {
			side[i] = r.N(2) == 0
			g.Check(st.Push(v) && qu.Push(v), "push %d is refused", i)
			if i == n/2 { // so that the rings turn
				for j := 0; j < drop; j++ {
					w, ok := qu.Pop()
					g.Check(ok && w == vs[j], "value %d from the queue: %v, %v, not %v", j, w, ok, vs[j])
				}
			}
			if side[i] {
				g.Check(de.PushFront(v), "push %d is refused", i)
			} else {
				g.Check(de.PushBack(v), "push %d is refused", i)
			}
		}
		for i := n - 1; i >= 0; i-- {
			if side[i] {
				md = append(md, vs[i])
			}
		}
		for i := range vs {
			if !side[i] {
				md = append(md, vs[i])
			}
		}
		g.Check(st.Size() == n && qu.Size() == n-drop && de.Size() == n, "sizes %d, %d, %d of %d", st.Size(), qu.Size(), de.Size(), n)
		qu.Shrink()
		for i := n - 1; i >= 0; i-- {
			w, ok := st.Pop()
			g.Check(ok && w == vs[i], "value %d from the stack: %v, %v, not %v", i, w, ok, vs[i])
		}
		for i := drop; i < n; i++ {
			w, ok := qu.Pop()
			g.Check(ok && w == vs[i], "value %d from the queue: %v, %v, not %v", i, w, ok, vs[i])
			if i%(n/5+1) == 0 {
				qu.Shrink()
			}
		}
		for lo, hi := 0, n; lo < hi; {
			if r.N(2) == 0 {
				w, ok := de.PopFront()
				g.Check(ok && w == md[lo], "value %d from the deque: %v, %v, not %v", lo, w, ok, md[lo])
				lo++
			} else {
				hi--
				w, ok := de.PopBack()
				g.Check(ok && w == md[hi], "value %d from the deque: %v, %v, not %v", hi, w, ok, md[hi])
			}
			if r.N(n) < 3 {
				de.Shrink()
			}
		}
		g.Check(st.Empty() && qu.Empty() && de.Empty(), "drained, they are not empty")
		// the heap
		maxTop, limit := g.Bool(), 0
		if g.Bool() {
			limit = g.Big(1, n)
		}
		h := k.heap(0, limit, maxTop)
		for _, v := range vs {
			h.Push(v)
		}
		best := append([]T(nil), vs...)
		better := func(a, b T) bool {
			if maxTop {
				return k.less(b, a)
			}
			return k.less(a, b)
		}
		sort.SliceStable(best, func(i, j int) bool { return better(best[i], best[j]) })
		if limit > 0 && limit < n {
			best = best[n-limit:]
		}
		g.Check(h.Size() == len(best) && h.CheckHeap(h.Buffer()), "a heap of %d values, limit %d has %d", n, limit, h.Size())
		for i, w := range best {
			v, ok := h.Pop()
			g.Check(ok && !better(v, w) && !better(w, v), "value %d from the heap: %v, %v, not %v", i, v, ok, w)
		}
		hs := append([]T(nil), vs...)
		hs = h.SortHeap(hs)
		for i := 1; i < len(hs); i++ {
			g.Check(!better(hs[i-1], hs[i]), "sorted by the heap, value %d is wrong", i)
		}
		g.Check(perm(hs, vs), "sorting by the heap loses values")
		// lists and slices
		up := append([]T(nil), vs...)
		sort.SliceStable(up, func(i, j int) bool { return k.before(up[i], up[j]) })
		l, sl, ss := k.list(), k.slist(), k.slice(g.Size(20))
		for i := range vs {
			l.PushBack(vs[i])
			sl.PushFront(vs[n-1-i])
			g.Check(ss.Push(vs[i]) == i+1, "push %d on the slice gives another length", i)
		}
		g.Check(sl.Len() == n && ss.Len() == n, "lengths %d, %d of %d", sl.Len(), ss.Len(), n)
		_, size := k.sget(sl.Front()).Tail()
		g.Check(size == n, "a list of %d nodes has its tail after %d", n, size)
		x := r.N(n)
		ss.Insert(pool[0], x)
		v, ok := ss.Get(x)
		g.Check(ok && v == pool[0] && ss.Len() == n+1, "inserting at %d of %d: %v, %v", x, n, v, ok)
		v, ok = ss.Remove(x)
		g.Check(ok && v == pool[0], "removing at %d of %d: %v, %v", x, n, v, ok)
		equal(g, "slice", ss.Buffer(), vs)
		l.Sort()
		sl.Sort()
		ss.Sort()
		a, b := l.Front(), sl.Front()
		for i, w := range up {
			g.Check(k.lget(a).Get() == w && k.sget(b).Get() == w, "sorted, node %d of %d has %v and %v, not %v", i, n, k.lget(a).Get(), k.sget(b).Get(), w)
			a, b = k.lget(a).Next(), k.sget(b).Next()
			if i > 0 {
				g.Check(!k.before(ss.MustGet(i), ss.MustGet(i-1)), "sorted, value %d of the slice is wrong", i)
			}
		}
		g.Check(a == l.Front() && l.Back() == k.lget(a).Prev() && perm(ss.Buffer(), vs), "sorting loses values")
	}
}

func bijection[I ~int](made, zero func() mapI[I]) func(*G) {
	return func(g *G) {
		m := made()
		if g.Bool() {
			m = zero()
			m.Init()
		}
		fwd, back := map[int]string{}, map[string]int{}
		keys := []int{0, 1, 2, 3, g.Val(), g.Val()}
		vals := []string{"", "a", "b", "c", g.Word(nil), g.Word(nil)}
		calls, most := 0, 0
		g.Steps(16, 120, func(int) {
			calls++
			k, v := Pick(g, keys), Pick(g, vals)
			_, hasK := fwd[k]
			_, hasV := back[v]
			switch g.N(7) {
			default:
				id, err := m.Insert(k, v)
				g.Logf("insert %d, %q: %v, %v", k, v, id, err)
				g.Check((err == nil) == (!hasK && !hasV), "inserting %d, %q: %v, with key there %v, value there %v", k, v, err, hasK, hasV)
				if err == nil {
					g.Check(int(id) == k, "inserting %d gives the id %v", k, id)
					fwd[k], back[v] = v, k
				}
			case 4:
				ok := m.RemoveByKey(k)
				g.Logf("remove key %d: %v", k, ok)
				g.Check(ok == hasK, "removing the key %d: %v", k, ok)
				delete(back, fwd[k])
				if hasK {
					delete(fwd, k)
				}
				for k, v := range fwd {
					back[v] = k
				}
			case 5:
				ok := m.RemoveByValue(v)
				g.Logf("remove value %q: %v", v, ok)
				g.Check(ok == hasV, "removing the value %q: %v", v, ok)
				if hasV {
					delete(fwd, back[v])
					delete(back, v)
				}
			case 6:
				if g.OneIn(6) {
					g.Logf("clear")
					m.Clear()
					fwd, back = map[int]string{}, map[string]int{}
				}
			}
			for _, k := range keys {
				v, ok := m.Find(k)
				want, has := fwd[k]
				g.Check(ok == has && v == want, "the key %d has %q, %v, want %q, %v", k, v, ok, want, has)
			}
			for _, v := range vals {
				k, ok := m.ReverseFind(v)
				want, has := back[v]
				g.Check(ok == has && k == want, "the value %q has %d, %v, want %d, %v", v, k, ok, want, has)
			}
			if len(fwd) > most {
				most = len(fwd)
			}
		})
		note(g, calls, most)
	}
}
