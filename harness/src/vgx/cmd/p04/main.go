// P04: heap order, bounded top-N selection and heap sort.
package main

import (
	"sort"

	"github.com/vipally/gx/stl"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P04",
		Rule: "a case is a history of heap calls with generated capacity, size limit and direction against a sorted-multiset model, or a generated slice (small domains with many duplicates, ascending/descending runs, extremes) through make/check/push/pop/sort; non-trivial: at least four values are present, or a full bounded heap is pushed to",
		Checks: []Check{
			{Name: "history", Quick: 40000, Thorough: 2000000, Enum: 40000, EnumThor: 600000, Fn: history},
			{Name: "slices", Quick: 60000, Thorough: 3000000, Enum: 20000, EnumThor: 300000, Fn: slices},
			{Name: "bulk", Quick: 60, Thorough: 4000, Fn: bulk},
			{Name: "huge", Quick: 3, Thorough: 100, Fn: huge},
		},
	})
}

// better reports whether a comes out of the heap before b.
func better(maxTop bool, a, b int) bool {
	if maxTop {
		return a > b
	}
	return a < b
}

func history(g *G) {
	var h *stl.IntHeap
	capacity, limit, maxTop := g.Size(20), 0, g.Bool()
	if g.Bool() {
		limit = g.Int(-1, 12)
	}
	switch g.N(2) {
	case 0:
		h = stl.NewIntHeap(capacity, limit, maxTop)
	case 1:
		h = &stl.IntHeap{}
		h.Init(capacity, limit, maxTop)
	}
	g.Logf("heap(cap=%d, limit=%d, maxTop=%v)", capacity, limit, maxTop)
	var m []int // sorted: the next to come out first
	insert := func(v int) {
		i := sort.Search(len(m), func(i int) bool { return better(maxTop, v, m[i]) })
		m = append(m, 0)
		copy(m[i+1:], m[i:])
		m[i] = v
	}
	obs := func() {
		g.Check(h.Size() == len(m), "Size = %d want %d", h.Size(), len(m))
		g.Check(h.Empty() == (len(m) == 0), "Empty = %v with %d values", h.Empty(), len(m))
		g.Check(limit <= 0 || h.Size() <= limit, "Size = %d above the limit %d", h.Size(), limit)
		t, ok := h.Top()
		g.Check(ok == (len(m) > 0), "Top ok=%v with %d values", ok, len(m))
		if ok {
			g.Check(t == m[0], "Top = %d want %d", t, m[0])
		}
		b := h.Buffer()
		g.Check(sameMultiset(b, m), "the buffer %v does not hold the values %v", b, m)
		g.Check(isHeap(b, maxTop), "the buffer %v is not in heap order (maxTop=%v)", b, maxTop)
		g.Check(h.CheckHeap(b), "CheckHeap rejects the heap's own buffer %v", b)
		if len(m) >= 4 {
			g.NonTrivial()
		}
	}
	pop := func() {
		v, ok := h.Pop()
		g.Logf("Pop() = %d,%v", v, ok)
		g.Check(ok == (len(m) > 0), "Pop ok=%v with %d values", ok, len(m))
		if ok {
			w := m[0]
			m = m[1:]
			g.Check(v == w, "Pop = %d want %d", v, w)
		}
	}
	dup := !g.Enum() && g.Bool()
	g.Steps(24, 300, func(int) {
		k := 0
		if g.Enum() {
			k = []int{0, 6, 9}[g.N(3)]
		} else {
			k = g.N(10)
		}
		switch {
		case k < 6:
			v := g.Val()
			if dup {
				v = g.N(6)
			}
			g.Logf("Push(%d)", v)
			h.Push(v)
			if limit > 0 && len(m) >= limit {
				// keeps the limit best seen: a better value replaces the top
				g.NonTrivial()
				g.Label("push on a full bounded heap")
				if better(maxTop, m[0], v) {
					m = m[1:]
					insert(v)
				}
			} else {
				insert(v)
			}
		case k < 9:
			pop()
		default:
			if g.N(6) == 5 {
				capacity, limit, maxTop = g.Size(20), 0, g.Bool()
				if g.Bool() {
					limit = 1 + g.N(8)
				}
				g.Logf("Init(%d, %d, %v)", capacity, limit, maxTop)
				h.Init(capacity, limit, maxTop)
				m = nil
			}
		}
		obs()
	})
	for len(m) > 0 {
		pop()
		obs()
	}
	pop()
}

func sameMultiset(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := append([]int(nil), a...), append([]int(nil), b...)
	sort.Ints(x)
	sort.Ints(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func isHeap(b []int, maxTop bool) bool {
	for i := 1; i < len(b); i++ {
		if better(maxTop, b[i], b[(i-1)/2]) {
			return false
		}
	}
	return true
}

func genSlice(g *G) []int {
	n := g.Size(120)
	b := make([]int, n)
	kind := 0
	if !g.Enum() {
		kind = g.N(5)
	}
	v := 0
	for i := range b {
		switch kind {
		case 0:
			b[i] = g.Val()
		case 1:
			b[i] = g.N(3)
		case 2:
			b[i], v = v, v+g.N(3)
		case 3:
			b[i], v = v, v-g.N(3)
		case 4:
			b[i] = g.N(n + 1)
		}
	}
	return b
}

func slices(g *G) {
	maxTop := g.Bool()
	h := stl.NewIntHeap(0, 0, maxTop)
	b := genSlice(g)
	orig := append([]int(nil), b...)
	g.Logf("maxTop=%v slice %v", maxTop, orig)
	if len(b) >= 4 {
		g.NonTrivial()
	}
	// CheckHeap decides heap order
	g.Check(h.CheckHeap(b) == isHeap(b, maxTop), "CheckHeap(%v) = %v", b, h.CheckHeap(b))
	h.MakeHeap(b)
	g.Check(sameMultiset(b, orig), "MakeHeap turned %v into %v: not a permutation", orig, b)
	g.Check(isHeap(b, maxTop), "MakeHeap of %v gives %v: not a heap (maxTop=%v)", orig, b, maxTop)
	// push and pop on the slice
	v := g.Val()
	c := h.PushHeap(append([]int(nil), b...), v)
	g.Check(sameMultiset(c, append(append([]int(nil), orig...), v)) && isHeap(c, maxTop), "PushHeap(%v, %d) = %v", b, v, c)
	d, top, ok := h.PopHeap(append([]int(nil), b...))
	g.Check(ok == (len(b) > 0), "PopHeap ok=%v of %d values", ok, len(b))
	if ok {
		g.Check(top == b[0] && len(d) == len(b)-1 && isHeap(d, maxTop) && sameMultiset(append(append([]int(nil), d...), top), orig),
			"PopHeap(%v) = %v, %d", b, d, top)
	}
	// sort: the order values come out of the heap, reversed
	s := append([]int(nil), orig...)
	r := h.SortHeap(s)
	want := append([]int(nil), orig...)
	if maxTop {
		sort.Ints(want)
	} else {
		sort.Sort(sort.Reverse(sort.IntSlice(want)))
	}
	g.Check(equal(r, want) && equal(s, want), "SortHeap(%v) = %v (in place %v), want %v", orig, r, s, want)
	h.Reverse(s)
	for i := range s {
		g.Check(s[i] == want[len(want)-1-i], "Reverse(%v) = %v", want, s)
	}
	g.Check(len(s) == len(want), "Reverse changed the length")
}

func equal(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// bulk: thousands of values, compared with sorting.
func bulk(g *G) { fill(g, 200000) }

// millions of values
func huge(g *G) { fill(g, 3000000) }

func fill(g *G, most int) {
	maxTop, r := g.Bool(), g.Rng()
	n := g.Big(200, most)
	dom := []int{3, 50, n, 1 << 40}[g.N(4)]
	limit := 0
	if g.Bool() {
		limit = g.Big(1, n+n/4)
	}
	order := g.N(4)
	g.Logf("heap(limit=%d, maxTop=%v), %d values below %d, order %d", limit, maxTop, n, dom, order)
	vs := make([]int, n)
	for i := range vs {
		vs[i] = r.N(dom)
	}
	if order == 1 || order == 2 {
		sort.Ints(vs)
	}
	if order == 2 {
		for i := 0; i < n/2; i++ {
			vs[i], vs[n-1-i] = vs[n-1-i], vs[i]
		}
	}
	g.NonTrivial()
	h := stl.NewIntHeap(g.Big(1, n), limit, maxTop)
	for _, v := range vs {
		h.Push(v)
	}
	want := append([]int(nil), vs...)
	sort.Slice(want, func(i, j int) bool { return better(maxTop, want[i], want[j]) })
	// the limit best: a bounded heap drops what comes out first
	if limit > 0 && n > limit {
		want = want[n-limit:]
	}
	g.Check(h.Size() == len(want), "Size = %d want %d", h.Size(), len(want))
	b := append([]int(nil), h.Buffer()...)
	g.Check(isHeap(b, maxTop) && h.CheckHeap(b), "the buffer of %d values is not in heap order", len(b))
	for i, w := range want {
		v, ok := h.Pop()
		g.Check(ok && v == w, "value %d popped is %d,%v want %d", i, v, ok, w)
	}
	_, ok := h.Pop()
	g.Check(!ok, "Pop of the drained heap reported a value")
	// the slice algorithms
	s := append([]int(nil), vs...)
	h2 := stl.NewIntHeap(0, 0, maxTop)
	h2.MakeHeap(s)
	g.Check(isHeap(s, maxTop) && h2.CheckHeap(s), "MakeHeap of %d values gives no heap", n)
	x := 1 + g.N(n-1) // break the order at one place
	old := s[x]
	if maxTop {
		s[x] = s[(x-1)/2] + 1
	} else {
		s[x] = s[(x-1)/2] - 1
	}
	g.Check(!h2.CheckHeap(s), "CheckHeap accepts %d values with position %d out of order", n, x)
	s[x] = old
	s = h2.SortHeap(s)
	all := append([]int(nil), vs...)
	sort.Slice(all, func(i, j int) bool { return better(maxTop, all[j], all[i]) })
	g.Check(equal(s, all), "SortHeap of %d values is wrong", n)
	h2.Reverse(s)
	for i := range s {
		g.Check(s[i] == all[n-1-i], "Reverse of %d values: position %d is wrong", n, i)
	}
}
