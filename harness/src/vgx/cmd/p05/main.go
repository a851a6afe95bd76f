// P05: sort slice as an indexed sequence; comparators as strict orders.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/vipally/gx/fs"
	"github.com/vipally/gx/stl"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P05",
		Rule: "a case is a generated history of push/insert/remove/pop/get/sort calls on sort slices of ints or of tree nodes (indexes in and out of range) compared call by call with a plain slice, or a generated triple for the comparators; non-trivial: an insert or remove inside the sequence, or a sort of at least three values",
		Checks: []Check{
			{Name: "int-slice", Quick: 40000, Thorough: 2000000, Enum: 40000, EnumThor: 600000, Fn: intSlice},
			{Name: "node-slice", Quick: 30000, Thorough: 1500000, Enum: 20000, EnumThor: 300000, Fn: nodeSlice},
			{Name: "filehash-slice", Quick: 30000, Thorough: 1500000, Enum: 20000, EnumThor: 300000, Fn: hashSlice},
			{Name: "bulk", Quick: 60, Thorough: 4000, Fn: bulk},
			{Name: "huge", Quick: 3, Thorough: 100, Fn: huge},
			{Name: "comparator", Quick: 40000, Thorough: 1000000, Fn: comparator},
		},
	})
}

func idx(g *G, n int) int {
	if g.Enum() {
		return g.N(n+3) - 1
	}
	switch g.N(6) {
	case 0:
		return n
	case 1:
		return -1 - g.N(3)
	case 2:
		return n + g.N(4)
	case 3:
		return g.Val()
	}
	if n == 0 {
		return 0
	}
	return g.N(n)
}

type sorter[T comparable] interface {
	Push(T) int
	Insert(T, int) int
	Remove(int) (T, bool)
	Pop() (T, bool)
	Get(int) (T, bool)
	MustGet(int) T
	Len() int
	Buffer() []T
	Sort()
	Less(i, j int) bool
	Swap(i, j int)
}

func run[T comparable](g *G, s sorter[T], val func() T, key func(T) string, less func(a, b T) bool) {
	var m []T
	show := func(x []T) (r []string) {
		for _, v := range x {
			r = append(r, key(v))
		}
		return
	}
	obs := func() {
		g.Check(s.Len() == len(m), "Len = %d want %d", s.Len(), len(m))
		b := s.Buffer()
		g.Check(len(b) == len(m), "Buffer has %d values, want %d", len(b), len(m))
		for i := range m {
			if b[i] != m[i] {
				g.Fatalf("content is %v want %v", show(b), show(m))
			}
			v, ok := s.Get(i)
			g.Check(ok && v == m[i], "Get(%d) = %v,%v want %v", i, key(v), ok, key(m[i]))
		}
	}
	g.Steps(20, 200, func(int) {
		switch g.N(8) {
		case 0, 1:
			v := val()
			g.Logf("Push(%s)", key(v))
			r := s.Push(v)
			m = append(m, v)
			g.Check(r == len(m), "Push returned %d, the length is %d", r, len(m))
		case 2:
			v, i := val(), idx(g, len(m))
			g.Logf("Insert(%s, at %d)", key(v), i)
			r := s.Insert(v, i)
			if i >= 0 && i < len(m) {
				m = append(m, v)
				copy(m[i+1:], m[i:])
				m[i] = v
				if len(m) > 2 {
					g.NonTrivial()
				}
			} else {
				m = append(m, v)
			}
			g.Check(r == len(m), "Insert returned %d, the length is %d", r, len(m))
		case 3:
			i := idx(g, len(m))
			v, ok := s.Remove(i)
			in := i >= 0 && i < len(m)
			g.Logf("Remove(%d) ok=%v", i, ok)
			g.Check(ok == in, "Remove(%d) of %d values: ok=%v", i, len(m), ok)
			if in {
				g.Check(v == m[i], "Remove(%d) returned %s want %s", i, key(v), key(m[i]))
				m = append(append([]T(nil), m[:i]...), m[i+1:]...)
				if len(m) > 1 {
					g.NonTrivial()
				}
			}
		case 4:
			v, ok := s.Pop()
			g.Logf("Pop() ok=%v", ok)
			g.Check(ok == (len(m) > 0), "Pop of %d values: ok=%v", len(m), ok)
			if ok {
				g.Check(v == m[len(m)-1], "Pop returned %s want %s", key(v), key(m[len(m)-1]))
				m = m[:len(m)-1]
			}
		case 5:
			i := idx(g, len(m))
			in := i >= 0 && i < len(m)
			_, ok := s.Get(i)
			g.Check(ok == in, "Get(%d) of %d values: ok=%v", i, len(m), ok)
			var v T
			p, _ := g.Panics(func() { v = s.MustGet(i) })
			g.Logf("MustGet(%d) panicked=%v", i, p)
			g.Check(p == !in, "MustGet(%d) of %d values: panicked=%v", i, len(m), p)
			if in {
				g.Check(v == m[i], "MustGet(%d) = %s want %s", i, key(v), key(m[i]))
			}
		case 6:
			g.Logf("Sort()")
			s.Sort()
			b := s.Buffer()
			g.Check(len(b) == len(m), "Sort changed the length")
			for i := 1; i < len(b); i++ {
				if less(b[i], b[i-1]) {
					g.Fatalf("Sort gives %v", show(b))
				}
			}
			cnt := map[T]int{}
			for i := range m {
				cnt[m[i]]++
				cnt[b[i]]--
			}
			for _, c := range cnt {
				if c != 0 {
					g.Fatalf("Sort of %v gives %v: not a permutation", show(m), show(b))
				}
			}
			m = append([]T(nil), b...)
			if len(m) > 2 {
				g.NonTrivial()
			}
		case 7:
			if len(m) > 0 {
				i, j := g.N(len(m)), g.N(len(m))
				g.Check(s.Less(i, j) == less(m[i], m[j]), "Less(%d,%d) of %v = %v", i, j, show(m), s.Less(i, j))
				g.Logf("Swap(%d,%d)", i, j)
				s.Swap(i, j)
				m[i], m[j] = m[j], m[i]
			}
		}
		obs()
	})
}

func intSlice(g *G) {
	var s *stl.IntSortSlice
	if g.Bool() {
		s = &stl.IntSortSlice{}
	} else {
		s = stl.NewIntSortSlice(g.Size(20))
	}
	run[int](g, s, g.Val, func(v int) string { return fmt.Sprint(v) }, func(a, b int) bool { return a < b })
}

func nodeSlice(g *G) {
	var s *stl.IntTreeNodeSortSlice
	if g.Bool() {
		s = &stl.IntTreeNodeSortSlice{}
	} else {
		s = stl.NewIntTreeNodeSortSlice(g.Size(20))
	}
	var holder stl.IntTreeNode
	keys := map[*stl.IntTreeNode]int{}
	run[*stl.IntTreeNode](g, s, func() *stl.IntTreeNode {
		v := g.Val()
		n := holder.AddChild(v, -1)
		keys[n] = v
		return n
	}, func(n *stl.IntTreeNode) string {
		if n == nil {
			return "nil"
		}
		return fmt.Sprint(keys[n])
	}, func(a, b *stl.IntTreeNode) bool { return keys[a] < keys[b] })
}

func comparator(g *G) {
	a, b, c := g.Val(), g.Val(), g.Val()
	g.Logf("a=%d b=%d c=%d", a, b, c)
	if a != b && b != c && a != c {
		g.NonTrivial()
	}
	var z stl.CmpInt
	lesser := []stl.CmpInt{z, stl.CmpIntLesser, z.CreateByName(""), z.CreateByName("Lesser"), stl.CmpIntGreater.CreateByName(""),
		z.CreateByBool(false), stl.CreateCmpInt(""), stl.CreateCmpInt("Lesser"), stl.CmpIntGreater.Lesser()}
	greater := []stl.CmpInt{stl.CmpIntGreater, z.CreateByName("Greater"), z.CreateByBool(true), stl.CreateCmpInt("Greater"), z.Greater()}
	for _, f := range lesser {
		g.Check(f.F(a, b) == (a < b), "lesser(%d,%d) = %v", a, b, f.F(a, b))
		g.Check(f.String() == "Lesser", "name of lesser is %q", f.String())
	}
	for _, f := range greater {
		g.Check(f.F(a, b) == (a > b), "greater(%d,%d) = %v", a, b, f.F(a, b))
		g.Check(f.String() == "Greater", "name of greater is %q", f.String())
	}
	var root stl.IntTreeNode
	na, nb := root.AddChild(a, -1), root.AddChild(b, -1)
	var zn stl.CmpIntTreeNode
	for _, f := range []stl.CmpIntTreeNode{zn, stl.CmpIntTreeNodeLesser, zn.CreateByName(""), zn.CreateByName("Lesser"), zn.CreateByBool(false), stl.CreateCmpIntTreeNode(""), stl.CreateCmpIntTreeNode("Lesser"), stl.CmpIntTreeNodeGreater.Lesser()} {
		g.Check(f.F(na, nb) == (a < b), "node lesser(%d,%d) = %v", a, b, f.F(na, nb))
		g.Check(f.String() == "Lesser", "name of lesser is %q", f.String())
	}
	for _, f := range []stl.CmpIntTreeNode{stl.CmpIntTreeNodeGreater, zn.CreateByName("Greater"), zn.CreateByBool(true), stl.CreateCmpIntTreeNode("Greater"), zn.Greater()} {
		g.Check(f.F(na, nb) == (a > b), "node greater(%d,%d) = %v", a, b, f.F(na, nb))
		g.Check(f.String() == "Greater", "name of greater is %q", f.String())
	}
	g.Check(na.Less(nb) == (a < b), "node Less(%d,%d) = %v", a, b, na.Less(nb))
	// any other name is refused
	name := Pick(g, []string{"lesser", "greater", "Less", "LESSER", " Lesser", "Greater ", "x", "Equal"})
	if g.Bool() {
		name = g.Word(func(s string) bool { return s != "" && s != "Lesser" && s != "Greater" })
	}
	p, _ := g.Panics(func() { stl.CreateCmpInt(name) })
	g.Check(p, "comparator named %q was accepted", name)
	p, _ = g.Panics(func() { stl.CreateCmpIntTreeNode(name) })
	g.Check(p, "node comparator named %q was accepted", name)
	xs := []int{a, b, c}
	sort.Slice(xs, func(i, j int) bool { return stl.CmpIntLesser.F(xs[i], xs[j]) })
	g.Check(sort.IntsAreSorted(xs), "sorting with the lesser comparator gives %v", xs)
}

// bulk: thousands of values.
func bulk(g *G) { phases(g, 20000) }

// a million values
func huge(g *G) { phases(g, 1000000) }

func phases(g *G, most int) {
	s := &stl.IntSortSlice{}
	if g.Bool() {
		s = stl.NewIntSortSlice(g.Big(1, 5000))
	}
	r := g.Rng()
	var m []int
	same := func(what string) {
		b := s.Buffer()
		g.Check(s.Len() == len(m) && len(b) == len(m), "%s: Len = %d, buffer %d, want %d", what, s.Len(), len(b), len(m))
		for i := range m {
			if b[i] != m[i] {
				g.Fatalf("%s: value %d of %d is %d want %d", what, i, len(m), b[i], m[i])
			}
		}
	}
	for k := 1 + g.N(3); k > 0; k-- {
		n, dom := g.Big(100, most), []int{3, 1000, 1 << 40}[g.N(3)]
		g.Logf("push %d values below %d", n, dom)
		shape, last := g.N(3), 0 // any order, ascending, ascending but for few
		for i := 0; i < n; i++ {
			v := r.N(dom)
			if shape > 0 {
				v = last + r.N(3)
				last = v
				if shape == 2 && r.N(n) < 2 {
					v = r.N(v + 1)
				}
			}
			m = append(m, v)
			g.Check(s.Push(v) == len(m), "Push returned another length than %d", len(m))
		}
		same("pushes")
		for j := g.N(40); j > 0; j-- {
			if i := r.N(len(m)); r.N(2) == 0 {
				v := r.N(dom)
				m = append(m, 0)
				copy(m[i+1:], m[i:])
				m[i] = v
				g.Check(s.Insert(v, i) == len(m), "Insert at %d returned another length than %d", i, len(m))
			} else {
				v, ok := s.Remove(i)
				g.Check(ok && v == m[i], "Remove(%d) = %d,%v want %d", i, v, ok, m[i])
				m = append(m[:i], m[i+1:]...)
			}
		}
		same("inserts and removals")
		g.NonTrivial()
		s.Sort()
		sort.Ints(m)
		g.Logf("Sort()")
		same("sort")
	}
	for len(m) > 0 {
		v, ok := s.Pop()
		g.Check(ok && v == m[len(m)-1], "Pop = %d,%v want %d", v, ok, m[len(m)-1])
		m = m[:len(m)-1]
	}
	_, ok := s.Pop()
	g.Check(!ok, "Pop of the drained slice reported a value")
}

// hashes are ordered by size, then by hash.
func hashLess(a, b fs.FileHash) bool {
	return a.Size < b.Size || a.Size == b.Size && a.Hash < b.Hash
}

func hashNode(g *G, holder *fs.FileHashTreeNode, all map[*fs.FileHashTreeNode]fs.FileHash) *fs.FileHashTreeNode {
	h := fs.FileHash{Size: fs.FileSize(g.N(4)), Hash: []string{"", "0a", "0b", "a0", "a00", "b"}[g.N(6)]}
	if g.Enum() {
		h = fs.FileHash{Size: fs.FileSize(g.N(2)), Hash: []string{"", "0a"}[g.N(2)]}
	} else {
		if g.OneIn(8) {
			h.Size = fs.FileSize(g.U64(1 << 62))
		}
		switch g.N(4) {
		case 0:
			h.Hash = g.Word(nil)
		case 1: // as real ones: long, equal up to somewhere
			b := []byte(strings.Repeat("0123456789abcdef", 4))[:[]int{8, 32, 40, 64}[g.N(4)]]
			b[g.N(len(b))] = "0f"[g.N(2)]
			h.Hash = string(b)
		}
	}
	h.Path, h.IsDir = fmt.Sprint(g.N(3)), g.Bool()
	n := holder.AddChild(h, -1)
	all[n] = h
	return n
}

func hashSlice(g *G) {
	s := &fs.FileHashSortSlice{}
	if g.Bool() {
		s = fs.NewFileHashSortSlice(g.Size(20))
	}
	var holder fs.FileHashTreeNode
	vals := map[*fs.FileHashTreeNode]fs.FileHash{}
	show := func(n *fs.FileHashTreeNode) string {
		if n == nil {
			return "nil"
		}
		return fmt.Sprintf("%d/%s", int64(vals[n].Size), vals[n].Hash)
	}
	run[*fs.FileHashTreeNode](g, s, func() *fs.FileHashTreeNode { return hashNode(g, &holder, vals) }, show,
		func(a, b *fs.FileHashTreeNode) bool { return hashLess(vals[a], vals[b]) })
	na, nb := hashNode(g, &holder, vals), hashNode(g, &holder, vals)
	a, b := show(na), show(nb)
	lt, gt := hashLess(vals[na], vals[nb]), hashLess(vals[nb], vals[na])
	var z fs.CmpFileHash
	for _, f := range []fs.CmpFileHash{z, fs.CMPLesser, z.CreateByName(""), z.CreateByName("Lesser"), z.CreateByBool(false), fs.CreateCmpFileHash(""), fs.CmpFileHash(fs.CMPGreater).Lesser()} {
		g.Check(f.F(na, nb) == lt && f.String() == "Lesser", "file hash lesser(%s,%s) = %v (%q)", a, b, f.F(na, nb), f.String())
	}
	for _, f := range []fs.CmpFileHash{fs.CMPGreater, z.CreateByName("Greater"), z.CreateByBool(true), fs.CreateCmpFileHash("Greater"), z.Greater()} {
		g.Check(f.F(na, nb) == gt && f.String() == "Greater", "file hash greater(%s,%s) = %v (%q)", a, b, f.F(na, nb), f.String())
	}
	g.Check(na.Less(nb) == lt && vals[na].Less(vals[nb]) == lt, "file hash node Less(%s,%s) = %v", a, b, na.Less(nb))
	p, _ := g.Panics(func() { fs.CreateCmpFileHash(Pick(g, []string{"lesser", "Great", "x"})) })
	g.Check(p, "a file hash comparator with an unknown name was accepted")
}
