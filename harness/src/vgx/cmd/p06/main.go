// P06: ordered trees: child operations, preorder listing and the visitor.
package main

import (
	"fmt"

	"github.com/vipally/gx/fs"
	"github.com/vipally/gx/stl"
	. "vgx/pbt"
)

func main() {
	ints := func(g *G) {
		run(g, &stl.IntTreeNode{}, 0, g.Val, func(a, b int) bool { return a < b },
			func(n *stl.IntTreeNode) walker[int] { return n.Visitor() })
	}
	hashes := func(g *G) {
		val := func() fs.FileHash {
			if g.Enum() {
				return fs.FileHash{Size: fs.FileSize(g.N(2)), Hash: Pick(g, []string{"a", "b"})}
			}
			h := fs.FileHash{Path: fmt.Sprintf("p%d", g.N(9)), Hash: Pick(g, []string{"", "a", "b", "ab", "B", "ff"}),
				Size: fs.FileSize(g.N(4)), IsDir: g.Bool()}
			if g.OneIn(4) {
				h.Path, h.Hash = g.Word(nil), g.Word(nil)
			}
			return h
		}
		run(g, &fs.FileHashTreeNode{}, fs.FileHash{}, val, fs.FileHash.Less,
			func(n *fs.FileHashTreeNode) walker[fs.FileHash] { return n.Visitor() })
	}
	Main(Spec{
		Prop: "P06",
		Rule: "a case builds a tree by a generated history of add/insert/remove/re-attach/sort of children at generated nodes, compared after every step with a plain model tree, then walks it forwards, backwards and in a generated mixture from generated roots; non-trivial: the final tree has at least four nodes and depth of at least three levels",
		Checks: []Check{
			{Name: "int-tree", Quick: 60000, Thorough: 2000000, Enum: 60000, EnumThor: 800000, Fn: ints},
			{Name: "filehash-tree", Quick: 40000, Thorough: 1500000, Enum: 20000, EnumThor: 300000, Fn: hashes},
			{Name: "bulk", Quick: 60, Thorough: 4000, Fn: bulk},
		},
	})
}

type node[N any, V any] interface {
	comparable
	AddChild(V, int) N
	AddChildNode(N, int) N
	RemoveChild(int) (N, bool)
	GetChild(int) (N, bool)
	NumChildren() int
	Children() []N
	SortChildren()
	All() []V
	Less(N) bool
}

type walker[V any] interface {
	Next() bool
	Prev() bool
	Get() V
}

type mnode[N any, V any] struct {
	n    N
	v    V
	kids []*mnode[N, V]
}

func pre[N any, V any](m *mnode[N, V], out []*mnode[N, V]) []*mnode[N, V] {
	out = append(out, m)
	for _, k := range m.kids {
		out = pre(k, out)
	}
	return out
}

func depth[N any, V any](m *mnode[N, V]) int {
	d := 0
	for _, k := range m.kids {
		if x := depth(k); x > d {
			d = x
		}
	}
	return d + 1
}

func run[N node[N, V], V comparable](g *G, rootNode N, zero V, val func() V, less func(a, b V) bool, visit func(N) walker[V]) {
	root := &mnode[N, V]{n: rootNode, v: zero}
	var loose []*mnode[N, V]      // removed subtrees
	pick := func() *mnode[N, V] { // any node; recent ones more often, for depth
		all := pre(root, nil)
		if !g.Enum() && g.Bool() {
			return all[len(all)-1-g.N(min(3, len(all)))]
		}
		return all[g.N(len(all))]
	}
	position := func(n int) int {
		switch g.N(4) {
		case 0:
			return -1 - g.N(2)
		case 1:
			return n + g.N(3)
		}
		if n == 0 {
			return 0
		}
		return g.N(n)
	}
	insert := func(p *mnode[N, V], k *mnode[N, V], i int) {
		if i >= 0 && i < len(p.kids) {
			p.kids = append(p.kids, nil)
			copy(p.kids[i+1:], p.kids[i:])
			p.kids[i] = k
		} else {
			p.kids = append(p.kids, k)
		}
	}
	g.Steps(12, 60, func(int) {
		p := pick()
		switch g.N(7) {
		case 0, 1, 2:
			v, i := val(), position(len(p.kids))
			n := p.n.AddChild(v, i)
			g.Logf("node %v: AddChild(%v, %d)", p.v, v, i)
			insert(p, &mnode[N, V]{n: n, v: v}, i)
		case 3:
			i := position(len(p.kids))
			n, ok := p.n.RemoveChild(i)
			g.Logf("node %v: RemoveChild(%d) ok=%v", p.v, i, ok)
			in := i >= 0 && i < len(p.kids)
			g.Check(ok == in, "RemoveChild(%d) of %d children: ok=%v", i, len(p.kids), ok)
			if in {
				k := p.kids[i]
				g.Check(n == k.n, "RemoveChild(%d) returned another node", i)
				p.kids = append(append([]*mnode[N, V](nil), p.kids[:i]...), p.kids[i+1:]...)
				loose = append(loose, k)
			}
		case 4:
			if len(loose) > 0 {
				j, i := g.N(len(loose)), position(len(p.kids))
				k := loose[j]
				loose = append(append([]*mnode[N, V](nil), loose[:j]...), loose[j+1:]...)
				n := p.n.AddChildNode(k.n, i)
				g.Logf("node %v: AddChildNode(%v, %d)", p.v, k.v, i)
				g.Check(n == k.n, "AddChildNode returned another node")
				insert(p, k, i)
			}
		case 5:
			g.Logf("node %v: SortChildren()", p.v)
			p.n.SortChildren()
			byNode := map[N]*mnode[N, V]{}
			for _, k := range p.kids {
				byNode[k.n] = k
			}
			got := p.n.Children()
			g.Check(len(got) == len(p.kids), "SortChildren changed the number of children")
			var kids []*mnode[N, V]
			for i, n := range got {
				k := byNode[n]
				g.Check(k != nil, "SortChildren: child %d is not one of the children, or is there twice", i)
				delete(byNode, n)
				kids = append(kids, k)
				if i > 0 {
					g.Check(!less(k.v, kids[i-1].v), "SortChildren: %v is after %v", k.v, kids[i-1].v)
					g.Check(kids[i-1].n.Less(k.n) == less(kids[i-1].v, k.v), "Less(%v,%v) = %v", kids[i-1].v, k.v, kids[i-1].n.Less(k.n))
				}
			}
			p.kids = kids
		case 6:
			i := position(len(p.kids))
			n, ok := p.n.GetChild(i)
			in := i >= 0 && i < len(p.kids)
			g.Check(ok == in, "GetChild(%d) of %d children: ok=%v", i, len(p.kids), ok)
			if in {
				g.Check(n == p.kids[i].n, "GetChild(%d) returned another node", i)
			}
		}
		g.Check(p.n.NumChildren() == len(p.kids), "NumChildren = %d want %d", p.n.NumChildren(), len(p.kids))
		cs := p.n.Children()
		g.Check(len(cs) == len(p.kids), "Children has %d nodes, want %d", len(cs), len(p.kids))
		for i := range cs {
			g.Check(cs[i] == p.kids[i].n, "child %d is not the expected node", i)
			c, ok := p.n.GetChild(i)
			g.Check(ok && c == cs[i], "GetChild(%d) is not Children()[%d]", i, i)
		}
	})
	all := pre(root, nil)
	if len(all) >= 4 && depth(root) >= 3 {
		g.NonTrivial()
	}
	starts := []*mnode[N, V]{root, all[g.N(len(all))]}
	if len(loose) > 0 {
		starts = append(starts, loose[g.N(len(loose))])
	}
	for _, s := range starts {
		order := pre(s, nil)
		var vals []V
		for _, m := range order {
			vals = append(vals, m.v)
		}
		got := s.n.All()
		g.Check(len(got) == len(vals), "All lists %d values of a tree of %d nodes", len(got), len(vals))
		for i := range vals {
			g.Check(got[i] == vals[i], "All()[%d] = %v want %v", i, got[i], vals[i])
		}
		w := visit(s.n)
		for i := range vals {
			g.Check(w.Next(), "Next ended after %d of %d nodes", i, len(vals))
			g.Check(w.Get() == vals[i], "forward walk: node %d is %v want %v", i, w.Get(), vals[i])
		}
		g.Check(!w.Next(), "forward walk goes on after all %d nodes", len(vals))
		w = visit(s.n)
		for i := len(vals) - 1; i >= 0; i-- {
			g.Check(w.Prev(), "Prev ended with %d nodes left", i+1)
			g.Check(w.Get() == vals[i], "backward walk: node %d is %v want %v", i, w.Get(), vals[i])
		}
		g.Check(!w.Prev(), "backward walk goes on after all %d nodes", len(vals))
		// mixed walk: a cursor on the preorder sequence
		w = visit(s.n)
		at := -1
		path := ""
		bias := g.N(3)
		g.Steps(20, 100, func(int) {
			if at == -2 {
				return
			}
			back := g.N(3+bias) == 0
			if bias == 0 {
				back = g.Bool()
			}
			if len(path) < 300 {
				path += map[bool]string{false: "N", true: "P"}[back]
			}
			next := at + 1
			ok := false
			if back {
				if next = at - 1; at == -1 {
					next = len(vals) - 1
				}
				ok = w.Prev()
			} else {
				ok = w.Next()
			}
			want := next >= 0 && next < len(vals)
			g.Check(ok == want, "mixed walk %s: ok=%v at position %d of %d", path, ok, next, len(vals))
			if !ok {
				at = -2 // exhausted
				return
			}
			at = next
			g.Check(w.Get() == vals[at], "mixed walk %s: node %v, want node %d of %v", path, w.Get(), at, vals)
		})
		g.Logf("mixed walk %s over %d nodes", path, len(vals))
	}
}

// bulk: wide and deep trees with thousands of nodes.
func bulk(g *G) {
	r := g.Rng()
	type mn = mnode[*stl.IntTreeNode, int]
	root := &mn{n: &stl.IntTreeNode{}}
	nodes := []*mn{root}
	n := g.Big(100, 80000)
	shape := g.N(4) // a path, a star, recent parents, any parents
	g.Logf("%d nodes, shape %d", n, shape)
	if shape == 0 && n > 1500 {
		n = 1500 // the model recurses
	}
	for i := 0; i < n; i++ {
		p := nodes[len(nodes)-1]
		switch shape {
		case 1:
			p = root
		case 2:
			p = nodes[len(nodes)-1-r.N(min(10, len(nodes)))]
		case 3:
			p = nodes[r.N(len(nodes))]
		}
		v, at := int(r.U64()>>1)%(n*2), -1
		if r.N(2) == 0 && len(p.kids) > 0 {
			at = r.N(len(p.kids))
		}
		k := &mn{n: p.n.AddChild(v, at), v: v}
		if at < 0 {
			p.kids = append(p.kids, k)
		} else {
			p.kids = append(p.kids, nil)
			copy(p.kids[at+1:], p.kids[at:])
			p.kids[at] = k
		}
		nodes = append(nodes, k)
	}
	g.NonTrivial()
	if g.Bool() {
		g.Logf("all children sorted")
		for _, p := range nodes {
			p.n.SortChildren()
			by := map[*stl.IntTreeNode]*mn{}
			for _, k := range p.kids {
				by[k.n] = k
			}
			cs := p.n.Children()
			g.Check(len(cs) == len(p.kids), "SortChildren of %d children leaves %d", len(p.kids), len(cs))
			for i, c := range cs {
				k := by[c]
				g.Check(k != nil, "SortChildren: child %d of %d is no child or there twice", i, len(cs))
				delete(by, c)
				p.kids[i] = k
				if i > 0 {
					g.Check(p.kids[i-1].v <= k.v, "SortChildren: %d is after %d", k.v, p.kids[i-1].v)
				}
			}
		}
	}
	order := pre(root, nil)
	all := root.n.All()
	g.Check(len(all) == len(order), "All lists %d values of a tree of %d nodes", len(all), len(order))
	w := root.n.Visitor()
	for i, k := range order {
		g.Check(all[i] == k.v, "All()[%d] = %d want %d", i, all[i], k.v)
		g.Check(w.Next() && w.Get() == k.v, "forward walk: node %d is wrong", i)
	}
	g.Check(!w.Next(), "forward walk goes on after all %d nodes", len(order))
	w = root.n.Visitor()
	for i := len(order) - 1; i >= 0; i-- {
		g.Check(w.Prev() && w.Get() == order[i].v, "backward walk: node %d is wrong", i)
	}
	g.Check(!w.Prev(), "backward walk goes on after all %d nodes", len(order))
	w = root.n.Visitor()
	at := -1
	for s := 0; s < len(order)+500; s++ {
		if at > 0 && r.N(3) == 0 {
			g.Check(w.Prev(), "mixed walk: Prev ends at node %d", at)
			at--
		} else {
			ok := w.Next()
			g.Check(ok == (at+1 < len(order)), "mixed walk: Next = %v at node %d of %d", ok, at, len(order))
			if !ok {
				break
			}
			at++
		}
		g.Check(w.Get() == order[at].v, "mixed walk: node %d is %d want %d", at, w.Get(), order[at].v)
	}
}
