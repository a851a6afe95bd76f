package main

import (
	"tpl/recs"
	"tpl/text"
	. "vgx/pbt"
)

// from the .gp form of the templates; kits_go.go has the same for the .gp.go form

var textKit = &kit[string, *text.TextListNode, *text.TextSListNode, *text.TextTreeNode]{
	val: func(g *G) string {
		if g.OneIn(3) {
			return g.Word(nil)
		}
		return Pick(g, []string{"a", "b", "", "ab", "c"})
	},
	less:  func(a, b string) bool { return a < b },
	stack: func(n int) stackI[string] { return text.NewGOGPStackNamePrefixStack(n) },
	queue: func(n int) queueI[string] { q := &text.TextQueue{}; q.Init(n); return q },
	deque: func(n int) dequeI[string] { q := &text.TextDeque{}; q.Init(n); return q },
	heap:  func(c, l int, m bool) heapI[string] { return text.NewTextHeap(c, l, m) },
	list:  func() listI[string, *text.TextListNode] { return text.NewTextList() },
	slist: func() slistI[string, *text.TextSListNode] { return text.NewTextSList() },
	slice: func(n int) sliceI[string] { return text.NewTextSortSlice(n) },
	root: func(v string) *text.TextTreeNode {
		var r text.TextTreeNode
		return r.AddChild(v, -1)
	},
	lget:   func(n *text.TextListNode) lnode[string, *text.TextListNode] { return n },
	sget:   func(n *text.TextSListNode) snode[string, *text.TextSListNode] { return n },
	tget:   func(n *text.TextTreeNode) tnode[string, *text.TextTreeNode] { return n },
	mklist: func() *text.TextListNode { return &text.TextListNode{} },
	mksl:   func() *text.TextSListNode { return &text.TextSListNode{} },
	lsplice: func(a, b listI[string, *text.TextListNode], front bool) bool {
		x, y := a.(*text.TextList), b.(*text.TextList)
		if front {
			return x.InsertFrontList(y)
		}
		return x.InsertBackList(y)
	},
	lvisit: func(l listI[string, *text.TextListNode]) lvisitI[*text.TextListNode] {
		return l.(*text.TextList).Visitor()
	},
	ssplice: func(a, b slistI[string, *text.TextSListNode]) { a.(*text.TextSList).PushFrontList(b.(*text.TextSList)) },
	svisit: func(l slistI[string, *text.TextSListNode]) svisitI[*text.TextSListNode] {
		return l.(*text.TextSList).Visitor()
	},
	tvisit: func(n *text.TextTreeNode) tvisitI[string] { return n.Visitor() },
}

var recsKit = &kit[recs.Rec, *recs.RecListNode, *recs.RecSListNode, *recs.RecTreeNode]{
	down: true,
	val: func(g *G) recs.Rec {
		return recs.Rec{K: g.Val(), Tag: string(rune('a' + g.N(26)))}
	},
	less:  func(a, b recs.Rec) bool { return a.K < b.K },
	stack: func(n int) stackI[recs.Rec] { s := &recs.RecStack{}; s.Init(n); return s },
	queue: func(n int) queueI[recs.Rec] { return &recs.RecQueue{} },
	deque: func(n int) dequeI[recs.Rec] { return &recs.RecDeque{} },
	heap:  func(c, l int, m bool) heapI[recs.Rec] { h := &recs.RecHeap{}; h.Init(c, l, m); return h },
	list:  func() listI[recs.Rec, *recs.RecListNode] { return &recs.RecList{} },
	slist: func() slistI[recs.Rec, *recs.RecSListNode] { return &recs.RecSList{} },
	slice: func(n int) sliceI[recs.Rec] { return &recs.RecSortSlice{} },
	root: func(v recs.Rec) *recs.RecTreeNode {
		var r recs.RecTreeNode
		return r.AddChild(v, -1)
	},
	lget:   func(n *recs.RecListNode) lnode[recs.Rec, *recs.RecListNode] { return n },
	sget:   func(n *recs.RecSListNode) snode[recs.Rec, *recs.RecSListNode] { return n },
	tget:   func(n *recs.RecTreeNode) tnode[recs.Rec, *recs.RecTreeNode] { return n },
	mklist: func() *recs.RecListNode { return &recs.RecListNode{} },
	mksl:   func() *recs.RecSListNode { return &recs.RecSListNode{} },
	lsplice: func(a, b listI[recs.Rec, *recs.RecListNode], front bool) bool {
		x, y := a.(*recs.RecList), b.(*recs.RecList)
		if front {
			return x.InsertFrontList(y)
		}
		return x.InsertBackList(y)
	},
	lvisit: func(l listI[recs.Rec, *recs.RecListNode]) lvisitI[*recs.RecListNode] {
		return l.(*recs.RecList).Visitor()
	},
	ssplice: func(a, b slistI[recs.Rec, *recs.RecSListNode]) { a.(*recs.RecSList).PushFrontList(b.(*recs.RecSList)) },
	svisit: func(l slistI[recs.Rec, *recs.RecSListNode]) svisitI[*recs.RecSListNode] {
		return l.(*recs.RecSList).Visitor()
	},
	tvisit: func(n *recs.RecTreeNode) tvisitI[recs.Rec] { return n.Visitor() },
}
