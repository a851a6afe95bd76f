// P22: factories create by the currently registered creater.
package main

import (
	"fmt"
	"reflect"
	"slices"

	"github.com/vipally/gx/factory"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P22",
		Rule: "a case is a generated history of add/replace/remove/create calls over few names on several string and integer factories and the global one, compared with plain maps; every product carries its creater's identity and the arguments received; non-trivial: a create after a replace or a remove",
		Checks: []Check{
			{Name: "history", Quick: 80000, Thorough: 3000000, Enum: 60000, EnumThor: 600000, Fn: history},
			{Name: "bulk", Quick: 200, Thorough: 5000, Fn: bulk},
		},
	})
}

type creater struct{ id int }
type product struct {
	by   int
	args []interface{}
}

func (c *creater) Create(a ...interface{}) interface{} {
	return &product{c.id, append([]interface{}(nil), a...)}
}

type fac struct {
	name   string
	add    func(k int, c factory.Creater) error
	remove func(k int) error
	create func(k int, a ...interface{}) interface{}
	m      map[int]int
}

// the names of a case: some plain ones and some of its own
var names, numbers = plainNames, plainNumbers
var plainNames = []string{"", "a", "b", "A", "a ", "名"}
var plainNumbers = []int{0, 1, -1, 7, 1 << 40, -1 << 63}

func pickNames(g *G) {
	names, numbers = append([]string(nil), plainNames...), append([]int(nil), plainNumbers...)
	if g.Enum() {
		return
	}
	for k := g.N(5); k > 0; k-- {
		if s := g.Word(nil); !slices.Contains(names, s) {
			if n := g.Val(); !slices.Contains(numbers, n) {
				names, numbers = append(names, s), append(numbers, n)
			}
		}
	}
}

func strFac(name string, add func(string, factory.Creater) error, rm func(string) error, cr func(string, ...interface{}) interface{}) *fac {
	return &fac{name: name, m: map[int]int{},
		add:    func(k int, c factory.Creater) error { return add(names[k], c) },
		remove: func(k int) error { return rm(names[k]) },
		create: func(k int, a ...interface{}) interface{} { return cr(names[k], a...) }}
}

func history(g *G) {
	for _, n := range names { // the global one outlives the case: start from nothing
		factory.RemoveCreater(n)
	}
	pickNames(g)
	s, i := factory.NewFactoryS(), factory.NewFactoryI()
	fs := []*fac{
		strFac("string factory", s.AddCreater, s.RemoveCreater, s.Create),
		{name: "integer factory", m: map[int]int{},
			add:    func(k int, c factory.Creater) error { return i.AddCreater(numbers[k], c) },
			remove: func(k int) error { return i.RemoveCreater(numbers[k]) },
			create: func(k int, a ...interface{}) interface{} { return i.Create(numbers[k], a...) }},
		strFac("global factory", factory.AddCreater, factory.RemoveCreater, factory.Create),
	}
	s2 := factory.NewFactoryS()
	fs = append(fs, strFac("second string factory", s2.AddCreater, s2.RemoveCreater, s2.Create))
	for k := range names {
		fs[2].remove(k)
	}
	id := 0
	changed := false
	nk := len(names)
	if g.Enum() {
		nk = 2
	}
	g.Steps(14, 100, func(int) {
		f := fs[g.N(len(fs))]
		if g.Enum() {
			f = fs[0]
		}
		k := g.N(nk)
		switch g.N(4) {
		case 0:
			id++
			if _, ok := f.m[k]; ok {
				changed = true
			}
			g.Logf("%s: add %d -> creater %d", f.name, k, id)
			err := f.add(k, &creater{id})
			g.Check(err == nil, "%s: adding a creater: %v", f.name, err)
			f.m[k] = id
		case 1:
			if _, ok := f.m[k]; ok {
				changed = true
				g.Logf("%s: remove %d", f.name, k)
				err := f.remove(k)
				g.Check(err == nil, "%s: removing a creater: %v", f.name, err)
				delete(f.m, k)
			} else {
				f.remove(k) // changes nothing, whatever it reports
				g.Logf("%s: remove %d, which is not there", f.name, k)
			}
		default:
			var args []interface{}
			for n := g.N(4); n > 0; n-- {
				args = append(args, Pick(g, []interface{}{1, "x", nil, 2.5, []int{1}, []interface{}{1, "y"}, []interface{}(nil), []interface{}{}}))
			}
			g.Logf("%s: create %d with %v", f.name, k, args)
			if changed {
				g.NonTrivial()
			}
			judge(g, f, k, args)
		}
	})
	for _, f := range fs {
		for k := range names {
			judge(g, f, k, []interface{}{k})
		}
	}
}

func judge(g *G, f *fac, k int, args []interface{}) {
	r := f.create(k, args...)
	want, ok := f.m[k]
	if !ok {
		g.Check(r == nil, "%s: creating the unknown type %d gives %v", f.name, k, r)
		return
	}
	p, isP := r.(*product)
	g.Check(isP, "%s: creating %d gives %v", f.name, k, r)
	g.Check(p.by == want, "%s: type %d was created by creater %d, the current one is %d", f.name, k, p.by, want)
	g.Check(len(p.args) == len(args) && (len(args) == 0 || reflect.DeepEqual(p.args, args)), "%s: creater got %v for %v", f.name, p.args, args)
}

// bulk: many names at once.
func bulk(g *G) {
	s, i := factory.NewFactoryS(), factory.NewFactoryI()
	ms, mi := map[string]int{}, map[int]int{}
	r := g.Rng()
	n, dom := g.Big(20, 3000), g.Big(10, 3000)
	g.Logf("%d changes over %d names", n, dom)
	g.NonTrivial()
	for id := 1; id <= n; id++ {
		k := r.N(dom)
		name := fmt.Sprintf("type-%d", k)
		if r.N(3) == 0 {
			s.RemoveCreater(name)
			i.RemoveCreater(k)
			delete(ms, name)
			delete(mi, k)
		} else {
			g.Check(s.AddCreater(name, &creater{id}) == nil && i.AddCreater(k, &creater{id}) == nil, "adding a creater fails")
			ms[name], mi[k] = id, id
		}
	}
	for k := 0; k < dom; k++ {
		name := fmt.Sprintf("type-%d", k)
		a, b := 0, 0
		if p, ok := s.Create(name, k).(*product); ok {
			a = p.by
			g.Check(len(p.args) == 1 && p.args[0] == k, "the creater of %q got %v", name, p.args)
		}
		if p, ok := i.Create(k, k).(*product); ok {
			b = p.by
			g.Check(len(p.args) == 1 && p.args[0] == k, "the creater of %d got %v", k, p.args)
		}
		g.Check(a == ms[name], "type %q was created by creater %d, the current one is %d", name, a, ms[name])
		g.Check(b == mi[k], "type %d was created by creater %d, the current one is %d", k, b, mi[k])
	}
}
