// P30: registers of named values.
package main

import (
	"fmt"
	"strings"

	"github.com/vipally/gx/regable"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P30",
		Rule: "a case is a generated history on registers of the process (which go on from case to case) and their values: creating registers, registering named values through all four calls, reading, setting, naming through ids and objects, limits, and ids that were never given out; compared with a model after every step, everything is compared at the end of the case; or threads that read and set values at the same time, watched by the race detector; at the end of the run registers are created until they are refused and the registration phase is closed; non-trivial: at least two values and a set",
		Checks: []Check{
			{Name: "history", Quick: 24000, Thorough: 200000, Fn: history},
			{Name: "threads", Quick: 1500, Thorough: 60000, Fn: threads, Race: true},
		},
		Final: finish, Finals: 2,
	})
}

type rec struct {
	name string
	val  uint32
	id   regable.Uint32Id
	obj  regable.Uint32Obj
}

type reg struct {
	r    *regable.Uint32Reger
	name string
	num  uint32
	recs []*rec
	max  int
}

// the model outlives the cases, as the registers do
var (
	regs []*reg
	used = map[regable.Uint32Id]bool{}
	nums = map[uint32]bool{}
)

const maxRegs = 220 // of the 254 registers a process may have

func text(g *G) string {
	if g.OneIn(4) {
		return Pick(g, []string{"", "same", "%d", "a|b", "[x]: 1", "no name", "多"})
	}
	if g.OneIn(6) {
		return g.Word(func(s string) bool { return !strings.ContainsAny(s, "\r\n") })
	}
	return fmt.Sprintf("v%d", g.N(100))
}

func value(g *G) uint32 { return uint32(g.U64(1<<32 - 1)) }

func newReg(g *G) *reg {
	name := text(g)
	x := &reg{name: name, max: 1024}
	if g.Bool() {
		x.r = regable.MustNewUint32Reger(name)
	} else {
		r, err := regable.NewUint32Reger(name)
		g.Check(err == nil && r != nil, "a new register: %v", err)
		x.r = r
	}
	g.Logf("register %d: %q", len(regs), name)
	regs = append(regs, x)
	return x
}

func add(g *G, x *reg) {
	r := &rec{name: text(g), val: value(g)}
	how := g.N(4)
	p, why := g.Panics(func() {
		var err error
		switch how {
		case 0:
			r.id, err = x.r.Reg(r.name, r.val)
			r.obj = r.id.Oject()
		case 1:
			r.id = x.r.MustReg(r.name, r.val)
			r.obj = r.id.Oject()
		case 2:
			r.obj, err = x.r.RegO(r.name, r.val)
			r.id = r.obj.Id()
		case 3:
			r.obj = x.r.MustRegO(r.name, r.val)
			r.id = r.obj.Id()
		}
		if err != nil {
			panic(err)
		}
	})
	if p {
		g.Check(len(x.recs) >= x.max, "a register for %d values refuses value %d: %v", x.max, len(x.recs)+1, why)
		g.Label("register is full")
		return
	}
	g.Check(len(x.recs) < x.max, "a register for %d values takes value %d", x.max, len(x.recs)+1)
	g.Logf("%q = %d gets id %d", r.name, r.val, r.id)
	g.Check(!used[r.id], "%q gets the id %d, which is in use", r.name, r.id)
	rid, n := r.id.Ids()
	if len(x.recs) == 0 {
		g.Check(!nums[rid] && rid != 0, "two registers have the number %d", rid)
		nums[rid], x.num = true, rid
	}
	g.Check(rid == x.num && n != 0 && regable.MakeRegedId(rid, n) == uint32(r.id), "%q gets the id %d of register %d, number %d; its register has %d", r.name, r.id, rid, n, x.num)
	used[r.id] = true
	x.recs = append(x.recs, r)
	verify(g, r)
}

func verify(g *G, r *rec) {
	v, err := r.id.Get()
	w, err2 := r.obj.Get()
	if v != r.val || w != r.val || err != nil || err2 != nil {
		g.Fatalf("%q is %d, but reads %d, %v by id %d and %d, %v by object", r.name, r.val, v, err, r.id, w, err2)
	}
	n, err := r.id.Name()
	m, err2 := r.obj.Name()
	if n != r.name || m != r.name || err != nil || err2 != nil {
		g.Fatalf("%q is named %q, %v by id %d and %q, %v by object", r.name, n, err, r.id, m, err2)
	}
	if !r.id.Valid() || !r.obj.Valid() || r.obj.Id() != r.id || r.id.GetNoErr() != r.val || r.obj.GetNoErr() != r.val {
		g.Fatalf("%q: id %d valid %v, object valid %v with id %d", r.name, r.id, r.id.Valid(), r.obj.Valid(), r.obj.Id())
	}
}

// listed checks that a listing shows the register's values with number, name and value, in order
func listed(g *G, s string, x *reg) {
	lines := strings.Split(s, "\n")
	g.Check(strings.Contains(lines[0], x.name), "the listing of the register %q begins with %q", x.name, lines[0])
	at := 1
	for _, r := range x.recs {
		_, n := r.id.Ids()
		num, val := fmt.Sprint(n), fmt.Sprint(r.val)
		for at < len(lines) && !(strings.Contains(lines[at], num) && strings.Contains(lines[at], r.name) && strings.Contains(lines[at], val)) {
			at++
		}
		g.Check(at < len(lines), "the listing of the register %q lacks number %d, %q = %d (or has it out of order)", x.name, n, r.name, r.val)
		at++
	}
}

func history(g *G) {
	var mine []*reg
	reg := func() *reg {
		if len(mine) > 0 && !g.OneIn(3) {
			return Pick(g, mine)
		}
		var x = (*regT)(nil)
		if len(regs) == 0 || len(regs) < maxRegs && g.OneIn(40) {
			x = newReg(g)
		} else {
			x = regs[len(regs)-1-g.N(len(regs))]
		}
		mine = append(mine, x)
		return x
	}
	adds, sets := 0, 0
	g.Steps(10, 60, func(int) {
		x := reg()
		var r *rec
		if len(x.recs) > 0 {
			r = x.recs[len(x.recs)-1-g.N(len(x.recs))]
		}
		switch k := g.N(10); {
		case k < 2 || k == 2 && len(x.recs) < 3:
			add(g, x)
			adds++
		case k < 5 && r != nil:
			v := value(g)
			g.Logf("%q (id %d) := %d", r.name, r.id, v)
			var got uint32
			var err error
			if g.Bool() {
				got, err = r.id.Set(v)
			} else {
				got, err = r.obj.Set(v)
			}
			g.Check(got == v && err == nil, "setting %q to %d: %d, %v", r.name, v, got, err)
			r.val = v
			verify(g, r)
			sets++
		case k < 7 && r != nil:
			verify(g, r)
			s, o := r.id.String(), r.obj.String()
			g.Check(s == o && strings.Contains(s, r.name) && strings.Contains(s, fmt.Sprint(r.val)), "%q = %d shows as %q and %q", r.name, r.val, s, o)
		case k == 7: // never given out
			id := regable.Uint32Id(regable.MakeRegedId(Pick(g, []uint32{0, x.num, x.num + 1, 255, uint32(g.N(256))}), Pick(g, []uint32{0, uint32(len(x.recs)) + 1, uint32(len(x.recs)) + 2, 1<<24 - 1, uint32(g.N(1 << 24))})))
			if used[id] {
				return
			}
			_, err := id.Get()
			_, err2 := id.Set(1)
			_, err3 := id.Name()
			p, _ := g.Panics(func() { id.GetNoErr() })
			g.Logf("id %d was never given out", id)
			g.Check(!id.Valid() && err != nil && err2 != nil && err3 != nil && p && !id.Oject().Valid(), "id %d was never given out, but: valid %v, %v, %v, %v, object valid %v", id, id.Valid(), err, err2, err3, id.Oject().Valid())
			o := id.Oject()
			_, err = o.Get()
			_, err2 = o.Set(1)
			_, err3 = o.Name()
			g.Check(err != nil && err2 != nil && err3 != nil, "the object of id %d, never given out: %v, %v, %v", id, err, err2, err3)
			_, _ = id.String(), o.String()
		case k == 8:
			m := len(x.recs) + g.N(9) - 3
			if g.OneIn(4) {
				m = Pick(g, []int{-1, 1, 1024, 1<<24 - 1, 1 << 24, 1<<32 - 1})
			}
			if m < 0 {
				m = 0
			}
			got, err := x.r.MaxReg(uint32(m))
			g.Logf("limit %d with %d values: %v", m, len(x.recs), err)
			if m < 1 || m > 1<<24-1 || m < len(x.recs) {
				g.Check(err != nil, "the limit %d is taken with %d values", m, len(x.recs))
			} else {
				g.Check(err == nil && int(got) == m, "the limit %d with %d values: %d, %v", m, len(x.recs), got, err)
			}
			if err == nil {
				x.max = m
			}
		case k == 9:
			listed(g, x.r.String(), x)
		}
	})
	for _, x := range mine {
		for _, r := range x.recs {
			verify(g, r)
		}
	}
	if adds > 1 && sets > 0 {
		g.NonTrivial()
	}
}

type regT = reg

// threads read and set values at the same time, under the race detector; a thread sets only values of its own
func threads(g *G) {
	if len(regs) == 0 {
		newReg(g)
	}
	x := regs[0]
	n := 2 + g.N(3)
	for len(x.recs) < n+1 {
		add(g, x)
	}
	ops := make([][]int, n)
	vals := make([][]uint32, n)
	for i := range ops {
		for k := 1 + g.N(5); k > 0; k-- {
			ops[i] = append(ops[i], g.N(6))
			vals[i] = append(vals[i], value(g))
		}
	}
	g.Logf("threads do %v with %v", ops, vals)
	both := x.recs[n]
	Together(n, func(t int) {
		r := x.recs[t]
		for k, op := range ops[t] {
			switch op {
			case 0:
				verify(g, r)
			case 1:
				r.val = vals[t][k]
				v, err := r.id.Set(r.val)
				g.Check(v == r.val && err == nil, "setting %q to %d: %d, %v", r.name, r.val, v, err)
			case 2:
				r.val = vals[t][k]
				v, err := r.obj.Set(r.val)
				g.Check(v == r.val && err == nil, "setting %q to %d: %d, %v", r.name, r.val, v, err)
			case 3: // all of them set this one
				both.id.Set(vals[t][k])
				both.obj.Get()
			case 4:
				_, _, _ = both.id.String(), both.obj.String(), both.id.GetNoErr()
			case 5:
				_ = x.r.String()
			}
		}
	})
	v, err := both.id.Get()
	ok := v == both.val && err == nil
	for t := range vals {
		for k := range vals[t] {
			ok = ok || v == vals[t][k] && err == nil
		}
	}
	g.Check(ok, "%q has the value %d, %v, which nobody set", both.name, v, err)
	both.val = v
	for _, r := range x.recs {
		verify(g, r)
	}
	g.NonTrivial()
}

// finish closes the registration phase, for good.
func finish(g *G) {
	fill := g.N(2) == 0
	if len(regs) == 0 {
		newReg(g)
	}
	for n := 0; fill; n++ { // registers until there are no more
		g.Check(n < 300, "a process has more than 255 registers")
		x := &reg{name: "more", max: 1024}
		p, _ := g.Panics(func() {
			r, err := regable.NewUint32Reger("more")
			if err != nil {
				panic(err)
			}
			x.r = r
		})
		if p {
			g.Check(len(regs) >= maxRegs, "register %d is refused", len(regs)+1)
			break
		}
		regs = append(regs, x)
		add(g, x)
	}
	// a register with very many values
	x := regs[len(regs)-1]
	m := 140000
	got, err := x.r.MaxReg(uint32(m))
	g.Check(err == nil && int(got) == m, "the limit %d: %d, %v", m, got, err)
	x.max = m
	for i := len(x.recs); i < m; i++ {
		v := uint32(i/3) * 2654435761
		id, err := x.r.Reg("many", v)
		rid, n := id.Ids()
		if err != nil || used[id] || rid != x.num || n == 0 {
			g.Fatalf("value %d of a register for %d gets the id %d (in use: %v), %v", i+1, m, id, used[id], err)
		}
		used[id] = true
		x.recs = append(x.recs, &rec{name: "many", val: v, id: id, obj: id.Oject()})
	}
	p, _ := g.Panics(func() { x.r.Reg("more", 1) })
	g.Check(p, "a register for %d values takes another", m)
	regable.FinishReg()
	n := 0
	for _, x := range regs {
		p, _ := g.Panics(func() { x.r.Reg("late", 1) })
		q, _ := g.Panics(func() { x.r.MustRegO("late", 1) })
		g.Check(p && q, "a value is registered after the end of registration")
		for i, r := range x.recs {
			if i%2 == 0 {
				r.val += 3
				r.id.Set(r.val)
			}
			verify(g, r)
			n++
		}
	}
	p, _ = g.Panics(func() { regable.NewUint32Reger("late") })
	g.Check(p, "a register is created after the end of registration")
	all := regable.ShowAllRegs()
	for _, x := range regs {
		i := strings.Index(all, x.r.String())
		g.Check(i >= 0, "the listing of everything lacks the listing of the register %q", x.name)
		all = all[i:]
		if len(x.recs) < 5000 {
			listed(g, x.r.String(), x)
		}
	}
}
