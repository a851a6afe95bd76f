// P38: registers of any type of values, generated from the template.
package main

import (
	"fmt"
	"math"
	"strings"

	regs "tpl/regface"
	iregs "tpl/regfacei"
	. "vgx/pbt"
	"vgx/sched"
)

func main() {
	Main(Spec{
		Prop: "P38",
		Rule: "a case is a generated history on registers of all value types the template is configured for, one more, and the shipped one (which go on from case to case): creating registers, registering values through all four calls, reading, setting, reversing, naming through ids and objects, limits, ids never given out; compared with a model after every step, everything is compared at the end of the case; or a generated schedule of threads that set, reverse and read one value, whose results some order of the calls must explain; or threads doing so really, watched by the race detector; at the end of the run the registration phase is closed; non-trivial: values in registers of two types, or a schedule that switched threads in mid-call",
		Checks: []Check{
			{Name: "history", Quick: 16000, Thorough: 150000, Fn: history},
			{Name: "schedules", Quick: 30000, Thorough: 1000000, Enum: 6000, EnumThor: 200000, Fn: schedules},
			{Name: "threads", Quick: 1500, Thorough: 60000, Fn: threads, Race: true},
		},
		Final: finish,
	})
}

type rec struct {
	k    *kind
	name string
	val  interface{}
	id   regs.Id
	obj  regs.Obj
}

type reg struct {
	k    *kind
	r    regs.Reger
	name string
	num  uint32
	recs []*rec
	max  int
}

// the model outlives the cases, as the registers do
type kind struct {
	regs.Kind
	list []*reg
	used map[uint32]bool
	nums map[uint32]bool
}

var kinds []*kind

func init() {
	for _, k := range regs.Kinds {
		kinds = append(kinds, &kind{Kind: k, used: map[uint32]bool{}, nums: map[uint32]bool{}})
	}
}

func text(g *G) string {
	if g.OneIn(4) {
		return Pick(g, []string{"", "same", "%d", "a|b", "[x]: 1", "no name", "多"})
	}
	return fmt.Sprintf("v%d", g.N(100))
}

func value(g *G, typ string) interface{} {
	switch typ {
	case "bool":
		return g.Bool()
	case "uint32":
		return uint32(g.U64(1<<32 - 1))
	case "uint64":
		return g.U64(1<<64 - 1)
	case "float64":
		return Pick(g, []float64{0, 1, math.Copysign(0, -1), -2.5, 1e300, math.Inf(1), math.NaN(), float64(g.N(100))})
	case "string":
		return text(g)
	case "interface{}":
		switch g.N(7) {
		case 5:
			return []int{g.N(10)} // not comparable
		case 6:
			return Pick(g, []float64{0, math.Copysign(0, -1), math.NaN()})
		case 0:
			return nil
		case 1:
			return g.N(100)
		case 2:
			return g.Bool()
		}
		return text(g)
	}
	panic("no values of type " + typ)
}

// same: the very same value, bit for bit
func same(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case []int:
		y, ok := b.([]int)
		return ok && len(x) == len(y) && &x[0] == &y[0]
	}
	if _, ok := b.([]int); ok {
		return false
	}
	return a == b
}

func newReg(g *G, k *kind) *reg {
	name := text(g)
	x := &reg{k: k, name: name, max: k.Max}
	if g.Bool() {
		x.r = k.MustNew(name)
	} else {
		r, err := k.New(name)
		g.Check(err == nil && r != nil, "a new register: %v", err)
		x.r = r
	}
	g.Logf("%s register %d: %q", k.Name, len(k.list), name)
	k.list = append(k.list, x)
	return x
}

func add(g *G, x *reg) {
	r := &rec{k: x.k, name: text(g), val: value(g, x.k.Type)}
	how := g.N(4)
	p, why := g.Panics(func() {
		var err error
		switch how {
		case 0:
			r.id, err = x.r.Reg(r.name, r.val)
			r.obj = r.id.Obj()
		case 1:
			r.id = x.r.MustReg(r.name, r.val)
			r.obj = r.id.Obj()
		case 2:
			r.obj, err = x.r.RegO(r.name, r.val)
			r.id = r.obj.Id()
		case 3:
			r.obj = x.r.MustRegO(r.name, r.val)
			r.id = r.obj.Id()
		}
		if err != nil {
			panic(err)
		}
	})
	if p {
		g.Check(len(x.recs) >= x.max, "a %s register for %d values refuses value %d: %v", x.k.Name, x.max, len(x.recs)+1, why)
		g.Label("register is full")
		return
	}
	g.Check(len(x.recs) < x.max, "a %s register for %d values takes value %d", x.k.Name, x.max, len(x.recs)+1)
	raw := r.id.Raw()
	g.Logf("%s %q = %v gets id %d", x.k.Name, r.name, r.val, raw)
	g.Check(!x.k.used[raw], "%s %q gets the id %d, which is in use", x.k.Name, r.name, raw)
	rid, n := r.id.Ids()
	if len(x.recs) == 0 {
		g.Check(!x.k.nums[rid] && rid != 0, "two %s registers have the number %d", x.k.Name, rid)
		x.k.nums[rid], x.num = true, rid
	}
	g.Check(rid == x.num && n != 0 && regs.MakeRegedId(rid, n) == raw, "%q gets the id %d of register %d, number %d; its register has %d", r.name, raw, rid, n, x.num)
	x.k.used[raw] = true
	x.recs = append(x.recs, r)
	verify(g, r)
}

func verify(g *G, r *rec) {
	v, err := r.id.Get()
	w, err2 := r.obj.Get()
	if !same(v, r.val) || !same(w, r.val) || err != nil || err2 != nil {
		g.Fatalf("%s %q is %v, but reads %v, %v by id %d and %v, %v by object", r.k.Name, r.name, r.val, v, err, r.id.Raw(), w, err2)
	}
	if r.k.Named {
		n, err := r.id.Name()
		m, err2 := r.obj.Name()
		if n != r.name || m != r.name || err != nil || err2 != nil {
			g.Fatalf("%s %q is named %q, %v by id %d and %q, %v by object", r.k.Name, r.name, n, err, r.id.Raw(), m, err2)
		}
	}
	if !r.id.Valid() || !r.obj.Valid() || r.obj.Id() != r.id || !same(r.id.GetNoErr(), r.val) || !same(r.obj.GetNoErr(), r.val) {
		g.Fatalf("%s %q: id %d valid %v, object valid %v with id %d", r.k.Name, r.name, r.id.Raw(), r.id.Valid(), r.obj.Valid(), r.obj.Id().Raw())
	}
}

func history(g *G) {
	var mine []*reg
	pick := func() *reg {
		if len(mine) > 0 && !g.OneIn(3) {
			return Pick(g, mine)
		}
		k := Pick(g, kinds)
		var x *reg
		if len(k.list) == 0 || len(k.list) < 200 && g.OneIn(12) {
			x = newReg(g, k)
		} else {
			x = k.list[len(k.list)-1-g.N(len(k.list))]
		}
		mine = append(mine, x)
		return x
	}
	types := map[*kind]bool{}
	g.Steps(12, 60, func(int) {
		x := pick()
		var r *rec
		if len(x.recs) > 0 {
			r = x.recs[len(x.recs)-1-g.N(len(x.recs))]
		}
		switch k := g.N(10); {
		case k < 2 || k == 2 && len(x.recs) < 3:
			add(g, x)
			types[x.k] = true
		case k < 5 && r != nil && x.k.Settable:
			var got, v interface{}
			var err error
			id := g.Bool()
			if b, ok := r.val.(bool); ok && x.k.Rev && g.Bool() {
				v = !b
				if id {
					got, err = r.id.Reverse()
				} else {
					got, err = r.obj.Reverse()
				}
				g.Logf("%s %q (id %d) reversed", x.k.Name, r.name, r.id.Raw())
			} else {
				v = value(g, x.k.Type)
				if id {
					got, err = r.id.Set(v)
				} else {
					got, err = r.obj.Set(v)
				}
				g.Logf("%s %q (id %d) := %v", x.k.Name, r.name, r.id.Raw(), v)
			}
			g.Check(same(got, v) && err == nil, "setting %q to %v: %v, %v", r.name, v, got, err)
			r.val = v
			verify(g, r)
		case k < 7 && r != nil:
			verify(g, r)
			s, o := r.id.String(), r.obj.String()
			g.Check(s == o && (!x.k.Named || strings.Contains(s, r.name)) && strings.Contains(s, fmt.Sprint(r.val)), "%q = %v shows as %q and %q", r.name, r.val, s, o)
		case k == 7: // never given out
			raw := regs.MakeRegedId(Pick(g, []uint32{0, x.num, x.num + 1, 255, uint32(g.N(256))}), Pick(g, []uint32{0, uint32(len(x.recs)) + 1, uint32(len(x.recs)) + 2, 1<<24 - 1, uint32(g.N(1 << 24))}))
			if x.k.used[raw] {
				return
			}
			invalid(g, x.k, raw)
		case k == 8:
			m := len(x.recs) + g.N(9) - 3
			if g.OneIn(4) {
				m = Pick(g, []int{-1, 1, 1024, 1<<24 - 1, 1 << 24, 1<<32 - 1})
			}
			if m < 0 {
				m = 0
			}
			got, err := x.r.MaxReg(uint32(m))
			g.Logf("limit %d with %d values: %v", m, len(x.recs), err)
			if m < 1 || m > 1<<24-1 || m < len(x.recs) {
				g.Check(err != nil, "the limit %d is taken with %d values", m, len(x.recs))
			} else {
				g.Check(err == nil && int(got) == m, "the limit %d with %d values: %d, %v", m, len(x.recs), got, err)
			}
			if err == nil {
				x.max = m
			}
		case k == 9:
			s := x.r.String()
			at := 0
			for _, r := range x.recs { // in order
				_, n := r.id.Ids()
				show := fmt.Sprint(r.val)
				for _, part := range []string{fmt.Sprintf("#%d", n), r.name, show} {
					if part == r.name && !x.k.Named {
						continue
					}
					i := strings.Index(s[at:], part)
					g.Check(i >= 0, "the listing of a register lacks number %d, %q = %v (or has it out of order): %q", n, r.name, r.val, s)
					at += i + len(part)
				}
			}
		}
	})
	for _, x := range mine {
		for _, r := range x.recs {
			verify(g, r)
		}
	}
	if len(types) > 1 {
		g.NonTrivial()
	}
}

func invalid(g *G, k *kind, raw uint32) {
	g.Logf("%s id %d was never given out", k.Name, raw)
	id := k.Id(raw)
	o := id.Obj()
	p, _ := g.Panics(func() { id.GetNoErr() })
	q, _ := g.Panics(func() { o.GetNoErr() })
	_, err := id.Get()
	_, err2 := o.Get()
	g.Check(!id.Valid() && !o.Valid() && p && q && err != nil && err2 != nil, "%s id %d was never given out, but: valid %v, %v, %v, %v", k.Name, raw, id.Valid(), o.Valid(), err, err2)
	if k.Settable {
		v := value(g, k.Type)
		_, err = id.Set(v)
		_, err2 = o.Set(v)
		g.Check(err != nil && err2 != nil, "setting %s id %d, which was never given out: %v, %v", k.Name, raw, err, err2)
	}
	if k.Rev {
		_, err = id.Reverse()
		_, err2 = o.Reverse()
		g.Check(err != nil && err2 != nil, "reversing %s id %d, which was never given out: %v, %v", k.Name, raw, err, err2)
	}
	if k.Named {
		_, err = id.Name()
		_, err2 = o.Name()
		g.Check(err != nil && err2 != nil, "the name of %s id %d, which was never given out: %v, %v", k.Name, raw, err, err2)
	}
	_, _ = id.String(), o.String()
}

// one call on a shared value
type call struct {
	op   int // 0 get, 1 set, 2 reverse
	obj  bool
	v    interface{}
	got  interface{}
	x, y int
}

func (c call) String() string {
	switch c.op {
	case 1:
		return fmt.Sprintf("Set(%v)", c.v)
	case 2:
		return fmt.Sprintf("Reverse()=%v", c.got)
	}
	return fmt.Sprintf("Get()=%v", c.got)
}

func calls(g *G, n int, typ string, rev bool) [][]call {
	cs := make([][]call, n)
	for i := range cs {
		for k := 1 + g.N(3); k > 0; k-- {
			c := call{op: g.N(2), obj: g.Bool()}
			if rev && g.Bool() {
				c.op = 2
			}
			if c.op == 1 {
				c.v = value(g, typ)
			}
			cs[i] = append(cs[i], c)
		}
	}
	return cs
}

type holder interface {
	Get() (interface{}, error)
	Set(v interface{}) (interface{}, error)
	Reverse() (interface{}, error)
	String() string
}

func (c *call) on(h holder) (err error) {
	switch c.op {
	case 0:
		c.got, err = h.Get()
	case 1:
		c.got, err = h.Set(c.v)
		if !same(c.got, c.v) {
			err = fmt.Errorf("Set(%v) returns %v", c.v, c.got)
		}
	case 2:
		c.got, err = h.Reverse()
	}
	return
}

func explained(cs [][]call, val, end interface{}) bool {
	pos := make([]int, len(cs))
	var try func(val interface{}) bool
	try = func(val interface{}) bool {
		first, left := int(^uint(0)>>1), false
		for t, i := range pos {
			if i < len(cs[t]) {
				left = true
				first = min(first, cs[t][i].y)
			}
		}
		if !left {
			return same(val, end)
		}
		for t, i := range pos {
			if i == len(cs[t]) || cs[t][i].x > first {
				continue
			}
			c, next := cs[t][i], val
			switch c.op {
			case 0:
				if !same(c.got, val) {
					continue
				}
			case 1:
				next = c.v
			case 2:
				next = !val.(bool)
				if !same(c.got, next) {
					continue
				}
			}
			pos[t]++
			if try(next) {
				return true
			}
			pos[t]--
		}
		return false
	}
	return try(val)
}

// one value of each settable type, in the instrumented registers
var shared = map[int]iregs.Id{}

func schedules(g *G) {
	var can []int
	for i, k := range iregs.Kinds {
		if k.Settable {
			can = append(can, i)
			if k.Rev {
				can = append(can, i, i)
			}
		}
	}
	ki := Pick(g, can)
	k := &iregs.Kinds[ki]
	n := 2
	if !g.Enum() {
		n = 2 + g.N(2)
	}
	start := value(g, k.Type)
	cs := calls(g, n, k.Type, k.Rev)
	var p []sched.Slice
	g.Steps(8, 40, func(int) { p = append(p, sched.Slice{Thread: g.N(n), Points: 1 + g.N(16)}) })
	id := shared[ki]
	if id == nil {
		id = k.MustNew("shared").MustReg("shared", start)
		shared[ki] = id
	}
	_, err := id.Set(start)
	g.Check(err == nil, "set: %v", err)
	g.Logf("%s, %v at first, plan %v", k.Name, start, p)
	obj := id.Obj()
	clock := 0
	fs := []func(*sched.Run, int){}
	for i := 0; i < n; i++ {
		fs = append(fs, func(r *sched.Run, t int) {
			for i := range cs[t] {
				c := &cs[t][i]
				clock++
				c.x = clock
				var h holder = id
				if c.obj {
					h = obj
				}
				err := c.on(h)
				clock++
				c.y = clock
				g.Logf("thread %d: %v (from %d to %d)", t, *c, c.x, c.y)
				if err != nil {
					g.Fatalf("%v", err)
				}
			}
		})
	}
	run, failed := sched.Go(p, 3, 100000, fs...)
	switch x := failed.(type) {
	case nil:
	case sched.Stuck:
		delete(shared, ki)
		g.Fatalf("under a fair schedule %v", x)
	default:
		panic(x)
	}
	if run.Switches > n {
		g.NonTrivial()
	}
	end, err := id.Get()
	g.Check(err == nil, "%v", err)
	g.Check(explained(cs, start, end), "no order of the calls %v explains their results, from %v to %v", cs, start, end)
}

var real = map[int]regs.Id{}

func threads(g *G) {
	ki := g.N(len(regs.Kinds))
	k := &regs.Kinds[ki]
	n := 2 + g.N(3)
	start := value(g, k.Type)
	cs := calls(g, n, k.Type, k.Rev)
	show := g.OneIn(4)
	id := real[ki]
	if id == nil {
		id = k.MustNew("shared").MustReg("shared", start)
		real[ki] = id
	}
	if !k.Settable {
		for _, c := range cs {
			for i := range c {
				c[i].op = 0
			}
		}
		start = id.GetNoErr()
	} else {
		id.Set(start)
	}
	g.Logf("%s, %v at first: %v", k.Name, start, cs)
	Together(n, func(t int) {
		obj := id.Obj()
		for i := range cs[t] {
			c := &cs[t][i]
			var h holder = id
			if c.obj {
				h = obj
			}
			if err := c.on(h); err != nil {
				g.Fatalf("%v", err)
			}
			if show {
				_ = h.String()
			}
			if k.Named {
				s, err := id.Name()
				g.Check(s == "shared" && err == nil, "the name: %q, %v", s, err)
			}
			c.x, c.y = i, 1<<40 // only the order of each thread is known
		}
	})
	g.NonTrivial()
	end, err := id.Get()
	g.Check(err == nil, "%v", err)
	g.Check(explained(cs, start, end), "no order of the calls %v explains their results, from %v to %v", cs, start, end)
}

// finish makes registers until there are no more, and closes the registration phase, for good.
func finish(g *G) {
	for i, k := range kinds {
		if i%2 == 0 || k.Name == "shipped" { // some keep room for registers, which are then refused for the other reason (P30 fills up the shipped ones)
			continue
		}
		for n := 0; ; n++ {
			g.Check(n < 300, "a process has more than 255 %s registers", k.Name)
			x := &reg{k: k, max: 1}
			p, _ := g.Panics(func() {
				r, err := k.New("more")
				if err != nil {
					panic(err)
				}
				x.r = r
			})
			if p {
				g.Check(len(k.list) >= 200, "register %d is refused", len(k.list)+1)
				break
			}
			k.list = append(k.list, x)
			add(g, x)
		}
	}
	regs.FinishReg()
	all := regs.ShowAllRegs()
	for _, k := range kinds {
		mine := k.ShowAll()
		for _, x := range k.list {
			p, _ := g.Panics(func() { x.r.Reg("late", value(g, k.Type)) })
			q, _ := g.Panics(func() { x.r.MustRegO("late", value(g, k.Type)) })
			g.Check(p && q, "a value is registered after the end of registration")
			for _, r := range x.recs {
				verify(g, r)
				s := fmt.Sprint(r.val)
				g.Check(strings.Contains(all, s) && strings.Contains(mine, s), "the listing of everything lacks %q = %v", r.name, r.val)
				if k.Settable {
					r.val = value(g, k.Type)
					_, err := r.obj.Set(r.val)
					g.Check(err == nil, "%v", err)
					verify(g, r)
				}
			}
		}
		p, _ := g.Panics(func() { k.New("late") })
		g.Check(p, "a register is created after the end of registration")
	}
}
