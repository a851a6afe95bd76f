// P28: the random number generators.
package main

import (
	"fmt"
	"sort"

	xrand "github.com/vipally/gx/math/rand"
	xstrings "github.com/vipally/gx/strings"
	gxrand "instr/gxrand"
	gprand "tpl/gprand"
	. "vgx/pbt"
	"vgx/sched"
)

func main() {
	Main(Spec{
		Prop: "P28",
		Rule: "a case is a generated history of draws, bounded draws (any limits, also swapped and full range), seed reads and reseeds on generators of both widths, the shipped ones and those the template gives: every draw lies within its limits and the history is repeated exactly by a generator started from the same seed, or from a seed read in between; or a generated schedule of 2 to 4 threads drawing from one generator, control moving at every statement and atomic operation: together they draw exactly the sequence one thread would; or such a schedule of draws, bounded draws, seed reads and reseeds of 2 or 3 threads, whose results some order of the calls one after the other must explain; or real threads, watched by the race detector; or a random text of a generated length; non-trivial: five or more draws, or a schedule that switched threads in mid-draw",
		Checks: []Check{
			{Name: "sequence", Quick: 160000, Thorough: 6000000, Fn: sequence},
			{Name: "limits", Quick: 800000, Thorough: 40000000, Fn: limits},
			{Name: "schedules", Quick: 60000, Thorough: 3000000, Enum: 30000, EnumThor: 1000000, Fn: schedules},
			{Name: "mixed", Quick: 60000, Thorough: 2000000, Fn: mixed},
			{Name: "threads", Quick: 1500, Thorough: 60000, Fn: threads, Race: true},
			{Name: "global", Quick: 100000, Thorough: 4000000, Fn: global},
			{Name: "text", Quick: 40000, Thorough: 1000000, Fn: text},
		},
	})
}

// both widths behind one face
type gen interface {
	rand() uint64
	max(n uint64) uint64
	rng(a, b uint64) uint64
	seed() uint64
	srand(s uint64) uint64
}

type g32 struct{ r *xrand.Rand32T }

func (x g32) rand() uint64           { return uint64(x.r.Rand()) }
func (x g32) max(n uint64) uint64    { return uint64(x.r.RandMax(uint32(n))) }
func (x g32) rng(a, b uint64) uint64 { return uint64(x.r.RandRange(uint32(a), uint32(b))) }
func (x g32) seed() uint64           { return uint64(x.r.Seed()) }
func (x g32) srand(s uint64) uint64  { return uint64(x.r.Srand(uint32(s))) }

type t32 struct{ r *gprand.Rand32T }

func (x t32) rand() uint64           { return uint64(x.r.Rand()) }
func (x t32) max(n uint64) uint64    { return uint64(x.r.RandMax(uint32(n))) }
func (x t32) rng(a, b uint64) uint64 { return uint64(x.r.RandRange(uint32(a), uint32(b))) }
func (x t32) seed() uint64           { return uint64(x.r.Seed()) }
func (x t32) srand(s uint64) uint64  { return uint64(x.r.Srand(uint32(s))) }

type t64 struct{ r *gprand.Rand64T }

func (x t64) rand() uint64           { return x.r.Rand() }
func (x t64) max(n uint64) uint64    { return x.r.RandMax(n) }
func (x t64) rng(a, b uint64) uint64 { return x.r.RandRange(a, b) }
func (x t64) seed() uint64           { return x.r.Seed() }
func (x t64) srand(s uint64) uint64  { return x.r.Srand(s) }

// the instrumented ones
type i32 struct{ r *gxrand.Rand32T }

func (x i32) rand() uint64           { return uint64(x.r.Rand()) }
func (x i32) max(n uint64) uint64    { return uint64(x.r.RandMax(uint32(n))) }
func (x i32) rng(a, b uint64) uint64 { return uint64(x.r.RandRange(uint32(a), uint32(b))) }
func (x i32) seed() uint64           { return uint64(x.r.Seed()) }
func (x i32) srand(s uint64) uint64  { return uint64(x.r.Srand(uint32(s))) }

type i64 struct{ r *gxrand.Rand64T }

func (x i64) rand() uint64           { return x.r.Rand() }
func (x i64) max(n uint64) uint64    { return x.r.RandMax(n) }
func (x i64) rng(a, b uint64) uint64 { return x.r.RandRange(a, b) }
func (x i64) seed() uint64           { return x.r.Seed() }
func (x i64) srand(s uint64) uint64  { return x.r.Srand(s) }

type g64 struct{ r *xrand.Rand64T }

func (x g64) rand() uint64           { return x.r.Rand() }
func (x g64) max(n uint64) uint64    { return x.r.RandMax(n) }
func (x g64) rng(a, b uint64) uint64 { return x.r.RandRange(a, b) }
func (x g64) seed() uint64           { return x.r.Seed() }
func (x g64) srand(s uint64) uint64  { return x.r.Srand(s) }

func fresh(wide bool, seed uint64) gen {
	if wide {
		return g64{xrand.NewRand64S(seed)}
	}
	return g32{xrand.NewRand32S(uint32(seed))}
}

func fromTemplate(wide bool, seed uint64) gen {
	if wide {
		return t64{gprand.NewRand64S(seed)}
	}
	return t32{gprand.NewRand32S(uint32(seed))}
}

func instrumented(wide bool, seed uint64) gen {
	if wide {
		return i64{gxrand.NewRand64S(seed)}
	}
	return i32{gxrand.NewRand32S(uint32(seed))}
}

func top(wide bool) uint64 {
	if wide {
		return 1<<64 - 1
	}
	return 1<<32 - 1
}

func sequence(g *G) {
	wide := g.Bool()
	top := top(wide)
	fresh := fresh
	if g.OneIn(4) {
		fresh = fromTemplate
	}
	seed := g.U64(top)
	a, b := fresh(wide, seed), fresh(wide, seed)
	var noise []gen
	for k := g.N(3); k > 0; k-- { // other generators do not interfere
		noise = append(noise, fresh(wide, g.U64(top)))
	}
	g.Logf("wide %v, seed %d", wide, seed)
	g.Check(a.seed() == seed, "a generator started with seed %d has seed %d", seed, a.seed())
	n := g.Steps(12, 200, func(int) {
		for _, x := range noise {
			x.rand()
		}
		switch g.N(8) {
		case 0, 1, 2, 3:
			x, y := a.rand(), b.rand()
			g.Logf("draw %d", x)
			g.Check(x == y, "same seed, same history, but draws %d and %d", x, y)
		case 4:
			m := 1 + g.U64(top-1)
			x, y := a.max(m), b.max(m)
			g.Logf("draw %d of %d", x, m)
			g.Check(x == y && x < m, "draws below %d: %d and %d", m, x, y)
		case 5:
			lo, hi := g.U64(top), g.U64(top)
			x, y := a.rng(lo, hi), b.rng(lo, hi)
			g.Logf("draw %d of [%d,%d]", x, lo, hi)
			g.Check(x == y && x >= min(lo, hi) && x <= max(lo, hi), "draws in [%d,%d]: %d and %d", lo, hi, x, y)
		case 6: // go on from the seed read
			s := a.seed()
			g.Check(s == a.seed() && s == b.seed(), "reading the seed: %d, then %d and %d", s, a.seed(), b.seed())
			b = fresh(wide, s)
		case 7:
			s := g.U64(top)
			old := a.seed()
			g.Logf("reseed %d", s)
			r := a.srand(s)
			g.Check(r == old && a.seed() == s, "reseeding %d: returned %d for the seed %d, seed is %d now", s, r, old, a.seed())
			b = fresh(wide, s)
		}
	})
	if n >= 5 {
		g.NonTrivial()
	}
	seen := map[uint64]bool{}
	for i := 0; i < 8; i++ { // it moves
		seen[a.rand()] = true
	}
	g.Check(len(seen) > 1, "eight draws of the same number")
}

func limits(g *G) {
	wide := g.Bool()
	top := top(wide)
	fresh := fresh
	if g.OneIn(4) {
		fresh = fromTemplate
	}
	r := fresh(wide, g.U64(top))
	lo, hi := g.U64(top), g.U64(top)
	switch g.N(5) {
	case 0:
		hi = lo
	case 1:
		lo, hi = 0, top
	case 2:
		hi = lo + uint64(g.N(5))
		hi &= top
	}
	if g.Bool() {
		lo, hi = hi, lo
	}
	m := 1 + g.U64(top-1)
	g.Logf("wide %v, range [%d,%d], max %d", wide, lo, hi, m)
	for i := 0; i < 6; i++ {
		v := r.rng(lo, hi)
		if v < min(lo, hi) || v > max(lo, hi) {
			g.Fatalf("a draw in [%d,%d] gives %d", lo, hi, v)
		}
		if v = r.max(m); v >= m {
			g.Fatalf("a draw below %d gives %d", m, v)
		}
	}
	g.NonTrivial()
}

func global(g *G) {
	lo, hi, m := uint32(g.U64(1<<32-1)), uint32(g.U64(1<<32-1)), uint32(1+g.U64(1<<32-2))
	v := xrand.RandRange32(lo, hi)
	g.Check(v >= min(lo, hi) && v <= max(lo, hi), "a draw in [%d,%d] gives %d", lo, hi, v)
	v = xrand.RandMax32(m)
	g.Check(v < m, "a draw below %d gives %d", m, v)
	lo6, hi6, m6 := g.U64(1<<64-1), g.U64(1<<64-1), 1+g.U64(1<<64-2)
	w := xrand.RandRange64(lo6, hi6)
	g.Check(w >= min(lo6, hi6) && w <= max(lo6, hi6), "a draw in [%d,%d] gives %d", lo6, hi6, w)
	w = xrand.RandMax64(m6)
	g.Check(w < m6, "a draw below %d gives %d", m6, w)
	g.Check(xrand.Rand32() != xrand.Rand32() || xrand.Rand32() != xrand.Rand32(), "the global generator stands still")
	g.Check(xrand.Rand64() != xrand.Rand64() || xrand.Rand64() != xrand.Rand64(), "the global generator stands still")
	n := xrand.NewRand32()
	g.Check(n.Rand() != n.Rand() || n.Rand() != n.Rand(), "a new generator stands still")
	// generators made without a seed do not all follow one sequence
	var same32, same64 = true, true
	s32, s64 := n.Seed(), xrand.NewRand64().Seed()
	for i := 0; i < 4; i++ {
		same32 = same32 && xrand.NewRand32().Seed() == s32
		same64 = same64 && xrand.NewRand64().Seed() == s64
	}
	g.Check(!same32 && !same64, "generators made without a seed all have the same one")
	g.NonTrivial()
}

func schedules(g *G) {
	wide := g.Bool()
	n, draws := 2, 2
	if !g.Enum() {
		n, draws = 2+g.N(3), 1+g.N(5)
	}
	seed := g.U64(top(wide))
	var p []sched.Slice
	g.Steps(10, 50, func(int) { p = append(p, sched.Slice{Thread: g.N(n), Points: 1 + g.N(16)}) })
	g.Logf("wide %v, seed %d, %d threads draw %d numbers each, plan %v", wide, seed, n, draws, p)
	var draw func() uint64
	var want []uint64
	ref := fresh(wide, seed)
	for i := 0; i < n*draws; i++ {
		want = append(want, ref.rand())
	}
	if wide {
		r := gxrand.NewRand64S(seed)
		draw = r.Rand
	} else {
		r := gxrand.NewRand32S(uint32(seed))
		draw = func() uint64 { return uint64(r.Rand()) }
	}
	got := make([][]uint64, n)
	fs := []func(*sched.Run, int){}
	for i := 0; i < n; i++ {
		fs = append(fs, func(r *sched.Run, id int) {
			for k := 0; k < draws; k++ {
				v := draw()
				g.Logf("thread %d draws %d", id, v)
				got[id] = append(got[id], v)
			}
		})
	}
	run, failed := sched.Go(p, 3, 100000, fs...)
	switch x := failed.(type) {
	case nil:
	case sched.Stuck:
		g.Fatalf("under a fair schedule %v", x)
	default:
		panic(x)
	}
	if run.Switches > n {
		g.NonTrivial()
	}
	var all []uint64
	for _, x := range got {
		all = append(all, x...)
	}
	less := func(s []uint64) { sort.Slice(s, func(i, j int) bool { return s[i] < s[j] }) }
	less(all)
	less(want)
	for i := range want {
		if all[i] != want[i] {
			g.Fatalf("the threads drew %v, one thread would have drawn %v (sorted)", all, want)
		}
	}
}

// one call on a shared generator
type call struct {
	op   int
	a, b uint64
	got  uint64
	x, y int // its beginning and its end
}

func (c call) String() string {
	switch c.op {
	case 0:
		return fmt.Sprintf("Rand()=%d", c.got)
	case 1:
		return fmt.Sprintf("RandMax(%d)=%d", c.a, c.got)
	case 2:
		return fmt.Sprintf("RandRange(%d,%d)=%d", c.a, c.b, c.got)
	case 3:
		return fmt.Sprintf("Seed()=%d", c.got)
	}
	return fmt.Sprintf("Srand(%d)=%d", c.a, c.got)
}

func (c call) on(x gen) uint64 {
	switch c.op {
	case 0:
		return x.rand()
	case 1:
		return x.max(c.a)
	case 2:
		return x.rng(c.a, c.b)
	case 3:
		return x.seed()
	}
	return x.srand(c.a)
}

func mixed(g *G) {
	wide := g.Bool()
	top := top(wide)
	n := 2 + g.N(2)
	seed := g.U64(top)
	calls := make([][]call, n)
	for i := range calls {
		for k := 1 + g.N(3); k > 0; k-- {
			c := call{op: g.N(5)}
			switch c.op {
			case 1:
				c.a = 1 + g.U64(top-1)
			case 2:
				c.a, c.b = g.U64(top), g.U64(top)
			case 4:
				c.a = g.U64(top)
			}
			calls[i] = append(calls[i], c)
		}
	}
	var p []sched.Slice
	g.Steps(10, 50, func(int) { p = append(p, sched.Slice{Thread: g.N(n), Points: 1 + g.N(16)}) })
	g.Logf("wide %v, seed %d, plan %v", wide, seed, p)
	x := instrumented(wide, seed)
	clock := 0
	fs := []func(*sched.Run, int){}
	for i := 0; i < n; i++ {
		fs = append(fs, func(r *sched.Run, id int) {
			for k := range calls[id] {
				c := &calls[id][k]
				clock++
				c.x = clock
				c.got = c.on(x)
				clock++
				c.y = clock
				g.Logf("thread %d: %v (from %d to %d)", id, *c, c.x, c.y)
			}
		})
	}
	run, failed := sched.Go(p, 3, 100000, fs...)
	switch f := failed.(type) {
	case nil:
	case sched.Stuck:
		g.Fatalf("under a fair schedule %v", f)
	default:
		panic(f)
	}
	if run.Switches > n {
		g.NonTrivial()
	}
	pos := make([]int, n)
	var try func(seed uint64) bool
	try = func(seed uint64) bool {
		first, left := int(^uint(0)>>1), false
		for t, i := range pos {
			if i < len(calls[t]) {
				left = true
				first = min(first, calls[t][i].y)
			}
		}
		if !left {
			return seed == x.seed()
		}
		for t, i := range pos {
			if i == len(calls[t]) || calls[t][i].x > first {
				continue
			}
			ref := fresh(wide, seed)
			if calls[t][i].on(ref) != calls[t][i].got {
				continue
			}
			pos[t]++
			if try(ref.seed()) {
				return true
			}
			pos[t]--
		}
		return false
	}
	g.Check(try(seed), "no order of the calls %v gives these results one after the other, and the seed %d at the end", calls, x.seed())
}

// threads on one generator and on the generators of the process, under the race detector
func threads(g *G) {
	wide := g.Bool()
	n := 2 + g.N(3)
	seed := g.U64(top(wide))
	ops := make([][]int, n)
	draws := 0
	for i := range ops {
		for k := 1 + g.N(5); k > 0; k-- {
			ops[i] = append(ops[i], g.N(6))
			if ops[i][len(ops[i])-1] < 2 {
				draws++
			}
		}
	}
	g.Logf("wide %v, seed %d, threads do %v", wide, seed, ops)
	x := fresh(wide, seed)
	got := make([][]uint64, n)
	Together(n, func(t int) {
		for _, op := range ops[t] {
			switch op {
			case 0, 1:
				got[t] = append(got[t], x.rand())
			case 2:
				x.seed()
			case 3:
				v, w := xrand.RandRange32(3, 9), xrand.RandMax64(7)
				g.Check(v >= 3 && v <= 9 && w < 7, "draws in [3,9] and below 7 give %d and %d", v, w)
			case 4:
				xrand.NewRand32().Rand()
				xrand.NewRand64().Rand()
			case 5:
				s := xstrings.Rand(xstrings.RULE_NORMAL, 5)
				g.Check(len(s) == 5, "a random text of length 5 has %d bytes", len(s))
			}
		}
	})
	g.NonTrivial()
	ref := fresh(wide, seed)
	want := map[uint64]int{}
	for i := 0; i < draws; i++ {
		want[ref.rand()]++
	}
	for t := range got {
		for _, v := range got[t] {
			want[v]--
			g.Check(want[v] >= 0, "the threads drew %v, which one thread would not have drawn", got)
		}
	}
}

func text(g *G) {
	n := g.Size(300)
	s := xstrings.Rand(xstrings.RULE_NORMAL, n)
	g.Logf("%q", s)
	if n > 1 {
		g.NonTrivial()
	}
	g.Check(len(s) == n, "a random text of length %d has %d bytes", n, len(s))
	for i := 0; i < n; i++ {
		g.Check(s[i] >= 'A' && s[i] <= 'Z' || s[i] >= 'a' && s[i] <= 'z' || s[i] >= '0' && s[i] <= '9', "a random text of letters and digits contains %q", s[i])
	}
}
