// P10: ranged integers never leave their range and never wrap silently.
package main

import (
	"math"
	"math/big"

	xmath "github.com/vipally/gx/math"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P10",
		Rule: "a case creates a 32 or 64 bit ranged integer from generated (value, min, max) near word boundaries and applies a generated history of init/set/inc/dec/add/sub/mul/div/mod/reset/range queries, each judged by unbounded integer arithmetic; non-trivial: an accepted object sees both an accepted and a refused operation",
		Checks: []Check{
			{Name: "uint32", Quick: 150000, Thorough: 5000000, Fn: func(g *G) {
				history(g, math.MaxUint32, func(v, lo, hi uint64) (obj, error) {
					r, err := xmath.NewRangeUint32(uint32(v), uint32(lo), uint32(hi))
					if r == nil {
						return nil, err
					}
					return o32{r}, err
				})
			}},
			{Name: "uint64", Quick: 150000, Thorough: 5000000, Fn: func(g *G) {
				history(g, math.MaxUint64, func(v, lo, hi uint64) (obj, error) {
					r, err := xmath.NewRangeUInt64(v, lo, hi)
					if r == nil {
						return nil, err
					}
					return o64{r}, err
				})
			}},
		},
	})
}

type obj interface {
	Init(v, lo, hi uint64) error
	Add(uint64) (uint64, error)
	Sub(uint64) (uint64, error)
	Mul(uint64) (uint64, error)
	Div(uint64) (uint64, error)
	Mod(uint64) (uint64, error)
	Inc() (uint64, error)
	Dec(uint64) (uint64, error)
	Set(uint64) (uint64, error)
	Get() (uint64, uint64, uint64)
	Val() uint64
	Min() uint64
	Max() uint64
	Reset() bool
	ResetR() bool
	InRange(uint64) bool
	InCurrentRange(uint64) bool
}

type o64 struct{ *xmath.RangeUInt64 }
type o32 struct{ *xmath.RangeUint32 }

func (o o32) Init(v, lo, hi uint64) error {
	return o.RangeUint32.Init(uint32(v), uint32(lo), uint32(hi))
}
func w(v uint32, err error) (uint64, error) { return uint64(v), err }
func (o o32) Add(x uint64) (uint64, error)  { return w(o.RangeUint32.Add(uint32(x))) }
func (o o32) Sub(x uint64) (uint64, error)  { return w(o.RangeUint32.Sub(uint32(x))) }
func (o o32) Mul(x uint64) (uint64, error)  { return w(o.RangeUint32.Mul(uint32(x))) }
func (o o32) Div(x uint64) (uint64, error)  { return w(o.RangeUint32.Div(uint32(x))) }
func (o o32) Mod(x uint64) (uint64, error)  { return w(o.RangeUint32.Mod(uint32(x))) }
func (o o32) Inc() (uint64, error)          { return w(o.RangeUint32.Inc()) }
func (o o32) Dec(x uint64) (uint64, error)  { return w(o.RangeUint32.Dec(uint32(x))) }
func (o o32) Set(x uint64) (uint64, error)  { return w(o.RangeUint32.Set(uint32(x))) }
func (o o32) Val() uint64                   { return uint64(o.RangeUint32.Val()) }
func (o o32) Min() uint64                   { return uint64(o.RangeUint32.Min()) }
func (o o32) Max() uint64                   { return uint64(o.RangeUint32.Max()) }
func (o o32) InRange(x uint64) bool         { return o.RangeUint32.InRange(uint32(x)) }
func (o o32) InCurrentRange(x uint64) bool  { return o.RangeUint32.InCurrentRange(uint32(x)) }
func (o o32) Get() (uint64, uint64, uint64) {
	a, b, c := o.RangeUint32.Get()
	return uint64(a), uint64(b), uint64(c)
}

func history(g *G, max uint64, create func(v, lo, hi uint64) (obj, error)) {
	triple := func() (v, lo, hi uint64) {
		lo, hi = g.U64(max), g.U64(max)
		if lo > hi && !g.OneIn(8) {
			lo, hi = hi, lo
		}
		switch g.N(4) {
		case 0:
			v = lo
		case 1:
			v = hi
		case 2:
			v = g.U64(max)
		case 3:
			v = lo
			if hi > lo && hi-lo < max {
				v = lo + g.Bits64()%(hi-lo+1)
			}
		}
		return
	}
	v, lo, hi := triple()
	o, err := create(v, lo, hi)
	valid := func(v, lo, hi uint64) bool { return lo <= v && v <= hi }
	g.Logf("new(%d in [%d,%d]) err=%v", v, lo, hi, err != nil)
	g.Check((err == nil) == valid(v, lo, hi), "creating value %d in [%d,%d]: err=%v", v, lo, hi, err)
	if err != nil {
		g.Check(o == nil, "a refused object was returned")
		return
	}
	accepted, refused := false, false
	operand := func() uint64 {
		var x uint64
		switch g.N(8) {
		case 0:
			x = hi - v
		case 1:
			x = v - lo
		case 2:
			x = max - v
		case 3:
			x = v
		case 4:
			if v > 0 {
				x = hi / v
			}
		case 5:
			if v > 0 {
				x = max / v
			}
		default:
			return g.U64(max)
		}
		x += uint64(g.N(3)) - 1
		return x & max
	}
	g.Steps(8, 60, func(int) {
		b := func(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
		in := func(x *big.Int) bool { return x.Sign() >= 0 && x.Cmp(b(lo)) >= 0 && x.Cmp(b(hi)) <= 0 }
		switch op := g.N(13); op {
		case 0, 1, 2, 3, 4:
			x := operand()
			want := new(big.Int)
			ok := true
			var r uint64
			var err error
			switch op {
			case 0:
				r, err = o.Add(x)
				want.Add(b(v), b(x))
			case 1:
				r, err = o.Sub(x)
				want.Sub(b(v), b(x))
			case 2:
				r, err = o.Mul(x)
				want.Mul(b(v), b(x))
			case 3:
				r, err = o.Div(x)
				if ok = x != 0; ok {
					want.Div(b(v), b(x))
				}
			case 4:
				r, err = o.Mod(x)
				if ok = x != 0; ok {
					want.Mod(b(v), b(x))
				}
			}
			ok = ok && in(want)
			g.Logf("%s(%d) = %d, err=%v", []string{"Add", "Sub", "Mul", "Div", "Mod"}[op], x, r, err != nil)
			g.Check((err == nil) == ok, "%s(%d) of %d in [%d,%d]: err=%v, the result is %v", []string{"Add", "Sub", "Mul", "Div", "Mod"}[op], x, v, lo, hi, err, want)
			if ok {
				g.Check(b(r).Cmp(want) == 0, "%s(%d) of %d = %d want %v", []string{"Add", "Sub", "Mul", "Div", "Mod"}[op], x, v, r, want)
				accepted = true
			} else {
				refused = true
			}
		case 5:
			r, err := o.Inc()
			ok := v < hi
			g.Logf("Inc() = %d, err=%v", r, err != nil)
			g.Check((err == nil) == ok, "Inc of %d in [%d,%d]: err=%v", v, lo, hi, err)
			if ok {
				g.Check(r == v, "Inc returned %d, the value was %d", r, v)
				v++
				accepted = true
			} else {
				refused = true
			}
		case 6:
			r, err := o.Dec(g.U64(max))
			ok := v > lo
			g.Logf("Dec() = %d, err=%v", r, err != nil)
			g.Check((err == nil) == ok, "Dec of %d in [%d,%d]: err=%v", v, lo, hi, err)
			if ok {
				g.Check(r == v, "Dec returned %d, the value was %d", r, v)
				v--
				accepted = true
			} else {
				refused = true
			}
		case 7, 8:
			x := g.U64(max)
			switch g.N(4) {
			case 0:
				x = (lo + uint64(g.N(3)) - 1) & max
			case 1:
				x = (hi + uint64(g.N(3)) - 1) & max
			}
			r, err := o.Set(x)
			ok := lo <= x && x <= hi
			g.Logf("Set(%d) = %d, err=%v", x, r, err != nil)
			g.Check((err == nil) == ok, "Set(%d) in [%d,%d]: err=%v", x, lo, hi, err)
			g.Check(r == v, "Set returned %d, the value was %d", r, v)
			if ok {
				v = x
				accepted = true
			} else {
				refused = true
			}
		case 9:
			nv, nlo, nhi := triple()
			err := o.Init(nv, nlo, nhi)
			g.Logf("Init(%d in [%d,%d]) err=%v", nv, nlo, nhi, err != nil)
			g.Check((err == nil) == valid(nv, nlo, nhi), "Init(%d in [%d,%d]): err=%v", nv, nlo, nhi, err)
			if err == nil {
				v, lo, hi = nv, nlo, nhi
			}
		case 10:
			if g.Bool() {
				g.Logf("Reset()")
				g.Check(o.Reset(), "Reset reported failure")
				v = lo
			} else {
				g.Logf("ResetR()")
				g.Check(o.ResetR(), "ResetR reported failure")
				v = hi
			}
		case 11, 12:
			x := g.U64(max)
			switch g.N(4) {
			case 0:
				x = (lo + uint64(g.N(3)) - 1) & max
			case 1:
				x = (hi + uint64(g.N(3)) - 1) & max
			case 2:
				x = (v + uint64(g.N(3)) - 1) & max
			}
			g.Check(o.InRange(x) == (lo <= x && x <= hi), "InRange(%d) of [%d,%d] = %v", x, lo, hi, o.InRange(x))
			g.Check(o.InCurrentRange(x) == (lo <= x && x <= v), "InCurrentRange(%d) of [%d,%d] = %v", x, lo, v, o.InCurrentRange(x))
		}
		a, b2, c := o.Get()
		g.Check(a == v && b2 == lo && c == hi, "the object is %d in [%d,%d], want %d in [%d,%d]", a, b2, c, v, lo, hi)
		g.Check(o.Val() == v && o.Min() == lo && o.Max() == hi, "Val/Min/Max are %d %d %d, want %d %d %d", o.Val(), o.Min(), o.Max(), v, lo, hi)
	})
	if accepted && refused {
		g.NonTrivial()
	}
}
