// P11: exact results of the small number helpers on the whole input range.
package main

import (
	"math"
	"math/big"
	"strconv"
	"strings"

	xmath "github.com/vipally/gx/math"
	"github.com/vipally/gx/math/cplx"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P11",
		Rule: "a case is a generated word (near powers of two and ten, all bit lengths) with a generated index, a generated 64 bit number to print, or a generated pair of floats around the tolerance; non-trivial: the index is valid and the selected part differs from zero, the number has at least four digits, or the floats differ",
		Checks: []Check{
			{Name: "parts", Quick: 200000, Thorough: 5000000, Fn: parts},
			{Name: "comma", Quick: 300000, Thorough: 8000000, Fn: comma},
			{Name: "floats", Quick: 100000, Thorough: 3000000, Fn: floats},
		},
	})
}

func parts(g *G) {
	v := uint32(g.U64(math.MaxUint32))
	idx := uint32(g.N(36))
	if g.OneIn(8) {
		idx = uint32(g.U64(math.MaxUint32))
	}
	g.Logf("value %#x index %d", v, idx)
	for _, c := range []struct {
		name  string
		f     func(uint32, uint32) (uint32, error)
		width uint32
	}{{"GetBit", xmath.GetBit, 1}, {"GetByte", xmath.GetByte, 8}, {"GetWord", xmath.GetWord, 16}} {
		i := idx
		if g.Bool() {
			i = idx % (32 / c.width)
		}
		r, err := c.f(v, i)
		ok := i < 32/c.width
		g.Check((err == nil) == ok, "%s(%#x,%d): err=%v", c.name, v, i, err)
		if ok {
			want := uint32(uint64(v) >> (i * c.width) & (1<<c.width - 1))
			g.Check(r == want, "%s(%#x,%d) = %#x want %#x", c.name, v, i, r, want)
			if r != 0 {
				g.NonTrivial()
			}
		}
	}
	// reassembling the parts gives the number
	var bits, bytes, words uint32
	for i := uint32(0); i < 32; i++ {
		b, _ := xmath.GetBit(v, i)
		bits |= b << i
		if i < 4 {
			b, _ := xmath.GetByte(v, i)
			bytes |= b << (8 * i)
		}
		if i < 2 {
			b, _ := xmath.GetWord(v, i)
			words |= b << (16 * i)
		}
	}
	g.Check(bits == v && bytes == v && words == v, "the parts of %#x give %#x %#x %#x", v, bits, bytes, words)
	b := g.Bool()
	n := g.Val()
	g.Check(xmath.ItoB(xmath.BToI(xmath.Bool(b))) == b && xmath.ItoB(xmath.Bool(b).I()) == b, "bool %v does not survive int and back", b)
	g.Check(xmath.BToI(xmath.Bool(b)) == map[bool]int{false: 0, true: 1}[b], "BToI(%v) = %d", b, xmath.BToI(xmath.Bool(b)))
	g.Check(xmath.ItoB(n) == (n != 0), "ItoB(%d) = %v", n, xmath.ItoB(n))
}

func comma(g *G) {
	v := g.U64(math.MaxUint64)
	if g.OneIn(3) { // groups with zeros
		v = 0
		for k := g.N(6); k > 0; k-- {
			v = v*1000 + uint64(Pick(g, []int{0, 1, 7, 9, 10, 42, 99, 100, 101, 999, 900, 90}))
		}
	}
	s := xmath.Uint64(v).CommaString()
	g.Logf("%d -> %q", v, s)
	if v >= 1000 {
		g.NonTrivial()
	}
	d := strconv.FormatUint(v, 10)
	want := ""
	for i := range d {
		if i > 0 && (len(d)-i)%3 == 0 {
			want += ","
		}
		want += d[i : i+1]
	}
	g.Check(s == want, "CommaString(%d) = %q want %q", v, s, want)
	back, err := strconv.ParseUint(strings.ReplaceAll(s, ",", ""), 10, 64)
	g.Check(err == nil && back == v, "CommaString(%d) = %q does not read back", v, s)
}

func floats(g *G) {
	a := float64(g.Val()%(1<<20)) / float64(1+g.N(1000))
	d := 0.0
	switch g.N(4) {
	case 0:
	case 1:
		d = 1e-6 * float64(g.N(4000)) / 1000
	case 2:
		d = float64(g.Val() % 1000)
	case 3:
		d = 1e-7 * float64(g.N(20))
	}
	if g.Bool() {
		d = -d
	}
	b := a + d
	// exact difference; too close to the tolerance to call: skip
	diff := new(big.Float).SetPrec(2000).Sub(new(big.Float).SetFloat64(a), new(big.Float).SetFloat64(b))
	f, _ := diff.Abs(diff).Float64()
	if f > 0.999999e-6 && f < 1.000001e-6 {
		return
	}
	g.Logf("Equal(%v, %v)", a, b)
	if a != b {
		g.NonTrivial()
	}
	g.Check(xmath.Equal(a, b) == (f < 1e-6), "Equal(%v,%v) = %v", a, b, xmath.Equal(a, b))
	g.Check(xmath.Equal(b, a) == (f < 1e-6), "Equal(%v,%v) = %v", b, a, xmath.Equal(b, a))
	g.Check(xmath.Equal(a, a), "Equal(%v,%v) is false", a, a)
	c64, c128 := cplx.Cplx64(complex(float32(a), float32(b))), cplx.Cplx128(complex(a, b))
	g.Check(c64.Real() == float32(a) && c64.Imag() == float32(b), "parts of %v: %v %v", c64, c64.Real(), c64.Imag())
	g.Check(c128.Real() == a && c128.Imag() == b, "parts of %v: %v %v", c128, c128.Real(), c128.Imag())
}
