// P32: file sizes as text.
package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"

	"github.com/vipally/gx/fs"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P32",
		Rule: "a case is a pair of sizes (any 64 bit values, clustered around the powers of 1024, of two and of ten): the text of each has three decimals and the largest unit that it reaches, is within half of the last digit of the exact size (rational arithmetic), and larger sizes never show smaller; non-trivial: at least 1024 bytes",
		Checks: []Check{
			{Name: "text", Quick: 600000, Thorough: 30000000, Fn: text},
			{Name: "sweep", Quick: 600000, Thorough: 20000000, Fn: sweep},
		},
	})
}

var re = regexp.MustCompile(`^([0-9]+\.[0-9]{3})(B|KB|MB|GB|TB|PB|EB)$`)
var units = []string{"B", "KB", "MB", "GB", "TB", "PB", "EB"}

// read gives the value a text stands for, in thousandths of its unit, and the unit
func read(g *G, n uint64) (milli uint64, unit int) {
	s := fs.FileSize(n).String()
	m := re.FindStringSubmatch(s)
	if m == nil {
		g.Fatalf("%d bytes show as %q", n, s)
	}
	for _, c := range m[1] {
		if c != '.' {
			milli = milli*10 + uint64(c-'0')
		}
	}
	for i, u := range units {
		if u == m[2] {
			unit = i
		}
	}
	return
}

func check(g *G, n uint64) *big.Rat {
	milli, unit := read(g, n)
	g.Logf("%d bytes show as %v", n, fs.FileSize(n))
	scale := uint64(1) << uint(10*unit)
	if n < scale && unit > 0 || unit < 6 && n/scale >= 1024 {
		g.Fatalf("%d bytes show as %v", n, fs.FileSize(n))
	}
	shown := new(big.Rat).SetFrac(new(big.Int).Mul(new(big.Int).SetUint64(milli), new(big.Int).SetUint64(scale)), big.NewInt(1000))
	diff := new(big.Rat).Sub(shown, new(big.Rat).SetInt(new(big.Int).SetUint64(n)))
	tol := new(big.Rat).SetFrac(new(big.Int).SetUint64(scale), big.NewInt(2000))
	tol.Mul(tol, big.NewRat(1000001, 1000000)) // sizes beyond 2^53 are rounded to float first
	if diff.Abs(diff).Cmp(tol) > 0 {
		g.Fatalf("%d bytes show as %v", n, fs.FileSize(n))
	}
	if n >= 1024 {
		g.NonTrivial()
	}
	return shown
}

func size(g *G) uint64 {
	if g.OneIn(4) {
		return uint64(1)<<uint(10*g.N(7)) - 2 + uint64(g.N(5))
	}
	if g.OneIn(3) { // near the rounding borders of a unit
		u := uint64(1) << uint(10*g.N(6))
		return u*uint64(g.N(1025)) + u/2000*uint64(g.N(2001)) + uint64(g.N(3))
	}
	return g.U64(1<<64 - 1)
}

func text(g *G) {
	a := size(g)
	x := check(g, a)
	b := size(g)
	if g.Bool() {
		b = a + uint64(g.N(2000))
	}
	y := check(g, b)
	if a > b {
		a, b, x, y = b, a, y, x
	}
	g.Check(x.Cmp(y) <= 0, "%d bytes show as %v, %d bytes as %v", a, fs.FileSize(a), b, fs.FileSize(b))
	g.Check(fs.FileSize(a).N() == a, "%d as a number: %d", a, fs.FileSize(a).N())
	var f fs.FileSize
	f.Set(b)
	g.Check(f.N() == b && f == fs.FileSize(b) && fmt.Sprint(f) == f.String(), "set to %d: %d, %v", b, f.N(), f)
}

func sweep(g *G) {
	n := uint64(g.N(1 << 22))
	check(g, n)
	if n < 1024 {
		g.Check(fs.FileSize(n).String() == fmt.Sprintf("%d.000B", n) && !strings.Contains(fs.FileSize(n).String(), "KB"), "%d bytes show as %v", n, fs.FileSize(n))
	}
}
