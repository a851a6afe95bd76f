// P12: primality and integer square root are exact on all of uint32.
package main

import (
	_ "embed"
	"encoding/binary"
	"math"
	"math/big"
	"sort"

	"github.com/vipally/gx/math/prime"
	. "vgx/pbt"
)

// the odd composite numbers, not multiples of 3, that pass the strong probable
// prime test to one of the bases 2, 3, 5, 7, 11 and 13, or Fermat's to base 2
//
//go:embed pseudoprimes.bin
var pseudo []byte

var primes []uint32 // all primes below 2^16

func main() {
	comp := make([]bool, 1<<16)
	for i := 2; i < 1<<16; i++ {
		if !comp[i] {
			primes = append(primes, uint32(i))
			for j := i * i; j < 1<<16; j += i {
				comp[j] = true
			}
		}
	}
	Main(Spec{
		Prop: "P12",
		Rule: "a case is a 32 bit number: uniform, near a perfect square, near 2^32, a product of two generated primes below 2^16, or a block of consecutive numbers or of squares of consecutive primes, or of composite numbers that pass usual tests (all strong pseudoprimes to a base up to 13), for the square root also every number in blocks (thorough: for the test, too), judged by an independent sieve / Baillie-PSW test (exact below 2^64) and by integer arithmetic; non-trivial: the number is prime or has no prime factor below 50, or lies within one of a rounding boundary of the square root",
		Checks: []Check{
			{Name: "is-prime", Quick: 200000, Thorough: 8000000, Fn: isPrime},
			{Name: "semiprimes", Quick: 3000, Thorough: 100000, Fn: semiprimes},
			{Name: "blocks", Quick: 3000, Thorough: 60000, Fn: blocks},
			{Name: "pseudoprimes", All: 149, AllThor: 149, Fn: pseudoprimes},
			{Name: "is-prime-all", AllThor: 8192, Fn: isPrimeAll},
			{Name: "sqrt-all", All: 8192, AllThor: 8192, Fn: sqrtAll},
			{Name: "sqrt", Quick: 600000, Thorough: 20000000, Fn: sqrt},
		},
	})
}

func isPrimeRef(n uint32) bool { return new(big.Int).SetUint64(uint64(n)).ProbablyPrime(0) }

func judge(g *G, n uint32, want bool) {
	if r := prime.IsPrime(n); r != want {
		g.Fatalf("IsPrime(%d) = %v, want %v", n, r, want)
	}
}

func isPrime(g *G) {
	n := uint32(g.U64(math.MaxUint32))
	if g.Bool() {
		n |= 1
	}
	if g.OneIn(4) { // a prime: the next one
		for n > 2 && !isPrimeRef(n) {
			n++
		}
	}
	g.Logf("IsPrime(%d)", n)
	want := isPrimeRef(n)
	if want || n%2*(n%3)*(n%5)*(n%7)*(n%11)*(n%13)*(n%17) != 0 {
		g.NonTrivial()
	}
	judge(g, n, want)
}

// every prime of a block of the table times itself, its neighbours, a random
// and the largest possible other prime
func semiprimes(g *G) {
	const size = 64
	b := g.N((len(primes) + size - 1) / size)
	g.NonTrivial()
	lo, hi := b*size, min((b+1)*size, len(primes))
	g.Logf("products of primes %d..%d", primes[lo], primes[hi-1])
	for i := lo; i < hi; i++ {
		p := primes[i]
		judge(g, p, true)
		judge(g, p*p, false) // p < 2^16: no overflow
		if i+1 < len(primes) {
			if x := uint64(p) * uint64(primes[i+1]); x <= math.MaxUint32 {
				judge(g, uint32(x), false)
			}
		}
		k := sort.Search(len(primes), func(k int) bool { return uint64(primes[k])*uint64(p) > math.MaxUint32 })
		judge(g, p*primes[k-1], false)
		judge(g, p*primes[g.N(k)], false)
	}
}

func blocks(g *G) {
	const size = 512
	b := uint32(g.N(1 << 12))
	if g.Bool() {
		b = uint32(g.N(1 << 23))
	}
	if g.OneIn(10) {
		b = 1<<23 - 1 - uint32(g.N(4))
	}
	lo := b * size
	g.NonTrivial()
	g.Logf("block %d..%d", lo, lo+size-1)
	var comp [size]bool
	for _, p := range primes {
		if uint64(p)*uint64(p) > uint64(lo)+size {
			break
		}
		s := max(uint64(p)*uint64(p), (uint64(lo)+uint64(p)-1)/uint64(p)*uint64(p))
		for ; s < uint64(lo)+size; s += uint64(p) {
			comp[s-uint64(lo)] = true
		}
	}
	for i := uint32(0); i < size; i++ {
		if n := lo + i; n < 1<<17 || n%6 == 1 || n%6 == 5 || i < 12 {
			judge(g, n, n >= 2 && !comp[i])
		}
	}
}

func sqrt(g *G) {
	var n uint32
	switch g.N(3) {
	case 0:
		n = uint32(g.U64(math.MaxUint32))
	default: // around r^2 and around (r+1/2)^2
		r := uint64(g.N(1 << 16))
		if g.Bool() {
			r = uint64(g.N(300))
		}
		x := int64(r * r)
		if g.Bool() {
			x += int64(r)
		}
		x += int64(g.N(7)) - 3
		if x < 0 || x > math.MaxUint32 {
			g.Discard()
		}
		n = uint32(x)
	}
	f := uint64(math.Sqrt(float64(n))) // exact floor for 32 bit values after adjusting
	for f*f > uint64(n) {
		f--
	}
	for (f+1)*(f+1) <= uint64(n) {
		f++
	}
	want := f
	if uint64(n)-f*f > f { // n > f^2+f: above (f+1/2)^2
		want++
	}
	if d := int64(n) - int64(f*f+f); d >= -1 && d <= 2 || uint64(n)-f*f <= 1 {
		g.NonTrivial()
	}
	r := prime.SqrtUint32(n)
	g.Logf("SqrtUint32(%d) = %d", n, r)
	g.Check(uint64(r) == want, "SqrtUint32(%d) = %d, the nearest integer to the root is %d", n, r, want)
}

func pseudoprimes(g *G) {
	const size = 128
	n := len(pseudo) / 4
	b := g.N((n + size - 1) / size)
	g.Logf("pseudoprimes, block %d", b)
	g.NonTrivial()
	for i := b * size; i < min(n, (b+1)*size); i++ {
		judge(g, binary.LittleEndian.Uint32(pseudo[4*i:]), false)
	}
}

// all square roots, in blocks
func sqrtAll(g *G) {
	b := uint64(g.N(8192))
	lo, hi := b<<19, (b+1)<<19
	g.Logf("square roots of %d..%d", lo, hi-1)
	g.NonTrivial()
	f := uint64(math.Sqrt(float64(lo)))
	for f*f > lo {
		f--
	}
	for n := lo; n < hi; n++ {
		for (f+1)*(f+1) <= n {
			f++
		}
		want := uint32(f)
		if n-f*f > f {
			want++
		}
		if r := prime.SqrtUint32(uint32(n)); r != want {
			g.Fatalf("SqrtUint32(%d) = %d, want %d", n, r, want)
		}
	}
}

// all numbers, in blocks
func isPrimeAll(g *G) {
	b := uint64(g.N(8192))
	lo, hi := b<<19, (b+1)<<19
	g.Logf("all of %d..%d", lo, hi-1)
	g.NonTrivial()
	comp := make([]bool, hi-lo)
	for _, p := range primes {
		p := uint64(p)
		if p*p >= hi {
			break
		}
		for s := max(p*p, (lo+p-1)/p*p); s < hi; s += p {
			comp[s-lo] = true
		}
	}
	for n := lo; n < hi; n++ {
		judge(g, uint32(n), n >= 2 && !comp[n-lo])
	}
}
