// Package pbt is a small deterministic property-based testing engine.
//
// A check is a function of a *G. Every random decision is a bounded choice
// drawn from G, so a case *is* the sequence of choices it drew: it can be
// recorded, replayed, enumerated systematically and shrunk without knowing
// anything about the values built from it. A run is a pure function of the
// code under test and the seed.
package pbt

import (
	"encoding/json"
	"fmt"
	"math"
	"math/bits"
)

type choice struct {
	v, n uint64 // value in [0,n); n==0 means the full 64 bit range
}

type span struct{ lo, hi int }

// G is the source of all generated data of one case.
type G struct {
	// replay prefix; once used up, choices are 0 (replay) or random (fresh)
	in    []uint64
	fresh bool
	enum  int // >0: systematic enumeration with this many steps
	rng   uint64

	rec   []choice
	spans []span

	labels     map[string]int
	nontrivial bool
	tracing    bool
	stepped    bool
	trace      []string
	record     func(i int, v uint64)
	budget     int
}

type failure struct{ msg string }
type discard struct{}
type tooLong struct{}

func (g *G) next() uint64 { // splitmix64
	g.rng += 0x9e3779b97f4a7c15
	z := g.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (g *G) draw(n uint64) uint64 {
	i := len(g.rec)
	if i >= g.budget {
		panic(tooLong{})
	}
	var v uint64
	if i < len(g.in) {
		v = g.in[i]
		if n != 0 && v >= n {
			v %= n
		}
	} else if g.fresh {
		r := g.next()
		if n == 0 {
			v = r
		} else {
			v, _ = bits.Mul64(r, n)
		}
	}
	if g.record != nil {
		g.record(i, v)
	}
	g.rec = append(g.rec, choice{v, n})
	return v
}

// N draws a value in [0,n), shrinking towards 0.
func (g *G) N(n int) int {
	if n <= 0 {
		panic("pbt: N of nothing")
	}
	return int(g.draw(uint64(n)))
}

// Int draws a value in [lo,hi], shrinking towards lo.
func (g *G) Int(lo, hi int) int { return lo + g.N(hi-lo+1) }

// Bits64 draws any 64 bit value.
func (g *G) Bits64() uint64 { return g.draw(0) }

// Bool draws a bool, shrinking towards false.
func (g *G) Bool() bool { return g.N(2) == 1 }

// OneIn is true with probability 1/n, shrinking towards false.
func (g *G) OneIn(n int) bool { return g.N(n) == n-1 }

// Enum reports whether the case comes from systematic enumeration: domains
// should be kept tiny then.
func (g *G) Enum() bool { return g.enum > 0 }

// Span groups the choices drawn by f, so that shrinking can drop them at once.
func (g *G) Span(f func()) {
	lo := len(g.rec)
	f()
	g.spans = append(g.spans, span{lo, len(g.rec)})
}

// Steps runs f a generated number of times, at most max (max<=0: no limit).
func (g *G) Steps(avg, max int, f func(i int)) int {
	n := 0
	g.stepped = true
	if g.enum > 0 { // exactly the depth of this enumeration
		for ; n < g.enum && (max <= 0 || n < max); n++ {
			g.Span(func() { f(n) })
		}
		return n
	}
	// vary the length scale: short, medium and long histories
	cls := avg + 1
	switch g.N(4) {
	case 0:
		cls = avg/4 + 2
	case 3:
		cls = avg*4 + 2
	}
	for max <= 0 || n < max {
		stop := false
		g.Span(func() {
			if g.N(cls) == 0 {
				stop = true
				return
			}
			f(n)
		})
		if stop {
			break
		}
		n++
	}
	return n
}

// Size draws a size in [0,max], small ones more often.
func (g *G) Size(max int) int {
	if max <= 0 {
		return 0
	}
	if g.enum > 0 {
		if max > 3 {
			max = 3
		}
		return g.N(max + 1)
	}
	m := max
	k := g.N(36)
	if k == 35 { // a number the code names
		if v, ok := g.named(0, uint64(max)); ok {
			return int(v)
		}
	}
	switch k % 4 {
	case 0:
		if m > 4 {
			m = 4
		}
	case 1:
		if m > 20 {
			m = 20
		}
	case 2:
		if m > 80 {
			m = 80
		}
	}
	return g.N(m + 1)
}

// Val draws an int value: mostly small (to get duplicates), sometimes extreme.
func (g *G) Val() int {
	if g.enum > 0 {
		return g.N(3)
	}
	switch g.N(8) {
	case 0, 1, 2:
		return g.N(4)
	case 3, 4:
		return g.N(100) - 50
	case 5:
		return g.N(1<<20) - 1<<19
	case 6:
		return int(g.Bits64())
	}
	if g.N(2) == 1 {
		if v, ok := g.named(0, math.MaxUint64); ok {
			if g.Bool() {
				v = -v
			}
			return int(v)
		}
	}
	ext := []int{0, -1, 1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt64 + 1, math.MaxInt64 - 1, 1 << 31, 1 << 32}
	return ext[g.N(len(ext))]
}

// U64 draws an unsigned value in [0,max] near interesting boundaries.
func (g *G) U64(max uint64) uint64 {
	var v uint64
	k := g.N(8)
	if k == 7 {
		if v, ok := g.named(0, max); ok {
			return v
		}
		k = 5
	}
	switch k {
	case 0, 1:
		v = uint64(g.N(8))
	case 2:
		v = max - uint64(g.N(8))
	case 3: // around powers of two
		v = uint64(1)<<uint(g.N(64)) + uint64(g.N(3)) - 1
	case 4: // a random bit length
		v = g.Bits64() >> uint(g.N(64))
	case 5:
		v = g.Bits64()
	case 6: // around powers of ten
		p := uint64(1)
		for k := g.N(20); k > 0; k-- {
			p *= 10
		}
		v = p + uint64(g.N(3)) - 1
	}
	if max != math.MaxUint64 {
		v %= max + 1
	}
	return v
}

// Bytes draws up to max bytes.
func (g *G) Bytes(max int) []byte {
	n := g.Size(max)
	return g.BytesN(n)
}

// BytesN draws exactly n bytes.
func (g *G) BytesN(n int) []byte {
	b := make([]byte, n)
	if n == 0 {
		return b
	}
	if g.enum == 0 && len(dict.Strs) > 0 && g.OneIn(16) {
		defer func() { // with pieces of text the code names
			for k := 1 + g.N(3); k > 0; k-- {
				copy(b[g.N(n):], dict.Strs[g.N(len(dict.Strs))])
			}
		}()
	}
	switch g.N(4) {
	case 0: // one repeated value, zero first
		c := byte(g.N(256))
		for i := range b {
			b[i] = c
		}
	case 1: // few distinct values
		for i := range b {
			b[i] = "\x00\x01\xff\x08a"[g.N(5)]
		}
	default:
		if n <= 24 {
			for i := range b {
				b[i] = byte(g.N(256))
			}
		} else { // long: expand one drawn seed, with a few drawn edits
			s := G{rng: g.Bits64()}
			for i := range b {
				b[i] = byte(s.next())
			}
			for k := g.N(4); k > 0; k-- {
				b[g.N(n)] = byte(g.N(256))
			}
		}
	}
	return b
}

// Pick draws one element of a non-empty slice, shrinking towards the first.
func Pick[T any](g *G, xs []T) T { return xs[g.N(len(xs))] }

// Perm draws a permutation of 0..n-1, shrinking towards the identity.
func (g *G) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i+1 < n; i++ {
		j := i + g.N(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Label counts a class this case belongs to.
func (g *G) Label(format string, a ...interface{}) {
	s := format
	if len(a) > 0 {
		s = fmt.Sprintf(format, a...)
	}
	g.labels[s]++
}

// NonTrivial marks the case as non-trivial by the rule of its property.
func (g *G) NonTrivial() { g.nontrivial = true }

// Logf adds a line to the trace of the case (kept only when replaying).
func (g *G) Logf(format string, a ...interface{}) {
	if g.tracing && len(g.trace) < 4000 {
		g.trace = append(g.trace, fmt.Sprintf(format, a...))
	}
}

// Fatalf reports that the property does not hold for this case.
func (g *G) Fatalf(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// Check fails the case unless ok.
func (g *G) Check(ok bool, format string, a ...interface{}) {
	if !ok {
		g.Fatalf(format, a...)
	}
}

// Discard drops the case: it lies outside the domain of the property.
func (g *G) Discard() { panic(discard{}) }

// Panics runs f and reports whether it panicked, and with what.
func (g *G) Panics(f func()) (p bool, v interface{}) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failure, discard, tooLong:
				panic(r)
			}
			p, v = true, r
		}
	}()
	f()
	return
}

// dict holds constants of the code under test, see cmd/dict.
var dict struct {
	Ints []int64
	Strs []string
}

// LoadDict sets the constants.
func LoadDict(raw []byte) {
	if len(raw) > 0 {
		json.Unmarshal(raw, &dict)
	}
}

// named draws a number in [lo,hi] that the code names, or one next to it.
func (g *G) named(lo, hi uint64) (v uint64, ok bool) {
	if len(dict.Ints) == 0 {
		return 0, false
	}
	i, d := g.N(len(dict.Ints)), uint64(g.N(5))
	if d > 2 {
		d = 2 - d // -1, -2
	}
	for k := range dict.Ints { // the next one that fits
		v = uint64(dict.Ints[(i+k)%len(dict.Ints)])
		if w := v + d; lo <= w && w <= hi {
			return w, true
		}
		if lo <= v && v <= hi {
			return v, true
		}
	}
	return 0, false
}

var odd = []string{"a", "b", "ab", "A", "aa", "abc", "", " ", ".", "..", "/", "\\", ":", "a:b", "C:", "C:/x", "~", "~a", "-", "-a", "*", "?", "[a]", "%d", "%", "$x", "$HOME",
	"a b", " a", "a ", "\t", "a\nb", "\n", "a\r", "\x00", "a\x00b", "=", ";", "#", "\"", "'", "\"q\"", "ü", "Ä", "日本語", "\xff", "e\u0301", "\ufeff", "0", "1", "-1", "00", "1e3", "nil", "null", "true",
	".a", "a.", "a..b", "a.b.c", "...", "a/b", "/a", "a/", "//", "./a", "../a", "prefix", "prefix1", "prefix12", "aaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaab"}

// Word draws a text: plain, odd, named by the code, long, or composed of
// others. ok, when given, tells which ones are of use.
func (g *G) Word(ok func(string) bool) string {
	s := g.word(0)
	if ok != nil && !ok(s) {
		return string(rune('a' + len(s)%7))
	}
	return s
}

func (g *G) word(depth int) string {
	if g.enum > 0 {
		return odd[g.N(3)]
	}
	k := g.N(12)
	if depth > 1 {
		k = g.N(6)
	}
	switch {
	case k < 3:
		return odd[g.N(6)]
	case k < 5:
		return odd[g.N(len(odd))]
	case k == 5:
		if len(dict.Strs) > 0 {
			return dict.Strs[g.N(len(dict.Strs))]
		}
		return odd[g.N(len(odd))]
	case k < 8:
		return string(g.Bytes(12))
	case k == 8: // long
		r := g.Rng()
		n := g.Size(300)
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdefghij"[r.N(10)]
		}
		return string(b)
	case k == 9: // a sibling: the same but for its end
		s := g.word(depth + 1)
		return s + odd[g.N(6)]
	default:
		s := ""
		for n := 1 + g.N(3); n >= 0; n-- {
			s += g.word(depth + 2)
		}
		return s
	}
}

// Rng is a fast source of data for big cases: expanded from a single choice,
// so that a big case stays a short choice sequence.
type Rng struct{ g G }

// Rng draws the seed of a data source.
func (g *G) Rng() *Rng { return &Rng{G{rng: uint64(g.N(1 << 30))}} }

// U64 is the next 64 bits.
func (r *Rng) U64() uint64 { return r.g.next() }

// N is in [0,n).
func (r *Rng) N(n int) int {
	v, _ := bits.Mul64(r.g.next(), uint64(n))
	return int(v)
}

// Bytes are n bytes.
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		x := r.g.next()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(x)
			x >>= 8
		}
	}
	return b
}

// Big draws a size in [lo,hi], all magnitudes alike, often next to a
// power of two; it shrinks towards lo.
func (g *G) Big(lo, hi int) int {
	k := 0
	for lo<<uint(k+1) <= hi {
		k++
	}
	base := lo << uint(g.N(k+1))
	how := g.N(4)
	if how == 3 { // around a number the code names, or a few times it
		if v, ok := g.named(uint64(lo), uint64(hi)); ok {
			if m := int(v) * (1 + g.N(4)); m <= hi {
				return m
			}
			return int(v)
		}
		how = 2
	}
	switch how {
	case 0:
		return base
	case 1: // around the power of two above
		p := 1
		for p < base {
			p *= 2
		}
		base = p + g.N(5) - 2
	case 2:
		base += g.N(base)
	}
	if base > hi {
		base = hi
	}
	if base < lo {
		base = lo
	}
	return base
}

// Data draws up to max bytes like Bytes, and rarely up to big bytes.
func (g *G) Data(max, big int) []byte {
	if g.enum == 0 && g.OneIn(250) {
		n := g.Big(1024, big)
		r := g.Rng()
		if g.OneIn(4) { // long runs
			b := make([]byte, n)
			c := byte(r.U64())
			for i := range b {
				if r.N(5000) == 0 {
					c = byte(r.U64())
				}
				b[i] = c
			}
			return b
		}
		return r.Bytes(n)
	}
	return g.Bytes(max)
}
