// P14: fingerprints are a function of the content, whatever the way it was written.
package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"fmt"
	"hash/crc64"
	"io"

	xhash "github.com/vipally/gx/hash"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P14",
		Rule: "a case writes one generated content in two generated chunkings (with resets and digests in between) and a second, differing content (one byte flipped, added, dropped or swapped), and compares binary and printed fingerprints with each other and with the documented composition, with and without an overridden size; non-trivial: content of at least two bytes in at least two chunks",
		Checks: []Check{
			{Name: "content", Quick: 100000, Thorough: 3000000, Fn: content},
			{Name: "large", Quick: 24, Thorough: 400, Fn: large},
		},
	})
}

func write(g *G, w io.Writer, data []byte) int {
	n := 0
	for len(data) > 0 {
		k := len(data)
		if g.N(3) > 0 {
			k = 1 + g.N(len(data))
		}
		m, err := w.Write(data[:k])
		g.Check(m == k && err == nil, "Write of %d bytes = %d,%v", k, m, err)
		data = data[k:]
		n++
		if n > 20 {
			w.Write(data)
			break
		}
	}
	return n
}

func compose(data []byte, size uint64) []byte {
	size &= 1<<48 - 1
	a, b := md5.Sum(data), sha1.Sum(data)
	c := crc64.New(crc64.MakeTable(crc64.ISO))
	c.Write(data)
	out := []byte{byte(size >> 40), byte(size >> 32), byte(size >> 24), byte(size >> 16), byte(size >> 8), byte(size)}
	out = append(out, a[4:10]...)
	out = append(out, b[7:13]...)
	return append(out, c.Sum(nil)[1:7]...)
}

func printed(s []byte) string { return fmt.Sprintf("%x-%x-%x-%x", s[:6], s[6:12], s[12:18], s[18:24]) }

func content(g *G) {
	data := g.Data(400, 400000)
	a, b := xhash.NewFingerprint(), xhash.NewFingerprint()
	if g.Bool() { // earlier use, then reset
		write(g, a, g.Bytes(50))
		if g.Bool() {
			a.Resetsize(Pick(g, []int64{int64(g.N(1000)), -1, -1 << 63, 1 << 40, -int64(g.N(1000))}))
		}
		a.Sum(nil)
		a.Reset()
		g.Logf("a: used before and reset")
	}
	n := write(g, a, data)
	m := write(g, b, data)
	g.Logf("%d bytes in %d and %d chunks", len(data), n, m)
	if len(data) > 1 && n+m > 2 {
		g.NonTrivial()
	}
	want := compose(data, uint64(len(data)))
	for _, f := range []*xhash.Fingerprint{a, b} {
		if s := f.Sum(nil); !bytes.Equal(s, want) {
			g.Fatalf("fingerprint of %d bytes is %x want %x", len(data), s, want)
		}
		g.Check(f.String() == printed(want), "printed fingerprint is %s want %s", f.String(), printed(want))
		pre := append(make([]byte, 0, g.Size(64)), g.Bytes(40)...)
		if g.OneIn(10) {
			pre = append(make([]byte, 0, g.N(5000)), pre...)
		}
		old := append([]byte(nil), pre...)
		if s := f.Hash().Sum(pre); !bytes.Equal(s, append(old[:len(old):len(old)], want...)) || !bytes.Equal(pre, old) {
			g.Fatalf("Sum onto the prefix %x is %x", old, s)
		}
		g.Check(f.Size() == len(want), "Size = %d", f.Size())
	}
	// a differing content
	other := append([]byte(nil), data...)
	switch k := g.N(4); {
	case k == 0 || len(other) == 0:
		i := g.N(len(other) + 1)
		other = append(other[:i:i], append([]byte{byte(g.N(256))}, other[i:]...)...)
	case k == 1:
		other[g.N(len(other))] ^= byte(1 << uint(g.N(8)))
	case k == 2:
		i := g.N(len(other))
		other = append(other[:i:i], other[i+1:]...)
	case k == 3:
		i, j := g.N(len(other)), g.N(len(other))
		other[i], other[j] = other[j], other[i]
	}
	b.Reset()
	write(g, b, other)
	same := bytes.Equal(other, data)
	g.Check((b.String() == a.String()) == same, "contents equal=%v, fingerprints %s and %s", same, a, b)
	g.Check(bytes.Equal(a.Sum(nil), b.Sum(nil)) == same, "contents equal=%v, fingerprints %x and %x", same, a.Sum(nil), b.Sum(nil))
	// the recorded size can be overridden; the low 48 bits count
	size := g.U64(1<<62 - 1)
	a.Resetsize(int64(size))
	want = compose(data, size)
	g.Logf("size set to %d", size)
	if s := a.Sum(nil); !bytes.Equal(s, want) {
		g.Fatalf("fingerprint with size %d is %x want %x", size, s, want)
	}
	g.Check(a.String() == printed(want), "printed fingerprint with size %d is %s want %s", size, a, printed(want))
	// and goes on counting from there
	more := g.Bytes(30)
	write(g, a, more)
	want = compose(append(data[:len(data):len(data)], more...), size+uint64(len(more)))
	g.Check(bytes.Equal(a.Sum(nil), want), "after %d more bytes the fingerprint is %x want %x", len(more), a.Sum(nil), want)
}

// a few megabytes
func large(g *G) {
	data := g.Rng().Bytes(g.Big(1<<20, 6<<20))
	g.NonTrivial()
	g.Logf("%d bytes", len(data))
	a := xhash.NewFingerprint()
	for left := data; len(left) > 0; {
		k := min(len(left), g.Big(1, 3<<20))
		n, err := a.Write(left[:k])
		g.Check(n == k && err == nil, "Write of %d bytes = %d,%v", k, n, err)
		left = left[k:]
	}
	want := compose(data, uint64(len(data)))
	g.Check(bytes.Equal(a.Sum(nil), want) && a.String() == printed(want), "fingerprint of %d bytes is %s want %s", len(data), a, printed(want))
}
