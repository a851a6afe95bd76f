// P16: block padding round trips and never touches the caller's memory.
package main

import (
	"bytes"

	"github.com/vipally/gx/crypto"
	aes "github.com/vipally/gx/crypto/aes"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P16",
		Rule: "a case is a generated message (any bytes, lengths around multiples of the block size) in a larger caller-owned array, a block size 1..255 and a padding scheme; non-trivial: a non-empty message",
		Checks: []Check{
			{Name: "pad", Quick: 300000, Thorough: 8000000, Fn: pad},
		},
	})
}

func pad(g *G) {
	bs := Pick(g, []int{8, 16, 1, 2, 3, 7, 32, 64, 128, 254, 255})
	if g.Bool() {
		bs = 1 + g.N(255)
	}
	n := g.Size(300)
	if g.Bool() {
		n = bs*g.N(4) + g.N(3) - 1
		if n < 0 {
			n = 0
		}
	}
	if g.OneIn(200) {
		n = g.Big(1000, 100000)
	}
	data := g.BytesN(n)
	if n > 0 && g.OneIn(3) {
		data[n-1] = byte(Pick(g, []int{0, 1, bs, bs - 1}))
	}
	if n > 0 {
		g.NonTrivial()
	}
	lead, spare := g.N(4), g.N(2*bs+4)
	back := make([]byte, lead+n+spare)
	for i := range back {
		back[i] = 0xA5
	}
	copy(back[lead:], data)
	image := append([]byte(nil), back...)
	msg := back[lead : lead+n] // capacity reaches into the caller's other bytes
	g.Logf("%d bytes, block size %d, %d bytes of the caller behind them", n, bs, spare)
	for _, s := range []struct {
		name  string
		pad   func([]byte, int) []byte
		unpad func([]byte) []byte
		zero  bool
	}{
		{"PKCS5", crypto.PKCS5Padding, crypto.PKCS5UnPadding, false},
		{"PKCS7", aes.PKCS7Padding, aes.PKCS7Unpadding, false},
		{"PKCS7 string", func(b []byte, n int) []byte { return aes.PKCS7PaddingString(string(b), n) }, aes.PKCS7Unpadding, false},
		{"zero", crypto.ZeroPadding, crypto.ZeroUnPadding, true},
	} {
		p := s.pad(msg, bs)
		if !bytes.Equal(back, image) {
			g.Fatalf("%s padding of %d bytes to blocks of %d changed the caller's memory", s.name, n, bs)
		}
		k := len(p) - n
		g.Check(len(p)%bs == 0, "%s padding of %d bytes to blocks of %d gives %d bytes", s.name, n, bs, len(p))
		g.Check(k >= 1 && k <= bs, "%s padding of %d bytes to blocks of %d adds %d bytes", s.name, n, bs, k)
		if !bytes.Equal(p[:n], data) {
			g.Fatalf("%s padding changed the message", s.name)
		}
		for _, b := range p[n:] {
			if s.zero {
				g.Check(b == 0, "zero padding byte is %d", b)
			} else {
				g.Check(int(b) == k, "%s padding of %d bytes: padding byte is %d", s.name, k, b)
			}
		}
		keep := append([]byte(nil), p...)
		u := s.unpad(p)
		want := data
		if s.zero {
			want = bytes.TrimRight(data, "\x00")
		}
		if !bytes.Equal(u, want) {
			g.Fatalf("%s padding of %x to blocks of %d comes back as %x", s.name, data, bs, u)
		}
		if !bytes.Equal(p, keep) {
			g.Fatalf("removing %s padding changed the padded bytes", s.name)
		}
	}
}
