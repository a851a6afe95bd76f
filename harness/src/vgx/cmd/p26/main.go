// P26: zero-copy views between strings and bytes.
package main

import (
	"bytes"
	"runtime"
	"strings"
	gounsafe "unsafe"

	"github.com/vipally/gx/unsafe"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P26",
		Rule: "a case is a generated byte content as a heap string, a substring, a byte slice with spare capacity or a sub-slice, viewed in the other form: same length and content, capacity equal to length, same memory (a write through one side is seen on the other, nothing outside the view changes), same data pointer, still intact after garbage collections; and generated literals, which are never reported writeable; non-trivial: at least two bytes",
		Checks: []Check{
			{Name: "views", Quick: 200000, Thorough: 5000000, Fn: views},
			{Name: "literals", Quick: 20000, Thorough: 200000, Fn: literals},
			{Name: "gc", Quick: 160, Thorough: 4000, Fn: gc},
		},
	})
}

func views(g *G) {
	data := g.Data(200, 300000)
	n := len(data)
	lead, tail := 1+g.N(5), 1+g.N(9) // (the runtime keeps strings of one byte in a read-only table)
	if g.OneIn(200) {
		tail = g.Big(1000, 300000)
	}
	whole := append(append(bytes.Repeat([]byte{0xA5}, lead), data...), bytes.Repeat([]byte{0x5A}, tail)...)
	if n > 1 {
		g.NonTrivial()
	}
	g.Logf("%d bytes inside %d", n, len(whole))

	// bytes as string
	b := append([]byte(nil), whole...)
	v := b[lead : lead+n]
	s := unsafe.BytesString(v)
	g.Check(len(s) == n && string(s) == string(data), "BytesString(%q) = %q", data, string(s))
	g.Check(unsafe.BytesPointer(v) == s.Pointer() && unsafe.StringPointer(string(s)) == s.Pointer() && unsafe.Bytes(v).Pointer() == s.Pointer(), "the view of bytes as string is elsewhere")
	if n > 0 {
		g.Check(gounsafe.Pointer(s.Pointer()) == gounsafe.Pointer(&v[0]), "pointer of the view is not that of the bytes")
		i := g.N(n)
		v[i] ^= 0x55
		g.Check(s[i] == v[i], "a write to the bytes is not seen in the string view")
		v[i] ^= 0x55
	}
	g.Check(bytes.Equal(b, whole), "BytesString changed memory")

	// string as bytes
	hs := string(append([]byte(nil), whole...)) // on the heap, so that it may be written
	sub := hs[lead : lead+n]
	w := unsafe.StringBytes(sub)
	g.Check(len(w) == n && cap(w) == n && bytes.Equal(w, data), "StringBytes(%q) = %q, capacity %d", data, []byte(w), cap(w))
	g.Check(w.Pointer() == unsafe.StringPointer(sub) && unsafe.String(sub).Pointer() == w.Pointer(), "the view of the string as bytes is elsewhere")
	if n > 0 {
		i := g.N(n)
		w[i] ^= 0x55
		g.Check(sub[i] == data[i]^0x55, "a write to the view is not seen in the string")
		w[i] ^= 0x55
		g.Check(hs == string(whole), "memory outside the view changed")
	}
	w = append(w, 1, 2, 3) // must move: nothing behind the string may change
	g.Check(hs == string(whole), "appending to the view wrote behind the string")
	// there and back
	r := string(unsafe.BytesString(unsafe.StringBytes(sub)))
	g.Check(r == sub && unsafe.StringPointer(r) == unsafe.StringPointer(sub), "string to bytes and back differs")
}

func literals(g *G) {
	const text = "a constant text that lives in read-only memory"
	i := g.N(len(text) + 1)
	j := i + g.N(len(text)+1-i)
	s := text[i:j]
	if j-i > 1 {
		g.NonTrivial()
	}
	g.Logf("literal %q", s)
	g.Check(!unsafe.String(s).Writeable(), "a constant is reported writeable")
	g.Check(!unsafe.StringBytes(s).Writeable(), "the bytes of a constant are reported writeable")
	g.Check(!unsafe.Writeable(unsafe.StringPointer(s)), "the memory of a constant is reported writeable")
}

func gc(g *G) {
	type kept struct {
		b    []byte
		s    string
		want string
	}
	var ks []kept
	n := 20 + g.N(100)
	g.NonTrivial()
	g.Logf("%d views over garbage collections", n)
	for i := 0; i < n; i++ {
		want := strings.Repeat(string(rune('a'+g.N(26))), 8+g.N(400))
		ks = append(ks, kept{b: unsafe.StringBytes(string([]byte(want))), s: string(unsafe.BytesString([]byte(want))), want: want})
	}
	runtime.GC()
	for i := 0; i < 200; i++ { // reuse freed memory
		junk = bytes.Repeat([]byte{'!'}, 8+g.N(400))
	}
	runtime.GC()
	for _, k := range ks {
		g.Check(string(k.b) == k.want && k.s == k.want, "a view of %q became %q / %q", k.want, k.b, k.s)
	}
}

var junk []byte
