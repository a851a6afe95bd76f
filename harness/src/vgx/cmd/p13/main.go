// P13: hash objects: reference digests, streaming contract, unique null hashes.
package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"hash"
	"hash/crc32"
	"hash/crc64"
	"io"
	"sync"

	xhash "github.com/vipally/gx/hash"
	gxhash "instr/gxhash"
	. "vgx/pbt"
	"vgx/sched"
)

func main() {
	Main(Spec{
		Prop: "P13",
		Rule: "a case picks a hash method and a generated history of write (generated chunks), sum (onto a generated prefix with spare capacity), reset and size calls on two objects at once, each digest compared with the standard library over the bytes written since the last reset; or a group of null hash objects created by several goroutines, and at the end of a run 2^24 of them in a row; non-trivial: at least two writes with data before a digest, or a reset with data before it",
		Checks: []Check{
			{Name: "stream", Quick: 100000, Thorough: 3000000, Fn: stream},
			{Name: "strings", Quick: 100000, Thorough: 3000000, Fn: strs},
			{Name: "large", Quick: 24, Thorough: 400, Fn: large},
			{Name: "long", Quick: 1, Thorough: 12, Fn: long},
			{Name: "null-unique", Quick: 4000, Thorough: 200000, Fn: unique},
			{Name: "null-watched", Quick: 1500, Thorough: 60000, Fn: unique, Race: true},
			{Name: "null-schedules", Quick: 10000, Thorough: 600000, Enum: 5000, EnumThor: 200000, Fn: schedules},
		},
		Final: many,
	})
}

type method struct {
	name string
	m    xhash.HashMethod
	ref  func() hash.Hash
}

var methods = []method{
	{"MD5", xhash.MD5, md5.New},
	{"SHA1", xhash.SHA1, sha1.New},
	{"SHA256", xhash.SHA256, sha256.New},
	{"SHA512", xhash.SHA512, sha512.New},
	{"CRC32", xhash.CRC32, func() hash.Hash { return crc32.NewIEEE() }},
	{"CRC64", xhash.CRC64, func() hash.Hash { return crc64.New(crc64.MakeTable(crc64.ISO)) }},
	{"FINGERPRINT", xhash.FINGERPRINT, nil},
	{"NONE", xhash.NONE, nil},
}

func digest(m method, data []byte) []byte {
	switch m.name {
	case "FINGERPRINT":
		a, b := md5.Sum(data), sha1.Sum(data)
		c := crc64.New(crc64.MakeTable(crc64.ISO))
		c.Write(data)
		n := uint64(len(data))
		out := []byte{byte(n >> 40), byte(n >> 32), byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
		out = append(out, a[4:10]...)
		out = append(out, b[7:13]...)
		return append(out, c.Sum(nil)[1:7]...)
	case "NONE":
		return nil
	}
	h := m.ref()
	h.Write(data)
	return h.Sum(nil)
}

func stream(g *G) {
	type object struct {
		h    hash.Hash
		m    method
		data []byte
		none []byte
		n    int
		kept [][]byte
		want [][]byte
	}
	objs := make([]*object, 1+g.N(2))
	for i := range objs {
		m := Pick(g, methods)
		o := &object{m: m}
		if g.Bool() {
			o.h = m.m.New()
		} else {
			o.h = xhash.New(m.m)
		}
		if m.name == "NONE" {
			o.none = o.h.Sum(nil)
		}
		g.Logf("h%d = %s", i, m.name)
		objs[i] = o
	}
	g.Steps(8, 60, func(int) {
		i := g.N(len(objs))
		o := objs[i]
		switch g.N(5) {
		case 0, 1:
			p := g.Data(300, 300000)
			keep := append([]byte(nil), p...)
			n, err := o.h.Write(p)
			g.Logf("h%d.Write(%d bytes)", i, len(p))
			g.Check(n == len(p) && err == nil, "%s: Write of %d bytes = %d,%v", o.m.name, len(p), n, err)
			g.Check(bytes.Equal(p, keep), "%s: Write changed the caller's bytes", o.m.name)
			o.data = append(o.data, p...)
			if len(p) > 0 {
				o.n++
			}
		case 2, 3:
			pre := g.Bytes(20)
			spare := g.N(80)
			if g.OneIn(10) {
				spare = g.N(4096)
			}
			back := make([]byte, len(pre), len(pre)+spare)
			copy(back, pre)
			s := o.h.Sum(back)
			o.kept = append(o.kept, s)
			o.want = append(o.want, append([]byte(nil), s...))
			g.Logf("h%d.Sum(%d byte prefix)", i, len(pre))
			want := digest(o.m, o.data)
			if o.m.name == "NONE" {
				want = o.none
			}
			if !bytes.Equal(s, append(append([]byte(nil), pre...), want...)) {
				g.Fatalf("%s: Sum(%x) after %d bytes = %x, want the prefix and %x", o.m.name, pre, len(o.data), s, want)
			}
			g.Check(o.h.Size() == len(want), "%s: Size = %d, the digest has %d bytes", o.m.name, o.h.Size(), len(want))
			if o.n >= 2 {
				g.NonTrivial()
			}
		case 4:
			g.Logf("h%d.Reset()", i)
			if len(o.data) > 0 {
				g.NonTrivial()
			}
			o.h.Reset()
			o.data, o.n = nil, 0
		}
	})
	for i, o := range objs {
		want := digest(o.m, o.data)
		if o.m.name == "NONE" {
			want = o.none
		}
		for k := 0; k < 2; k++ { // reading the digest does not change it
			if s := o.h.Sum(nil); !bytes.Equal(s, want) {
				g.Fatalf("h%d %s: digest %x want %x", i, o.m.name, s, want)
			}
		}
		for k := range o.kept {
			if !bytes.Equal(o.kept[k], o.want[k]) {
				g.Fatalf("h%d %s: a digest changed after it was returned", i, o.m.name)
			}
		}
	}
}

func strs(g *G) {
	m := Pick(g, methods)
	s := string(g.Data(200, 200000))
	if m.name == "NONE" {
		a, b := m.m.StringHash(s), m.m.StringHash(s)
		g.Check(a != b, "two null hashes of one string are equal: %q", a)
		return
	}
	if len(s) > 0 {
		g.NonTrivial()
	}
	want := fmt.Sprintf("%x", digest(m, []byte(s)))
	g.Logf("%s of %q", m.name, s)
	g.Check(m.m.StringHash(s) == want, "%s: StringHash(%q) = %q want %q", m.name, s, m.m.StringHash(s), want)
	wantL := fmt.Sprintf("%010d-%s", len(s), want)
	g.Check(m.m.StringHashL(s) == wantL, "%s: StringHashL(%q) = %q want %q", m.name, s, m.m.StringHashL(s), wantL)
	// feeding a reader gives the same digest
	h := m.m.New()
	io.Copy(h, bytes.NewReader([]byte(s)))
	g.Check(fmt.Sprintf("%x", h.Sum(nil)) == want, "%s: digest of the copied stream differs", m.name)
	// an unknown method is refused
	bad := xhash.HashMethod(8 + g.N(1000))
	p, _ := g.Panics(func() { bad.New() })
	g.Check(p, "unknown hash method %d was accepted", bad)
}

// digests of a few megabytes, in one piece and in several
func large(g *G) {
	m := Pick(g, methods[:7])
	data := g.Rng().Bytes(g.Big(1<<20, 6<<20))
	g.NonTrivial()
	g.Logf("%s of %d bytes", m.name, len(data))
	want := digest(m, data)
	h := m.m.New()
	for left := data; len(left) > 0; {
		k := min(len(left), g.Big(1, 3<<20))
		n, err := h.Write(left[:k])
		g.Check(n == k && err == nil, "%s: Write of %d bytes = %d,%v", m.name, k, n, err)
		left = left[k:]
	}
	g.Check(bytes.Equal(h.Sum(nil), want), "%s: digest of %d bytes is %x want %x", m.name, len(data), h.Sum(nil), want)
	hex := fmt.Sprintf("%x", want)
	s := m.m.StringHash(string(data))
	g.Check(s == hex, "%s: StringHash of %d bytes = %q want %q", m.name, len(data), s, hex)
	s = m.m.StringHashL(string(data))
	g.Check(s == fmt.Sprintf("%010d-%s", len(data), hex), "%s: StringHashL of %d bytes = %q", m.name, len(data), s)
}

// texts longer than eight digits count
func long(g *G) {
	m := Pick(g, methods[:7])
	s := string(make([]byte, g.Big(100000000, 130000000)))
	g.NonTrivial()
	g.Logf("%s of %d bytes", m.name, len(s))
	want := fmt.Sprintf("%010d-%x", len(s), digest(m, []byte(s)))
	got := m.m.StringHashL(s)
	g.Check(got == want, "%s: StringHashL of %d bytes = %q want %q", m.name, len(s), got, want)
}

func unique(g *G) {
	gs, per := 1+g.N(6), 1+g.N(30)
	g.Logf("%d goroutines creating %d null hashes each", gs, per)
	if gs > 1 {
		g.NonTrivial()
	}
	sums := make([][]string, gs)
	var wg sync.WaitGroup
	for i := 0; i < gs; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < per; k++ {
				h := xhash.NONE.New()
				h.Write([]byte("same content"))
				sums[i] = append(sums[i], string(h.Sum(nil)))
			}
		}()
	}
	wg.Wait()
	seen := map[string]bool{}
	for _, l := range sums {
		for _, s := range l {
			g.Check(!seen[s], "two null hash objects have the digest %x", s)
			seen[s] = true
		}
	}
}

// null hashes created under a generated schedule
func schedules(g *G) {
	n, each := 2, 1
	if !g.Enum() {
		n, each = 2+g.N(3), 1+g.N(3)
	}
	var p []sched.Slice
	g.Steps(6, 40, func(int) { p = append(p, sched.Slice{Thread: g.N(n), Points: 1 + g.N(8)}) })
	g.Logf("%d threads create %d null hashes each, plan %v", n, each, p)
	var sums []string
	fs := []func(*sched.Run, int){}
	for i := 0; i < n; i++ {
		fs = append(fs, func(r *sched.Run, id int) {
			for k := 0; k < each; k++ {
				s := string(gxhash.NONE.New().Sum(nil))
				g.Logf("thread %d: %x", id, s)
				sums = append(sums, s)
			}
		})
	}
	run, failed := sched.Go(p, 3, 100000, fs...)
	switch x := failed.(type) {
	case nil:
	case sched.Stuck:
		g.Fatalf("under a fair schedule %v", x)
	default:
		panic(x)
	}
	if run.Switches > n {
		g.NonTrivial()
	}
	seen := map[string]bool{}
	for _, s := range sums {
		g.Check(!seen[s], "two null hash objects have the digest %x", s)
		seen[s] = true
	}
}

// the identities do not repeat in a long life of the process
func many(g *G) {
	pages := map[uint32]*[1024]uint64{}
	var buf [64]byte
	for i := 0; i < 1<<24+1<<16; i++ {
		s := xhash.NONE.New().Sum(buf[:0])
		if len(s) != 4 {
			return // another kind of identity: see null-unique
		}
		id := uint32(s[0])<<24 | uint32(s[1])<<16 | uint32(s[2])<<8 | uint32(s[3])
		p := pages[id>>16]
		if p == nil {
			p = new([1024]uint64)
			pages[id>>16] = p
		}
		if p[id>>6&1023]>>(id&63)&1 != 0 {
			g.Fatalf("null hash object %d has the digest %x of an earlier one", i, s)
		}
		p[id>>6&1023] |= 1 << (id & 63)
	}
}
