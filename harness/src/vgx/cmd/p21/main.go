// P21: call stack reports name the real frames.
package main

import (
	"fmt"
	"regexp"
	"runtime"
	"strconv"
	"strings"

	"github.com/vipally/gx/debug"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P21",
		Rule: "a case builds a call chain of generated depth and shape (plain, inlinable, recursive, method, closure, generic, deferred, while a panic or Goexit unwinds, through an interface, in a goroutine, with very long or unusual names of functions and files) and asks for every kind of call stack report at its end with generated depths; function, file and line of every frame are compared with the Go runtime's own frames captured on the same line; non-trivial: the chain has at least three generated calls",
		Checks: []Check{
			{Name: "chain", Quick: 40000, Thorough: 1000000, Fn: chain},
			{Name: "assert", Quick: 4000, Thorough: 50000, Fn: assert},
		},
	})
}

type frame struct {
	fn, file string
	line     int
}

// here lists the frames of the caller and of everything above it
func here() []frame {
	pcs := make([]uintptr, 4000)
	n := runtime.Callers(2, pcs)
	fs := runtime.CallersFrames(pcs[:n])
	var out []frame
	for {
		f, more := fs.Next()
		out = append(out, frame{f.Function, f.File, f.Line})
		if !more {
			return out
		}
	}
}

type call struct {
	g     *G
	shape []int
	probe func(*call)
	done  bool // the probe has come to its end
}

func (c *call) next() {
	if len(c.shape) == 0 {
		c.probe(c)
		c.done = true
		return
	}
	s := c.shape[0]
	c.shape = c.shape[1:]
	switch s {
	case 0:
		plain(c)
	case 1:
		inl(c)
	case 2:
		func() {
			c.next()
		}()
	case 3:
		receiver{c}.method()
	case 4:
		generic[int](c, 1)
	case 5:
		generic[string](c, "")
	case 6:
		var d doer = &receiver{c}
		d.do()
	case 7:
		deferred(c)
	case 8:
		outer(c)
	case 10:
		long(c)
	case 11:
		ünïcödé(c)
	case 12:
		lines(c)
	case 13:
		lines2(c)
	case 14:
		panicking(c, false)
	case 15:
		panicking(c, true)
	case 16:
		done := make(chan interface{})
		go func() {
			defer func() { done <- recover() }()
			defer c.next()
			runtime.Goexit()
		}()
		if r := <-done; r != nil {
			panic(r)
		}
	case 9:
		// in another goroutine; panics travel back
		ch := make(chan interface{})
		go func() {
			defer func() { ch <- recover() }()
			c.next()
		}()
		if r := <-ch; r != nil {
			panic(r)
		}
	}
}

type doer interface{ do() }
type receiver struct{ c *call }

func (r receiver) method() { r.c.next() }
func (r *receiver) do()    { r.c.next() }

//go:noinline
func plain(c *call) { c.next() }

func inl(c *call)   { c.next() }
func outer(c *call) { inl2(c) }
func inl2(c *call)  { inl(c) }
func deferred(c *call) {
	defer c.next()
}

// the rest of the chain runs while a panic unwinds the stack
func panicking(c *call, fault bool) {
	defer func() {
		if r := recover(); c.failed(r) {
			panic(r)
		}
	}()
	defer c.next()
	if fault {
		var p *call
		p.shape = nil
	}
	panic(mine{})
}

type mine struct{}

// failed reports whether a recovered value is not the chain's own panic
func (c *call) failed(r interface{}) bool {
	if _, ok := r.(mine); ok {
		return false
	}
	if e, ok := r.(runtime.Error); ok && c.done && strings.Contains(e.Error(), "nil pointer") {
		return false
	}
	return true
}

func generic[T any](c *call, _ T) { c.next() }

var (
	reLine = regexp.MustCompile(`^#(\d+) Func\{(.*)\} File\{(.*) : (\d+)\} pc\{[0-9A-F]+\}$`)
	reList = regexp.MustCompile(`^Func\{(.*)\} FileLine\{(.*) : (\d+)\} pc\{[0-9A-F]+\}$`)
	reAll  = regexp.MustCompile(`^(|Caller:) Func\{(.*)\} FileLine\{(.*) : (\d+)\} pc\{[0-9A-F]+\}$`)
	reFL   = regexp.MustCompile(`^(|Caller:) FileLine\{(.*) : (\d+)\}$`)
	reFn   = regexp.MustCompile(`^(|Caller:) Func\{(.*)\}$`)
)

func base(fn string) string { // type arguments of generics print differently by how a frame is found
	if i := strings.IndexByte(fn, '['); i >= 0 {
		return fn[:i]
	}
	return fn
}

func same(g *G, what string, got, want frame) {
	g.Check(base(got.fn) == base(want.fn) && got.file == want.file && got.line == want.line, "%s reports %v, the frame is %v", what, got, want)
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func stack(g *G, what string, got []frame, want []frame) {
	n := min(50, len(want))
	g.Check(len(got) >= n, "%s lists %d frames of %d", what, len(got), len(want))
	g.Check(len(got) <= len(want), "%s lists %d frames of %d", what, len(got), len(want))
	for i := range got {
		same(g, fmt.Sprintf("%s, frame %d", what, i), got[i], want[i])
	}
}

func one(g *G, what, s, head string, want frame) {
	var got frame
	switch {
	case strings.Contains(what, "FileLine"):
		m := reFL.FindStringSubmatch(s)
		g.Check(m != nil && m[1] == head, "%s = %q", what, s)
		got = frame{want.fn, m[2], atoi(m[3])}
	case strings.Contains(what, "Func"):
		m := reFn.FindStringSubmatch(s)
		g.Check(m != nil && m[1] == head, "%s = %q", what, s)
		got = frame{m[2], want.file, want.line}
	default:
		m := reAll.FindStringSubmatch(s)
		g.Check(m != nil && m[1] == head, "%s = %q", what, s)
		got = frame{m[2], m[3], atoi(m[4])}
	}
	same(g, what, got, want)
}

func chain(g *G) {
	k := g.Size(60)
	c := &call{g: g, probe: probe}
	for i := 0; i < k; i++ {
		c.shape = append(c.shape, g.N(17))
	}
	if k >= 3 {
		g.NonTrivial()
	}
	g.Logf("shape %v", c.shape)
	c.next()
}

func probe(c *call) {
	g := c.g
	switch g.N(4) {
	case 0:
		s, want := debug.Bts(), here()
		var got []frame
		ls := strings.Split(s, "\n")
		g.Check(ls[len(ls)-1] == "", "the backtrace does not end in a line end")
		for i, l := range ls[:len(ls)-1] {
			m := reLine.FindStringSubmatch(l)
			g.Check(m != nil && atoi(m[1]) == i, "line %d of the backtrace is %q", i, l)
			got = append(got, frame{m[2], m[3], atoi(m[4])})
		}
		stack(g, "Bts", got, want)
	case 1:
		skip := g.N(4)
		s, want := debug.CallStackList(2+skip), here()
		var got []frame
		for i, l := range s {
			m := reList.FindStringSubmatch(l)
			g.Check(m != nil, "entry %d of the list is %q", i, l)
			got = append(got, frame{m[1], m[2], atoi(m[3])})
		}
		if skip < len(want) {
			stack(g, "CallStackList", got, want[skip:])
		}
	case 2:
		a, b, d, want := debug.Bt(), debug.BtFileLine(), debug.BtFunc(), here()
		one(g, "Bt", a, "", want[0])
		one(g, "BtFileLine", b, "", want[0])
		one(g, "BtFunc", d, "", want[0])
	case 3:
		n := g.N(8)
		if g.OneIn(4) {
			n = g.N(80)
		}
		a, b, d, want := debug.Caller(n), debug.CallerFileLine(n), debug.CallerFunc(n), here()
		if n+1 < len(want) {
			one(g, "Caller", a, "Caller:", want[n+1])
			one(g, "CallerFileLine", b, "Caller:", want[n+1])
			one(g, "CallerFunc", d, "Caller:", want[n+1])
		} else {
			g.Check(a == "" && b == "" && d == "", "a caller beyond the end of the stack: %q %q %q", a, b, d)
		}
	}
}

func assert(g *G) {
	g.Check(debug.Assert(true), "Assert(true) is false")
	c := &call{g: g}
	for i := g.N(6); i > 0; i-- {
		c.shape = append(c.shape, g.N(17))
	}
	if len(c.shape) >= 3 {
		g.NonTrivial()
	}
	g.Logf("shape %v", c.shape)
	c.probe = func(*call) {
		p, v := g.Panics(func() { debug.Assert(false) })
		g.Check(p, "Assert(false) does not panic")
		s, ok := v.(string)
		g.Check(ok && strings.Contains(s, "Assert") && strings.Contains(s, "main.assert.func1"), "Assert(false) panics with %v: no backtrace of the caller", v)
	}
	c.next()
}
