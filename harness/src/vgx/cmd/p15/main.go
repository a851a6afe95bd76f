// P15: copying one source to many destinations under short and failing I/O.
package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"

	xio "github.com/vipally/gx/io"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P15",
		Rule: "a case is a generated content, a source (plain reader with generated chunking, zero-length reads, data together with EOF or with an error; or one of the standard sources that write themselves), a generated buffer or none, and 1..5 destinations of which some fail or write short at a generated byte; non-trivial: more than one destination and either a fault that is reached or a source needing several reads",
		Checks: []Check{
			{Name: "faultless", Quick: 60000, Thorough: 2000000, Fn: func(g *G) { run(g, false) }},
			{Name: "faults", Quick: 120000, Thorough: 4000000, Fn: func(g *G) { run(g, true) }},
			{Name: "twice", Quick: 8000, Thorough: 100000, Fn: twice},
			{Name: "huge", Quick: 16, Thorough: 200, Fn: huge},
		},
	})
}

// what readers and writers of the world fail with
func fault(g *G, own string, writer bool) error {
	l := []error{errors.New(own), errors.New(own), io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrShortBuffer, io.ErrNoProgress, io.ErrClosedPipe,
		os.ErrClosed, os.ErrDeadlineExceeded, syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, context.Canceled, net.ErrClosed, fmt.Errorf("wrapped: %w", io.EOF), errors.New("EOF")}
	if writer {
		l = append(l, io.EOF)
	}
	return Pick(g, l)
}

type source struct {
	g      *G
	data   []byte
	fail   error // returned after the data
	with   bool  // data together with the final error / EOF
	zeros  int
	idle   int // reads without data before the first byte
	chunk  int
	given  int
	reads  int
	errSet bool
}

func (s *source) Read(p []byte) (int, error) {
	s.reads++
	end := io.EOF
	if s.fail != nil {
		end = s.fail
	}
	rest := s.data[s.given:]
	if len(rest) == 0 {
		return 0, end
	}
	if s.idle > 0 {
		s.idle--
		return 0, nil
	}
	if s.zeros > 0 && s.g.OneIn(3) {
		s.zeros--
		return 0, nil
	}
	n := min(len(p), len(rest))
	if n > s.chunk {
		n = s.chunk
	}
	copy(p, rest[:n])
	s.given += n
	if s.with && s.given == len(s.data) {
		return n, end
	}
	return n, nil
}

type sink struct {
	got    []byte
	at     int // fault at this byte, -1 never
	short  bool
	full   bool // the failing write takes all bytes
	err    error
	fails  int
	after  int // writes after the fault
	retain [][]byte
}

func (w *sink) Write(p []byte) (int, error) {
	if w.fails > 0 {
		w.after++
	}
	if w.at >= 0 && len(w.got)+len(p) > w.at {
		n := w.at - len(w.got)
		w.got = append(w.got, p[:n]...)
		w.fails++
		if w.full && !w.short {
			w.got = append(w.got, p[n:]...)
			return len(p), w.err
		}
		if w.short {
			return n, nil
		}
		return n, w.err
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

// destinations that offer more than Write
type readFromSink struct{ *sink }

func (w readFromSink) ReadFrom(r io.Reader) (n int64, err error) {
	buf := make([]byte, 700)
	for {
		k, er := r.Read(buf)
		if k > 0 {
			m, ew := w.Write(buf[:k])
			n += int64(m)
			if ew != nil {
				return n, ew
			}
			if m != k {
				return n, io.ErrShortWrite
			}
		}
		if er == io.EOF {
			return n, nil
		}
		if er != nil {
			return n, er
		}
	}
}

type stringSink struct{ *sink }

func (w stringSink) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func run(g *G, faults bool) {
	size := 0
	switch g.N(4) {
	case 0:
		size = g.N(4)
	case 1:
		size = g.N(64)
	case 2:
		size = g.N(500)
	case 3:
		size = g.N(500)
		if g.OneIn(60) {
			size = 32*1024*g.Int(1, 4) + g.N(5) - 2 // around the default buffer
		} else if g.OneIn(60) {
			size = g.Big(1000, 3000000)
		}
	}
	data := g.BytesN(size)
	ref := append([]byte(nil), data...)
	var src io.Reader
	var raw *source
	kind := g.N(12)
	switch kind {
	default:
		raw = &source{g: g, data: data, with: g.Bool(), zeros: g.N(4), chunk: 1 + g.Size(100)}
		if g.OneIn(50) {
			raw.idle = g.Int(50, 5000)
			g.Logf("%d reads without data first", raw.idle)
		}
		if size > 2000 {
			raw.chunk = Pick(g, []int{1 << 20, 1 << 15, 4096, 1000, 32767, 32769})
		}
		if faults && g.OneIn(3) {
			raw.fail = fault(g, "source failed", false)
			raw.data = data[:g.N(size+1)]
			ref = ref[:len(raw.data)]
		}
		src = raw
		g.Logf("plain reader: %d bytes, chunks of %d, error=%v, with the last data=%v", len(raw.data), raw.chunk, raw.fail, raw.with)
	case 1:
		src = bytes.NewReader(data)
		g.Logf("bytes.Reader of %d bytes", size)
	case 2:
		src = strings.NewReader(string(data))
		g.Logf("strings.Reader of %d bytes", size)
	case 3:
		src = bytes.NewBuffer(append([]byte(nil), data...))
		g.Logf("bytes.Buffer of %d bytes", size)
	case 5:
		src = io.LimitReader(bytes.NewReader(append(append([]byte(nil), data...), "beyond"...)), int64(size))
		g.Logf("io.LimitedReader of %d bytes", size)
	case 6:
		src = io.NewSectionReader(strings.NewReader("before"+string(data)+"beyond"), 6, int64(size))
		g.Logf("io.SectionReader of %d bytes", size)
	case 4:
		src = bufio.NewReaderSize(&source{g: g, data: data, chunk: 1 + g.Size(100)}, 16+g.N(40))
		if size > 2000 {
			src = bufio.NewReader(bytes.NewReader(data))
		}
		g.Logf("bufio.Reader of %d bytes", size)
	}
	nd := 1 + g.N(5)
	if g.OneIn(12) {
		nd = 6 + g.N(30)
	}
	dsts := make([]*sink, nd)
	ws := make([]io.Writer, nd)
	faulty := 0
	for i := range dsts {
		dsts[i] = &sink{at: -1}
		if faults && g.OneIn(3) {
			dsts[i].at = g.N(len(ref) + 2)
			dsts[i].short = g.Bool() && !(kind == 4 && nd == 1) // (a bufio.Reader itself never gives up on such a destination)
			dsts[i].err = fault(g, "destination failed", true)
			dsts[i].full = g.OneIn(4)
			g.Logf("destination %d: fault at byte %d, short=%v, error=%v, after all bytes=%v", i, dsts[i].at, dsts[i].short, dsts[i].err, dsts[i].full)
			faulty++
		}
		switch g.N(5) {
		case 3:
			ws[i] = readFromSink{dsts[i]}
			g.Logf("destination %d has ReadFrom", i)
		case 4:
			ws[i] = stringSink{dsts[i]}
			g.Logf("destination %d has WriteString", i)
		default:
			ws[i] = dsts[i]
		}
	}
	var n int64
	var err error
	switch g.N(3) {
	case 0:
		n, err = xio.Copys(src, ws...)
	case 1:
		n, err = xio.CopysBuffer(src, nil, ws...)
	default:
		b := 1 + g.Size(600)
		if size > 2000 {
			b += 1 << 12
		}
		g.Logf("buffer of %d", b)
		n, err = xio.CopysBuffer(src, make([]byte, b), ws...)
	}
	g.Logf("%d destinations: copied %d, err=%v", nd, n, err)
	hit := 0
	for _, d := range dsts {
		hit += d.fails
	}
	if nd > 1 && (hit > 0 || raw != nil && raw.reads > 2) {
		g.NonTrivial()
	}
	for i, d := range dsts {
		if !bytes.HasPrefix(ref, d.got) {
			g.Fatalf("destination %d holds %d bytes that are not a prefix of the source", i, len(d.got))
		}
		g.Check(d.after == 0, "destination %d was written to again after it failed", i)
	}
	switch {
	case hit > 0:
		g.Label("destination fault")
		g.Check(err != nil, "a destination failed and no error was reported")
		ok := errors.Is(err, io.ErrShortWrite)
		for _, d := range dsts {
			if d.fails > 0 && (err == d.err && !d.short) {
				ok = true
			}
			if d.fails > 0 && d.short && errors.Is(err, io.ErrShortWrite) {
				ok = true
			}
		}
		if raw != nil && err == raw.fail {
			ok = true
		}
		g.Check(ok, "the error reported is %v", err)
		g.Check(n >= 0 && n <= int64(len(ref)), "count %d with a source of %d bytes", n, len(ref))
	case raw != nil && raw.fail != nil:
		g.Label("source fault")
		g.Check(err == raw.fail, "the source failed and the error reported is %v", err)
		for i, d := range dsts {
			g.Check(len(d.got) == len(ref), "destination %d got %d of the %d bytes read before the error", i, len(d.got), len(ref))
		}
		g.Check(n == int64(len(ref)), "count %d, %d bytes were copied", n, len(ref))
	default:
		g.Check(err == nil, "copying failed: %v", err)
		g.Check(n == int64(len(ref)), "count %d, the source has %d bytes", n, len(ref))
		for i, d := range dsts {
			g.Check(len(d.got) == len(ref), "destination %d got %d of %d bytes", i, len(d.got), len(ref))
		}
	}
}

// one destination given more than once gets every byte as often
func twice(g *G) {
	data := g.BytesN(g.Size(500))
	var src io.Reader = &source{g: g, data: data, with: g.Bool(), chunk: 1 + g.Size(100)}
	if g.OneIn(3) {
		src = bytes.NewReader(data)
	}
	var sinks [3]sink
	for i := range sinks {
		sinks[i].at = -1
	}
	var times [3]int
	var ws []io.Writer
	for i := 2 + g.N(5); i > 0; i-- {
		k := g.N(3)
		times[k]++
		ws = append(ws, &sinks[k])
	}
	g.Logf("%d bytes to destinations given %v times", len(data), times)
	if times[0] > 1 || times[1] > 1 || times[2] > 1 {
		g.NonTrivial()
	}
	n, err := xio.Copys(src, ws...)
	g.Check(err == nil && n == int64(len(data)), "copied %d, err=%v", n, err)
	var want [256]int
	for _, b := range data {
		want[b]++
	}
	for k := range sinks {
		var got [256]int
		for _, b := range sinks[k].got {
			got[b]++
		}
		for b := range got {
			g.Check(got[b] == times[k]*want[b], "a destination given %d times got %d bytes, the source has %d", times[k], len(sinks[k].got), len(data))
		}
	}
}

type endless struct {
	left  int64
	chunk int
}

func (e *endless) Read(p []byte) (int, error) {
	if e.left == 0 {
		return 0, io.EOF
	}
	n := int(min(int64(len(p)), int64(e.chunk), e.left))
	e.left -= int64(n)
	return n, nil
}

type counter struct{ n int64 }

func (c *counter) Write(p []byte) (int, error) { c.n += int64(len(p)); return len(p), nil }

type readFromCounter struct{ *counter }

func (c readFromCounter) ReadFrom(r io.Reader) (n int64, err error) {
	buf := make([]byte, 1<<16)
	for {
		k, er := r.Read(buf)
		n += int64(k)
		c.n += int64(k)
		if er == io.EOF {
			return n, nil
		}
		if er != nil {
			return n, er
		}
	}
}

// more bytes than 31 or 32 bits count
func huge(g *G) {
	size := Pick(g, []int64{1 << 26, 1 << 31, 1 << 32, 1 << 33}) + int64(g.N(3)) - 1
	src := &endless{left: size, chunk: Pick(g, []int{1 << 30, 1 << 16, 1 << 15})}
	cs := make([]*counter, 1+g.N(3))
	var ws []io.Writer
	for i := range cs {
		cs[i] = &counter{}
		if g.Bool() {
			ws = append(ws, readFromCounter{cs[i]})
		} else {
			ws = append(ws, cs[i])
		}
	}
	g.NonTrivial()
	g.Logf("%d bytes to %d destinations", size, len(cs))
	var n int64
	var err error
	if g.Bool() {
		n, err = xio.Copys(src, ws...)
	} else {
		n, err = xio.CopysBuffer(src, make([]byte, 1<<18), ws...)
	}
	g.Check(err == nil && n == size, "copied %d of %d, err=%v", n, size, err)
	for i, c := range cs {
		g.Check(c.n == size, "destination %d got %d of %d bytes", i, c.n, size)
	}
}
