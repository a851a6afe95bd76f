// P29: the registry of errors with ids.
package main

import (
	"errors"
	"fmt"
	"strings"

	xerrors "github.com/vipally/gx/errors"
	gxerrors "instr/gxerrors"
	. "vgx/pbt"
	"vgx/sched"
)

const first, last = 1001, 9999

func main() {
	Main(Spec{
		Prop: "P29",
		Rule: "a case is a generated history of registrations (any texts, also equal ones and ones with format verbs) and lookups on the registry of the process, which goes on from case to case: every id is new, in the documented range and keeps its text for good, errors made from it carry the id and the text, ids that were never given out are refused; or a generated schedule of threads that register and look up at the same time; or threads that do so really, watched by the race detector; at the end the registry is filled up; non-trivial: two or more registrations",
		Checks: []Check{
			{Name: "history", Quick: 3200, Thorough: 12000, Fn: history},
			{Name: "schedules", Quick: 6000, Thorough: 12000, Fn: schedules},
			{Name: "threads", Quick: 600, Thorough: 3000, Fn: threads, Race: true},
		},
		Final: full,
	})
}

// the model: what this process registered; it outlives the cases, as the registry does
var (
	names = map[int]string{}
	ids   []int
)

func text(g *G) string {
	switch g.N(7) {
	case 6:
		return g.Word(func(s string) bool { return !strings.ContainsAny(s, "\r\n") })
	case 0:
		return Pick(g, []string{"", "same", "same", "%d %s %v", "%!", "100%", "a (b): c", "error#1001 (x)", "多", "\x00\xff"})
	case 1:
		return strings.Repeat("x", g.N(300))
	}
	return fmt.Sprintf("text %d", g.N(1000))
}

func checkId(g *G, n int) {
	e := at(n)
	s, err := e.Get()
	want, ok := names[n]
	if !ok {
		g.Check(err != nil && s == "", "id %d was never registered, yet has the text %q", n, s)
		g.Check(e.String() != "" && e.Error() == e.String(), "id %d, never registered: %q and %q", n, e.String(), e.Error())
		return
	}
	g.Check(err == nil && s == want, "id %d was registered for %q and has %q, %v", n, want, s, err)
	line := fmt.Sprintf("error#%d (%s)", n, want)
	g.Check(e.String() == line && e.Error() == line, "id %d of %q shows as %q and %q", n, want, e.String(), e.Error())
}

type entry struct {
	Get    func() (string, error)
	String func() string
	Error  func() string
	newf   func(f string, a ...interface{}) xerrors.WithIdErr
}

// at makes the id of a number (its type is not exported, but it can be computed with)
func at(n int) entry {
	id := xerrors.ERRID_UNKNOWN
	for k := first; k != n; {
		d := n - k
		step := 1
		for step*2 <= d || step*2 <= -d {
			step *= 2
		}
		one := id - id + 1
		for s := step; s > 1; s /= 2 {
			one += one
		}
		if d > 0 {
			id += one
			k += step
		} else {
			id -= one
			k -= step
		}
	}
	return entry{id.Get, id.String, func() string {
		e := xerrors.New(id)
		if int(e.Id()) != n {
			return fmt.Sprintf("(id %d)", e.Id())
		}
		return e.Error()
	}, func(f string, a ...interface{}) xerrors.WithIdErr { return xerrors.Newf(id, f, a...) }}
}

func history(g *G) {
	regs := 0
	g.Steps(5, 40, func(int) {
		switch k := g.N(8); {
		case k < 3:
			name := text(g)
			id, err := xerrors.Reg(name)
			if err != nil {
				g.Check(len(ids)+2 >= last-first, "registering %q fails after %d: %v", name, len(ids), err)
				g.Discard()
			}
			n := int(id)
			g.Logf("%q gets %d", name, n)
			old, dup := names[n]
			g.Check(n > first && n <= last, "%q gets the id %d, outside the range", name, n)
			g.Check(!dup && n != int(xerrors.ERRID_STD) && n != int(xerrors.ERRID_UNKNOWN), "%q gets the id %d, which belongs to %q", name, n, old)
			names[n] = name
			ids = append(ids, n)
			regs++
			checkId(g, n)
		case k == 3 && len(ids) > 0:
			checkId(g, ids[len(ids)-1-g.N(len(ids))])
		case k == 4 && len(ids) > 0: // an error with a text of its own
			n := ids[len(ids)-1-g.N(len(ids))]
			arg := text(g)
			e := at(n).newf("<%s|%d>", arg, n)
			want := fmt.Sprintf("error#%d (%s): <%s|%d>", n, names[n], arg, n)
			g.Logf("error of id %d with %q", n, arg)
			g.Check(int(e.Id()) == n && e.Error() == want, "error of id %d: id %d, %q instead of %q", n, e.Id(), e.Error(), want)
			e = at(n).newf(strings.Replace(arg, "%", "", -1))
			g.Check(int(e.Id()) == n && strings.HasSuffix(e.Error(), ": "+strings.Replace(arg, "%", "", -1)), "error of id %d with %q: %q", n, arg, e.Error())
		case k == 5:
			msg := text(g)
			in := errors.New(msg)
			if len(ids) > 0 && g.OneIn(4) { // an error that has an id of its own
				in = at(ids[len(ids)-1-g.N(len(ids))]).newf("%s", msg)
				msg = in.Error()
			}
			e := xerrors.StdErr(in)
			g.Logf("standard error %q", msg)
			g.Check(e.Id() == xerrors.ERRID_STD && strings.HasSuffix(e.Error(), ": "+msg) && strings.HasPrefix(e.Error(), fmt.Sprintf("error#%d (", xerrors.ERRID_STD)), "the standard error %q becomes %q with id %d", msg, e.Error(), e.Id())
		case k == 6: // never given out
			n := Pick(g, []int{0, 1, first - 1, last + 1, last, 1 << 31, 1<<32 - 1, 5000 + g.N(4000)})
			if n > first && n <= last && n <= first+1+len(ids)+100 {
				return
			}
			if _, ok := names[n]; !ok {
				checkId(g, n)
			}
		case k == 7:
			msg := text(g)
			e := xerrors.NewError("%s!", msg)
			g.Check(e.Error() == msg+"!", "NewError: %q", e.Error())
		}
	})
	if regs > 1 {
		g.NonTrivial()
	}
	s, err := xerrors.ERRID_STD.Get()
	u, err2 := xerrors.ERRID_UNKNOWN.Get()
	g.Check(err == nil && err2 == nil && s == "standard error" && u == "unknown error", "the built-in ids have %q and %q", s, u)
}

func schedules(g *G) {
	n, each := 2+g.N(3), 1+g.N(2)
	var p []sched.Slice
	g.Steps(10, 40, func(int) { p = append(p, sched.Slice{Thread: g.N(n), Points: 1 + g.N(16)}) })
	g.Logf("%d threads register %d texts each, plan %v", n, each, p)
	got := map[int]string{}
	dup, fullUp := "", false
	fs := []func(*sched.Run, int){}
	serial++
	tag := serial
	for i := 0; i < n; i++ {
		fs = append(fs, func(r *sched.Run, t int) {
			for k := 0; k < each; k++ {
				name := fmt.Sprintf("%d/%d/%d", tag, t, k)
				id, err := gxerrors.Reg(name)
				if err != nil {
					fullUp = true
					return
				}
				g.Logf("thread %d: %q gets %d", t, name, id)
				if o, ok := got[int(id)]; ok {
					dup = fmt.Sprintf("%q and %q get the same id %d", o, name, id)
				}
				got[int(id)] = name
				newest = max(newest, id)
				s, err := id.Get()
				if s != name || err != nil {
					g.Fatalf("%q got the id %d, which has %q, %v", name, id, s, err)
				}
			}
		})
	}
	// a reader looks up ids that are about to be given out
	type look struct {
		id   int
		text string
	}
	var seen []look
	if g.Bool() {
		ahead := make([]int, 1+g.N(4))
		for i := range ahead {
			ahead[i] = 1 + g.N(n*each)
		}
		g.Logf("thread %d looks up %v ids ahead", n, ahead)
		base := newest
		fs = append(fs, func(r *sched.Run, t int) {
			for _, a := range ahead {
				id := base
				for ; a > 0; a-- {
					id++
				}
				if s, err := id.Get(); err == nil {
					g.Logf("thread %d: id %d has %q", t, id, s)
					seen = append(seen, look{int(id), s})
				}
			}
		})
	}
	run, failed := sched.Go(p, 3, 100000, fs...)
	switch x := failed.(type) {
	case nil:
	case sched.Stuck:
		g.Fatalf("under a fair schedule %v", x)
	default:
		panic(x)
	}
	if fullUp {
		g.Discard()
	}
	if dup != "" {
		g.Fatalf("%s", dup)
	}
	if run.Switches > n {
		g.NonTrivial()
	}
	for _, x := range seen {
		if got[x.id] != x.text {
			g.Fatalf("the id %d had the text %q while it was registered for %q", x.id, x.text, got[x.id])
		}
	}
	for k, name := range got {
		id := gxerrors.ERRID_UNKNOWN
		for j := first; j < k; j++ {
			id++
		}
		if s, err := id.Get(); s != name || err != nil {
			g.Fatalf("%q got the id %d, which has %q, %v", name, k, s, err)
		}
	}
}

var (
	serial int
	newest = gxerrors.ERRID_STD
)

// threads register, look up, make errors and list them at the same time, under the race detector
func threads(g *G) {
	n := 2 + g.N(3)
	ops := make([][]int, n)
	for i := range ops {
		for k := 1 + g.N(4); k > 0; k-- {
			ops[i] = append(ops[i], g.N(6))
		}
	}
	list := g.OneIn(50)
	serial++
	tag := serial
	g.Logf("threads do %v", ops)
	type reg struct {
		id   int
		name string
	}
	got := make([][]reg, n)
	full := make([]bool, n)
	Together(n, func(t int) {
		id := xerrors.ERRID_STD
		name := "standard error"
		for k, op := range ops[t] {
			switch op {
			case 0, 1:
				x := fmt.Sprintf("%d/%d/%d", tag, t, k)
				i, err := xerrors.Reg(x)
				if err != nil {
					full[t] = true
					return
				}
				id, name = i, x
				got[t] = append(got[t], reg{int(i), x})
			case 2:
				s, err := id.Get()
				g.Check(s == name && err == nil, "id %d of %q has %q, %v", id, name, s, err)
			case 3:
				s := xerrors.New(id).Error()
				g.Check(s == fmt.Sprintf("error#%d (%s)", id, name), "an error of id %d of %q shows as %q", id, name, s)
			case 4:
				s := xerrors.Newf(id, "%d", k).Error()
				g.Check(s == fmt.Sprintf("error#%d (%s): %d", id, name, k), "an error of id %d of %q shows as %q", id, name, s)
			case 5:
				if list {
					s := xerrors.ShowAll()
					g.Check(strings.Contains(s, "("+name+")"), "the listing of all errors lacks %q", name)
				}
			}
		}
	})
	all := map[int]string{}
	for t := range got {
		if full[t] {
			g.Discard()
		}
		for _, x := range got[t] {
			o, dup := all[x.id]
			g.Check(!dup, "%q and %q get the same id %d", o, x.name, x.id)
			all[x.id] = x.name
			s, err := at(x.id).Get()
			g.Check(s == x.name && err == nil, "%q got the id %d, which has %q, %v", x.name, x.id, s, err)
		}
	}
	if len(all) > 1 {
		g.NonTrivial()
	}
}

// full fills the registry up.
func full(g *G) {
	n, top := 0, 0
	for {
		name := fmt.Sprintf("filler %d", n)
		id, err := xerrors.Reg(name)
		if err != nil {
			if _, e := id.Get(); e == nil {
				g.Fatalf("a refused registration returns the id %d, which is in use", id)
			}
			break
		}
		if _, ok := names[int(id)]; ok || int(id) > last || int(id) <= first {
			g.Fatalf("id %d is given out a second time or outside the range", id)
		}
		names[int(id)] = name
		ids = append(ids, int(id))
		n++
		top = max(top, int(id))
		if n > last {
			g.Fatalf("more registrations than ids")
		}
	}
	g.Check(top == last && len(ids) == last-first-1, "the registry is full with %d of %d ids, at %d", len(ids), last-first-1, top)
	for _, k := range ids {
		checkId(g, k)
	}
	lines := strings.Split(strings.Replace(xerrors.ShowAll(), "\r\n", "\n", -1), "\n")
	g.Check(strings.Contains(lines[0], fmt.Sprint(last-first+1)), "the listing of %d errors begins with %q", last-first+1, lines[0])
	at := 0
	for k := first; k <= last; k++ {
		want := fmt.Sprintf("error#%d (%s)", k, names[k])
		if k == first || k == first+1 {
			want = fmt.Sprintf("error#%d (", k)
		}
		for at < len(lines) && !strings.HasPrefix(lines[at], want) {
			at++
		}
		g.Check(at < len(lines), "the listing of all errors lacks %q", want)
	}
}
