// P27: durations with days.
package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"time"

	xtime "github.com/vipally/gx/time"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P27",
		Rule: "a case is a generated duration (any 64 bit value, clustered around zero, unit borders, multiples of a day and the extremes): its text is read back with an independent reader and gives the same duration, its conversions to units are checked against exact arithmetic, and generated texts are parsed as the standard library does; non-trivial: at least one day, or a text with two or more units",
		Checks: []Check{
			{Name: "text", Quick: 400000, Thorough: 20000000, Fn: text},
			{Name: "units", Quick: 400000, Thorough: 20000000, Fn: units},
			{Name: "parse", Quick: 200000, Thorough: 8000000, Fn: parse},
			{Name: "since", Quick: 2000, Thorough: 40000, Fn: since},
		},
		Final: func(g *G) {
			g.Check(int64(xtime.Day) == 86400e9 && int64(xtime.Week) == 7*86400e9 && int64(xtime.Hour) == 3600e9 && int64(xtime.Minute) == 60e9 &&
				int64(xtime.Second) == 1e9 && int64(xtime.Millisecond) == 1e6 && int64(xtime.Microsecond) == 1e3 && int64(xtime.Nanosecond) == 1, "unit constants")
		},
	})
}

var unitNs = []int64{1, 1e3, 1e6, 1e9, 60e9, 3600e9, 86400e9, 7 * 86400e9}

func duration(g *G) xtime.Duration {
	var v int64
	switch g.N(7) {
	case 6:
		v = int64(g.U64(math.MaxInt64))
	case 0:
		v = int64(g.Bits64() >> uint(g.N(64)))
	case 1: // around a multiple of a unit
		u := Pick(g, unitNs)
		v = u*int64(g.N(1000)) + int64(g.N(5)) - 2
	case 2: // whole days and a part of one
		v = 86400e9*int64(g.N(106000)) + int64(g.Bits64()%86400e9)
	case 3:
		v = 86400e9*int64(g.N(4)) + int64(g.N(24))*3600e9 + int64(g.N(60))*60e9 + int64(g.N(60))*1e9
	case 4:
		v = Pick(g, []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, 86400e9 - 1, 86400e9, 86400e9 + 1, 2*86400e9 - 1, 7 * 86400e9})
	case 5:
		v = int64(g.Bits64())
	}
	if g.OneIn(5) {
		v = -v
	}
	return xtime.Duration(v)
}

var dayText = regexp.MustCompile(`^([1-9][0-9]*)d(.+)$`)

func text(g *G) {
	d := duration(g)
	s := d.String()
	g.Logf("%d ns is %q", int64(d), s)
	if int64(d) >= 86400e9 {
		g.NonTrivial()
		m := dayText.FindStringSubmatch(s)
		if m == nil {
			g.Fatalf("%d ns is %q: no days", int64(d), s)
		}
		days, err := strconv.ParseInt(m[1], 10, 64)
		rest, err2 := time.ParseDuration(m[2])
		if err != nil || err2 != nil || rest < 0 || rest >= 86400e9 || days*86400e9+int64(rest) != int64(d) {
			g.Fatalf("%d ns is %q, which is %d days and %v", int64(d), s, days, rest)
		}
		g.Check(rest.String() == m[2], "%d ns is %q, the rest of the day is %q", int64(d), s, rest)
	} else {
		g.Check(s == time.Duration(d).String(), "%d ns is %q, not %q", int64(d), s, time.Duration(d))
		r, err := time.ParseDuration(s)
		g.Check(err == nil && int64(r) == int64(d), "%d ns is %q", int64(d), s)
	}
	g.Check(fmt.Sprint(d) == s && fmt.Sprintf("%v", d) == s, "printing %d ns gives %v", int64(d), d)
}

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 4e-15*math.Max(math.Abs(a), math.Abs(b))
}

func units(g *G) {
	d := duration(g)
	n := float64(int64(d))
	g.Logf("%d ns", int64(d))
	if n >= 86400e9 || n <= -86400e9 {
		g.NonTrivial()
	}
	// whole units and the fraction apart, as the exact quotient has more digits than a float
	exact := func(u int64) float64 { return float64(int64(d)/u) + float64(int64(d)%u)/float64(u) }
	_ = n
	g.Check(near(d.Weeks(), exact(7*86400e9)), "%d ns: %v weeks", int64(d), d.Weeks())
	g.Check(near(d.Days(), exact(86400e9)), "%d ns: %v days", int64(d), d.Days())
	g.Check(near(d.Hours(), exact(3600e9)), "%d ns: %v hours", int64(d), d.Hours())
	g.Check(near(d.Minutes(), exact(60e9)), "%d ns: %v minutes", int64(d), d.Minutes())
	g.Check(near(d.Seconds(), exact(1e9)), "%d ns: %v seconds", int64(d), d.Seconds())
	g.Check(int64(d.Std()) == int64(d), "%d ns is %d as standard duration", int64(d), int64(d.Std()))
}

func parse(g *G) {
	s := ""
	switch g.N(5) {
	case 0:
		s = "-"
	case 1:
		s = "+"
	}
	parts := 0
	g.Steps(2, 8, func(int) {
		parts++
		s += strconv.FormatUint(g.U64(math.MaxUint64)>>uint(g.N(64)), 10)
		if g.OneIn(3) {
			s += "." + strconv.Itoa(g.N(1000))
		}
		s += Pick(g, []string{"h", "m", "s", "ms", "us", "µs", "ns", "h", "m", "s", "d", "", "x", "."})
	})
	if g.OneIn(8) && len(s) > 0 {
		i := g.N(len(s))
		s = s[:i] + Pick(g, []string{"", " ", "-", "e", "\x00"}) + s[i+1:]
	}
	if g.OneIn(12) {
		i := g.N(len(s) + 1)
		s = s[:i] + g.Word(nil) + s[i:]
	}
	want, werr := time.ParseDuration(s)
	got, err := xtime.ParseDuration(s)
	g.Logf("parse %q: %v, %v", s, int64(got), err)
	if parts > 1 && err == nil {
		g.NonTrivial()
	}
	g.Check((err == nil) == (werr == nil) && (err != nil || int64(got) == int64(want)), "%q: %d, %v instead of %d, %v", s, int64(got), err, int64(want), werr)
}

func since(g *G) {
	t := time.Now().Add(-time.Duration(int64(g.N(1 << 40))))
	g.NonTrivial()
	a := time.Since(t)
	d := xtime.Since(t)
	b := time.Since(t)
	g.Check(int64(d) >= int64(a) && int64(d) <= int64(b), "Since: %d outside [%d, %d]", int64(d), int64(a), int64(b))
}
