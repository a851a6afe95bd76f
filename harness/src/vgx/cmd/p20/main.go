// P20: reading INI files.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing/iotest"

	"github.com/vipally/gx/encoding/ini"
	"vgx/fstest"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P20",
		Rule: "a case is either a generated set of sections, keys and values written out with generated comments, blank lines, spacing, line ends, duplicates and interleaved sections, or a generated sequence of arbitrary lines, read back through a generated kind of reader or a file (which is closed afterwards; one that cannot be read is an error) and compared with an independent reading of the text; non-trivial: at least two keys in sections, or a duplicate key, a comment or an unusual line",
		Checks: []Check{
			{Name: "written", Quick: 80000, Thorough: 3000000, Fn: written},
			{Name: "lines", Quick: 80000, Thorough: 3000000, Fn: lines},
			{Name: "bulk", Quick: 100, Thorough: 5000, Fn: bulk},
			{Name: "file", Quick: 2000, Thorough: 50000, Fn: file},
		},
	})
}

type model map[string]map[string]string

// parse reads the text line by line, written from the format's description.
func parse(text string) model {
	m := model{}
	cur := ""
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimSpace(line)
		switch {
		case line == "" || strings.HasPrefix(line, ";"):
		case strings.HasPrefix(line, "[") && strings.HasSuffix(line, "]"):
			cur = line[1 : len(line)-1]
			if m[cur] == nil {
				m[cur] = map[string]string{}
			}
		case cur == "":
		default:
			k, v := line, ""
			if i := strings.IndexByte(line, '='); i >= 0 {
				k, v = line[:i], line[i+1:]
			}
			if k = strings.TrimSpace(k); k != "" {
				m[cur][k] = strings.TrimSpace(v)
			}
		}
	}
	return m
}

func load(g *G, text string) *ini.IniFile {
	switch g.N(5) {
	case 1:
		return ini.Load(iotest.OneByteReader(strings.NewReader(text)))
	case 2:
		return ini.Load(iotest.DataErrReader(strings.NewReader(text)))
	case 3:
		return ini.Load(iotest.HalfReader(bytes.NewReader([]byte(text))))
	}
	return ini.Load(strings.NewReader(text))
}

func compare(g *G, f *ini.IniFile, m model, extra []string) {
	secs := f.Sections()
	sort.Strings(secs)
	var want []string
	for s := range m {
		want = append(want, s)
	}
	sort.Strings(want)
	if strings.Join(secs, "\x00") != strings.Join(want, "\x00") || len(secs) != len(want) {
		g.Fatalf("sections %q want %q", secs, want)
	}
	for s, kv := range m {
		keys := f.Keys(s)
		sort.Strings(keys)
		var wk []string
		for k := range kv {
			wk = append(wk, k)
		}
		sort.Strings(wk)
		if strings.Join(keys, "\x00") != strings.Join(wk, "\x00") || len(keys) != len(wk) {
			g.Fatalf("section %q: keys %q want %q", s, keys, wk)
		}
		for k, v := range kv {
			for _, def := range []string{"", "default", v + "x"} {
				if r := f.GetString(s, k, def); r != v {
					g.Fatalf("[%s] %s = %q want %q", s, k, r, v)
				}
			}
		}
		for _, k := range extra {
			if _, ok := kv[k]; !ok {
				g.Check(f.GetString(s, k, "dflt") == "dflt", "[%s] %s is missing but reads %q", s, k, f.GetString(s, k, "dflt"))
			}
		}
	}
	for _, s := range extra {
		if _, ok := m[s]; !ok {
			g.Check(len(f.Keys(s)) == 0, "missing section %q has keys", s)
			for _, k := range extra {
				g.Check(f.GetString(s, k, "dflt") == "dflt", "[%s] %s is missing but reads %q", s, k, f.GetString(s, k, "dflt"))
			}
		}
	}
}

var words = []string{"a", "b", "key", "Key", "a b", "x.y", "名字", "1", "-", "a]", "[b", "#c", "a;b", "k'", "é", "a:b", "\"q\"", "%d"}

// word is usable as a section, a key and a part of a value
func word(g *G) string {
	if g.OneIn(8) {
		return g.Word(func(s string) bool {
			return s != "" && strings.TrimSpace(s) == s && !strings.ContainsAny(s, "\r\n=") && s[0] != ';' && s[0] != '['
		})
	}
	return Pick(g, words)
}

func space(g *G) string { return Pick(g, []string{"", "", " ", "\t", "  ", " \t "}) }

func value(g *G) string {
	switch g.N(8) {
	case 0:
		return ""
	case 1:
		return "a=b=c"
	case 2:
		return "v ; not a comment"
	case 3:
		return "[x]"
	case 4:
		if g.OneIn(40) {
			return strings.Repeat("longer ", g.Big(1000, 30000)) + "end"
		}
		return strings.Repeat("long", g.N(2000))
	case 5:
		return "="
	}
	return word(g) + Pick(g, []string{"", " ", "=", "\t"}) + word(g)
}

func gen(g *G) (string, model) {
	m := model{}
	var b strings.Builder
	eol := Pick(g, []string{"\n", "\r\n"})
	n, odd := 0, false
	cur := ""
	g.Steps(10, 60, func(int) {
		switch g.N(9) {
		case 0, 1:
			cur = word(g)
			fmt.Fprintf(&b, "%s[%s]%s%s", space(g), cur, space(g), eol)
			if m[cur] == nil {
				m[cur] = map[string]string{}
			} else {
				odd = true
			}
		case 2:
			b.WriteString(space(g) + ";" + value(g) + eol)
			odd = true
		case 3:
			b.WriteString(space(g) + eol)
		default:
			k, v := word(g), value(g)
			if strings.HasPrefix(k, "[") {
				v = "x" // not a header
			}
			if v == "" && g.Bool() {
				b.WriteString(space(g) + k + space(g) + eol) // no '=' at all
			} else {
				b.WriteString(space(g) + k + space(g) + "=" + space(g) + v + space(g) + eol)
			}
			if cur != "" {
				if _, dup := m[cur][k]; dup {
					odd = true
				}
				m[cur][k] = strings.TrimSpace(v)
				n++
			} else {
				odd = true
			}
		}
	})
	if n >= 2 || odd {
		g.NonTrivial()
	}
	text := b.String()
	if g.Bool() && len(m) > 0 {
		text = strings.TrimSuffix(text, eol) // no end of the last line
	}
	return text, m
}

func written(g *G) {
	text, m := gen(g)
	g.Logf("%q", text)
	compare(g, load(g, text), m, words[:6])
}

func lines(g *G) {
	frag := []string{"[", "]", "=", ";", " ", "\t", "a", "b", "x=1", "\r", "\v", "\u00a0", "\u2003", "#", "é", "\x00", "\xff", "[s]", "[t]", "k=v"}
	var b strings.Builder
	if g.Bool() {
		b.WriteString("[s]\n")
	}
	g.Steps(8, 60, func(int) {
		for k := g.N(6); k > 0; k-- {
			if g.OneIn(10) {
				b.WriteString(g.Word(nil))
			} else {
				b.WriteString(Pick(g, frag))
			}
		}
		b.WriteString("\n")
	})
	text := b.String()
	if g.Bool() {
		text = strings.TrimSuffix(text, "\n")
	}
	for _, l := range strings.Split(text, "\n") {
		if strings.TrimSpace(l) == "[]" {
			g.Discard() // an unnamed section: not defined
		}
	}
	g.Logf("%q", text)
	m := parse(text)
	for _, kv := range m {
		if len(kv) > 1 {
			g.NonTrivial()
		}
	}
	compare(g, load(g, text), m, []string{"a", "b", "s", "", "x"})
}

func file(g *G) {
	text, m := gen(g)
	dir, err := os.MkdirTemp("", "ini")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "x.ini")
	f, err := ini.New(p)
	g.Check(err != nil && f == nil, "a missing file is read without an error")
	if err := os.WriteFile(p, []byte(text), 0644); err != nil {
		panic(err)
	}
	f, err = ini.New(p)
	g.Check(err == nil, "reading the file: %v", err)
	g.Logf("%q", text)
	fstest.NoneOpen(g, dir)
	compare(g, f, m, words[:4])
	bad := Pick(g, []string{dir, "/proc/self/mem"}) // opens, but cannot be read
	if _, err := os.ReadFile(bad); err != nil {
		f, err = ini.New(bad)
		g.Check(err != nil && f == nil, "%s cannot be read, yet is read without an error", bad)
		fstest.NoneOpen(g, dir)
	}
}

// bulk: many sections and keys, sections reopened again and again.
func bulk(g *G) {
	r := g.Rng()
	ns, nk, n := g.Big(1, 600), g.Big(1, 2000), g.Big(100, 20000)
	m := model{}
	var b strings.Builder
	cur := ""
	for i := 0; i < n; i++ {
		switch x := r.N(20); {
		case x == 0 || cur == "":
			cur = fmt.Sprintf("section %d", r.N(ns))
			fmt.Fprintf(&b, "[%s]\n", cur)
			if m[cur] == nil {
				m[cur] = map[string]string{}
			}
		case x == 1:
			fmt.Fprintf(&b, "; comment %d\n\n", i)
		default:
			k, v := fmt.Sprintf("k%d", r.N(nk)), fmt.Sprintf("value=%d", i)
			fmt.Fprintf(&b, "%s = %s\n", k, v)
			m[cur][k] = v
		}
	}
	g.NonTrivial()
	g.Logf("%d lines, %d bytes, %d sections", n, b.Len(), len(m))
	compare(g, load(g, b.String()), m, []string{"section", "k", "x"})
}
