// P31: path algebra.
package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"

	"github.com/vipally/gx/fs"
	. "vgx/pbt"
)

func main() {
	if os.Getenv("VGX_P31_ASK") != "" { // what a fresh process says
		fmt.Printf("%q %q %q\n", fs.GoPath(), fs.WorkPath(), fs.TempDir())
		return
	}
	Main(Spec{
		Prop: "P31",
		Rule: "a case is a generated path (relative or absolute, with doubled separators, dots, empty and odd elements), a root and elements to join: it is cleaned as the standard library does and cleaning again changes nothing, split into all its elements and joined it is the same path, joined to the root its relation to that root is the same path, and every part and test of it agrees with the standard library on the cleaned path; non-trivial: three or more elements",
		Checks: []Check{
			{Name: "clean", Quick: 300000, Thorough: 12000000, Enum: 20000, EnumThor: 400000, Fn: clean},
			{Name: "split", Quick: 300000, Thorough: 12000000, Enum: 20000, EnumThor: 400000, Fn: split},
			{Name: "relate", Quick: 300000, Thorough: 12000000, Fn: relate},
			{Name: "workpath", Quick: 400, Thorough: 8000, Fn: workpath},
			{Name: "start", Quick: 40, Thorough: 1000, Fn: start},
			{Name: "caller", Quick: 2000, Thorough: 20000, Fn: caller},
		},
		Serial: false,
	})
}

func path(g *G) string {
	var b strings.Builder
	if g.Bool() {
		b.WriteString("/")
	}
	if g.OneIn(200) { // long
		r := g.Rng()
		for n := g.Big(20, 1500); n > 0; n-- {
			b.WriteString([]string{"a/", "bb/", "ü x/", "../", "./", "/", "c.d/"}[r.N(7)])
		}
	}
	g.Steps(4, 30, func(i int) {
		if g.OneIn(6) {
			b.WriteString(g.Word(nil))
		} else {
			b.WriteString(Pick(g, []string{"a", "bb", "..", ".", "", "c.d", "x y", "...", "ü", ".e", "a:b", "D:", "\\", "f.tar.gz"}))
		}
		if !g.OneIn(12) {
			b.WriteString("/")
		}
		if g.OneIn(10) {
			b.WriteString("/")
		}
	})
	s := b.String()
	if g.Bool() {
		s = strings.TrimSuffix(s, "/")
	}
	return s
}

func clean(g *G) {
	s := path(g)
	p := fs.FilePath(s)
	want := filepath.Clean(s)
	g.Logf("%q is %q", s, p)
	if strings.Count(want, "/") > 2 {
		g.NonTrivial()
	}
	var q fs.FilePathObject
	q.Set(s)
	if p.String() != want || p.S() != want || p.StringSys() != want || q != p || fs.FormatPath(s) != want {
		g.Fatalf("%q: %q, %q, %q, %q and %q, not %q", s, p, p.S(), p.StringSys(), q, fs.FormatPath(s), want)
	}
	g.Check(fs.FilePath(p.String()) == p, "cleaning %q again gives %q", p, fs.FilePath(p.String()))

	d, f := p.Split()
	wd, wf := filepath.Split(want)
	g.Check(d == wd && f == wf, "%q splits into %q and %q", want, d, f)
	d, f = fs.Split(s)
	g.Check(d+f == s && !strings.Contains(f, "/") && (d == "" || strings.HasSuffix(d, "/")) && fs.FileName(s) == f, "%q splits into %q and %q, name %q", s, d, f, fs.FileName(s))
	g.Check(p.Ext() == filepath.Ext(want) && p.Base() == filepath.Base(want) && p.Dir() == filepath.Dir(want) && p.VolumeName() == filepath.VolumeName(want),
		"%q: extension %q, base %q, directory %q, volume %q", want, p.Ext(), p.Base(), p.Dir(), p.VolumeName())
	g.Check(reflect.DeepEqual(p.SplitList(), filepath.SplitList(want)), "%q as a list: %q", want, p.SplitList())
	a, err := p.Abs()
	wa, werr := filepath.Abs(want)
	g.Check(a == wa && (err == nil) == (werr == nil), "%q is absolutely %q", want, a)
	pre := path(g)
	g.Check(p.HasPrefix(pre) == strings.HasPrefix(want, filepath.Clean(pre)), "%q has prefix %q: %v", want, pre, p.HasPrefix(pre))
	pat := Pick(g, []string{"*", "a*", "*/*", "/*", "[", "?", "a/*", want, want + "/", "./" + want, "./*", "*/", "a/../*", "a//*", "*/../*"})
	m, err := p.Match(pat)
	wm, werr := filepath.Match(pat, want)
	g.Check(m == wm && (err == nil) == (werr == nil), "%q matches %q: %v, %v", want, pat, m, err)
}

func split(g *G) {
	s := path(g)
	p := fs.FilePath(s)
	el := p.SplitAll()
	g.Logf("%q splits into %q", p, el)
	if len(el) > 2 {
		g.NonTrivial()
	}
	if fs.Joins(el...) != p.String() {
		g.Fatalf("%q splits into %q, which join to %q", p, el, fs.Joins(el...))
	}
	for i, e := range el {
		if e == "" || strings.Contains(e, "/") && !(i == 0 && e == "/" && strings.HasPrefix(p.String(), "/")) {
			g.Fatalf("%q splits into %q", p, el)
		}
	}
	n := 0
	for _, e := range strings.Split(p.String(), "/") {
		if e != "" {
			n++
		}
	}
	if strings.HasPrefix(p.String(), "/") {
		n++
	}
	g.Check(len(el) == n, "%q splits into %d elements: %q", p, len(el), el)

	var parts []string
	for k := g.N(4); k > 0; k-- {
		parts = append(parts, path(g))
	}
	want := filepath.Join(append([]string{p.String()}, parts...)...)
	g.Check(p.Joins(parts...) == want, "%q joined with %q is %q", p, parts, p.Joins(parts...))
	g.Check(fs.Joins(append([]string{s}, parts...)...) == filepath.Clean(filepath.Join(append([]string{s}, parts...)...)), "joining %q, %q gives %q", s, parts, fs.Joins(append([]string{s}, parts...)...))
	if len(parts) > 0 {
		g.Check(p.Join(parts[0]) == filepath.Join(p.String(), parts[0]), "%q joined with %q is %q", p, parts[0], p.Join(parts[0]))
	}
}

func relate(g *G) {
	a, b := path(g), path(g)
	if g.OneIn(3) { // one below the other
		b = a + "/" + b
	}
	p := fs.FilePath(b)
	r := p.Relate(a)
	want, err := filepath.Rel(filepath.Clean(a), p.String())
	g.Logf("%q related to %q is %q", p, a, r)
	g.Check(fs.RelatePath(b, a) == r.String(), "%q related to %q is %q and %q", b, a, r, fs.RelatePath(b, a))
	if err != nil {
		g.Label("not related")
		return
	}
	if strings.Count(want, "/") > 1 {
		g.NonTrivial()
	}
	g.Check(r.String() == want, "%q related to %q is %q, not %q", p, a, r, want)
	g.Check(fs.Joins(filepath.Clean(a), r.String()) == p.String() || !filepath.IsAbs(a), "%q related to %q is %q: joined they are %q", p, a, r, fs.Joins(filepath.Clean(a), r.String()))
	if p = fs.FilePath("/" + b); true { // absolute: relations to the built-in roots
		w := p.RelateWorkPath()
		g.Check(fs.Joins(fs.WorkPath(), w.String()) == p.String() && fs.RelateWorkPath(p.String()) == w.String() && !strings.HasPrefix(w.String(), "/"), "%q related to the working directory %q is %q", p, fs.WorkPath(), w)
		gp := p.RelateGoPath()
		if filepath.IsAbs(fs.GoPath()) {
			g.Check(fs.Joins(fs.GoPath(), gp.String()) == p.String() && fs.RelateGoPath(p.String()) == gp.String(), "%q related to the GOPATH %q is %q", p, fs.GoPath(), gp)
		}
	}
}

// the working path follows changes of the working directory made through the package
func workpath(g *G) {
	start, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	defer fs.Chdir(start)
	os.MkdirAll("wd/x/y", 0755)
	os.MkdirAll("wd/b:c/~", 0755)
	os.Symlink("wd/x", "short")
	os.Symlink("x/y", "wd/link")
	os.Symlink("..", "wd/x/y/up")
	os.Symlink(start+"/wd", "wd/b:c/abs")
	os.Symlink("nowhere", "wd/x/broken")
	os.WriteFile("wd/file", nil, 0644)
	g.Steps(3, 8, func(int) {
		to := Pick(g, []string{"wd", "wd/x/../x", "x", "y", "..", ".", "wd//x/y/", "nowhere", start, "short", "short/..", "link", "link/..", "wd/link/../..", "up", "up/up/x", "abs", "abs/link/", "../link", "broken", "file", "b:c", "b:c/~", "./", start + "/short/../link", start + "/short", start + "/wd/link", start + "/wd/x/y/up"})
		before, _ := os.Getwd()
		// where the cleaned path leads to, by the system's own reading
		full := before + "/" + filepath.Clean(to)
		if filepath.IsAbs(to) {
			full = filepath.Clean(to)
		}
		want := before
		fi, serr := os.Stat(full)
		if serr == nil && !fi.IsDir() {
			serr = os.ErrInvalid
		}
		if serr == nil {
			want = follow(full)
			if want != start && !strings.HasPrefix(want, start+"/") { // stay inside
				return
			}
		}
		err := fs.Chdir(to)
		now, _ := os.Getwd()
		g.Logf("from %q to %q: %q, %v", before, to, now, err)
		if serr == nil {
			g.NonTrivial()
		}
		same := now == want
		if !same { // another name of the same directory
			a, _ := os.Stat(now)
			b, _ := os.Stat(want)
			same = os.SameFile(a, b)
		}
		g.Check((err == nil) == (serr == nil) && same && fs.WorkPath() == filepath.Clean(now), "changing from %q to %q: %v, in %q, working path %q, not %q", before, to, err, now, fs.WorkPath(), want)
	})
	g.Check(fs.TempDir() == filepath.Clean(os.TempDir()), "temporary directory %q", fs.TempDir())
	if old, was := os.LookupEnv("TMPDIR"); true { // as the environment says at the time
		tmp := path(g)
		os.Setenv("TMPDIR", tmp)
		got, want := fs.TempDir(), filepath.Clean(os.TempDir())
		if os.Unsetenv("TMPDIR"); was {
			os.Setenv("TMPDIR", old)
		}
		g.Check(got == want, "temporary directory %q with TMPDIR=%q", got, tmp)
	}
}

// the roots as a fresh process finds them
func start(g *G) {
	dir := Pick(g, []string{"st", "st/a b", "st/ü/c.d", "st/x:y"})
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	word := func() string {
		return Pick(g, []string{"/", "//"}) + Pick(g, []string{"home/go", "go", "src", "a b/go", "x/../y", "ü", "go.d/./e"}) + Pick(g, []string{"", "", "/", "//"})
	}
	list := []string{word()}
	for n := g.N(3); n > 0; n-- {
		list = append(list, Pick(g, []string{word(), list[0], ""}))
	}
	gopath := strings.Join(list, string(filepath.ListSeparator))
	tmp := Pick(g, []string{"", "/tmp", "/tmp//x/", "/var/../tmp", "rel/tmp"})
	me, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(me)
	cmd.Dir = dir
	cmd.Env = []string{"VGX_P31_ASK=1", "GOPATH=" + gopath}
	if g.Bool() {
		wd, _ := os.Getwd()
		cmd.Env = append(cmd.Env, "PWD="+Pick(g, []string{wd, wd + "/" + dir, "/nowhere", "/"}))
	}
	want := "/tmp"
	if tmp != "" {
		cmd.Env = append(cmd.Env, "TMPDIR="+tmp)
		want = filepath.Clean(tmp)
	}
	g.Logf("GOPATH=%q TMPDIR=%q in %q", gopath, tmp, dir)
	if len(list) > 1 {
		g.NonTrivial()
	}
	out, err := cmd.Output()
	var gp, wp, td string
	if n, _ := fmt.Sscanf(string(out), "%q %q %q", &gp, &wp, &td); err != nil || n != 3 {
		g.Label("no answer")
		g.Discard()
	}
	g.Check(gp == filepath.Clean(list[0]+"/src"), "with GOPATH=%q the source root is %q", gopath, gp)
	a, _ := os.Stat(dir)
	b, berr := os.Stat(wp)
	g.Check(filepath.IsAbs(wp) && berr == nil && os.SameFile(a, b), "started in %q, the working path is %q", dir, wp)
	g.Check(td == want, "with TMPDIR=%q the temporary directory is %q", tmp, td)
}

// follow walks an absolute path element by element, as the system does.
func follow(full string) string {
	at := "/"
	for _, e := range strings.Split(full, "/") {
		switch e {
		case "", ".":
		case "..":
			at = filepath.Dir(at)
		default:
			if r, err := filepath.EvalSymlinks(at + "/" + e); err == nil {
				at = r
			}
		}
	}
	return at
}

func here() (string, int) { return fs.FileLine() }

func caller(g *G) {
	g.NonTrivial()
	f, l := fs.FileLine()
	_, wf, wl, _ := runtime.Caller(0)
	g.Check(f == wf && l == wl-1, "called at %s:%d, says %s:%d", wf, wl-1, f, l)
	f, l = here()
	g.Check(f == wf && l == hereLine, "called at %s:%d, says %s:%d", wf, hereLine, f, l)
	rf, rl := fs.RelateFileLine()
	_, _, wl, _ = runtime.Caller(0)
	g.Check(rf == fs.RelateGoPath(wf) && rl == wl-1, "called at %s:%d, says %s:%d", wf, wl-1, rf, rl)
	fn := fs.Func()
	_, _, wl, _ = runtime.Caller(0)
	g.Check(strings.Contains(fn, "main.caller") && strings.HasSuffix(fn, fmt.Sprint(" ", wl-1)), "called in main.caller at line %d, says %q", wl-1, fn)
}

var hereLine = func() int {
	pc := reflect.ValueOf(here).Pointer()
	_, l := runtime.FuncForPC(pc).FileLine(pc)
	return l
}()
