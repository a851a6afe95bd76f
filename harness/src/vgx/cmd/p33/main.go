// P33: directory listings and statistics.
package main

import (
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/vipally/gx/fs"
	"vgx/fstest"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P33",
		Rule: "a case is a generated tree of directories, files and symbolic links on disk: listings with every combination of options, the named listings, the walk and the statistics are compared with the tree (as multisets: the order is not promised), and a directory that cannot be listed, generated at any depth, makes the listing fail; no file stays open; non-trivial: five or more entries and a nested directory",
		Checks: []Check{
			{Name: "listing", Quick: 3000, Thorough: 120000, Fn: listing},
			{Name: "wide", Quick: 8, Thorough: 80, Fn: wide},
			{Name: "unreadable", Quick: 1200, Thorough: 40000, Fn: unreadable},
		},
	})
}

func sorted(s []string) string {
	t := append([]string(nil), s...)
	sort.Strings(t)
	return strings.Join(t, "\x00")
}

func collect(dir string, n *fstest.Node, opt fs.FsOption) (out []string) {
	has := func(o fs.FsOption) bool { return opt&o != 0 }
	name := func(full, base string) string {
		if has(fs.FsFullPath) {
			return full
		}
		return base
	}
	sub := false
	for _, s := range n.Subs {
		full := dir + "/" + s.Name
		if s.Kind != 'd' {
			if has(fs.FsFile) {
				out = append(out, name(full, s.Name))
			}
			continue
		}
		sub = true
		if has(fs.FsDir) && !has(fs.FsLeaf) {
			out = append(out, name(full, s.Name))
		}
		if has(fs.FsDeep) || has(fs.FsLeaf) {
			out = append(out, collect(full, s, opt)...)
		}
	}
	if !sub && has(fs.FsLeaf) && has(fs.FsDir) {
		out = append(out, name(dir, filepath.Base(dir)))
	}
	return
}

func listing(g *G) {
	t := fstest.Tree(g, 8, true)
	if g.OneIn(40) {
		fstest.Wide(g, t, 20, 3000)
	}
	if g.OneIn(40) {
		fstest.Deep(g, t, 40)
	}
	base := fstest.Dir()
	defer fstest.Drop(base)
	dir := base + "/" + Pick(g, []string{"r", "r.d", "R r"})
	if err := os.Mkdir(dir, 0755); err != nil {
		panic(err)
	}
	t.Write(dir)
	g.Logf("tree %s", t.Show())
	huge := map[*fstest.Node]uint64{}
	if g.OneIn(10) { // sizes that 32 bits do not count
		t.Walk(dir, func(p string, n *fstest.Node) {
			if n.Kind == 'f' && g.Bool() {
				s := g.U64(1 << 42)
				if fstest.Extend(p, int64(s)) {
					huge[n] = s
					g.Logf("%s has %d bytes", p, s)
				} else {
					g.Label("no sparse files")
					fstest.Extend(p, int64(len(n.Data)))
				}
			}
		})
	}
	length := func(n *fstest.Node) uint64 {
		if s, ok := huge[n]; ok {
			return s
		}
		return uint64(len(n.Data))
	}
	entries, nested := 0, false
	dirs, files, size := 1, 0, uint64(0)
	t.Walk("", func(p string, n *fstest.Node) {
		entries++
		if n.Kind == 'd' {
			dirs++
			nested = nested || strings.Count(p, "/") > 1
		} else {
			files++
			size += length(n)
			if n.Kind == 'l' {
				size += uint64(len(n.To))
			}
		}
	})
	if entries >= 5 && nested {
		g.NonTrivial()
	}
	for opt := fs.FsNone; opt < 32; opt++ {
		got, err := fs.CollectSubs(dir, opt)
		if want := collect(dir, t, opt); err != nil || sorted(got) != sorted(want) {
			g.Fatalf("listing with options %05b: %q, %v instead of %q", opt, got, err, want)
		}
	}
	// the same directory written in other ways
	for _, d := range []string{dir + "/", dir + "//", base + "/./" + filepath.Base(dir), filepath.Base(base) + "/" + filepath.Base(dir)} {
		opt := fs.FsOption(g.N(32))
		got, err := fs.CollectSubs(d, opt)
		if want := collect(filepath.Clean(d), t, opt); err != nil || sorted(got) != sorted(want) {
			g.Fatalf("listing %q with options %05b: %q, %v instead of %q", d, opt, got, err, want)
		}
	}
	named := func(what string, f func(string) ([]string, error), opt fs.FsOption) {
		got, err := f(dir)
		if want := collect(dir, t, opt); err != nil || sorted(got) != sorted(want) {
			g.Fatalf("%s: %q, %v instead of %q", what, got, err, want)
		}
	}
	named("sub-directories", fs.GetSubDirs, fs.FsDir)
	named("files", fs.GetSubFiles, fs.FsFile)
	named("entries", fs.GetSubs, fs.FsDir|fs.FsFile)
	named("files at any depth", fs.GetDeepFiles, fs.FsFile|fs.FsDeep)
	named("leaf directories", fs.GetLeafDirs, fs.FsDir|fs.FsLeaf|fs.FsFullPath)

	d, f, s, info := fs.FilePath(Pick(g, []string{dir, dir + "/", filepath.Base(base) + "/" + filepath.Base(dir)})).Statistic()
	if d != dirs || f != files || s != size || info != "" {
		g.Fatalf("statistics: %d directories, %d files, %d bytes, %q instead of %d, %d, %d", d, f, s, info, dirs, files, size)
	}
	fstest.NoneOpen(g, base)
	// the walk visits what the standard one does, and stops when told to
	var want, got []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		want = append(want, p)
		return nil
	})
	stop := g.N(2 * len(want))
	skip := g.N(2 * len(want))
	var want2 []string
	i := 0
	how, onFiles := Pick(g, []error{os.ErrClosed, filepath.SkipAll, filepath.SkipDir}), g.Bool()
	werr := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		want2 = append(want2, p)
		if i++; i-1 == stop {
			return how
		} else if i-1 == skip && (onFiles || fi.IsDir()) {
			return filepath.SkipDir
		}
		return nil
	})
	i = 0
	gerr := fs.FilePath(dir).Walk(func(p string, fi fs.FileInfo, err error) error {
		if err != nil || fi == nil || filepath.Base(p) != fi.Name() {
			g.Fatalf("the walk reports %q with %v", p, err)
		}
		got = append(got, p)
		if i++; i-1 == stop {
			return how
		} else if i-1 == skip && (onFiles || fi.IsDir()) {
			return filepath.SkipDir
		}
		return nil
	})
	if sorted(got) != sorted(want2) || gerr != werr {
		g.Fatalf("the walk visits %q (%v) instead of %q (%v)", got, gerr, want2, werr)
	}
	// what is no directory
	for _, p := range []string{dir + "/no/where", dir + "/nowhere"} {
		got, err := fs.CollectSubs(p, fs.FsAll|fs.FsDeep)
		g.Check(err != nil && len(got) == 0, "listing a directory that does not exist: %q, %v", got, err)
		d, f, s, info := fs.FilePath(p).Statistic()
		g.Check(d == 0 && f == 0 && s == 0 && info != "", "statistics of a directory that does not exist: %d, %d, %d, %q", d, f, s, info)
	}
	t.Walk(dir, func(p string, n *fstest.Node) {
		if n.Kind == 'f' {
			_, err := fs.CollectSubs(p, fs.FsAll)
			g.Check(err != nil, "listing the file %q as a directory succeeds", p)
			d, f, s, _ := fs.FilePath(p).Statistic()
			g.Check(d == 0 && f == 1 && s == length(n), "statistics of the file %q: %d, %d, %d", p, d, f, s)
		}
		if n.Kind == 'l' { // a link is not followed
			d, f, s, info := fs.FilePath(p).Statistic()
			g.Check(d == 0 && f == 1 && s == uint64(len(n.To)) && info == "", "statistics of the link %q to %q: %d, %d, %d, %q", p, n.To, d, f, s, info)
		}
	})
}

// very many entries in one directory
func wide(g *G) {
	t := &fstest.Node{Kind: 'd'}
	fstest.Wide(g, t, 3000, 12000)
	dir := fstest.Dir()
	defer fstest.Drop(dir)
	t.Write(dir)
	files, dirs := 0, 2
	for _, s := range t.Subs[0].Subs {
		if s.Kind == 'd' {
			dirs++
		} else {
			files++
		}
	}
	g.Logf("a directory of %d entries", len(t.Subs[0].Subs))
	g.NonTrivial()
	for _, opt := range []fs.FsOption{fs.FsFile | fs.FsDeep, fs.FsAll | fs.FsDeep, fs.FsDir | fs.FsLeaf | fs.FsFullPath} {
		got, err := fs.CollectSubs(dir, opt)
		if want := collect(dir, t, opt); err != nil || sorted(got) != sorted(want) {
			g.Fatalf("listing with options %05b: %d entries, %v instead of %d", opt, len(got), err, len(want))
		}
	}
	got, err := fs.GetSubs(dir + "/wide")
	g.Check(err == nil && len(got) == len(t.Subs[0].Subs), "%d entries, %v instead of %d", len(got), err, len(t.Subs[0].Subs))
	d, f, _, info := fs.FilePath(dir).Statistic()
	g.Check(d == dirs && f == files && info == "", "statistics: %d directories, %d files, %q instead of %d, %d", d, f, info, dirs, files)
}

func unreadable(g *G) {
	t := fstest.Tree(g, 8, false)
	base := fstest.Dir()
	defer fstest.Drop(base)
	dir := base + "/r"
	if err := os.Mkdir(dir, 0755); err != nil {
		panic(err)
	}
	t.Write(dir)
	var dirs []string
	depth := map[string]int{}
	t.Walk(dir, func(p string, n *fstest.Node) {
		if n.Kind == 'd' {
			dirs = append(dirs, p)
			depth[p] = strings.Count(p[len(dir):], "/")
		}
	})
	if len(dirs) == 0 {
		g.Discard()
	}
	locked := Pick(g, dirs)
	if err := os.Chmod(locked, 0); err != nil {
		panic(err)
	}
	g.Logf("tree %s, locked %s", t.Show(), locked)
	ok := fstest.Unprivileged(func() {
		for opt := fs.FsNone; opt < 32; opt++ {
			got, err := fs.CollectSubs(dir, opt)
			if opt&(fs.FsDeep|fs.FsLeaf) != 0 {
				if err == nil {
					g.Fatalf("listing with options %05b of a tree with the unreadable directory %q: %q", opt, locked, got)
				}
			} else if want := collect(dir, t, opt); err != nil || sorted(got) != sorted(want) {
				g.Fatalf("listing with options %05b, which need not open %q: %q, %v", opt, locked, got, err)
			}
		}
		_, err := fs.CollectSubs(locked, fs.FsAll)
		g.Check(err != nil, "listing an unreadable directory succeeds")
		d, f, _, info := fs.FilePath(dir).Statistic()
		// the rest is counted, the problem is reported
		wd, wf := 1, 0
		t.Walk(dir, func(p string, n *fstest.Node) {
			if strings.HasPrefix(p, locked+"/") {
				return
			}
			if n.Kind == 'd' {
				wd++
			} else {
				wf++
			}
		})
		g.Check(info != "" && f == wf && (d == wd || d == wd-1), "statistics of a tree with an unreadable directory: %d directories, %d files, %q instead of %d (the unreadable one may count or not) and %d", d, f, info, wd, wf)
	})
	os.Chmod(locked, 0755)
	fstest.NoneOpen(g, base)
	if !ok {
		g.Label("could not drop privileges")
		return
	}
	if depth[locked] > 1 {
		g.NonTrivial()
	}
}
