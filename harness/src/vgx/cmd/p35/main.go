// P35: file operations through path objects.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/vipally/gx/fs"
	"vgx/fstest"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P35",
		Rule: "a case is a generated tree written twice and a generated history of file operations, done on one copy through path objects and on the other through the standard library (with new names resolved against the directory of the file by the harness): results, errors and the whole trees agree after every step; run with the file permissions of an unprivileged user who owns only the two trees; non-trivial: three or more operations that succeeded, one of them with a new name",
		Checks: []Check{
			{Name: "history", Quick: 6000, Thorough: 250000, Fn: history},
		},
		Assume: []string{"file operations of the standard library"},
	})
}

func own(dir string) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		return os.Lchown(p, fstest.Nobody, fstest.Nobody)
	})
}

func history(g *G) {
	t := fstest.Tree(g, 6, true)
	top := fstest.Dir()
	defer fstest.Drop(top)
	a, b := top+"/one", top+"/two"
	for _, d := range []string{a, b} {
		if err := os.Mkdir(d, 0755); err != nil {
			panic(err)
		}
		t.Write(d)
		own(d)
	}
	g.Logf("tree %s", t.Show())
	var known []string // paths, relative to the trees
	known = append(known, "/new", "/x/y", "/a", "/b")
	t.Walk("", func(p string, n *fstest.Node) { known = append(known, p) })
	done, renamed := 0, 0
	mask := Pick(g, []int{022, 022, 0, 077, 027})
	g.Logf("permissions held back: %o", mask)
	defer syscall.Umask(syscall.Umask(mask))
	if !fstest.Unprivileged(func() {
		g.Steps(8, 40, func(int) { step(g, a, b, &known, &done, &renamed) })
	}) {
		g.Label("could not drop privileges")
		g.Discard()
	}
	if done >= 3 && renamed > 0 {
		g.NonTrivial()
	}
}

// short is a tree's path from the working directory
func short(dir string) string { return filepath.Base(filepath.Dir(dir)) + "/" + filepath.Base(dir) }

// ways checks that two files are open for the same uses
func ways(g *G, rel string, f1, f2 *os.File) {
	a, _, e1 := syscall.Syscall(syscall.SYS_FCNTL, f1.Fd(), syscall.F_GETFL, 0)
	b, _, e2 := syscall.Syscall(syscall.SYS_FCNTL, f2.Fd(), syscall.F_GETFL, 0)
	const use = syscall.O_ACCMODE | syscall.O_APPEND
	g.Check(e1 != 0 || e2 != 0 || a&use == b&use, "%s is open for %x, not %x", rel, a&use, b&use)
}

func step(g *G, a, b string, known *[]string, done, renamed *int) {
	rel := Pick(g, *known)
	if g.OneIn(4) {
		rel += "/" + Pick(g, []string{"n1", "n2", "a", "b"})
		if g.OneIn(4) {
			rel += fstest.Name(g)
		}
	}
	roota, rootb := a, b // the trees as the paths name them: absolutely or from the working directory
	if g.OneIn(3) {
		roota, rootb = short(a), short(b)
	}
	pa, pb := fs.FilePath(roota+rel), rootb+rel
	same := func(what string, e1, e2 error) {
		g.Logf("%s %s: %v", what, rel, e1)
		// the same problem, whatever the paths in its text
		kind := func(e error) string {
			if e == nil {
				return ""
			}
			s := e.Error()
			return s[strings.LastIndexByte(s, ':')+1:]
		}
		if kind(e1) != kind(e2) {
			g.Fatalf("%s %s: %v, the standard library: %v", what, rel, e1, e2)
		}
		if e1 == nil {
			*done++
		}
	}
	// a new name, as given and as it has to be understood
	fresh := func(root string) (given, full string) {
		switch k := g.N(6); k {
		case 0, 1:
			given = Pick(g, []string{"n1", "n2", "a", "b"})
			if g.OneIn(3) {
				given = strings.TrimLeft(fstest.Name(g), "@") + "x"
			}
		case 2:
			given = Pick(g, []string{"sub/n3", "./n4", "a/n5", "b/../n6", "a//n7", "n9/", "C:/n1", "~/n1"})
			if g.OneIn(3) {
				given = Pick(g, []string{"a", "b", "d"}) + "/" + fstest.Name(g)
			}
		case 3:
			given = "../" + Pick(g, []string{"n8", "a", "b"})
			if strings.Count(rel, "/") < 2 { // would leave the tree
				given = "n8"
			}
		default:
			given = "@" + Pick(g, *known)
		}
		return
	}
	resolve := func(root, given string) (arg, full string) {
		if strings.HasPrefix(given, "@") {
			if root == rootb {
				root = b
			} else {
				root = a
			}
			return root + given[1:], root + given[1:]
		}
		return given, filepath.Join(filepath.Dir(root+rel), given)
	}
	remember := func(full string) {
		if r := strings.TrimPrefix(strings.TrimPrefix(full, rootb), b); r != full && r != "" && len(*known) < 60 {
			*known = append(*known, r)
		}
	}
	switch g.N(18) {
	case 0, 1:
		given, _ := fresh(a)
		aa, fa := resolve(roota, given)
		_, fb := resolve(rootb, given)
		n, err := pa.Rename(aa)
		same("rename to "+given, err, os.Rename(pb, fb))
		g.Check(err != nil || n.String() == fa, "renaming %s to %q gives %q, not %q", rel, given, n, fa)
		if err == nil {
			*renamed++
			remember(fb)
		}
	case 2:
		given, _ := fresh(a)
		aa, fa := resolve(roota, given)
		_, fb := resolve(rootb, given)
		n, err := pa.Move(aa)
		same("move to "+given, err, os.Rename(pb, fb))
		g.Check(err != nil || n.String() == fa, "moving %s to %q gives %q, not %q", rel, given, n, fa)
		if err == nil {
			*renamed++
			remember(fb)
		}
	case 3:
		given, _ := fresh(a)
		aa, fa := resolve(roota, given)
		_, fb := resolve(rootb, given)
		n, err := pa.Link(aa)
		same("link as "+given, err, os.Link(pb, fb))
		g.Check(err != nil || n.String() == fa, "linking %s as %q gives %q, not %q", rel, given, n, fa)
		if err == nil {
			*renamed++
			remember(fb)
		}
	case 4:
		given, _ := fresh(a)
		aa, fa := resolve(roota, given)
		_, fb := resolve(rootb, given)
		n, err := pa.Symlink(aa)
		same("symbolic link as "+given, err, os.Symlink(pb, fb))
		g.Check(err != nil || n.String() == fa, "linking %s symbolically as %q gives %q, not %q", rel, given, n, fa)
		if err == nil {
			*renamed++
			remember(fb)
		}
	case 5:
		mode := Pick(g, []os.FileMode{0755, 0700, 0777, 0755 | os.ModeSticky, 0710 | os.ModeSetgid, 0})
		same("mkdir", pa.Mkdir(fs.FileMode(mode)), os.Mkdir(pb, mode))
		remember(pb)
	case 6:
		mode := Pick(g, []os.FileMode{0755, 0755, 0700, 0777 | os.ModeSticky, 0711, 0500, 0300, 0})
		same(fmt.Sprintf("mkdir all %v", mode), pa.MkdirAll(fs.FileMode(mode)), os.MkdirAll(pb, mode))
		remember(pb)
	case 7:
		same("remove", pa.Remove(), os.Remove(pb))
	case 8:
		if rel == "" || !g.OneIn(3) {
			return
		}
		same("remove all", pa.RemoveAll(), os.RemoveAll(pb))
	case 9:
		n := int64(g.N(80))
		if g.OneIn(8) && !g.Enum() { // sparse: nothing reads the files whole
			n = int64(g.U64(1<<40)) - 2
		}
		same("truncate", pa.Truncate(n), os.Truncate(pb, n))
	case 10:
		data := g.Bytes(30)
		f1, e1 := pa.Create()
		f2, e2 := os.Create(pb)
		same("create", e1, e2)
		if e1 == nil {
			ways(g, rel, f1, f2)
			f1.Write(data)
			f2.Write(data)
			f1.Close()
			f2.Close()
			remember(pb)
		}
	case 11:
		flag := Pick(g, []int{os.O_WRONLY, os.O_WRONLY | os.O_APPEND, os.O_RDWR | os.O_CREATE, os.O_RDWR | os.O_CREATE | os.O_EXCL, os.O_WRONLY | os.O_TRUNC, os.O_RDONLY, os.O_RDONLY | os.O_CREATE, os.O_WRONLY | os.O_EXCL, os.O_RDONLY | os.O_CREATE | os.O_EXCL, os.O_RDWR | os.O_CREATE | os.O_TRUNC | os.O_APPEND})
		data := g.Bytes(30)
		mode := Pick(g, []os.FileMode{0640, 0640, 0600, 0777, 0444, 0, 0200, 0755 | os.ModeSetuid, 0644 | os.ModeSticky})
		f1, e1 := pa.OpenFile(flag, fs.FileMode(mode))
		f2, e2 := os.OpenFile(pb, flag, mode)
		same(fmt.Sprintf("open with flags %x", flag), e1, e2)
		if e1 == nil {
			ways(g, rel, f1, f2)
			f1.Write(data)
			f2.Write(data)
			f1.Close()
			f2.Close()
			remember(pb)
		}
	case 12:
		mode := Pick(g, []os.FileMode{0755, 0700, 0777, 0711, 0, 0444, 0600, 0755 | os.ModeSetuid, 0711 | os.ModeSetgid, 0777 | os.ModeSticky})
		same("chmod", pa.Chmod(fs.FileMode(mode)), os.Chmod(pb, mode))
	case 13:
		at, mt := time.Unix(int64(g.N(1<<30)), 0), time.Unix(int64(g.N(1<<30)), 0)
		if g.Bool() { // not whole seconds
			at, mt = at.Add(time.Duration(g.N(1e9))), mt.Add(time.Duration(g.N(1e9)))
		}
		if g.OneIn(4) { // no time at all, or one before 1970 or after 2038
			odd := []time.Time{{}, time.Unix(-1000000, 5), time.Unix(1<<32+7, 0), time.Unix(0, 0), time.Unix(1<<31, 1)}
			at = Pick(g, odd)
			if g.Bool() {
				at, mt = mt, at
			} else if g.Bool() {
				mt = Pick(g, odd)
			}
			// what stays as it is has to be the same in both
			now := time.Unix(1500000000, 0)
			os.Chtimes(pa.String(), now, now)
			os.Chtimes(pb, now, now)
		}
		e := pa.Chtimes(at, mt)
		same("chtimes", e, os.Chtimes(pb, at, mt))
		if e == nil {
			fi, err := os.Stat(pa.String())
			fj, err2 := os.Stat(pb)
			if err != nil || err2 != nil {
				break
			}
			g.Check(fi.ModTime().Equal(fj.ModTime()), "setting the time of %s to %v gives %v", rel, mt, fi.ModTime())
			x, y := fi.Sys().(*syscall.Stat_t).Atim, fj.Sys().(*syscall.Stat_t).Atim
			g.Check(x == y, "setting the access time of %s to %v gives %v", rel, at, time.Unix(x.Unix()))
		}
	case 16:
		uid, gid := Pick(g, []int{-1, fstest.Nobody, 1}), Pick(g, []int{-1, fstest.Nobody, fstest.Groups[0], fstest.Groups[1], 1})
		if g.Bool() {
			same(fmt.Sprintf("chown %d %d", uid, gid), pa.Chown(uid, gid), os.Chown(pb, uid, gid))
		} else {
			same(fmt.Sprintf("lchown %d %d", uid, gid), pa.Lchown(uid, gid), os.Lchown(pb, uid, gid))
		}
	case 17:
		f, err := os.Open(pb)
		if err != nil {
			return
		}
		defer f.Close()
		fd, err := syscall.Dup(int(f.Fd()))
		if err != nil {
			return
		}
		n := pa.NewFile(uintptr(fd))
		g.Check(n != nil && n.Name() == pa.String() && n.Fd() == uintptr(fd), "%s as the name of an open file: %q", rel, n.Name())
		n.Close()
	case 14:
		if g.OneIn(3) { // a link with a text of its own
			name, to := Pick(g, []string{"/raw1", "/raw2", "/raw3"}), Pick(g, []string{"a/../b", "./a", "a//b", "a/", "b/.", "a/../b//../a", "raw1", "raw2/", " ", "", "a\\b", "nowhere/../a"})
			if os.Symlink(to, rootb+name) == nil && os.Symlink(to, roota+name) == nil {
				rel = name
				pa, pb = fs.FilePath(roota+rel), rootb+rel
				remember(pb)
				g.Logf("%s leads to %q", rel, to)
			}
		}
		l1, e1 := pa.Readlink()
		l2, e2 := os.Readlink(pb)
		same("readlink", e1, e2)
		g.Check(strings.Replace(strings.Replace(l1, a, "", 1), short(a), "", 1) == strings.Replace(strings.Replace(l2, b, "", 1), short(b), "", 1), "the link %s leads to %q and %q", rel, l1, l2)
		s1, e1 := pa.EvalSymlinks()
		s2, e2 := filepath.EvalSymlinks(pb)
		same("follow links", e1, e2)
		s2, _ = filepath.EvalSymlinks(pa.String())
		g.Check(s1 == s2, "%s leads to %q and %q", rel, s1, s2)
	case 15:
		i1, e1 := pa.Stat()
		i2, e2 := os.Stat(pb)
		same("stat", e1, e2)
		if e1 == nil {
			g.Check(i1.Size() == i2.Size() && i1.Mode() == i2.Mode() && i1.Name() == i2.Name(), "status of %s: %d %v %q, not %d %v %q", rel, i1.Size(), i1.Mode(), i1.Name(), i2.Size(), i2.Mode(), i2.Name())
		}
		i1, e1 = pa.Lstat()
		i2, e2 = os.Lstat(pb)
		same("lstat", e1, e2)
		if e1 == nil {
			g.Check(i1.Mode() == i2.Mode() && i1.Name() == i2.Name(), "status of %s itself: %v %q, not %v %q", rel, i1.Mode(), i1.Name(), i2.Mode(), i2.Name())
		}
		f1, e1 := pa.Open()
		f2, e2 := os.Open(pb)
		same("open", e1, e2)
		if e1 == nil {
			ways(g, rel, f1, f2)
			x, y := make([]byte, 100), make([]byte, 100)
			n, _ := f1.Read(x)
			m, _ := f2.Read(y)
			f1.Close()
			f2.Close()
			g.Check(n == m && string(x) == string(y), "reading %s gives %q, not %q", rel, x[:n], y[:m])
		}
	}
	if x, y := fstest.Snapshot(a), fstest.Snapshot(b); x != y {
		g.Fatalf("after the operation the tree is\n%s\nand should be\n%s", x, y)
	}
}
