// Package fstest builds generated file trees in the scratch directory of the
// check, and runs code as a user who can reach nothing else.
package fstest

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	. "vgx/pbt"
)

// Nobody owns the scratch files of destructive checks.
const Nobody = 65534

var serial int

// Dir makes a new, empty scratch directory.
func Dir() string {
	serial++
	base := os.Getenv("VGX_SCRATCH")
	if base == "" {
		panic("no scratch directory")
	}
	d := filepath.Join(base, fmt.Sprintf("t%d", serial))
	if err := os.Mkdir(d, 0755); err != nil {
		panic(err)
	}
	return d
}

// Drop removes a scratch directory.
func Drop(d string) {
	if !strings.HasPrefix(d, os.Getenv("VGX_SCRATCH")+"/t") {
		panic("not a scratch directory: " + d)
	}
	os.RemoveAll(d)
}

// Extend makes a file n bytes long without using space; false where that does not work.
func Extend(p string, n int64) bool {
	fi, err := os.Stat(p)
	if err != nil {
		panic(err)
	}
	if err := os.Truncate(p, n); err != nil {
		return false
	}
	st, err := os.Stat(p)
	if err != nil || st.Size() != n || n > 1<<20 && st.Sys().(*syscall.Stat_t).Blocks*512 > 1<<20+2*fi.Size() {
		os.Truncate(p, 0)
		return false
	}
	return true
}

// NoneOpen checks that no file under dir is open.
func NoneOpen(g *G, dir string) {
	ds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		g.Label("open files cannot be listed")
		return
	}
	for _, d := range ds {
		if l, err := os.Readlink("/proc/self/fd/" + d.Name()); err == nil && (l == dir || strings.HasPrefix(l, dir+"/")) {
			g.Fatalf("the file %q stays open", l)
		}
	}
}

// Groups are further groups nobody belongs to, so that files can be given to them.
var Groups = []int{71001, 71002}

// Unprivileged runs f with the file permissions of nobody, so that nothing
// outside of directories given to nobody can be changed. It reports false,
// without running f, where that is not possible.
func Unprivileged(f func()) bool {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if !drop() {
		return false
	}
	defer back()
	f()
	return true
}

func setgroups(ids []uint32) {
	var p unsafe.Pointer
	if len(ids) > 0 {
		p = unsafe.Pointer(&ids[0])
	}
	// of this thread only; where it is refused, giving files to the groups fails for everybody
	syscall.RawSyscall(syscall.SYS_SETGROUPS, uintptr(len(ids)), uintptr(p), 0)
}

func drop() bool {
	setgroups([]uint32{uint32(Groups[0]), uint32(Groups[1])})
	syscall.Setfsgid(Nobody)
	syscall.Setfsuid(Nobody)
	// effective? try what only root may do
	if f, err := os.OpenFile("/etc/shadow", os.O_RDONLY, 0); err == nil {
		f.Close()
		back()
		return false
	} else if !os.IsPermission(err) {
		if f, err := os.OpenFile("/root", os.O_RDONLY, 0); err == nil {
			f.Close()
			back()
			return false
		}
	}
	return true
}

func back() {
	syscall.Setfsuid(0)
	syscall.Setfsgid(0)
	setgroups(nil)
}

// Node is an entry of a generated tree.
type Node struct {
	Name string
	Kind byte // d directory, f file, l symbolic link
	Data []byte
	To   string
	Subs []*Node
}

var names = []string{"a", "b", "c", "d.txt", "e f", ".hid", "x-1", "Z", "ü", "a.b.c", "..x", "a%d"}

// Name draws the name of an entry: an ordinary or an odd one.
func Name(g *G) string {
	if !g.Enum() && g.OneIn(6) {
		return g.Word(func(s string) bool {
			return s != "" && s != "." && s != ".." && len(s) <= 200 && !strings.ContainsAny(s, "/\x00")
		})
	}
	return Pick(g, names)
}

// Tree generates a directory of up to some entries.
func Tree(g *G, size int, links bool) *Node {
	root := &Node{Kind: 'd'}
	dirs := []*Node{root}
	g.Steps(size, size*3, func(int) {
		p := dirs[len(dirs)-1-g.N(len(dirs))]
		n := &Node{Name: Name(g)}
		for i := 0; i < len(p.Subs); i++ {
			if p.Subs[i].Name == n.Name {
				n.Name = fmt.Sprintf("%s%d", n.Name, len(p.Subs))
				i = -1
			}
		}
		k := g.N(7)
		switch {
		case k < 3:
			n.Kind = 'f'
			n.Data = g.Bytes(60)
		case k < 6 || !links:
			n.Kind = 'd'
			dirs = append(dirs, n)
		default:
			n.Kind = 'l'
			n.To = Pick(g, []string{"a", "b", "nowhere", ".", "..", "d.txt"})
		}
		p.Subs = append(p.Subs, n)
	})
	return root
}

// Wide adds a directory of many entries (files, some empty, and directories),
// without drawing a choice for each of them.
func Wide(g *G, root *Node, lo, hi int) {
	n := g.Big(lo, hi)
	r := g.Rng()
	d := &Node{Name: "wide", Kind: 'd'}
	for i := 0; i < n; i++ {
		s := &Node{Name: fmt.Sprintf("w%d", i), Kind: 'f', Data: r.Bytes(r.N(12))}
		if r.N(8) == 0 {
			s.Kind, s.Data = 'd', nil
		}
		d.Subs = append(d.Subs, s)
	}
	root.Subs = append(root.Subs, d)
}

// Deep adds a chain of nested directories with a file at its end.
func Deep(g *G, root *Node, hi int) {
	for n := 1 + g.N(hi); n > 0; n-- {
		d := &Node{Name: fmt.Sprintf("deep%d", n), Kind: 'd'}
		root.Subs = append(root.Subs, d)
		root = d
	}
	root.Subs = append(root.Subs, &Node{Name: "end", Kind: 'f', Data: []byte("end")})
}

// Write creates the tree at an existing directory, its entries in the given order.
func (n *Node) Write(dir string) {
	for _, s := range n.Subs {
		p := filepath.Join(dir, s.Name)
		var err error
		switch s.Kind {
		case 'd':
			if err = os.Mkdir(p, 0755); err == nil {
				s.Write(p)
			}
		case 'f':
			err = os.WriteFile(p, s.Data, 0644)
		case 'l':
			err = os.Symlink(s.To, p)
		}
		if err != nil {
			panic(err)
		}
	}
}

// Show describes the tree.
func (n *Node) Show() string {
	var parts []string
	for _, s := range n.Subs {
		switch s.Kind {
		case 'd':
			parts = append(parts, s.Name+"/"+s.Show())
		case 'f':
			parts = append(parts, fmt.Sprintf("%s(%d)", s.Name, len(s.Data)))
		case 'l':
			parts = append(parts, s.Name+"->"+s.To)
		}
	}
	return "{" + strings.Join(parts, " ") + "}"
}

// Walk visits every entry below n with its path.
func (n *Node) Walk(path string, f func(path string, n *Node)) {
	for _, s := range n.Subs {
		p := path + "/" + s.Name
		f(p, s)
		s.Walk(p, f)
	}
}

// Snapshot describes everything below dir as it is on disk: kind, mode, owner,
// content, link target, and which files are the same one.
func Snapshot(dir string) string {
	var out []string
	inode := map[uint64]string{}
	filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, path)
		if err != nil {
			out = append(out, rel+" unreadable")
			return nil
		}
		st := fi.Sys().(*syscall.Stat_t)
		s := fmt.Sprintf("%q %v %d:%d", rel, fi.Mode(), st.Uid, st.Gid)
		if fi.Mode()&os.ModeSymlink != 0 {
			t, _ := os.Readlink(path)
			t = strings.Replace(t, dir, "<root>", -1)
			s += " -> " + strings.Replace(t, filepath.Base(filepath.Dir(dir))+"/"+filepath.Base(dir), "<root>", -1)
		} else if !fi.IsDir() {
			if first, ok := inode[st.Ino]; ok {
				s += " = " + first
			} else {
				inode[st.Ino] = rel
			}
			b, err := ends(path, fi.Size())
			s += fmt.Sprintf(" %d %x %v", fi.Size(), b, err != nil)
		}
		out = append(out, s)
		return nil
	})
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// ends reads a file; of a very long one its beginning and its end.
func ends(path string, size int64) ([]byte, error) {
	if size <= 1<<20 {
		return os.ReadFile(path)
	}
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	b := make([]byte, 2000)
	if _, err := f.ReadAt(b[:1000], 0); err != nil {
		return nil, err
	}
	_, err = f.ReadAt(b[1000:], size-1000)
	return b, err
}
