// P34: content hashes of files and directories.
package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"hash"
	"hash/crc32"
	"hash/crc64"
	"io"
	"os"

	"github.com/vipally/gx/fs"
	xhash "github.com/vipally/gx/hash"
	"vgx/fstest"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P34",
		Rule: "a case is a generated tree of directories and files on disk, a hash method and a salt: the result has one node per entry with its path, kind and size, a file hashes as its salted content does, a directory as its salted children's hashes do; writing the tree in another order and under other names gives the same hash, a generated change of any content, file or directory gives another one; a file that cannot be opened, or opens and fails when read, makes it fail; the sizes of nodes are right with files of more than 4 GB (sparse ones, with the method that hashes nothing and with crc32); no file stays open; non-trivial: five or more entries and a nested directory",
		Checks: []Check{
			{Name: "tree", Quick: 3000, Thorough: 120000, Fn: tree},
			{Name: "change", Quick: 3000, Thorough: 120000, Fn: change},
			{Name: "unreadable", Quick: 800, Thorough: 20000, Fn: unreadable},
			{Name: "sizes", Quick: 40, Thorough: 400, Fn: sizes},
			{Name: "faulty", Quick: 800, Thorough: 20000, Fn: faulty},
		},
	})
}

type method struct {
	name string
	m    xhash.HashMethod
	ref  func() hash.Hash // nil: the fingerprint call
}

var methods = []method{
	{"fingerprint", 0, nil},
	{"md5", fs.MD5, md5.New}, {"sha1", fs.SHA1, sha1.New}, {"sha256", fs.SHA256, sha256.New}, {"sha512", fs.SHA512, sha512.New},
	{"crc32", fs.CRC32, func() hash.Hash { return crc32.NewIEEE() }},
	{"crc64", fs.CRC64, func() hash.Hash { return crc64.New(crc64.MakeTable(crc64.ISO)) }},
}

func init() {
	methods = append(methods, method{"fingerprint as a method", fs.FINGERPRINT, func() hash.Hash { return xhash.NewFingerprint() }})
}

func (m method) of(path, salt string) (*fs.FileHashTreeNode, error) {
	if m.ref == nil {
		return fs.FilePath(path).Fingerprint()
	}
	return fs.FilePath(path).Hash(m.m, salt)
}

// expect computes a hash of some content by other means
func (m method) expect(salt string, data []byte, size uint64) string {
	if m.ref == nil {
		h := xhash.NewFingerprint()
		h.Write(data)
		h.Resetsize(int64(size))
		return h.String()
	}
	h := m.ref()
	h.Write([]byte(salt))
	h.Write(data)
	return fmt.Sprintf("%x", h.Sum(nil))
}

func setup(g *G, size int) (t *fstest.Node, dir string, m method, salt string) {
	t = fstest.Tree(g, size, false)
	if g.OneIn(3) { // some equal files
		i := 0
		t.Walk("", func(_ string, n *fstest.Node) {
			if n.Kind == 'f' && i%2 == 0 {
				n.Data = []byte("same")
			}
			i++
		})
	}
	if g.OneIn(12) {
		t.Subs = append(t.Subs, &fstest.Node{Name: "big", Kind: 'f', Data: g.Rng().Bytes(g.Big(30000, 1200000))})
	}
	if g.OneIn(250) {
		fstest.Wide(g, t, 20, 3000)
	}
	if g.OneIn(40) {
		fstest.Deep(g, t, 40)
	}
	dir = fstest.Dir() + "/r"
	if err := os.Mkdir(dir, 0755); err != nil {
		panic(err)
	}
	t.Write(dir)
	m = Pick(g, methods)
	if m.ref != nil && g.Bool() {
		salt = string(g.Data(8, 5000))
	}
	g.Logf("tree %s, %s, salt %q", t.Show(), m.name, salt)
	n, deep := 0, false
	t.Walk("", func(p string, x *fstest.Node) { n++; deep = deep || x.Kind == 'd' && len(x.Subs) > 0 })
	if n >= 5 && deep {
		g.NonTrivial()
	}
	return
}

func size(n *fstest.Node) (s uint64) {
	s = uint64(len(n.Data))
	for _, c := range n.Subs {
		s += size(c)
	}
	return
}

func val(n *fs.FileHashTreeNode) fs.FileHash { return n.All()[0] }

func verify(g *G, m method, salt string, path string, t *fstest.Node, got *fs.FileHashTreeNode) {
	v := val(got)
	if v.Path != path || v.Size.N() != size(t) || v.IsDir != (t.Kind == 'd') {
		g.Fatalf("the node of %q (%d bytes, directory %v) is %+v", path, size(t), t.Kind == 'd', v)
	}
	if len(got.Children()) != len(t.Subs) || got.NumChildren() != len(t.Subs) {
		g.Fatalf("%q has %d entries, its node %d", path, len(t.Subs), len(got.Children()))
	}
	if t.Kind == 'f' {
		if want := m.expect(salt, t.Data, size(t)); v.Hash != want {
			g.Fatalf("%s of the file %q is %s, not %s", m.name, path, v.Hash, want)
		}
		return
	}
	var all []byte
	byPath := map[string]*fs.FileHashTreeNode{}
	for _, c := range got.Children() {
		byPath[val(c).Path] = c
		all = append(all, val(c).Hash...)
	}
	for _, s := range t.Subs {
		c := byPath[path+"/"+s.Name]
		if c == nil {
			g.Fatalf("%q has no node for %q", path, s.Name)
		}
		verify(g, m, salt, path+"/"+s.Name, s, c)
	}
	if want := m.expect(salt, all, size(t)); v.Hash != want {
		g.Fatalf("%s of the directory %q is %s, that of its children's hashes is %s", m.name, path, v.Hash, want)
	}
}

func tree(g *G) {
	t, dir, m, salt := setup(g, 8)
	defer fstest.Drop(dir[:len(dir)-2])
	n, err := m.of(dir, salt)
	g.Check(err == nil && n != nil, "%s: %v", m.name, err)
	verify(g, m, salt, dir, t, n)
	fstest.NoneOpen(g, dir)
	again, err := m.of(dir, salt)
	g.Check(err == nil && val(again) == val(n), "%s of the same tree: %v, then %v", m.name, val(n), val(again))

	if v, err := m.of(dir+"/.//", salt); err != nil || val(v) != val(n) {
		g.Fatalf("%s of the same tree written as %q: %v, %v, not %v", m.name, dir+"/.//", val(v), err, val(n))
	}
	if g.OneIn(3) { // a link to a file stands for the file's content
		var files []string
		t.Walk(dir, func(p string, x *fstest.Node) {
			if x.Kind == 'f' {
				files = append(files, p)
			}
		})
		if len(files) > 0 {
			l := fstest.Dir()
			defer fstest.Drop(l)
			f := Pick(g, files)
			if err := os.Symlink(f, l+"/link"); err != nil {
				panic(err)
			}
			x, err1 := m.of(f, salt)
			y, err2 := m.of(l+"/link", salt)
			g.Check(err1 == nil && err2 == nil && val(x).Hash == val(y).Hash && val(x).Size == val(y).Size && !val(y).IsDir && val(y).Path == l+"/link",
				"%s of a file: %v, %v; of a link to it: %v, %v", m.name, val(x), err1, val(y), err2)
		}
	}

	if g.OneIn(3) { // links in the tree stand for what they lead to, too
		var all []string
		t.Walk(dir, func(p string, x *fstest.Node) { all = append(all, p) })
		if len(all) > 0 {
			k := g.N(len(all))
			out := fstest.Dir()
			defer fstest.Drop(out)
			if err := os.Rename(all[k], out+"/x"); err != nil {
				panic(err)
			}
			if err := os.Symlink(out+"/x", all[k]); err != nil {
				panic(err)
			}
			g.Logf("%s is moved away, with a link in its place", all[k])
			x, err := m.of(dir, salt)
			g.Check(err == nil, "%s with a link for %q: %v", m.name, all[k], err)
			verify(g, m, salt, dir, t, x)
			g.Check(val(x) == val(n), "%s is %v, with a link for %q it is %v", m.name, val(n), all[k], val(x))
			if err := os.Remove(all[k]); err != nil {
				panic(err)
			}
			if err := os.Rename(out+"/x", all[k]); err != nil {
				panic(err)
			}
		}
	}

	// other names, other order
	i := 0
	var rename func(x *fstest.Node) *fstest.Node
	rename = func(x *fstest.Node) *fstest.Node {
		y := &fstest.Node{Name: fmt.Sprintf("n%d", 9000-i), Kind: x.Kind, Data: x.Data}
		i++
		for _, k := range g.Perm(len(x.Subs)) {
			y.Subs = append(y.Subs, rename(x.Subs[k]))
		}
		return y
	}
	u := rename(t)
	other := fstest.Dir()
	defer fstest.Drop(other)
	u.Write(other)
	v, err := m.of(other, salt)
	if err != nil || val(v).Hash != val(n).Hash {
		g.Fatalf("%s of the tree is %v, under other names and in other order %v (%v)", m.name, val(n), val(v), err)
	}
	for _, p := range []string{dir + "/no/where", dir + "nowhere"} {
		_, err := m.of(p, salt)
		g.Check(err != nil, "%s of nothing succeeds", m.name)
	}
}

func change(g *G) {
	t, dir, m, salt := setup(g, 8)
	defer fstest.Drop(dir[:len(dir)-2])
	if m.name == "crc32" { // equal by chance too often
		m = methods[1]
	}
	n, err := m.of(dir, salt)
	g.Check(err == nil, "%s: %v", m.name, err)
	var dirs, files []string
	dirs = append(dirs, dir)
	byPath := map[string]*fstest.Node{}
	t.Walk(dir, func(p string, x *fstest.Node) {
		byPath[p] = x
		if x.Kind == 'd' {
			dirs = append(dirs, p)
		} else {
			files = append(files, p)
		}
	})
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	what := ""
	switch k := g.N(4); {
	case k < 2 && len(files) > 0:
		f := Pick(g, files)
		b := append([]byte(nil), byPath[f].Data...)
		switch {
		case len(b) > 0 && g.Bool():
			b[g.N(len(b))] ^= byte(1 << uint(g.N(8)))
			what = "a bit of "
		case len(b) > 0 && g.Bool():
			b = b[:len(b)-1]
			what = "the last byte less of "
		default:
			b = append(b, byte(g.N(256)))
			what = "a byte more of "
		}
		what += f
		must(os.WriteFile(f, b, 0644))
	case k == 2 && len(files) > 0:
		f := Pick(g, files)
		what = "without " + f
		must(os.Remove(f))
	case k == 3 || len(files) == 0:
		d := Pick(g, dirs)
		if g.Bool() {
			what = "a file more in " + d
			must(os.WriteFile(d+"/new", g.Bytes(20), 0644))
		} else {
			what = "a directory more in " + d
			must(os.Mkdir(d+"/new", 0755))
		}
	default:
		g.Discard()
	}
	g.Logf("changed: %s", what)
	v, err := m.of(dir, salt)
	g.Check(err == nil, "%s: %v", m.name, err)
	if val(v).Hash == val(n).Hash {
		g.Fatalf("%s does not change: %s", m.name, what)
	}
	if m.ref != nil {
		w, err := m.of(dir, salt+"!")
		g.Check(err == nil && val(w).Hash != val(v).Hash, "%s with another salt is the same", m.name)
	}
}

func unreadable(g *G) {
	t, dir, m, salt := setup(g, 8)
	defer fstest.Drop(dir[:len(dir)-2])
	var all []string
	t.Walk(dir, func(p string, x *fstest.Node) { all = append(all, p) })
	if len(all) == 0 {
		g.Discard()
	}
	locked := Pick(g, all)
	if err := os.Chmod(locked, 0); err != nil {
		panic(err)
	}
	g.Logf("locked %s", locked)
	ok := fstest.Unprivileged(func() {
		n, err := m.of(dir, salt)
		if err == nil {
			g.Fatalf("%s of a tree in which %q cannot be read is %v", m.name, locked, val(n))
		}
	})
	os.Chmod(locked, 0755)
	fstest.NoneOpen(g, dir)
	if !ok {
		g.Label("could not drop privileges")
	}
}

// a file that opens but cannot be read
func faulty(g *G) {
	const bad = "/proc/self/mem" // nothing is mapped at its start
	f, err := os.Open(bad)
	if err == nil {
		_, err = f.Read(make([]byte, 1))
		f.Close()
		if err != nil && err != io.EOF {
			err = nil
		} else {
			err = io.EOF
		}
	}
	if err != nil {
		g.Label("no file that fails when read")
		g.Discard()
	}
	t, dir, m, salt := setup(g, 8)
	defer fstest.Drop(dir[:len(dir)-2])
	var all []string
	t.Walk(dir, func(p string, x *fstest.Node) { all = append(all, p) })
	if len(all) == 0 {
		g.Discard()
	}
	at := Pick(g, all)
	if err := os.RemoveAll(at); err != nil {
		panic(err)
	}
	if err := os.Symlink(bad, at); err != nil {
		panic(err)
	}
	g.Logf("%s fails when read", at)
	n, err := m.of(dir, salt)
	if err == nil {
		g.Fatalf("%s of a tree in which reading %q fails is %v", m.name, at, val(n))
	}
	fstest.NoneOpen(g, dir)
	n, err = m.of(at, salt)
	if err == nil {
		g.Fatalf("%s of %q, which fails when read, is %v", m.name, at, val(n))
	}
}

// files of a size that 32 bits do not count
func sizes(g *G) {
	t := fstest.Tree(g, 5, false)
	dir := fstest.Dir() + "/r"
	defer fstest.Drop(dir[:len(dir)-2])
	if err := os.Mkdir(dir, 0755); err != nil {
		panic(err)
	}
	t.Write(dir)
	huge := map[*fstest.Node]uint64{}
	t.Walk(dir, func(p string, n *fstest.Node) {
		if n.Kind == 'f' && len(huge) < 2 {
			huge[n] = uint64(len(n.Data))
			if g.Bool() {
				huge[n] = 1<<32 + uint64(g.N(100000)) - 50000
			} else if g.Bool() {
				huge[n] = 1<<31 + uint64(g.N(100000)) - 50000
			}
			if !fstest.Extend(p, int64(huge[n])) {
				g.Label("no sparse files")
				g.Discard()
			}
		}
	})
	g.Logf("tree %s", t.Show())
	for _, s := range huge {
		g.Logf("of %d bytes", s)
		if s > 1<<20 {
			g.NonTrivial()
		}
	}
	var total func(n *fstest.Node) uint64
	total = func(n *fstest.Node) uint64 {
		s := uint64(len(n.Data))
		if h, ok := huge[n]; ok {
			s = h
		}
		for _, c := range n.Subs {
			s += total(c)
		}
		return s
	}
	m := fs.NONE
	if total(t) < 5<<30 && g.OneIn(8) {
		m = fs.CRC32
	}
	got, err := fs.FilePath(dir).Hash(m, "")
	g.Check(err == nil, "%v", err)
	nodes := map[string]fs.FileHash{}
	for _, v := range got.All() {
		nodes[v.Path] = v
	}
	check := func(p string, n *fstest.Node) {
		v, ok := nodes[p]
		g.Check(ok && v.Size.N() == total(n) && v.IsDir == (n.Kind == 'd'), "the node of %q (%d bytes, directory %v) is %+v, %d bytes", p, total(n), n.Kind == 'd', v, v.Size.N())
	}
	check(dir, t)
	t.Walk(dir, check)
}
