// P39: what is done with different objects does not mix.
package main

import (
	"bytes"
	"fmt"
	stdio "io"
	"sort"
	"strings"
	stdtime "time"

	"github.com/vipally/gx/crypto"
	aes "github.com/vipally/gx/crypto/aes"
	"github.com/vipally/gx/crypto/ecb"
	"github.com/vipally/gx/crypto/rsa"
	"github.com/vipally/gx/debug"
	"github.com/vipally/gx/encoding/ini"
	"github.com/vipally/gx/errors"
	"github.com/vipally/gx/factory"
	"github.com/vipally/gx/fs"
	"github.com/vipally/gx/hash"
	"github.com/vipally/gx/io"
	"github.com/vipally/gx/math"
	"github.com/vipally/gx/math/prime"
	"github.com/vipally/gx/math/rand"
	"github.com/vipally/gx/reflect"
	"github.com/vipally/gx/stl"
	xstrings "github.com/vipally/gx/strings"
	"github.com/vipally/gx/sync"
	"github.com/vipally/gx/time"
	"github.com/vipally/gx/unsafe"
	"vgx/fstest"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P39",
		Rule: "a case is a generated set of jobs (each uses one part of the library with objects of its own, and reads objects all jobs share: a byte slice with room behind it, a directory, an INI file, factories, keys, lists, trees, other containers) run by two to four threads at once, watched by the race detector, and then again one after another: the results must be the same, the shared objects unchanged, and nothing a job was given back may change later; or the jobs are taken apart into steps and interleaved by choice in one thread, and compared likewise; non-trivial: two jobs of the same part",
		Checks: []Check{
			{Name: "threads", Quick: 700, Thorough: 40000, Fn: threads, Race: true},
			{Name: "together", Quick: 1200, Thorough: 80000, Fn: threads},
			{Name: "interleaved", Quick: 5000, Thorough: 300000, Fn: interleaved},
		},
		Assume: []string{"the race detector reports only true races"},
	})
}

// world is what all jobs of a case see and none may change
type world struct {
	in    []byte // with room behind it
	room  []byte // all of that memory
	copy  []byte
	dir   string
	conf  *ini.IniFile
	facs  *factory.FactoryS
	faci  *factory.FactoryI
	list  *stl.IntList
	slist *stl.IntSList
	tree  *stl.IntTreeNode
	slice *stl.IntSortSlice
	heap  *stl.IntHeap
	stack *stl.IntStack
	queue *stl.IntQueue
	deque *stl.IntDeque
}

// kept are results: as they were when they were returned, and a way to look at them again
type kept struct {
	was  []string
	look []func() string
	step func() // ends a step
}

func (k *kept) add(v ...interface{}) {
	f := func() string { return fmt.Sprintf("%x|%v", v, v) }
	k.was = append(k.was, f())
	k.look = append(k.look, f)
	k.step()
}

type creator string

func (c creator) Create(arg ...interface{}) interface{} { return fmt.Sprint(c, arg) }

type job struct {
	name string
	disk bool
	f    func(w *world, r *Rng, k *kept)
}

func data(w *world, r *Rng) []byte {
	switch r.N(4) {
	case 0:
		return w.in
	case 1:
		return w.in[:r.N(len(w.in)+1)]
	}
	return r.Bytes(r.N(70))
}

func word(r *Rng) string { return fmt.Sprintf("%c%d", 'a'+r.N(26), r.N(50)) }

var server *rsa.RsaServer
var client *rsa.RsaClient

func keys() {
	if server != nil {
		return
	}
	priv, pub, err := rsa.GenRsaKeys(1024)
	if err != nil {
		panic(err)
	}
	server, client = rsa.MustNewServer(priv), rsa.MustNewClient(pub)
}

var jobs = []job{
	{"padding", false, func(w *world, r *Rng, k *kept) {
		for i := 0; i < 4; i++ {
			d := data(w, r)
			n := 1 + r.N(32)
			p := crypto.PKCS5Padding(append([]byte(nil), d...), n)
			k.add(p)
			k.add(crypto.PKCS5UnPadding(p))
			k.add(crypto.ZeroPadding(d, n))
			k.add(crypto.ZeroUnPadding(d))
			k.add(crypto.PKCS5Padding(d, n))
			k.add(aes.PKCS7Padding(d, n))
			k.add(aes.PKCS7PaddingString(string(d), n))
		}
	}},
	{"aes", false, func(w *world, r *Rng, k *kept) {
		key := r.Bytes(16 + 8*r.N(3))
		e, _ := aes.NewAESEncrypter(key)
		d, _ := aes.NewAESDecrypter(key)
		for i := 0; i < 4; i++ {
			m := data(w, r)
			c := e.Encrypt(m)
			k.add(c)
			k.add(d.Decrypt(c))
			c = e.EncryptString(word(r))
			k.add(c)
			k.add(d.DecryptToString(c))
		}
	}},
	{"ecb", false, func(w *world, r *Rng, k *kept) {
		for i := 0; i < 3; i++ {
			key := r.Bytes(r.N(30))
			c, err := ecb.TripleDesEncrypt(data(w, r), key)
			k.add(c, err)
			p, err := ecb.TripleDesDecrypt(c, key)
			k.add(p, err)
		}
	}},
	{"codec", false, func(w *world, r *Rng, k *kept) {
		for i := 0; i < 3; i++ {
			d := data(w, r)
			k.add(rsa.Hash(d))
			k.add(rsa.HashString(string(d)))
			c := rsa.Encode(d)
			k.add(c)
			k.add(rsa.Decode(c))
			k.add(rsa.DecodeString(rsa.EncodeString(word(r))))
			k.add(rsa.HexStringToBytes(rsa.BytesToHexString(d)))
		}
	}},
	{"rsa", false, func(w *world, r *Rng, k *kept) {
		m := r.Bytes(r.N(60))
		c, err := client.Encrypt(m)
		k.step()
		p, err2 := server.Decrypt(c)
		k.add(p, err, err2)
		s, err := server.SignDefault(m)
		k.step()
		k.add(client.VerifyDefault(m, s), err)
	}},
	{"debug", false, func(w *world, r *Rng, k *kept) {
		for i := 0; i < 2; i++ {
			k.add(debug.Bt())
			k.add(debug.BtFileLine())
			k.add(debug.BtFunc())
			k.add(debug.CallerFunc(0))
			k.add(len(debug.CallStackList(1)) > 0)
			k.add(strings.Contains(debug.Bts(), "p39"))
			f, l := fs.FileLine()
			k.add(f, l, fs.Func())
			f, l = fs.RelateFileLine()
			k.add(f, l)
		}
	}},
	{"ini", false, func(w *world, r *Rng, k *kept) {
		var b bytes.Buffer
		for i := r.N(5); i >= 0; i-- {
			fmt.Fprintf(&b, "[%s]\n", word(r))
			for j := r.N(5); j >= 0; j-- {
				fmt.Fprintf(&b, "%s = %s\n", word(r), word(r))
			}
		}
		own := ini.Load(&b)
		k.step()
		for _, c := range []*ini.IniFile{own, w.conf} {
			s := c.Sections()
			k.step()
			sort.Strings(s)
			for _, x := range s {
				keys := c.Keys(x)
				k.step()
				sort.Strings(keys)
				for _, y := range keys {
					k.add(x, y, c.GetString(x, y, "?"))
				}
			}
			k.add(c.GetString("none", word(r), "default"))
		}
	}},
	{"factory", false, func(w *world, r *Rng, k *kept) {
		s, n := factory.NewFactoryS(), factory.NewFactoryI()
		for i := 0; i < 10; i++ {
			a, b := word(r), r.N(9)
			switch r.N(4) {
			case 0:
				s.RemoveCreater(a)
				n.RemoveCreater(b)
			default:
				s.AddCreater(a, creator(word(r)))
				n.AddCreater(b, creator(word(r)))
			}
			k.add(s.Create(a, i), n.Create(b, i, a))
			k.add(w.facs.Create(a, i), w.faci.Create(b, i, a))
			k.add(factory.Create(a, i))
		}
	}},
	{"hash", false, func(w *world, r *Rng, k *kept) {
		for i := 0; i < 3; i++ {
			m := hash.HashMethod(1 + r.N(7))
			h := m.New()
			for j := r.N(4); j >= 0; j-- {
				n, err := h.Write(data(w, r))
				k.add(n, err)
			}
			k.add(h.Sum(nil))
			k.add(m.StringHash(word(r)), m.StringHashL(word(r)))
			h.Reset()
			h.Write(data(w, r))
			k.add(h.Sum(nil))
		}
		f := hash.NewFingerprint()
		f.Write(data(w, r))
		k.add(f.String())
		k.add(f.Sum(nil))
	}},
	{"copy", false, func(w *world, r *Rng, k *kept) {
		for i := 0; i < 2; i++ {
			d := r.Bytes(r.N(100))
			if r.N(4) == 0 {
				d = r.Bytes(30000 + r.N(10000))
			}
			out := make([]bytes.Buffer, r.N(4))
			var ws []stdio.Writer
			for j := range out {
				ws = append(ws, stepWriter{&out[j], k})
			}
			var n int64
			var err error
			src := stepReader{bytes.NewReader(d), k, r}
			if r.N(2) == 0 {
				n, err = io.Copys(src, ws...)
			} else {
				n, err = io.CopysBuffer(src, make([]byte, 1+r.N(50)), ws...)
			}
			k.add(n, err)
			for j := range out {
				k.add(bytes.Equal(out[j].Bytes(), d))
			}
		}
	}},
	{"numbers", false, func(w *world, r *Rng, k *kept) {
		a, _ := math.NewRangeUint32(5, 1, 1000)
		b, _ := math.NewRangeUInt64(5, 1, 1000)
		for i := 0; i < 10; i++ {
			x := r.N(40)
			switch r.N(5) {
			case 0:
				v, e := a.Add(uint32(x))
				u, f := b.Add(uint64(x))
				k.add(v, e, u, f)
			case 1:
				v, e := a.Sub(uint32(x))
				u, f := b.Sub(uint64(x))
				k.add(v, e, u, f)
			case 2:
				v, e := a.Mul(uint32(x))
				u, f := b.Mul(uint64(x))
				k.add(v, e, u, f)
			case 3:
				v, e := a.Inc()
				u, f := b.Inc()
				k.add(v, e, u, f)
			case 4:
				v, e := a.Set(uint32(x * x))
				u, f := b.Set(uint64(x * x))
				k.add(v, e, u, f)
			}
			k.add(a.String(), a.Info(), b.Info())
			k.add(math.Uint64(r.U64() >> uint(r.N(64))).CommaString())
			bit, err := math.GetBit(uint32(r.U64()), uint32(r.N(34)))
			k.add(bit, err)
			n := uint32(r.U64() >> uint(32+r.N(32)))
			k.add(prime.IsPrime(n), prime.SqrtUint32(n))
		}
	}},
	{"rand", false, func(w *world, r *Rng, k *kept) {
		a, b := rand.NewRand32S(uint32(r.U64())), rand.NewRand64S(r.U64())
		for i := 0; i < 10; i++ {
			k.add(a.Rand(), b.Rand())
			k.add(a.RandMax(10), b.RandMax(10))
			k.add(a.RandRange(5, 9), b.RandRange(9, 5))
			k.add(a.Seed(), b.Seed())
			if r.N(4) == 0 {
				a.Srand(uint32(i + 1))
				b.Srand(uint64(i + 1))
			}
			if x := rand.RandRange32(3, 7); x < 3 || x > 7 {
				k.add(x)
			}
			if x := rand.RandMax64(7); x > 6 {
				k.add(x)
			}
			n := r.N(20)
			k.add(len(xstrings.Rand(xstrings.RULE_NONE, n)) == n)
		}
	}},
	{"types", false, func(w *world, r *Rng, k *kept) {
		vals := []interface{}{1, "a", 2.5, uint8(3), []int{1}, creator("x"), stdtime.Second}
		for i := 0; i < 6; i++ {
			a, b := vals[r.N(len(vals))], vals[r.N(len(vals))]
			k.add(reflect.IsSameType(a, b), reflect.Kind(a), reflect.IsCmpableInnterType(b))
			k.add(fmt.Sprintf("%T", reflect.New(a)))
			p := reflect.New(0).(*int)
			*p += i + 1
			k.add(*p)
		}
	}},
	{"views", false, func(w *world, r *Rng, k *kept) {
		for i := 0; i < 5; i++ {
			d := r.Bytes(r.N(40))
			s := string(d)
			k.add([]byte(unsafe.StringBytes(s)))
			k.add(string(unsafe.BytesString(w.in)))
			k.add(string(unsafe.BytesString(d)))
		}
	}},
	{"durations", false, func(w *world, r *Rng, k *kept) {
		for i := 0; i < 8; i++ {
			d := time.Duration(r.U64() >> uint(1+r.N(60)))
			s := d.String()
			k.add(s)
			e, err := time.ParseDuration(s)
			k.add(int64(e), err)
			_, err = time.ParseDuration(word(r))
			k.add(err)
		}
	}},
	{"errors", false, func(w *world, r *Rng, k *kept) {
		for i := 0; i < 5; i++ {
			s := word(r)
			e := errors.NewError("%s %d", s, i)
			k.add(e)
			x := errors.StdErr(e)
			k.add(x.Error(), x.Id())
			k.add(errors.StdErr(fmt.Errorf("plain %s", s)).Error())
		}
	}},
	{"texts", false, func(w *world, r *Rng, k *kept) {
		for i := 0; i < 5; i++ {
			k.add(fs.FileSize(r.U64() >> uint(r.N(64))).String())
			p := "/" + word(r) + "/../" + word(r) + "//./" + word(r) + ".x"
			o := fs.FilePath(p)
			k.add(o.String(), o.Base(), o.Dir(), o.Ext())
			k.add(o.SplitAll())
			k.add(o.SplitList())
			k.add(o.Joins(word(r), word(r)), o.Join(word(r)), o.StringSys())
			k.add(o.Relate("/" + word(r)).String())
			k.add(fs.FormatPath(p), fs.RelatePath(p, "/"+word(r)))
			k.add(fs.GoPath(), fs.WorkPath(), fs.TempDir())
			m, err := o.Match("*" + word(r) + "*")
			k.add(m, err)
			dir, f := o.Split()
			k.add(dir, f)
			a, err := fs.FilePath(word(r)).Abs()
			k.add(a, err)
			o.Set(word(r))
			k.add(o.String())
		}
	}},
	{"directory", true, func(w *world, r *Rng, k *kept) {
		d := fs.FilePath(w.dir)
		opts := []fs.FsOption{fs.FsAll, fs.FsFile, fs.FsDir, fs.FsDeep | fs.FsFile, fs.FsAll | fs.FsDeep | fs.FsFullPath, fs.FsDir | fs.FsLeaf}
		for i := 0; i < 2; i++ {
			l, err := fs.CollectSubs(w.dir, opts[r.N(len(opts))])
			k.step()
			sort.Strings(l)
			k.add(l, err)
			nd, nf, size, info := d.Statistic()
			k.add(nd, nf, size, info)
			n := 0
			err = d.Walk(func(path string, i fs.FileInfo, err error) error { n++; k.step(); return err })
			k.add(n, err)
			st, err := d.Stat()
			k.add(st.IsDir(), err)
			m := hash.HashMethod(1 + r.N(7))
			t, err := d.Hash(m, word(r))
			k.step()
			k.add(show(t), err)
			t, err = d.Fingerprint()
			k.step()
			k.add(show(t), err)
		}
	}},
	{"lists", false, func(w *world, r *Rng, k *kept) {
		a, b := stl.NewIntList(), stl.NewIntSList()
		for i := 0; i < 12; i++ {
			x := r.N(100)
			switch r.N(6) {
			case 0, 1:
				a.PushBack(x)
				b.PushFront(x)
			case 2:
				a.PushFront(x)
				b.PushFront(x)
			case 3:
				u, ok := a.PopFront()
				v, ok2 := b.PopFront()
				k.add(u, ok, v, ok2)
			case 4:
				a.Reverse()
				b.Reverse()
			case 5:
				a.Sort()
				b.Sort()
			}
			k.step()
		}
		for _, l := range []*stl.IntList{a, w.list} {
			v := l.Visitor()
			for v.Next() {
				k.add(v.Get().Get())
			}
			k.add(l.Empty(), l.IsValidNode(w.list.Front()))
		}
		for _, l := range []*stl.IntSList{b, w.slist} {
			k.add(l.Len(), l.Empty(), l.HasCycle(l.Front()))
			v := l.Visitor()
			for v.Next() {
				k.add(v.Get().Get())
			}
		}
	}},
	{"tree", false, func(w *world, r *Rng, k *kept) {
		var n stl.IntTreeNode
		for i := 0; i < 8; i++ {
			c := n.AddChild(r.N(50), r.N(i+1))
			k.step()
			if c != nil {
				c.AddChild(r.N(50), 0)
				c.AddChild(r.N(50), 0)
				c.SortChildren()
			}
			k.step()
		}
		n.SortChildren()
		k.add(n.All())
		k.add(w.tree.All())
		for _, x := range []*stl.IntTreeNode{&n, w.tree} {
			v := x.Visitor()
			for v.Next() {
				k.add(v.Get())
			}
			for v.Prev() {
				k.add(v.Get())
			}
			for i := 0; i < x.NumChildren(); i++ {
				c, ok := x.GetChild(i)
				k.add(c.NumChildren(), ok)
			}
		}
		k.add(fmt.Sprint(stl.CreateCmpInt("Greater"), stl.CreateCmpInt("Lesser")))
	}},
	{"buffers", false, func(w *world, r *Rng, k *kept) {
		s, q, d := stl.NewGOGPStackNamePrefixStack(r.N(5)), stl.NewGOGPQueueNamePrefixQueue(r.N(5)), stl.NewGOGPDequeNamePrefixDeque(r.N(5))
		for i := 0; i < 20; i++ {
			x := r.N(100)
			switch r.N(5) {
			case 0, 1, 2:
				s.Push(x)
				q.Push(x)
				d.PushBack(x)
				d.PushFront(x)
			case 3:
				a, ok1 := s.Pop()
				b, ok2 := q.Pop()
				c, ok3 := d.PopBack()
				k.add(a, ok1, b, ok2, c, ok3)
			case 4:
				q.Shrink()
				d.Shrink()
				if r.N(8) == 0 {
					s.Clear()
					q.Clear()
					d.Clear()
				}
			}
			k.step()
		}
		for !s.Empty() {
			a, ok := s.Pop()
			k.add(a, ok)
		}
		for !q.Empty() {
			a, ok := q.Pop()
			k.add(a, ok)
		}
		for !d.Empty() {
			a, ok := d.PopFront()
			k.add(a, ok)
		}
		for i := 0; i < 2; i++ {
			a, ok1 := w.stack.Top()
			b, ok2 := w.queue.Front()
			c, ok3 := w.queue.Back()
			e, ok4 := w.deque.Front()
			f, ok5 := w.deque.Back()
			k.add(a, b, c, e, f, ok1, ok2, ok3, ok4, ok5, w.stack.Size(), w.queue.Size(), w.deque.Size(), w.queue.Empty())
		}
	}},
	{"order", false, func(w *world, r *Rng, k *kept) {
		s := stl.NewIntSortSlice(r.N(4))
		h := stl.NewIntHeap(r.N(4), r.N(5), r.N(2) == 0)
		o := stl.NewIntHeap(0, 0, true)
		own := make([]int, 0, 4)
		for i := 0; i < 15; i++ {
			x := r.N(100)
			s.Push(x)
			h.Push(x)
			k.step()
			own = o.PushHeap(own, x)
			k.step()
			if r.N(4) == 0 {
				a, ok := s.Remove(r.N(s.Len()))
				b, ok2 := h.Pop()
				k.add(a, ok, b, ok2)
			}
			if r.N(5) == 0 {
				s.Sort()
				k.step()
			}
		}
		s.Sort()
		for i := 0; i < s.Len(); i++ {
			a, ok := s.Get(i)
			k.add(a, ok)
		}
		for !h.Empty() {
			a, ok := h.Pop()
			k.add(a, ok)
		}
		own = o.SortHeap(own)
		k.add(own)
		for i := 0; i < w.slice.Len(); i++ {
			a, ok := w.slice.Get(i)
			k.add(a, ok, w.slice.Less(0, i))
		}
		k.add(w.slice.Buffer())
		a, ok := w.heap.Top()
		k.add(a, ok, w.heap.Size(), w.heap.CheckHeap(w.heap.Buffer()))
	}},
	{"locks", false, func(w *world, r *Rng, k *kept) {
		var a sync.SpinLock
		var b sync.RWSpinLock
		for i := 0; i < 4; i++ {
			a.Lock()
			k.step()
			a.Unlock()
			b.RLock()
			b.RLock()
			k.step()
			b.RUnlock()
			b.RUnlock()
			b.Lock()
			k.step()
			b.Unlock()
		}
		k.add("free")
	}},
}

func show(t *fs.FileHashTreeNode) string {
	if t == nil {
		return "none"
	}
	return fmt.Sprint(t.All())
}

type stepWriter struct {
	w stdio.Writer
	k *kept
}

func (s stepWriter) Write(p []byte) (int, error) {
	s.k.step()
	n, err := s.w.Write(p)
	s.k.step()
	return n, err
}

type stepReader struct {
	r   stdio.Reader
	k   *kept
	rng *Rng
}

func (s stepReader) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1+s.rng.N(len(p))]
	}
	n, err := s.r.Read(p)
	s.k.step()
	return n, err
}

func newWorld(g *G, js []int) *world {
	w := &world{}
	n := g.N(40) + 2
	w.room = g.BytesN(n + 40)
	w.copy = append([]byte(nil), w.room...)
	w.in = w.room[:n]
	for _, j := range js {
		if jobs[j].disk && w.dir == "" {
			w.dir = fstest.Dir()
			fstest.Tree(g, 6, false).Write(w.dir)
		}
		if jobs[j].name == "rsa" {
			keys()
		}
	}
	r := g.Rng()
	text := "[one]\na=1\nb=2\n[two]\nc=3\n"
	w.conf = ini.Load(strings.NewReader(text))
	w.facs, w.faci = factory.NewFactoryS(), factory.NewFactoryI()
	for i := 0; i < 9; i++ {
		w.facs.AddCreater(word(r), creator("s"))
		w.faci.AddCreater(i, creator("i"))
	}
	w.list, w.slist, w.slice = stl.NewIntList(), stl.NewIntSList(), stl.NewIntSortSlice(0)
	w.heap = stl.NewIntHeap(0, 0, true)
	w.stack, w.queue, w.deque = stl.NewGOGPStackNamePrefixStack(0), stl.NewGOGPQueueNamePrefixQueue(4), stl.NewGOGPDequeNamePrefixDeque(4)
	w.tree = &stl.IntTreeNode{}
	for i := r.N(9) + 1; i > 0; i-- {
		x := r.N(30)
		w.list.PushBack(x)
		w.slist.PushFront(x)
		w.slice.Push(x)
		w.heap.Push(x)
		w.stack.Push(x)
		w.queue.Push(x)
		w.deque.PushBack(x)
		w.tree.AddChild(x, 0).AddChild(i, 0)
	}
	w.slice.Sort()
	return w
}

func (w *world) drop() {
	if w.dir != "" {
		fstest.Drop(w.dir)
	}
}

func (w *world) same(g *G) {
	g.Check(bytes.Equal(w.room, w.copy), "a job wrote into the shared slice: %x was %x (%d bytes of it given)", w.room, w.copy, len(w.in))
}

// plan draws which jobs each thread does, and with which data
type task struct {
	job  int
	seed *Rng
}

func plan(g *G, n int) (ts [][]task, js []int) {
	one := -1
	if g.N(3) > 0 { // all threads do the same kind of job
		one = g.N(len(jobs))
		g.NonTrivial()
	}
	for i := 0; i < n; i++ {
		var l []task
		for j := 1 + g.N(2); j > 0; j-- {
			t := task{one, nil}
			if one < 0 {
				t.job = g.N(len(jobs))
			}
			if g.N(3) == 0 && len(ts) > 0 { // the very same
				t = ts[len(ts)-1][0]
				c := *t.seed
				t.seed = &c
				if one < 0 {
					g.NonTrivial()
				}
			} else {
				t.seed = g.Rng()
			}
			l = append(l, t)
			js = append(js, t.job)
			g.Logf("thread %d: %s", i, jobs[t.job].name)
			g.Label("%s", jobs[t.job].name)
		}
		ts = append(ts, l)
	}
	return
}

func (t task) run(w *world, step func()) *kept {
	k := &kept{step: step}
	r := *t.seed
	jobs[t.job].f(w, &r, k)
	return k
}

func compare(g *G, ts [][]task, got [][]*kept, w *world) {
	w.same(g)
	for i := range ts {
		for j, t := range ts[i] {
			k := got[i][j]
			for x := range k.was {
				g.Check(k.look[x]() == k.was[x], "%s (thread %d): result %d was %s when it was returned and became %s", jobs[t.job].name, i, x, k.was[x], k.look[x]())
			}
			ref := t.run(w, func() {})
			g.Check(len(ref.was) == len(k.was), "%s (thread %d): %d results, alone it has %d", jobs[t.job].name, i, len(k.was), len(ref.was))
			for x := range k.was {
				g.Check(ref.was[x] == k.was[x], "%s (thread %d): result %d is %s, alone it is %s", jobs[t.job].name, i, x, k.was[x], ref.was[x])
			}
		}
	}
	for i := range ts { // and the later calls changed nothing
		for j, t := range ts[i] {
			k := got[i][j]
			for x := range k.was {
				g.Check(k.look[x]() == k.was[x], "%s (thread %d): result %d was %s and became %s later", jobs[t.job].name, i, x, k.was[x], k.look[x]())
			}
		}
	}
	w.same(g)
}

func threads(g *G) {
	n := 2 + g.N(3)
	ts, js := plan(g, n)
	w := newWorld(g, js)
	defer w.drop()
	got := make([][]*kept, n)
	Together(n, func(i int) {
		for _, t := range ts[i] {
			got[i] = append(got[i], t.run(w, func() {}))
		}
	})
	compare(g, ts, got, w)
}

// interleaved runs the threads' jobs one step at a time, as chosen
func interleaved(g *G) {
	n := 2 + g.N(2)
	ts, js := plan(g, n)
	w := newWorld(g, js)
	defer w.drop()
	got := make([][]*kept, n)
	turn := make([]chan bool, n)
	back := make(chan interface{})
	for i := 0; i < n; i++ {
		turn[i] = make(chan bool)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					back <- fmt.Sprint(r)
				} else {
					back <- true
				}
			}()
			<-turn[i]
			for _, t := range ts[i] {
				got[i] = append(got[i], t.run(w, func() { back <- nil; <-turn[i] }))
			}
		}()
	}
	live := make([]int, n)
	for i := range live {
		live[i] = i
	}
	cur, left := 0, 0
	switches := 0
	var failed interface{}
	for len(live) > 0 {
		if left == 0 && failed == nil && switches < 200 {
			cur, left = g.N(len(live)), []int{1, 1, 2, 4, 9}[g.N(5)]
			switches++
		} else if cur >= len(live) {
			cur = 0
		}
		if left > 0 {
			left--
		}
		turn[live[cur]] <- true
		switch r := (<-back).(type) {
		case nil:
		case bool:
			live = append(live[:cur], live[cur+1:]...)
			left = 0
			cur = 0
		default:
			failed = r
			live = append(live[:cur], live[cur+1:]...)
			left = 0
			cur = 0
		}
	}
	g.Check(failed == nil, "panic: %v", failed)
	compare(g, ts, got, w)
}
