package pbt

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Check is one executable statement of (a part of) a property.
type Check struct {
	Name            string
	Quick, Thorough int // number of random cases
	Enum, EnumThor  int // number of systematically enumerated cases
	All, AllThor    int // every value below it of the first choice is run, the rest being 0
	Fn              func(g *G)
	// Race asks for the race detector: the case runs threads of its own, and
	// two accesses to the same memory that nothing orders make it fail.
	Race bool
}

// Spec is a property: its checks and what counts as a non-trivial case.
type Spec struct {
	Prop   string
	Rule   string
	Checks []Check
	// Final runs once at the end of a worker (shard 0), e.g. for one-way
	// process-global states; it may not draw choices.
	Final func(g *G)
	// Finals is the number of variants of Final, 1 if it is 0: shard i runs
	// the one in which the first choice is i.
	Finals int
	// Serial asks for a single shard (process-global state, timing).
	Serial bool
	// Assume lists what the check trusts.
	Assume []string
}

type caseFailure struct {
	Check   string   `json:"check"`
	Message string   `json:"message"`
	Choices []uint64 `json:"choices"`
	Trace   []string `json:"trace"`
	Kind    string   `json:"kind"` // "violation", "panic"
}

type result struct {
	Evals      int                       `json:"evals"`
	Discards   int                       `json:"discards"`
	NonTrivial int                       `json:"nontrivial"`
	PerCheck   map[string]map[string]int `json:"per_check"`
	Labels     map[string]int            `json:"labels"`
	Samples    []map[string]interface{}  `json:"samples"`
	Failure    *caseFailure              `json:"failure"`
	Rule       string                    `json:"rule"`
	Serial     bool                      `json:"serial"`
}

const choiceBudget = 1 << 18

// progress of the worker, in a shared mapping the driver can read after a crash
type progress struct {
	mem []byte
}

func (p *progress) set(i int, v uint64) {
	if p.mem != nil && (i+1)*8 <= len(p.mem) {
		binary.LittleEndian.PutUint64(p.mem[i*8:], v)
	}
}

func openProgress(path string, size int) *progress {
	p := &progress{}
	if path == "" {
		return p
	}
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		fatal("progress file: %v", err)
	}
	defer f.Close()
	if err = f.Truncate(int64(size)); err != nil {
		fatal("progress file: %v", err)
	}
	if p.mem, err = syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err != nil {
		fatal("progress file: %v", err)
	}
	return p
}

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "worker error: "+format+"\n", a...)
	os.Exit(2)
}

type outcome struct {
	fail    *caseFailure
	disc    bool
	long    bool
	g       *G
	choices []uint64
}

func runCase(c *Check, g *G) (o outcome) {
	g.labels = map[string]int{}
	if g.budget == 0 {
		g.budget = choiceBudget
	}
	o.g = g
	defer func() {
		if r := recover(); r != nil {
			cf := &caseFailure{Check: c.Name, Kind: "violation"}
			switch x := r.(type) {
			case failure:
				cf.Message = x.msg
			case discard:
				o.disc = true
				return
			case tooLong:
				o.long = true
				return
			default:
				cf.Kind = "panic"
				cf.Message = fmt.Sprintf("panic: %v\n%s", r, cleanStack(debug.Stack()))
			}
			o.fail = cf
		}
		o.choices = make([]uint64, len(g.rec))
		for i, x := range g.rec {
			o.choices[i] = x.v
		}
		if o.fail != nil {
			o.fail.Choices, o.fail.Trace = o.choices, g.trace
		}
	}()
	atomic.AddInt64(&caseNo, 1)
	n := raceErrors()
	c.Fn(g)
	if raceErrors() > n {
		panic(failure{"threads access the same memory at the same time, unordered\n" + raceReport()})
	}
	return
}

func cleanStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

var caseNo int64

func replay(c *Check, ch []uint64, tracing bool) outcome {
	return runCase(c, &G{in: ch, tracing: tracing})
}

// shrink looks for a smaller failing choice sequence.
func shrink(c *Check, first outcome) outcome {
	best := first
	deadline := time.Now().Add(25 * time.Second) // only bounds the effort spent on a smaller example
	tries := 0
	try := func(ch []uint64) bool {
		tries++
		if tries > 6000 || time.Now().After(deadline) {
			return false
		}
		o := replay(c, ch, false)
		if o.fail == nil || !smaller(o.choices, best.choices) {
			return false
		}
		best = o
		return true
	}
	for improved := true; improved && tries < 6000 && time.Now().Before(deadline); {
		improved = false
		// drop whole spans, large first
		spans := append([]span(nil), best.g.spans...)
		sort.Slice(spans, func(i, j int) bool { return spans[i].hi-spans[i].lo > spans[j].hi-spans[j].lo })
		for _, s := range spans {
			if s.hi > len(best.choices) || s.hi <= s.lo {
				continue
			}
			ch := append(append([]uint64(nil), best.choices[:s.lo]...), best.choices[s.hi:]...)
			if try(ch) {
				improved = true
				break
			}
		}
		if improved {
			continue
		}
		for size := len(best.choices) / 2; size >= 1; size /= 2 {
			for lo := len(best.choices) - size; lo >= 0; lo -= size {
				if lo+size > len(best.choices) {
					continue
				}
				ch := append(append([]uint64(nil), best.choices[:lo]...), best.choices[lo+size:]...)
				if try(ch) {
					improved = true
				}
			}
		}
		for i := 0; i < len(best.choices); i++ {
			for best.choices[i] != 0 {
				v := best.choices[i]
				done := true
				for _, w := range []uint64{0, v / 2, v - 1} {
					if w >= v {
						continue
					}
					ch := append([]uint64(nil), best.choices...)
					ch[i] = w
					if try(ch) {
						improved, done = true, false
						break
					}
				}
				if done || i >= len(best.choices) {
					break
				}
			}
		}
	}
	return replay(c, best.choices, true)
}

func smaller(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func hashChoices(name string, ch []uint64) uint64 {
	h := fnv.New64a()
	h.Write([]byte(name))
	var b [8]byte
	for _, v := range ch {
		binary.LittleEndian.PutUint64(b[:], v)
		h.Write(b[:])
	}
	return h.Sum64()
}

// advance turns the choices of an enumerated case into the prefix of the next
// one; nil when the space is exhausted.
func advance(rec []choice) []uint64 {
	for i := len(rec) - 1; i >= 0; i-- {
		n := rec[i].n
		if n == 0 || n > 32 { // big domains are sampled at their smallest values
			n = 4
		}
		if rec[i].v+1 < n {
			out := make([]uint64, i+1)
			for k := 0; k < i; k++ {
				out[k] = rec[k].v
			}
			out[i] = rec[i].v + 1
			return out
		}
	}
	return nil
}

// Main runs the worker of a property.
func Main(s Spec) {
	seed := flag.Uint64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	out := flag.String("out", "", "result file")
	hashes := flag.String("hashes", "", "file of hashes of distinct non-trivial cases")
	prog := flag.String("progress", "", "")
	replayFile := flag.String("replay", "", "replay file: {check, choices}")
	cpu := flag.Float64("cpu", 40, "CPU seconds a single case may take")
	info := flag.Bool("info", false, "print the spec")
	scale := flag.Float64("scale", 1, "scale the number of cases")
	flag.Parse()
	if *info {
		names, race := []string{}, []string{}
		for _, c := range s.Checks {
			names = append(names, c.Name)
			if c.Race {
				race = append(race, c.Name)
			}
		}
		json.NewEncoder(os.Stdout).Encode(map[string]interface{}{"prop": s.Prop, "rule": s.Rule, "serial": s.Serial,
			"checks": names, "race": race, "assumptions": s.Assume})
		return
	}
	go watchdog(*cpu)

	if f := os.Getenv("VGX_DICT"); f != "" {
		raw, _ := os.ReadFile(f)
		LoadDict(raw)
	}
	if *replayFile != "" {
		doReplay(s, *replayFile, *prog, *out)
		return
	}

	pg := openProgress(*prog, 1<<16)
	res := result{PerCheck: map[string]map[string]int{}, Labels: map[string]int{}, Rule: s.Rule, Serial: s.Serial}
	seen := map[uint64]struct{}{}
	finish := func() {
		res.NonTrivial = len(seen)
		if *hashes != "" {
			buf := make([]byte, 0, len(seen)*8)
			for h := range seen {
				buf = binary.LittleEndian.AppendUint64(buf, h)
			}
			if err := os.WriteFile(*hashes, buf, 0644); err != nil {
				fatal("%v", err)
			}
		}
		b, err := json.Marshal(res)
		if err == nil {
			err = os.WriteFile(*out, b, 0644)
		}
		if err != nil {
			fatal("%v", err)
		}
		os.Exit(0)
	}
	account := func(c *Check, o outcome, how string) bool {
		pc := res.PerCheck[c.Name]
		if pc == nil {
			pc = map[string]int{}
			res.PerCheck[c.Name] = pc
		}
		if o.disc || o.long {
			res.Discards++
			pc["discarded"]++
			return true
		}
		res.Evals++
		pc[how]++
		for k := range o.g.labels {
			res.Labels[c.Name+": "+k]++
		}
		if o.fail != nil {
			f := shrink(c, o)
			if f.fail == nil {
				// did not fail again: the failure is not a function of the case
				f = o
				f.fail.Message += "\n(not reproduced on replay)"
				f.fail.Kind = "flaky"
			}
			res.Failure = f.fail
			return false
		}
		if o.g.nontrivial {
			pc["nontrivial"]++
			if len(seen) < 400000 {
				seen[hashChoices(c.Name, o.choices)] = struct{}{}
			}
			if *shard == 0 && how == "random" && pc["samples"] < 2 && pc["nontrivial"] > 3 {
				pc["samples"]++
				t := replay(c, o.choices, true)
				tr := t.g.trace
				if len(tr) > 40 {
					tr = append(append([]string(nil), tr[:40]...), fmt.Sprintf("... %d more lines", len(t.g.trace)-40))
				}
				res.Samples = append(res.Samples, map[string]interface{}{"check": c.Name, "trace": tr})
			}
		}
		return true
	}

	for ci := range s.Checks {
		c := &s.Checks[ci]
		if c.Race != RaceOn {
			continue
		}
		nRandom, nEnum, all := c.Quick, c.Enum, c.All
		if *tier == "thorough" {
			nRandom, nEnum, all = c.Thorough, c.EnumThor, c.AllThor
		}
		nRandom, nEnum = int(float64(nRandom)**scale), int(float64(nEnum)**scale)
		// systematic enumeration: one shard does all of a check, as each case
		// is found from what the one before it drew
		if ci%*shards == *shard {
			for depth := 1; depth <= 8 && nEnum > 0; depth++ {
				ec := enumCheck(c, depth)
				prefix, vary := []uint64{}, false
				for nEnum > 0 && prefix != nil {
					nEnum--
					pg.set(0, uint64(ci))
					pg.set(1, uint64(depth))
					pg.set(2, uint64(len(prefix)))
					for k, v := range prefix {
						pg.set(3+k, v)
					}
					o := runCase(ec, &G{in: prefix})
					if !account(ec, o, "enumerated") {
						finish()
					}
					vary = vary || o.g.stepped
					prefix = advance(o.g.rec)
				}
				if prefix == nil {
					res.Labels[c.Name+": all cases enumerated at depth "+strconv.Itoa(depth)] = 1
				}
				if !vary { // depth makes no difference
					break
				}
			}
		}
		for i := *shard; i < all; i += *shards {
			ec := enumCheck(c, 1)
			pg.set(0, uint64(ci))
			pg.set(1, 1)
			pg.set(2, 1)
			pg.set(3, uint64(i))
			if !account(ec, runCase(ec, &G{in: []uint64{uint64(i)}}), "swept") {
				finish()
			}
		}
		for i := *shard; i < nRandom; i += *shards {
			pg.set(0, uint64(ci))
			pg.set(1, 0)
			pg.set(2, uint64(i))
			if !account(c, runCase(c, &G{fresh: true, rng: caseSeed(*seed, c.Name, i)}), "random") {
				finish()
			}
		}
	}
	if s.Final != nil && *shard < max(1, s.Finals) && !RaceOn {
		c := &Check{Name: "final", Fn: s.Final}
		pg.set(0, uint64(len(s.Checks)))
		if !account(c, runCase(c, &G{in: []uint64{uint64(*shard)}}), "final") {
			finish()
		}
	}
	finish()
}

func enumCheck(c *Check, depth int) *Check {
	return &Check{Name: c.Name + "#enum" + strconv.Itoa(depth), Fn: func(g *G) { g.enum = depth; c.Fn(g) }}
}

func caseSeed(seed uint64, name string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, name, i)
	return h.Sum64()
}

type replayReq struct {
	Check   string   `json:"check"`
	Choices []uint64 `json:"choices"`
	// alternatively: the i-th random case of a seed
	Index *int    `json:"index"`
	Seed  *uint64 `json:"seed"`
}

func doReplay(s Spec, file, prog, out string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var rq replayReq
	if err = json.Unmarshal(b, &rq); err != nil {
		fatal("%v", err)
	}
	name, enum := rq.Check, 0
	if i := strings.Index(name, "#enum"); i >= 0 {
		enum, _ = strconv.Atoi(name[i+5:])
		name = name[:i]
	}
	checks := s.Checks
	if s.Final != nil {
		checks = append(checks, Check{Name: "final", Fn: s.Final})
	}
	for i := range checks {
		if c := &checks[i]; c.Name == name {
			g := &G{in: rq.Choices, enum: enum, tracing: true}
			if rq.Index != nil {
				g.fresh, g.rng = true, caseSeed(*rq.Seed, name, *rq.Index)
			}
			if prog != "" {
				pg := openProgress(prog, 8+8*choiceBudget)
				g.record = func(i int, v uint64) { pg.set(0, uint64(i+1)); pg.set(i+1, v) }
			}
			o := runCase(c, g)
			if out != "" {
				r := map[string]interface{}{"failure": o.fail, "trace": g.trace, "discarded": o.disc || o.long}
				jb, _ := json.Marshal(r)
				os.WriteFile(out, jb, 0644)
			}
			if o.fail != nil {
				fmt.Printf("check %s FAILS\n%s\n%s\n", rq.Check, strings.Join(g.trace, "\n"), o.fail.Message)
				os.Exit(1)
			}
			fmt.Printf("check %s holds\n", rq.Check)
			return
		}
	}
	fatal("no check %q", rq.Check)
}

// Exit codes of a worker that had to give up on a case.
const (
	exitHang    = 97 // one case burnt its CPU allowance, ran out of memory allowance, or is deadlocked
	exitUnclear = 98 // no progress, but no proof that there never will be
)

func cpuTime() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func watchdog(limit float64) {
	last, cpu0, wall0 := int64(-1), 0.0, time.Now()
	blocked := 0
	for {
		time.Sleep(200 * time.Millisecond)
		if n := atomic.LoadInt64(&caseNo); n != last {
			last, cpu0, wall0, blocked = n, cpuTime(), time.Now(), 0
			continue
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 2<<30 {
			fmt.Fprintf(os.Stderr, "HANG: a single case allocated %d MB\n", ms.HeapAlloc>>20)
			os.Exit(exitHang)
		}
		used, wall := cpuTime()-cpu0, time.Since(wall0).Seconds()
		if used > limit {
			fmt.Fprintf(os.Stderr, "HANG: a single case used %.0f s of CPU time\n", used)
			buf := make([]byte, 1<<14)
			os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			os.Exit(exitHang)
		}
		if wall > 10 && used < wall/5 {
			if allBlocked() {
				if blocked++; blocked > 50 {
					fmt.Fprintf(os.Stderr, "HANG: every goroutine of the case is blocked\n")
					buf := make([]byte, 1<<14)
					os.Stderr.Write(buf[:runtime.Stack(buf, true)])
					os.Exit(exitHang)
				}
			} else {
				blocked = 0
			}
		}
		if wall > 600 {
			fmt.Fprintf(os.Stderr, "no progress in a single case for %.0f s\n", wall)
			os.Exit(exitUnclear)
		}
	}
}

// allBlocked reports whether every goroutine but the watchdog waits on
// channels or locks, which nothing outside the process can release.
func allBlocked() bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n := 0
	for _, gr := range strings.Split(string(buf), "\n\n") {
		head := gr
		if i := strings.IndexByte(gr, '\n'); i >= 0 {
			head = gr[:i]
		}
		i, j := strings.IndexByte(head, '['), strings.IndexAny(head, ",]")
		if i < 0 || j < i {
			continue
		}
		if strings.Contains(gr, "vgx/pbt.watchdog") {
			continue
		}
		st := head[i+1 : j]
		ok := false
		for _, p := range []string{"chan receive", "chan send", "select", "sync.", "semacquire"} {
			if strings.HasPrefix(st, p) {
				ok = true
			}
		}
		if !ok {
			return false
		}
		n++
	}
	return n > 0
}
