// Package core is a small stateless model checker.
//
// A check body is a deterministic function of a sequence of bounded choices
// (X.Choose).  The explorer runs the body once for every complete choice
// sequence, i.e. it enumerates the whole choice tree; a violation is
// identified, replayed and reported by its choice sequence.
package core

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// X is the context of one execution of a check body.
type X struct {
	ch  []int32 // choices taken (or forced)
	n   []int32 // number of alternatives at each choice
	pos int
	// V is set when the execution is a replay whose steps are to be described.
	V    bool
	log  []string
	ex   *explorer
	ops  int64
	tier int
}

type failure struct {
	sig string
	msg string
}

type diverged struct{ msg string }

// Choose returns a number in [0,n), every one of them in some execution.
func (x *X) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	p := x.pos
	x.pos++
	if p < len(x.ch) {
		if x.n[p] == 0 {
			x.n[p] = int32(n)
		}
		if int(x.n[p]) != n || int(x.ch[p]) >= n {
			panic(diverged{fmt.Sprintf("choice %d had %d alternatives, now %d", p, x.n[p], n)})
		}
		return int(x.ch[p])
	}
	x.ch = append(x.ch, 0)
	x.n = append(x.n, int32(n))
	return 0
}

// Bool chooses false, then true.
func (x *X) Bool() bool { return x.Choose(2) == 1 }

// Range chooses a number in lo..hi inclusive.
func (x *X) Range(lo, hi int) int { return lo + x.Choose(hi-lo+1) }

// Int chooses one of the given numbers.
func (x *X) Int(v ...int) int { return v[x.Choose(len(v))] }

// Thorough says whether the deeper bounds apply.
func (x *X) Thorough() bool { return x.tier > 0 }

// Pick returns quick or thorough according to the tier.
func (x *X) Pick(quick, thorough int) int {
	if x.tier > 0 {
		return thorough
	}
	return quick
}

// Op counts one transition: one operation of the implementation executed.
func (x *X) Op() { x.ops++ }

// Ops counts k transitions.
func (x *X) Ops(k int) { x.ops += int64(k) }

// State records a state (or input) reached, by hash, for the distinct count.
func (x *X) State(h uint64) {
	if x.ex != nil {
		x.ex.set.add(h)
	}
}

// Seen records a state and tells whether it was recorded before, for pruning.
func (x *X) Seen(h uint64) bool {
	if x.ex != nil {
		return !x.ex.set.add(h)
	}
	return false
}

// Logf describes a step in a replay; guard calls with x.V where it matters.
func (x *X) Logf(format string, a ...interface{}) {
	if x.V {
		x.log = append(x.log, fmt.Sprintf(format, a...))
	}
}

// Failf reports a violation and ends the execution.
func (x *X) Failf(format string, a ...interface{}) {
	panic(failure{"", fmt.Sprintf(format, a...)})
}

// FailSig reports a violation identified by sig (for known findings).
func (x *X) FailSig(sig string, format string, a ...interface{}) {
	panic(failure{sig, fmt.Sprintf(format, a...)})
}

// Hash of a byte string (FNV-1a with a final mix).
func Hash(parts ...[]byte) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for _, b := range p {
			h ^= uint64(b)
			h *= 1099511628211
		}
		h ^= 0x1ff
		h *= 1099511628211
	}
	return Mix(h)
}

// HashInts hashes a list of numbers.
func HashInts(v ...int) uint64 {
	h := uint64(14695981039346656037)
	for _, i := range v {
		h = Mix(h ^ uint64(i)*0x9e3779b97f4a7c15)
	}
	return Mix(h)
}

// HashStr hashes strings.
func HashStr(parts ...string) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			h ^= uint64(p[i])
			h *= 1099511628211
		}
		h ^= 0x1ff
		h *= 1099511628211
	}
	return Mix(h)
}

// Mix is a 64 bit finaliser.
func Mix(z uint64) uint64 {
	z ^= z >> 30
	z *= 0xbf58476d1ce4e5b9
	z ^= z >> 27
	z *= 0x94d049bb133111eb
	z ^= z >> 31
	return z
}

// ---- distinct state set ----

const shards = 256

type shard struct {
	mu  sync.Mutex
	tab []uint64
	cnt int
	_   [40]byte
}

type stateSet struct {
	s      [shards]shard
	max    int // per shard
	capped atomic.Bool
}

func newStateSet(max int) *stateSet { return &stateSet{max: max / shards} }

// add returns true if h is new.
func (s *stateSet) add(h uint64) bool {
	if h == 0 {
		h = 1
	}
	sh := &s.s[h>>56]
	sh.mu.Lock()
	defer sh.mu.Unlock()
	if sh.cnt*2 >= len(sh.tab) {
		nt := make([]uint64, max(256, len(sh.tab)*2))
		m := uint64(len(nt) - 1)
		for _, v := range sh.tab {
			if v != 0 {
				i := v & m
				for nt[i] != 0 {
					i = (i + 1) & m
				}
				nt[i] = v
			}
		}
		sh.tab = nt
	}
	m := uint64(len(sh.tab) - 1)
	i := h & m
	for sh.tab[i] != 0 {
		if sh.tab[i] == h {
			return false
		}
		i = (i + 1) & m
	}
	if sh.cnt >= s.max {
		s.capped.Store(true)
		return true
	}
	sh.tab[i] = h
	sh.cnt++
	return true
}

func (s *stateSet) count() int64 {
	var c int64
	for i := range s.s {
		s.s[i].mu.Lock()
		c += int64(s.s[i].cnt)
		s.s[i].mu.Unlock()
	}
	return c
}

// ---- explorer ----

type task struct {
	ch, n []int32
	base  int
}

// Violation is a failed execution.
type Violation struct {
	Prop    string   `json:"property"`
	Sub     string   `json:"sub"`
	Tier    string   `json:"tier"`
	Sig     string   `json:"sig,omitempty"`
	Msg     string   `json:"message"`
	Choices []int32  `json:"choices"`
	Log     []string `json:"log"`
	Stack   string   `json:"stack,omitempty"`
	Note    string   `json:"note,omitempty"`
}

type explorer struct {
	prop, sub string
	body      func(*X)
	tier      int
	set       *stateSet
	deadline  time.Time

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []task
	working int
	idle    atomic.Int32
	stop    atomic.Bool
	timeout atomic.Bool

	leaves atomic.Int64
	ops    atomic.Int64

	viol     []Violation
	known    map[string]int64
	diverge  atomic.Int64
	samples  [][]int32
	knownSig func(prop, sig string) bool
	beats    []beat
}

type beat struct {
	count atomic.Int64
	cur   atomic.Pointer[X]
	_     [40]byte
}

// Result of exploring one sub-check.
type Result struct {
	Sub        string
	Leaves     int64
	Ops        int64
	Exhaustive bool
	Viol       []Violation
	Known      map[string]int64
	Diverged   int64
	Samples    [][]string
	Wall       float64
	Bound      string
}

func runOne(ex *explorer, x *X) (f *failure, stack string) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case failure:
				f = &v
			case diverged:
				if ex != nil {
					ex.diverge.Add(1)
				}
				f = &failure{"diverged", "nondeterminism: " + v.msg}
			default:
				f = &failure{"", fmt.Sprintf("panic: %v", r)}
				stack = string(debug.Stack())
			}
		}
	}()
	ex.body(x)
	return nil, ""
}

// replay runs one choice sequence verbosely.
func (ex *explorer) replay(ch []int32) (*failure, []string, string) {
	x := &X{ch: append([]int32(nil), ch...), n: make([]int32, len(ch)), V: true, tier: ex.tier}
	f, st := runOne(ex, x)
	return f, x.log, st
}

func (ex *explorer) worker(id int) {
	for {
		ex.mu.Lock()
		for len(ex.queue) == 0 {
			if ex.working == 0 || ex.stop.Load() {
				ex.cond.Broadcast()
				ex.mu.Unlock()
				return
			}
			ex.idle.Add(1)
			ex.cond.Wait()
			ex.idle.Add(-1)
		}
		t := ex.queue[len(ex.queue)-1]
		ex.queue = ex.queue[:len(ex.queue)-1]
		ex.working++
		ex.mu.Unlock()
		ex.runTask(id, t)
		ex.mu.Lock()
		ex.working--
		ex.cond.Broadcast()
		ex.mu.Unlock()
	}
}

func (ex *explorer) runTask(id int, t task) {
	x := &X{ch: t.ch, n: t.n, ex: ex, tier: ex.tier}
	base := t.base
	b := &ex.beats[id]
	b.cur.Store(x)
	defer b.cur.Store(nil)
	for k := 0; ; k++ {
		if ex.stop.Load() {
			return
		}
		if k&15 == 15 && time.Now().After(ex.deadline) {
			ex.timeout.Store(true)
			ex.stop.Store(true)
			ex.mu.Lock()
			ex.cond.Broadcast()
			ex.mu.Unlock()
			return
		}
		x.pos = 0
		x.ops = 0
		f, st := runOne(ex, x)
		ex.ops.Add(x.ops)
		l := ex.leaves.Add(1)
		b.count.Add(1)
		if f != nil {
			ex.fail(f, x.ch[:min(x.pos, len(x.ch))], st)
			if x.pos > len(x.ch) {
				x.pos = len(x.ch)
			}
		} else if l == 1 || l == 1000 || l == 100000 {
			ex.mu.Lock()
			ex.samples = append(ex.samples, append([]int32(nil), x.ch[:x.pos]...))
			ex.mu.Unlock()
		}
		if ex.idle.Load() > 0 && k&3 == 3 {
			for p := base; p < x.pos; p++ {
				if x.ch[p]+1 < x.n[p] {
					nt := task{ch: append([]int32(nil), x.ch[:p+1]...), n: append([]int32(nil), x.n[:p+1]...), base: p}
					nt.ch[p]++
					ex.mu.Lock()
					ex.queue = append(ex.queue, nt)
					ex.cond.Signal()
					ex.mu.Unlock()
					base = p + 1
					break
				}
			}
		}
		p := x.pos - 1
		for ; p >= base; p-- {
			if x.ch[p]+1 < x.n[p] {
				break
			}
		}
		if p < base {
			return
		}
		x.ch[p]++
		x.ch = x.ch[:p+1]
		x.n = x.n[:p+1]
	}
}

func (ex *explorer) fail(f *failure, ch []int32, stack string) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if f.sig != "" && ex.knownSig != nil && ex.knownSig(ex.prop, f.sig) {
		ex.known[f.sig]++
		return
	}
	ex.viol = append(ex.viol, Violation{Prop: ex.prop, Sub: ex.sub, Sig: f.sig, Msg: f.msg,
		Choices: append([]int32(nil), ch...), Stack: stack})
	if len(ex.viol) >= 50 {
		ex.stop.Store(true)
	}
}

// Explore enumerates all executions of body.
func Explore(prop, sub string, body func(*X), tier, workers int, deadline time.Time, set *stateSet,
	knownSig func(prop, sig string) bool, emergency func(Violation)) Result {
	start := time.Now()
	ex := &explorer{prop: prop, sub: sub, body: body, tier: tier, set: set, deadline: deadline,
		known: map[string]int64{}, knownSig: knownSig, beats: make([]beat, workers)}
	ex.cond = sync.NewCond(&ex.mu)
	ex.queue = []task{{}}
	// watchdog: a single execution that does not end, or eats the memory, is a hang.
	done := make(chan struct{})
	go ex.watch(done, emergency)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); ex.worker(i) }(i)
	}
	wg.Wait()
	close(done)
	r := Result{Sub: sub, Leaves: ex.leaves.Load(), Ops: ex.ops.Load(), Known: ex.known,
		Exhaustive: !ex.timeout.Load() && !ex.stop.Load(), Diverged: ex.diverge.Load()}
	sort.SliceStable(ex.viol, func(i, j int) bool {
		a, b := ex.viol[i].Choices, ex.viol[j].Choices
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		for k := range a {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return false
	})
	if len(ex.viol) > 5 {
		ex.viol = ex.viol[:5]
	}
	for i := range ex.viol {
		v := &ex.viol[i]
		same := 0
		for k := 0; k < 3; k++ {
			f, log, st := ex.replay(v.Choices)
			if f == nil {
				continue
			}
			if same++; same == 1 {
				v.Log = log
				if st != "" {
					v.Stack = st
				}
			}
		}
		v.Note = fmt.Sprintf("reproduced %d of 3 times when replayed alone", same)
		if same == 0 {
			v.Note += " (depends on calls made before or at the same time: re-run the whole check to see it)"
		}
	}
	r.Viol = ex.viol
	for _, s := range ex.samples {
		_, log, _ := ex.replay(s)
		if len(log) > 12 {
			log = append(log[:11:11], fmt.Sprintf("... %d more lines", len(log)-11))
		}
		r.Samples = append(r.Samples, log)
	}
	r.Wall = time.Since(start).Seconds()
	return r
}

func (ex *explorer) watch(done chan struct{}, emergency func(Violation)) {
	last := make([]int64, len(ex.beats))
	since := make([]time.Time, len(ex.beats))
	now := time.Now()
	for i := range since {
		since[i] = now
	}
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	for k := 0; ; k++ {
		select {
		case <-done:
			return
		case <-tick.C:
		}
		now = time.Now()
		stuck, longest := -1, time.Duration(0)
		for i := range ex.beats {
			c := ex.beats[i].count.Load()
			if c != last[i] || ex.beats[i].cur.Load() == nil {
				last[i] = c
				since[i] = now
			} else if d := now.Sub(since[i]); d > longest {
				stuck, longest = i, d
			}
		}
		var ms runtime.MemStats
		mem := false
		if k%3 == 0 {
			runtime.ReadMemStats(&ms)
			mem = ms.HeapAlloc > 6<<30
		}
		if stuck >= 0 && (longest > HangLimit || mem && longest > 500*time.Millisecond) {
			v := Violation{Prop: ex.prop, Sub: ex.sub, Msg: fmt.Sprintf("an execution does not end (running for %.1fs, heap %d MB)", longest.Seconds(), ms.HeapAlloc>>20)}
			if x := ex.beats[stuck].cur.Load(); x != nil {
				v.Choices = append([]int32(nil), x.ch...)
			}
			buf := make([]byte, 1<<16)
			v.Stack = string(buf[:runtime.Stack(buf, true)])
			emergency(v)
			return
		}
	}
}

// HangLimit is how long one execution may take.
var HangLimit = 90 * time.Second

// LibFrames extracts the library frames of a stack.
func LibFrames(stack string) string {
	var out []string
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "warthog618/sms") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, " | ")
}
