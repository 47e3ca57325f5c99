// Package sched runs the real code under a controlled scheduler.
//
// The library under test is compiled with its uses of sync, sync/atomic, time
// and the go statement replaced by the shims vsync, vatomic, vtime and GoCall
// (see cmd/instrument).  Every such operation is a scheduling point: the
// goroutine announces its next operation and waits to be granted.  Exactly one
// goroutine runs between two points, so an execution is determined by the
// choices made at the points, and all of them can be enumerated.
//
// The hand-over between goroutines is done with plain variables in functions
// that the race detector does not instrument, so it adds no happens-before
// edges: after being granted, a shim performs the real operation, and the race
// detector sees only the synchronisation of the code under test.
package sched

import (
	"fmt"
	"reflect"
	"runtime"
	"sync/atomic"
	"time"
	"unsafe"
)

func getg() uintptr

// Kinds of operations announced at points.
const (
	OpStart = iota
	OpLock
	OpRLock
	OpTry
	OpUnlock
	OpAtomic
	OpWait
	OpStop
	OpNow
	OpSleep
	OpYield
	OpMisc
)

var opNames = []string{"start", "lock", "rlock", "trylock", "unlock", "atomic", "wait", "stop/reset timer", "read clock", "sleep", "yield", "sync"}

// Enabler tells whether an operation may proceed.
type Enabler interface{ Enabled(kind int) bool }

// thread states
const (
	stReady   = iota // waiting at a point
	stRunning        // running
	stDormant        // timer goroutine whose timer has not fired
	stDone
	stExt // blocked in something that is not under control
)

// Thread is a goroutine under control.
type Thread struct {
	w     *World
	ID    int
	Name  string
	g     uintptr
	st    int32
	grant int32
	begun bool
	kind  int32
	obj   Enabler
	tm    *Timer // for OpStop
	fn    func()
	timer *Timer // the timer that runs this thread
	lazy  *int64
	Panic interface{}
	Stack string
	// FireStamp is when the timer running this thread fired.
	FireStamp int64
}

// Timer is a virtual timer.
type Timer struct {
	w        *World
	Deadline int64
	state    int32 // 0 pending, 1 fired, 2 stopped
	th       *Thread
	f        func()
	name     string
	manual   bool
}

const (
	maxThreads = 96
	maxTimers  = 96
	maxTrace   = 4096
)

// TraceStep is one granted operation.
type TraceStep struct {
	Thread int
	Kind   int
	Name   string
}

// World is one execution.
type World struct {
	manual   bool
	g        uintptr
	threads  [maxThreads]*Thread
	nthreads int
	timers   [maxTimers]*Timer
	ntimers  int
	now      int64
	seq      int64
	abort    bool
	draining bool
	join     int64

	bound  int
	choose func(n int) int

	Steps    int
	Preempts int
	Fires    int
	Trace    []TraceStep
	names    int
	// manual mode: fired callbacks not yet run
	Due []*Timer
}

var current *World // the controlled execution

// manual worlds, by goroutine
var manuals [64]struct {
	g atomic.Uintptr
	w atomic.Pointer[World]
	_ [48]byte
}

//go:norace
func (w *World) find(g uintptr) *Thread {
	for i := 0; i < w.nthreads; i++ {
		if t := w.threads[i]; t.g == g && t.st != stDone {
			return t
		}
	}
	return nil
}

// Self returns the controlled thread running, or nil.
//
//go:norace
func Self() *Thread {
	if current == nil {
		return nil
	}
	return current.find(getg())
}

// Manual returns the manual world of this goroutine, or nil.
func Manual() *World {
	if RaceBuild {
		return nil
	}
	g := getg()
	for i := range manuals {
		if manuals[i].g.Load() == g {
			return manuals[i].w.Load()
		}
	}
	return nil
}

// Abort is thrown into the threads of an abandoned execution.
type Abort struct{}

// Point announces an operation and waits until it is granted.
//
//go:norace
func (t *Thread) Point(kind int, obj Enabler) {
	if t.w.abort {
		if kind == OpUnlock {
			return
		}
		panic(Abort{})
	}
	t.kind = int32(kind)
	t.obj = obj
	t.park()
	if t.w.abort {
		panic(Abort{})
	}
	if t.lazy != nil {
		*t.lazy = t.w.Stamp()
		t.lazy = nil
	}
}

//go:norace
func (t *Thread) park() {
	t.st = stReady
	for t.grant == 0 {
		runtime.Gosched()
	}
	t.grant = 0
}

// Stamp returns the next value of the logical clock.
//
//go:norace
func (w *World) Stamp() int64 {
	w.seq++
	return w.seq
}

// Call runs f as an operation of the thread and says when it began (at the
// latest, i.e. at its first synchronisation) and ended.
//
//go:norace
func (t *Thread) Call(f func()) (inv, resp int64) {
	var at int64
	t.lazy = &at
	f()
	if t.lazy != nil {
		at = t.w.Stamp()
		t.lazy = nil
	}
	return at, t.w.Stamp()
}

// Point is a scheduling point of the goroutine running, if under control.
func Point(kind int, obj Enabler) {
	if t := Self(); t != nil {
		t.Point(kind, obj)
		return
	}
	if w := Manual(); w != nil && obj != nil && !obj.Enabled(kind) {
		panic(fmt.Sprintf("deadlock: %s would block for ever, nothing else runs", opNames[kind]))
	}
}

//go:norace
func (w *World) addThread(name string, fn func()) *Thread {
	t := &Thread{w: w, ID: w.nthreads, Name: name, fn: fn, st: stReady, kind: OpStart}
	if w.nthreads >= maxThreads {
		panic("too many threads")
	}
	w.threads[w.nthreads] = t
	w.nthreads++
	return t
}

//go:norace
func (t *Thread) begin() {
	if !t.begun {
		t.begun = true
		go t.main()
	}
}

//go:norace
func (t *Thread) main() {
	t.g = getg()
	for t.grant == 0 {
		runtime.Gosched()
	}
	t.grant = 0
	if !t.w.abort {
		t.body()
	}
	raceRelease(unsafe.Pointer(&t.w.join))
	t.st = stDone
}

func (t *Thread) body() {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Abort); !ok {
				buf := make([]byte, 1<<14)
				t.setPanic(r, string(buf[:runtime.Stack(buf, false)]))
			}
		}
	}()
	t.fn()
}

//go:norace
func (t *Thread) setPanic(r interface{}, stack string) { t.Panic, t.Stack = r, stack }

// Go starts a goroutine under the control of the same scheduler.
func Go(fn func()) {
	if t := Self(); t != nil {
		n := t.w.addThread("goroutine", fn)
		n.begin()
		return
	}
	if w := Manual(); w != nil {
		// runs when the harness says so, like an expiry callback
		w.Due = append(w.Due, &Timer{w: w, f: fn, manual: true, state: 1})
		return
	}
	if w := current; w != nil {
		n := w.addThread("goroutine", fn)
		n.begin()
		return
	}
	go fn()
}

// ---- timers ----

//go:norace
func (w *World) addTimer(t *Timer) {
	n := 0
	for i := 0; i < w.ntimers; i++ {
		if w.timers[i].state == 0 {
			w.timers[n] = w.timers[i]
			n++
		}
	}
	w.ntimers = n
	if w.ntimers >= maxTimers {
		panic("too many timers")
	}
	w.timers[w.ntimers] = t
	w.ntimers++
}

// NewTimer arms a virtual timer; nil if no world is active.
func NewTimer(d time.Duration, f func()) *Timer {
	if t := Self(); t != nil {
		return t.w.arm(d, f)
	}
	if w := Manual(); w != nil {
		t := &Timer{w: w, manual: true, f: f}
		w.armManual(t, d)
		return t
	}
	if current != nil {
		return current.arm(d, f)
	}
	return nil
}

//go:norace
func (w *World) arm(d time.Duration, f func()) *Timer {
	tm := &Timer{w: w, f: f}
	w.rearm(tm, d)
	return tm
}

//go:norace
func (w *World) rearm(tm *Timer, d time.Duration) {
	if d < 0 {
		d = 0
	}
	tm.Deadline = w.now + int64(d)
	tm.state = 0
	th := w.addThread("timer", tm.f)
	th.st = stDormant
	th.timer = tm
	tm.th = th
	th.begin()
	w.addTimer(tm)
}

func (w *World) armManual(t *Timer, d time.Duration) {
	if d < 0 {
		d = 0
	}
	t.Deadline = w.now + int64(d)
	t.state = 0
	w.addTimer(t)
	if d == 0 {
		w.fireManual()
	}
}

// Stop stops the timer.
//
//go:norace
func (tm *Timer) Stop() bool {
	if t := Self(); t != nil {
		t.tm = tm
		t.Point(OpStop, nil)
		t.tm = nil
	}
	if tm.state == 0 {
		tm.state = 2
		return true
	}
	return false
}

// Reset re-arms the timer.
//
//go:norace
func (tm *Timer) Reset(d time.Duration) bool {
	was := tm.Stop()
	if tm.manual {
		// a fired callback still runs: the timer may then be due twice
		if tm.state == 1 {
			n := *tm
			for i, q := range tm.w.Due {
				if q == tm {
					tm.w.Due[i] = &n
				}
			}
		}
		tm.w.armManual(tm, d)
	} else {
		tm.w.rearm(tm, d)
	}
	return was
}

// Now returns the virtual time in ns.
//
//go:norace
func Now() (int64, bool) {
	if t := Self(); t != nil {
		t.Point(OpNow, nil)
		return t.w.now, true
	}
	if w := Manual(); w != nil {
		return w.now, true
	}
	if current != nil {
		return current.now, true
	}
	return 0, false
}

type sleeper struct{ done bool }

func (s *sleeper) Enabled(int) bool { return s.done }

// Sleep blocks until the virtual clock has moved.
//
//go:norace
func Sleep(d time.Duration) bool {
	t := Self()
	if t == nil {
		if w := Manual(); w != nil {
			w.Advance(d)
			return true
		}
		return false
	}
	s := &sleeper{}
	tm := &Timer{w: t.w, Deadline: t.w.now + int64(d), name: "sleep"}
	tm.f = func() { s.done = true }
	t.w.addTimer(tm)
	t.Point(OpSleep, s)
	return true
}

// ---- manual mode ----

// NewManual makes a world for the calling goroutine in which time passes and
// callbacks run only when the harness says so.
func NewManual() *World {
	w := &World{manual: true, g: getg()}
	for i := range manuals {
		if manuals[i].g.Load() == w.g {
			manuals[i].w.Store(w)
			return w
		}
	}
	for i := range manuals {
		if manuals[i].g.CompareAndSwap(0, w.g) {
			manuals[i].w.Store(w)
			return w
		}
	}
	panic("too many manual worlds")
}

// Release ends a manual world.
func (w *World) Release() {
	for i := range manuals {
		if manuals[i].g.Load() == w.g {
			manuals[i].w.Store(nil)
			manuals[i].g.Store(0)
		}
	}
}

// Time is the virtual time.
func (w *World) Time() time.Duration { return time.Duration(w.now) }

// Advance moves the clock; timers that are due fire, i.e. can no longer be
// stopped, and their callbacks wait in Due.
func (w *World) Advance(d time.Duration) {
	w.now += int64(d)
	w.fireManual()
}

func (w *World) fireManual() {
	for {
		var first *Timer
		for i := 0; i < w.ntimers; i++ {
			t := w.timers[i]
			if t.state == 0 && t.Deadline <= w.now && (first == nil || t.Deadline < first.Deadline) {
				first = t
			}
		}
		if first == nil {
			return
		}
		first.state = 1
		w.Due = append(w.Due, first)
	}
}

// Pending counts the armed timers.
func (w *World) Pending() int {
	n := 0
	for i := 0; i < w.ntimers; i++ {
		if w.timers[i].state == 0 {
			n++
		}
	}
	return n
}

// NextDeadline is the earliest deadline of the armed timers.
func (w *World) NextDeadline() (time.Duration, bool) {
	var first *Timer
	for i := 0; i < w.ntimers; i++ {
		t := w.timers[i]
		if t.state == 0 && (first == nil || t.Deadline < first.Deadline) {
			first = t
		}
	}
	if first == nil {
		return 0, false
	}
	return time.Duration(first.Deadline), true
}

// RunDue runs the i-th callback waiting.
func (w *World) RunDue(i int) {
	t := w.Due[i]
	w.Due = append(w.Due[:i:i], w.Due[i+1:]...)
	t.f()
}

// ---- controlled execution ----

// Outcome of an execution.
type Outcome struct {
	Deadlock string
	Panic    string
	Stack    string
	Race     bool
	Steps    int
	Preempts int
	Fires    int
	Trace    []TraceStep
	Err      string
}

// Start prepares a controlled world; the setup code that follows may create
// timers in it.
func Start(bound int, choose func(n int) int) *World {
	w := &World{bound: bound, choose: choose}
	current = w
	return w
}

// Thread adds a thread to be run.
func (w *World) Thread(name string, fn func()) *Thread {
	t := w.addThread(name, fn)
	return t
}

const spinLimit = 3000

// settle waits until no thread is running.
//
//go:norace
func (w *World) settle() {
	spins := 0
	for {
		busy := false
		for i := 0; i < w.nthreads; i++ {
			if w.threads[i].st == stRunning {
				busy = true
			}
		}
		if !busy {
			return
		}
		spins++
		if spins > spinLimit {
			// blocked in something not under control, or in a long computation
			for i := 0; i < w.nthreads; i++ {
				if w.threads[i].st == stRunning {
					w.threads[i].st = stExt
				}
			}
			return
		}
		runtime.Gosched()
	}
}

type choice struct {
	t    *Thread
	fire *Timer
}

// Run explores one schedule to its end.
func (w *World) Run() (o Outcome) {
	before := raceErrors()
	for i := 0; i < w.nthreads; i++ {
		w.threads[i].begin()
	}
	var cur, forced *Thread
	idle := 0
	for {
		w.settle()
		// a goroutine does nothing shared before its first operation
		if t := w.unstarted(); t != nil {
			t.st = stRunning
			t.grant = 1
			continue
		}
		if p := w.panicked(); p != nil {
			o.Panic = fmt.Sprintf("panic in %s: %v", p.Name, p.Panic)
			o.Stack = p.Stack
			break
		}
		var en []*Thread
		live, ext := 0, 0
		curEnabled := false
		for i := 0; i < w.nthreads; i++ {
			t := w.threads[i]
			switch t.st {
			case stReady:
				live++
				if t.obj == nil || t.obj.Enabled(int(t.kind)) {
					en = append(en, t)
					if t == cur {
						curEnabled = true
					}
				}
			case stExt:
				live++
				ext++
			}
		}
		if cur != nil && curEnabled && en[0] != cur {
			for i := range en {
				if en[i] == cur {
					copy(en[1:i+1], en[:i])
					en[0] = cur
					break
				}
			}
		}
		if f := forced; f != nil {
			forced = nil
			if f.st == stReady && (f.obj == nil || f.obj.Enabled(int(f.kind))) {
				if curEnabled && f != cur {
					w.Preempts++
				}
				cur = f
				w.grant(f)
				continue
			}
		}
		due := w.firable()
		if live == 0 && len(due) == 0 {
			break // all done
		}
		var cs []choice
		limited := w.bound >= 0 && w.Preempts >= w.bound && curEnabled
		if limited {
			cs = append(cs, choice{t: cur})
		} else {
			for _, t := range en {
				cs = append(cs, choice{t: t})
			}
		}
		for _, tm := range due {
			if live == 0 {
				// everything else is finished: timers run out in order
				if len(cs) == 0 {
					cs = append(cs, choice{t: tm.th, fire: tm})
				}
				continue
			}
			relevant := w.laterThan(tm) || tm.th == nil
			for _, t := range en {
				if t.kind == OpNow || t.kind == OpStop && t.tm == tm {
					relevant = true
				}
			}
			if relevant {
				cs = append(cs, choice{fire: tm})
			}
			if tm.th != nil && !limited {
				cs = append(cs, choice{t: tm.th, fire: tm})
			}
		}
		if len(cs) == 0 {
			if ext > 0 && idle < 20000 {
				idle++
				if idle > 15000 {
					time.Sleep(time.Millisecond)
				}
				runtime.Gosched()
				continue
			}
			o.Deadlock = w.describe()
			break
		}
		idle = 0
		k := 0
		if len(cs) > 1 && w.Steps < 5000 {
			k = w.choose(len(cs))
			if k >= len(cs) {
				o.Err = "diverged"
				break
			}
		} else if len(cs) > 1 && w.Steps >= 5000 {
			k = w.Steps % len(cs) // fair from here on
		}
		c := cs[k]
		w.Steps++
		if w.Steps > 60000 {
			o.Deadlock = "the execution does not end: " + w.describe()
			break
		}
		if c.fire != nil {
			c.fire.state = 1
			if c.fire.Deadline > w.now {
				w.now = c.fire.Deadline
			}
			w.Fires++
			w.trace(-1, OpMisc, "timer fires")
			if c.fire.th == nil {
				c.fire.f()
			} else {
				c.fire.th.FireStamp = w.Stamp()
				c.fire.th.st = stReady
			}
			forced = c.t
			continue
		}
		if curEnabled && c.t != cur {
			w.Preempts++
		}
		cur = c.t
		w.grant(cur)
	}
	w.finish()
	o.Race = raceErrors() > before
	o.Steps, o.Preempts, o.Fires, o.Trace = w.Steps, w.Preempts, w.Fires, w.Trace
	return o
}

func (w *World) grant(t *Thread) {
	w.trace(t.ID, int(t.kind), t.Name)
	t.st = stRunning
	t.grant = 1
}

func (w *World) unstarted() *Thread {
	for i := 0; i < w.nthreads; i++ {
		if t := w.threads[i]; t.st == stReady && t.kind == OpStart {
			return t
		}
	}
	return nil
}

func (w *World) trace(id, kind int, name string) {
	if len(w.Trace) < maxTrace {
		w.Trace = append(w.Trace, TraceStep{id, kind, name})
	}
}

func (w *World) panicked() *Thread {
	for i := 0; i < w.nthreads; i++ {
		if w.threads[i].Panic != nil {
			return w.threads[i]
		}
	}
	return nil
}

// firable returns the pending timers with the earliest deadline.
func (w *World) firable() []*Timer {
	var out []*Timer
	for i := 0; i < w.ntimers; i++ {
		t := w.timers[i]
		if t.state != 0 {
			continue
		}
		if len(out) > 0 && t.Deadline < out[0].Deadline {
			out = out[:0]
		}
		if len(out) == 0 || t.Deadline == out[0].Deadline {
			out = append(out, t)
		}
	}
	return out
}

func (w *World) laterThan(tm *Timer) bool {
	for i := 0; i < w.ntimers; i++ {
		if t := w.timers[i]; t.state == 0 && t.Deadline > tm.Deadline {
			return true
		}
	}
	return false
}

func (w *World) describe() string {
	s := ""
	for i := 0; i < w.nthreads; i++ {
		t := w.threads[i]
		switch t.st {
		case stReady:
			s += fmt.Sprintf("%s waits at %s; ", t.Name, opNames[t.kind])
		case stExt:
			s += fmt.Sprintf("%s is blocked; ", t.Name)
		}
	}
	return s
}

// finish ends all goroutines that are left.
func (w *World) finish() {
	w.abort = true
	for n := 0; ; n++ {
		left := 0
		for i := 0; i < w.nthreads; i++ {
			t := w.threads[i]
			if t.st != stDone {
				left++
				if t.st == stReady || t.st == stDormant {
					t.st = stRunning
					t.grant = 1
				}
			}
		}
		if left == 0 || n > 20000 {
			break
		}
		runtime.Gosched()
	}
	raceAcquire(unsafe.Pointer(&w.join))
	if current == w {
		current = nil
	}
}

// Describe renders a trace.
func Describe(tr []TraceStep) []string {
	var out []string
	for _, s := range tr {
		if s.Thread < 0 {
			out = append(out, s.Name)
			continue
		}
		out = append(out, fmt.Sprintf("%s: %s", s.Name, opNames[s.Kind]))
	}
	return out
}

// Aborting says whether the goroutine belongs to an abandoned execution.
//
//go:norace
func Aborting() bool {
	t := Self()
	return t != nil && t.w.abort
}

// GoCall is what the go statement is replaced by.
func GoCall(f interface{}, args ...interface{}) { goCall(f, false, args) }

// GoCallSlice is GoCall with a variadic last argument.
func GoCallSlice(f interface{}, args ...interface{}) { goCall(f, true, args) }

func goCall(f interface{}, spread bool, args []interface{}) {
	if g, ok := f.(func()); ok {
		Go(g)
		return
	}
	v := reflect.ValueOf(f)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = reflect.ValueOf(a)
		var want reflect.Type
		ft := v.Type()
		if ft.IsVariadic() && i >= ft.NumIn()-1 && !spread {
			want = ft.In(ft.NumIn() - 1).Elem()
		} else {
			want = ft.In(i)
		}
		if !in[i].IsValid() {
			in[i] = reflect.Zero(want)
		} else if in[i].Type() != want && in[i].Type().ConvertibleTo(want) {
			in[i] = in[i].Convert(want)
		}
	}
	if spread {
		Go(func() { v.CallSlice(in) })
	} else {
		Go(func() { v.Call(in) })
	}
}

// Now is the current value of the logical clock.
//
//go:norace
func (t *Thread) Now() int64 { return t.w.Stamp() }

// FireStamps lists when timers fired.
func (w *World) FireStamps() []int64 {
	var out []int64
	for i := 0; i < w.nthreads; i++ {
		if s := w.threads[i].FireStamp; s != 0 {
			out = append(out, s)
		}
	}
	return out
}

// Fired says when the timer that runs this thread fired, 0 if none does.
//
//go:norace
func (t *Thread) Fired() int64 { return t.FireStamp }
