// Package vsync stands in for sync: every operation is a scheduling point of
// sched, followed by the real operation.
package vsync

import (
	"runtime"
	"sync"
	"sync/atomic"

	"verif.local/h/sched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex stands in for sync.Mutex.
type Mutex struct {
	mu   sync.Mutex
	held int32
}

//go:norace
func (m *Mutex) Enabled(int) bool { return m.held == 0 }

//go:norace
func (m *Mutex) set(v int32) { m.held = v }

func (m *Mutex) Lock() {
	sched.Point(sched.OpLock, m)
	m.mu.Lock()
	m.set(1)
}

//go:norace
func (m *Mutex) TryLock() bool {
	sched.Point(sched.OpTry, nil)
	if m.mu.TryLock() {
		m.held = 1
		return true
	}
	return false
}

func (m *Mutex) Unlock() {
	m.set(0)
	if sched.Aborting() {
		m.mu.TryLock()
	}
	m.mu.Unlock()
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	mu sync.RWMutex
	w  int32
	r  int32
}

//go:norace
func (m *RWMutex) Enabled(kind int) bool {
	if kind == sched.OpRLock {
		return m.w == 0
	}
	return m.w == 0 && m.r == 0
}

//go:norace
func (m *RWMutex) setw(v int32) { m.w = v }

//go:norace
func (m *RWMutex) addr(v int32) { m.r += v }

func (m *RWMutex) Lock()    { sched.Point(sched.OpLock, m); m.mu.Lock(); m.setw(1) }
func (m *RWMutex) RLock()   { sched.Point(sched.OpRLock, m); m.mu.RLock(); m.addr(1) }
func (m *RWMutex) Unlock()  { m.setw(0); m.mu.Unlock() }
func (m *RWMutex) RUnlock() { m.addr(-1); m.mu.RUnlock() }

func (m *RWMutex) TryLock() bool {
	sched.Point(sched.OpTry, nil)
	if m.mu.TryLock() {
		m.setw(1)
		return true
	}
	return false
}

func (m *RWMutex) TryRLock() bool {
	sched.Point(sched.OpTry, nil)
	if m.mu.TryRLock() {
		m.addr(1)
		return true
	}
	return false
}

// RLocker is as in sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once stands in for sync.Once.
type Once struct {
	done uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	sched.Point(sched.OpMisc, nil)
	if atomic.LoadUint32(&o.done) == 0 {
		o.m.Lock()
		defer o.m.Unlock()
		if atomic.LoadUint32(&o.done) == 0 {
			defer atomic.StoreUint32(&o.done, 1)
			f()
		}
	}
}

// OnceFunc is as in sync.
func OnceFunc(f func()) func() {
	var o Once
	var p interface{}
	var ok bool
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

// OnceValue is as in sync.
func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

// OnceValues is as in sync.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var v1 T1
	var v2 T2
	g := OnceFunc(func() { v1, v2 = f() })
	return func() (T1, T2) { g(); return v1, v2 }
}

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	wg sync.WaitGroup
	n  int32
}

//go:norace
func (w *WaitGroup) Enabled(int) bool { return w.n <= 0 }

//go:norace
func (w *WaitGroup) add(d int32) { w.n += d }

func (w *WaitGroup) Add(d int) {
	sched.Point(sched.OpMisc, nil)
	w.add(int32(d))
	w.wg.Add(d)
}

func (w *WaitGroup) Done() {
	if !sched.Aborting() {
		sched.Point(sched.OpMisc, nil)
	}
	w.add(-1)
	w.wg.Done()
}

func (w *WaitGroup) Wait() {
	sched.Point(sched.OpWait, w)
	w.wg.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() { defer w.Done(); f() })
}

// Cond stands in for sync.Cond.
type Cond struct {
	L     Locker
	q     []*waiter
	hb    sync.Mutex
	noise int
}

type waiter struct{ ok int32 }

//go:norace
func (w *waiter) Enabled(int) bool { return w.ok != 0 }

//go:norace
func (w *waiter) wake() { w.ok = 1 }

// NewCond is as in sync.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := &waiter{}
	c.hb.Lock()
	c.q = append(c.q, w)
	c.hb.Unlock()
	c.L.Unlock()
	sched.Point(sched.OpWait, w)
	c.hb.Lock()
	c.noise++
	c.hb.Unlock()
	c.L.Lock()
}

func (c *Cond) Signal() {
	sched.Point(sched.OpMisc, nil)
	c.hb.Lock()
	if len(c.q) > 0 {
		c.q[0].wake()
		c.q = c.q[1:]
	}
	c.hb.Unlock()
}

func (c *Cond) Broadcast() {
	sched.Point(sched.OpMisc, nil)
	c.hb.Lock()
	for _, w := range c.q {
		w.wake()
	}
	c.q = nil
	c.hb.Unlock()
}

// Map stands in for sync.Map.
type Map struct{ m sync.Map }

func p() { sched.Point(sched.OpMisc, nil) }

func (m *Map) Clear()                                 { p(); m.m.Range(func(k, _ interface{}) bool { m.m.Delete(k); return true }) }
func (m *Map) CompareAndDelete(key, old any) bool     { p(); return m.m.CompareAndDelete(key, old) }
func (m *Map) CompareAndSwap(key, old, new any) bool  { p(); return m.m.CompareAndSwap(key, old, new) }
func (m *Map) Delete(key any)                         { p(); m.m.Delete(key) }
func (m *Map) Load(key any) (any, bool)               { p(); return m.m.Load(key) }
func (m *Map) LoadAndDelete(key any) (any, bool)      { p(); return m.m.LoadAndDelete(key) }
func (m *Map) LoadOrStore(key, value any) (any, bool) { p(); return m.m.LoadOrStore(key, value) }
func (m *Map) Range(f func(key, value any) bool)      { p(); m.m.Range(f) }
func (m *Map) Store(key, value any)                   { p(); m.m.Store(key, value) }
func (m *Map) Swap(key, value any) (any, bool)        { p(); return m.m.Swap(key, value) }

// Pool stands in for sync.Pool: always reuses, last in first out.
type Pool struct {
	New func() any
	mu  sync.Mutex
	q   []any
}

func (l *Pool) Get() any {
	p()
	l.mu.Lock()
	if n := len(l.q); n > 0 {
		v := l.q[n-1]
		l.q = l.q[:n-1]
		l.mu.Unlock()
		return v
	}
	l.mu.Unlock()
	if l.New != nil {
		return l.New()
	}
	return nil
}

func (l *Pool) Put(x any) {
	p()
	if x == nil {
		return
	}
	l.mu.Lock()
	l.q = append(l.q, x)
	l.mu.Unlock()
}

var _ = runtime.Gosched
