package cprops

import (
	"fmt"
	"reflect"
	"sort"
	"time"

	"verif.local/h/core"
	"verif.local/h/sched"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

// A collector operation of a scenario.
type cop struct {
	kind byte // 'c'ollect, 'p'ipes, 'x' close
	s    *seg
	name string
}

func opC(s seg) cop { return cop{'c', &s, s.name} }

var (
	opP = cop{kind: 'p', name: "Pipes"}
	opX = cop{kind: 'x', name: "Close"}
)

// event is a completed call, or an invocation of the expiry handler.
type event struct {
	op        cop
	id        int
	inv, resp int64
	res       string
	parts     []int
	snap      []string
	handler   bool
	free      bool // a firing that may silently discard a message
	thread    string
}

func (e *event) str() string {
	switch {
	case e.handler:
		return fmt.Sprintf("%s: handler(%s) [fired %d, called %d]", e.thread, idStr(e.parts), e.inv, e.resp)
	case e.op.kind == 'c':
		return fmt.Sprintf("%s: Collect(%d: %s) = %s %s [%d,%d]", e.thread, e.id, e.op.name, e.res, idStr(e.parts), e.inv, e.resp)
	case e.op.kind == 'p':
		return fmt.Sprintf("%s: Pipes() = %v [%d,%d]", e.thread, e.snap, e.inv, e.resp)
	}
	return fmt.Sprintf("%s: %s [%d,%d]", e.thread, e.op.name, e.inv, e.resp)
}

// collProgram is a scenario on one collector.
type collProgram struct {
	name    string
	timeout bool
	handler int // 0 nil, 1 records, 2.. also calls back (see hops)
	hops    []cop
	setup   []cop
	threads [][]cop
	bound   int
}

type collRun struct {
	p       *collProgram
	c       *sms.Collector
	logs    [][]event // per thread
	hev     [16]event
	nh      int32
	hcalls  [16][]event
	arrived map[int]tpdu.TPDU
	setup   []event
	next    int
	events  []event
	final   []string
	bad     [8]string
	nbad    int
	results [][]*tpdu.TPDU
	snaps   []snapRec
}

//go:norace
func (r *collRun) slot() int32 {
	n := r.nh
	r.nh++
	return n
}

func (r *collRun) do(t *sched.Thread, o cop, id int, in tpdu.TPDU) event {
	e := event{op: o, id: id}
	var d []*tpdu.TPDU
	var err error
	var m map[string][]*tpdu.TPDU
	f := func() {
		switch o.kind {
		case 'c':
			d, err = r.c.Collect(in)
		case 'p':
			m = r.c.Pipes()
		case 'x':
			r.c.Close()
		}
	}
	if t != nil {
		e.inv, e.resp = t.Call(f)
		e.thread = t.Name
	} else {
		f()
		e.thread = "main"
	}
	switch o.kind {
	case 'c':
		e.res = errName(err)
		e.parts = ids(d)
		if d == nil {
			e.parts = nil
		}
		for _, p := range d {
			if p == nil || idOf(p) < 1 {
				e.res += " (with a foreign part)"
			}
		}
	case 'p':
		e.snap = snap(m)
	}
	return e
}

// nhops is how many calls of the handler call back: arrivals re-arm timers, so
// fewer of those.
func (p *collProgram) nhops() int32 {
	for _, o := range p.hops {
		if o.kind == 'c' {
			return 1
		}
	}
	return 2
}

func (p *collProgram) scenario() sched.Scenario {
	return sched.Scenario{Name: p.name, Bound: p.bound, Make: p.make}
}

func (p *collProgram) make() *sched.Inst {
	r := &collRun{p: p, arrived: map[int]tpdu.TPDU{}}
	var opts []sms.CollectorOption
	if p.timeout {
		var h func([]*tpdu.TPDU)
		if p.handler > 0 {
			h = r.onExpiry
		}
		opts = append(opts, sms.WithReassemblyTimeout(10*time.Second, h))
	}
	r.c = sms.NewCollector(opts...)
	r.next = 1
	for _, o := range p.setup {
		e := r.do(nil, o, r.next, r.in(o, r.next))
		r.setup = append(r.setup, e)
		r.next++
	}
	in := &sched.Inst{Check: r.check, History: r.history}
	r.logs = make([][]event, len(p.threads))
	for i, prog := range p.threads {
		i, prog := i, prog
		idsOf := make([]int, len(prog))
		ins := make([]tpdu.TPDU, len(prog))
		for j, o := range prog {
			idsOf[j] = r.next
			ins[j] = r.in(o, r.next)
			r.next++
		}
		log := make([]event, 0, len(prog))
		in.Threads = append(in.Threads, func(t *sched.Thread) {
			for j, o := range prog {
				log = append(log, r.do(t, o, idsOf[j], ins[j]))
			}
			r.logs[i] = log
		})
	}
	in.Hash = func() uint64 {
		h := core.HashStr(r.final...)
		for i := range r.events {
			e := &r.events[i]
			h = core.Mix(h ^ core.HashStr(e.op.name, e.res) + core.HashInts(e.parts...)*3 + core.HashStr(e.snap...)*5)
		}
		return h
	}
	return in
}

func (r *collRun) in(o cop, id int) tpdu.TPDU {
	if o.kind != 'c' {
		return tpdu.TPDU{}
	}
	return o.s.arrive(id)
}

// onExpiry runs in the goroutine of a timer.
func (r *collRun) onExpiry(l []*tpdu.TPDU) {
	t := sched.Self()
	n := r.slot()
	if int(n) >= len(r.hev) {
		return
	}
	e := &r.hev[n]
	e.handler = true
	e.parts = ids(l)
	if t != nil {
		e.resp = t.Now()
		e.inv = t.Fired()
		e.thread = fmt.Sprintf("timer %d", t.ID)
		if n < r.p.nhops() {
			for j, o := range r.p.hops {
				id := 900 + 10*int(n) + j
				ev := r.do(t, o, id, r.in(o, id))
				ev.thread = e.thread
				r.hcalls[n] = append(r.hcalls[n], ev)
			}
		}
	}
}

func (r *collRun) history() []string {
	var hist []string
	for i := range r.setup {
		hist = append(hist, r.setup[i].str())
	}
	for i := range r.events {
		if !r.events[i].free {
			hist = append(hist, r.events[i].str())
		}
	}
	return append(hist, fmt.Sprintf("finally: %v", r.final))
}

func (r *collRun) check(w *sched.World, o *sched.Outcome) string {
	for _, l := range r.logs {
		r.events = append(r.events, l...)
	}
	nh := int(r.nh)
	if nh > len(r.hev) {
		return "the expiry handler was called more often than there were messages"
	}
	for i := 0; i < nh; i++ {
		r.events = append(r.events, r.hev[i])
		r.events = append(r.events, r.hcalls[i]...)
	}
	for _, f := range w.FireStamps() {
		if r.p.handler == 0 {
			r.events = append(r.events, event{free: true, inv: f, resp: 1 << 60})
		}
	}
	m := r.c.Pipes()
	r.final = snap(m)
	for i := 0; i < nh; i++ {
		if r.hev[i].inv == 0 {
			return "the expiry handler was called outside a timer"
		}
	}
	// content of what the final snapshot shows
	l := &linear{r: r, memo: map[lkey]bool{}}
	st := &mcoll{}
	if r.p.timeout {
		st.timeout = 1
	}
	for i := range r.setup {
		e := &r.setup[i]
		res, parts := "", []int(nil)
		switch e.op.kind {
		case 'c':
			res, parts = st.step(e.op.s, e.id, 0)
			if res != e.res || !reflect.DeepEqual(parts, e.parts) {
				return fmt.Sprintf("%s; want %s %s", e.str(), res, idStr(parts))
			}
		case 'x':
			st.closed = true
		}
	}
	// closing ends everything but timeouts that had elapsed
	var closed int64
	for i := range r.events {
		e := &r.events[i]
		if !e.handler && !e.free && e.op.kind == 'x' && (closed == 0 || e.resp < closed) {
			closed = e.resp
		}
	}
	if len(r.setup) > 0 && st.closed {
		closed = -1
	}
	if closed != 0 {
		for i := range r.events {
			e := &r.events[i]
			if e.handler && e.inv > closed {
				return "an expiry handler was started by a timeout that elapsed after closing"
			}
		}
		l.closed = closed
	}
	if !l.search(st, 0) {
		return "no sequential order of these calls gives these results"
	}
	return ""
}

type lkey struct {
	done   uint64
	closed bool
	state  uint64
}

// linear looks for a sequential order.
type linear struct {
	r      *collRun
	memo   map[lkey]bool
	closed int64
}

func cloneM(m *mcoll) *mcoll {
	n := &mcoll{timeout: m.timeout, closed: m.closed}
	for _, o := range m.open {
		q := *o
		q.parts = append([]int{}, o.parts...)
		n.open = append(n.open, &q)
	}
	return n
}

func (l *linear) state(m *mcoll) []string {
	out := make([]string, 0, len(m.open))
	for _, o := range m.open {
		out = append(out, o.str())
	}
	sort.Strings(out)
	return out
}

func (l *linear) search(m *mcoll, done uint64) bool {
	evs := l.r.events
	mandatory := false
	minResp := int64(1 << 62)
	for i := range evs {
		if done&(1<<i) == 0 && !evs[i].free {
			mandatory = true
			if evs[i].resp < minResp {
				minResp = evs[i].resp
			}
		}
	}
	st := l.state(m)
	if !mandatory && reflect.DeepEqual(st, l.r.final) && (m.timeout == 0 || m.closed || len(st) == 0) {
		return true
	}
	key := lkey{done, m.closed, core.HashStr(st...)}
	if l.memo[key] {
		return false
	}
	l.memo[key] = true
	for i := range evs {
		e := &evs[i]
		if done&(1<<i) != 0 || e.inv > minResp {
			continue
		}
		d := done | 1<<i
		switch {
		case e.free:
			if m.closed && e.inv > l.closed {
				continue
			}
			for k := range m.open {
				n := cloneM(m)
				n.open = append(n.open[:k:k], n.open[k+1:]...)
				if l.search(n, d) {
					return true
				}
			}
		case e.handler:
			want := idStr(e.parts)
			for k := range m.open {
				if m.open[k].str() == want {
					n := cloneM(m)
					n.open = append(n.open[:k:k], n.open[k+1:]...)
					if l.search(n, d) {
						return true
					}
				}
			}
		case e.op.kind == 'c':
			n := cloneM(m)
			was := n.closed
			res, parts := n.step(e.op.s, e.id, 0)
			ok := res == e.res
			if !ok && !was {
				for _, q := range e.op.s.refusals() {
					ok = ok || q == e.res
				}
			}
			if ok && reflect.DeepEqual(parts, e.parts) && l.search(n, d) {
				return true
			}
		case e.op.kind == 'p':
			if reflect.DeepEqual(st, e.snap) && l.search(m, d) {
				return true
			}
		case e.op.kind == 'x':
			n := cloneM(m)
			n.closed = true
			if l.search(n, d) {
				return true
			}
		}
	}
	return false
}
