package cprops

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif.local/h/core"
	"verif.local/h/sched"
	"verif.local/h/touch"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

// mkey is what parts of one message have in common.
type mkey struct {
	st    tpdu.SmsType
	toa   byte
	addr  string
	ref   int
	total int
}

// seg is a kind of arrival.
type seg struct {
	name   string
	t      tpdu.TPDU
	concat bool
	key    mkey
	seq    int
	want   string // "", "dup"... : the refusal it always gets when concat
}

func peer(st tpdu.SmsType, toa byte, addr string) tpdu.TPDU {
	t := tpdu.TPDU{Direction: st.Direction()}
	t.FirstOctet = tpdu.FirstOctet(st.MTI())
	a := tpdu.Address{TOA: toa, Addr: addr}
	switch st {
	case tpdu.SmsDeliver:
		t.OA = a
	case tpdu.SmsSubmit:
		t.DA = a
	default:
		// these have no peer in this sense; set both to see that they are not used
		t.OA, t.DA = a, a
	}
	return t
}

func ie8(ref, total, seq int) tpdu.InformationElement {
	return tpdu.InformationElement{ID: 0, Data: []byte{byte(ref), byte(total), byte(seq)}}
}

func ie16(ref, total, seq int) tpdu.InformationElement {
	return tpdu.InformationElement{ID: 8, Data: []byte{byte(ref >> 8), byte(ref), byte(total), byte(seq)}}
}

func withUDH(t tpdu.TPDU, h ...tpdu.InformationElement) tpdu.TPDU {
	t.UDH = h
	t.FirstOctet |= 0x40
	return t
}

func mkseg(name string, st tpdu.SmsType, toa byte, addr string, ref, total, seq int, wide bool, extra ...tpdu.InformationElement) seg {
	ie := ie8(ref, total, seq)
	if wide {
		ie = ie16(ref, total, seq)
	}
	h := append(append([]tpdu.InformationElement{}, extra...), ie)
	s := seg{name: name, t: withUDH(peer(st, toa, addr), h...), concat: total >= 2, key: mkey{st, toa, addr, ref, total}, seq: seq}
	return s
}

func part(addr string, ref, total, seq int) seg {
	return mkseg(fmt.Sprintf("%s/%d part %d of %d", addr, ref, seq, total), tpdu.SmsDeliver, 0x91, addr, ref, total, seq, false)
}

// arrive makes the id-th arrival of the kind; the id is in the user data.
func (s *seg) arrive(id int) tpdu.TPDU {
	t := s.t
	t.UD = tpdu.UserData{byte(id >> 8), byte(id), 0x55}
	return t
}

func idOf(t *tpdu.TPDU) int { return touch.ID(t) }

func ids(l []*tpdu.TPDU) []int { return touch.IDs(l) }

func idStr(l []int) string {
	b := make([]byte, 0, 3*len(l)+2)
	b = append(b, '[')
	for i, v := range l {
		if i > 0 {
			b = append(b, ' ')
		}
		if v == 0 {
			b = append(b, '-')
		} else {
			b = strconv.AppendInt(b, int64(v), 10)
		}
	}
	return string(append(b, ']'))
}

func snap(m map[string][]*tpdu.TPDU) []string {
	out := make([]string, 0, len(m))
	for _, l := range touch.Lists(m) {
		out = append(out, idStr(l))
	}
	sort.Strings(out)
	return out
}

// mmsg is an incomplete message of the model.
type mmsg struct {
	key      mkey
	parts    []int
	n        int
	deadline time.Duration
}

func (m *mmsg) str() string { return idStr(m.parts) }

// mcoll is the reference collector: it knows nothing of timers, locks or maps.
type mcoll struct {
	timeout time.Duration
	open    []*mmsg // incomplete
	gone    []*mmsg // expired, handler not yet called
	closed  bool
}

func (c *mcoll) find(l []*mmsg, k mkey) int {
	for i := range l {
		if l[i].key == k {
			return i
		}
	}
	return -1
}

// errors by name
func errName(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == sms.ErrClosed:
		return "closed"
	case err == sms.ErrDuplicateSegment:
		return "duplicate"
	case err == sms.ErrReassemblyInconsistency:
		return "inconsistent"
	}
	if _, ok := err.(tpdu.ErrUnsupportedSmsType); ok {
		return "unsupported"
	}
	return "other error: " + err.Error()
}

func hasPeer(st tpdu.SmsType) bool { return st == tpdu.SmsDeliver || st == tpdu.SmsSubmit }

// refusals lists the refusals an arrival deserves whatever was received before
// (the order of checking is not laid down).
func (s *seg) refusals() []string {
	if !s.concat {
		return nil
	}
	var out []string
	if s.seq < 1 || s.seq > s.key.total {
		out = append(out, "inconsistent")
	}
	if !hasPeer(s.key.st) {
		out = append(out, "unsupported")
	}
	return out
}

// step is the documented effect of one arrival.
func (c *mcoll) step(s *seg, id int, now time.Duration) (res string, out []int) {
	if c.closed {
		return "closed", nil
	}
	if !s.concat {
		return "ok", []int{id}
	}
	if r := s.refusals(); len(r) > 0 {
		return r[0], nil
	}
	i := c.find(c.open, s.key)
	if i >= 0 && c.open[i].parts[s.seq-1] != 0 {
		return "duplicate", nil
	}
	if i < 0 {
		c.open = append(c.open, &mmsg{key: s.key, parts: make([]int, s.key.total)})
		i = len(c.open) - 1
	}
	m := c.open[i]
	m.parts[s.seq-1] = id
	m.n++
	m.deadline = now + c.timeout
	if m.n == s.key.total {
		c.open = append(c.open[:i:i], c.open[i+1:]...)
		return "ok", m.parts
	}
	return "ok", nil
}

// advance expires what is due.
func (c *mcoll) advance(now time.Duration) {
	if c.timeout == 0 || c.closed {
		return
	}
	var keep []*mmsg
	for _, m := range c.open {
		if m.deadline <= now {
			c.gone = append(c.gone, m)
		} else {
			keep = append(keep, m)
		}
	}
	c.open = keep
}

func (c *mcoll) hash() uint64 {
	h := uint64(1)
	if c.closed {
		h = 2
	}
	add := func(l []*mmsg) {
		var s uint64
		for _, m := range l {
			k := core.HashStr(m.key.addr) ^ core.HashInts(int(m.key.st), int(m.key.toa), m.key.ref, m.key.total, int(m.deadline))
			for i, p := range m.parts {
				if p != 0 {
					k = core.Mix(k ^ uint64(i+1)*0x9e3779b97f4a7c15)
				}
			}
			s += core.Mix(k)
		}
		h = core.Mix(h ^ s + 77)
	}
	add(c.open)
	add(c.gone)
	return h
}

// sim drives a collector and its model through one history.
type sim struct {
	x        *X
	w        *sched.World
	c        *sms.Collector
	m        mcoll
	nextID   int
	arrived  map[int]tpdu.TPDU // as they were given
	snaps    []snapRec
	handled  int // handler calls
	hasH     bool
	inH      func(parts []*tpdu.TPDU) // what the handler does besides recording
	hist     []string
	returned []retRec
	loose    map[string]int // snapshots allowed after close
}

type snapRec struct {
	m    map[string][]*tpdu.TPDU
	want []string
	keys []string
}

type retRec struct {
	l    []*tpdu.TPDU
	want []int
}

func (s *sim) logf(f string, a ...interface{}) {
	if s.x.V {
		s.x.Logf(f, a...)
	}
	s.hist = append(s.hist, fmt.Sprintf(f, a...))
}

func (s *sim) fail(f string, a ...interface{}) {
	s.x.Failf("%s, after %s", fmt.Sprintf(f, a...), strings.Join(s.hist, "; "))
}

func newSim(x *X, timeout time.Duration, handler bool) *sim {
	s := &sim{x: x, w: sched.NewManual(), hasH: handler, arrived: map[int]tpdu.TPDU{}}
	s.m.timeout = timeout
	var opts []sms.CollectorOption
	if timeout != 0 || handler {
		var h func([]*tpdu.TPDU)
		if handler {
			h = s.onExpiry
		}
		opts = append(opts, sms.WithReassemblyTimeout(timeout, h))
	}
	s.c = sms.NewCollector(opts...)
	return s
}

func (s *sim) onExpiry(l []*tpdu.TPDU) {
	got := idStr(ids(l))
	s.hist = append(s.hist, "handler("+got+")")
	s.x.Logf("  handler(%s)", got)
	s.handled++
	found := false
	for i, m := range s.m.gone {
		if m.str() == got {
			s.m.gone = append(s.m.gone[:i:i], s.m.gone[i+1:]...)
			found = true
			break
		}
	}
	if !found {
		if s.m.closed {
			s.fail("an expiry handler was started after closing with %s, whose timeout had not elapsed", got)
		}
		s.fail("the expiry handler was called with %s, which is not an expired message waiting for it", got)
	}
	s.content(l)
	if s.inH != nil {
		s.inH(l)
	}
}

// content checks that TPDUs handed out are exactly those given.
func (s *sim) content(l []*tpdu.TPDU) {
	for _, p := range l {
		if p == nil {
			continue
		}
		if w := s.arrived[idOf(p)]; !reflect.DeepEqual(*p, w) {
			s.fail("part %d came back as %+v; was %+v", idOf(p), *p, w)
		}
	}
}

func (s *sim) collect(g *seg) {
	s.nextID++
	id := s.nextID
	t := g.arrive(id)
	s.arrived[id] = g.arrive(id)
	s.x.Op()
	d, err := s.c.Collect(t)
	got := errName(err)
	if s.x.V {
		s.logf("%d: %s -> %s %s", id, g.name, got, idStr(ids(d)))
	} else {
		s.hist = append(s.hist, g.name)
	}
	// an expired message whose callback has not run yet may still refuse a part it has
	if got == "duplicate" && d == nil && !s.m.closed && g.concat && s.m.find(s.m.open, g.key) < 0 {
		for _, m := range s.m.gone {
			if m.key == g.key && g.seq >= 1 && g.seq <= len(m.parts) && m.parts[g.seq-1] != 0 {
				return
			}
		}
	}
	closed := s.m.closed
	want, parts := s.m.step(g, id, s.w.Time())
	ok := got == want
	if !ok && !closed {
		for _, r := range g.refusals() {
			ok = ok || got == r
		}
	}
	if !ok {
		s.fail("arrival %d (%s) gave %q; want %q", id, g.name, got, want)
	}
	if (d == nil) != (parts == nil) || !reflect.DeepEqual(ids(d), append([]int{}, parts...)) {
		s.fail("arrival %d (%s) returned %s; want %s", id, g.name, idStr(ids(d)), idStr(parts))
	}
	if d != nil {
		s.content(d)
		s.returned = append(s.returned, retRec{d, parts})
	}
}

func (s *sim) pipes() {
	s.x.Op()
	m := s.c.Pipes()
	got := snap(m)
	if s.x.V {
		s.logf("snapshot %v", got)
	}
	for _, l := range m {
		s.content(l)
	}
	// every open message is shown, and what else is shown has expired but not been handled
	left := append([]string{}, got...)
	take := func(v string) bool {
		for i := range left {
			if left[i] == v {
				left = append(left[:i:i], left[i+1:]...)
				return true
			}
		}
		return false
	}
	if s.m.closed && len(got) == 0 && s.loose != nil {
		// emptied by closing
	} else {
		for _, o := range s.m.open {
			if !take(o.str()) {
				s.fail("the snapshot %v lacks %s", got, o.str())
			}
		}
		for _, o := range s.m.gone {
			take(o.str())
		}
		if len(left) > 0 {
			s.fail("the snapshot shows %v, which is not pending", left)
		}
	}
	keys := make([]string, 0, len(m))
	for k, l := range m {
		keys = append(keys, k+idStr(ids(l)))
	}
	sort.Strings(keys)
	s.snaps = append(s.snaps, snapRec{m: m, want: got, keys: keys})
}

// settled checks that nothing is left to happen.
func (s *sim) settled() {
	if len(s.w.Due) > 0 {
		return
	}
	if len(s.m.gone) > 0 {
		if s.hasH && !s.m.closed {
			s.fail("the timeout of %s elapsed, but the handler was not called", s.m.gone[0].str())
		}
		s.m.gone = nil
	}
}

func (s *sim) advance(d time.Duration) {
	s.logf("+%v", d)
	s.w.Advance(d)
	s.m.advance(s.w.Time())
	s.settled()
}

func (s *sim) runDue(i int) {
	s.logf("callback %d of %d", i+1, len(s.w.Due))
	s.x.Op()
	s.w.RunDue(i)
	s.settled()
}

func (s *sim) close() {
	s.logf("close")
	s.x.Op()
	s.c.Close()
	if !s.m.closed {
		s.m.closed = true
		s.loose = map[string]int{}
	}
}

// finish re-examines everything handed out.
func (s *sim) finish() {
	for _, r := range s.snaps {
		if got := snap(r.m); !reflect.DeepEqual(got, r.want) {
			s.fail("a snapshot changed from %v to %v", r.want, got)
		}
	}
	for _, r := range s.returned {
		if !reflect.DeepEqual(ids(r.l), r.want) {
			s.fail("a returned message changed from %s to %s", idStr(r.want), idStr(ids(r.l)))
		}
		s.content(r.l)
	}
}
