package cprops

import (
	"time"

	"verif.local/h/core"

	"github.com/warthog618/sms/encoding/tpdu"
)

func init() {
	core.Register("C06",
		core.Sub{Name: "histories", Bound: "all histories of 7 (8 thorough) steps from: arrival of one of 5 segments of 2 messages, a single part, or time passing by 1, less than, or exactly the timeout, expiry callbacks run at once; snapshot at the end, then everything is left to expire", Body: c06histories},
		core.Sub{Name: "delayed callbacks", Bound: "all histories of 7 (8 thorough) steps from: arrival (4 segments), time, any one of the callbacks waiting, snapshot", Body: c06delayed},
		core.Sub{Name: "options", Bound: "no timeout, zero timeout with handler, nil handler, 1 ns timeout, an hour: all histories of 5 (6 thorough) steps", Body: c06options},
		core.Sub{Name: "re-entrant handler", Bound: "the handler calls Collect (of the same or another message), Pipes or Close: all histories of 6 (7 thorough) steps", Body: c06reentrant},
		core.Sub{Name: "timeouts", Bound: "77 timeouts (every power of ten and of two of nanoseconds up to days, +-1, 999 ms, 1.5 s, 90 min, 30 years) x 2..3 parts x the last part one nanosecond before the timeout, at it, or never x handler or none", Body: c06timeouts},
		core.Sub{Name: "restart", Bound: "up to 5 (6 thorough) parts of messages of 3..6 (3..8 thorough), 9, 17, 33, 65, 129 and 255 parts arriving at all intervals out of {1, timeout-1, timeout, timeout+1}, the callbacks run at once or only after any number of further arrivals", Body: c06restart},
	)
}

const c06d = 10 * time.Second

var c06segs = []seg{part("1", 1, 3, 1), part("1", 1, 3, 2), part("1", 1, 3, 3), part("2", 1, 2, 1), part("2", 1, 2, 2), {name: "single", t: peer(tpdu.SmsDeliver, 0x91, "1")}}

func (s *sim) runAll() {
	for n := 0; len(s.w.Due) > 0; n++ {
		if n > 1000 {
			s.fail("expiry does not end")
		}
		s.runDue(0)
	}
}

// drain lets everything expire that will.
func (s *sim) drain() {
	s.runAll()
	s.pipes()
	for n := 0; n < 50; n++ {
		t, ok := s.w.NextDeadline()
		if !ok {
			break
		}
		s.advance(t - s.w.Time())
		s.runAll()
	}
	if s.m.timeout != 0 && !s.m.closed {
		for _, o := range s.m.open {
			if s.inH == nil {
				s.fail("%s never expires", o.str())
			}
		}
	}
	s.advance(10 * s.m.timeout)
	s.runAll()
	s.pipes()
	s.finish()
}

func c06histories(x *X) {
	s := newSim(x, c06d, true)
	defer s.w.Release()
	n := x.Pick(7, 8)
	h := uint64(0)
	for i := 0; i < n; i++ {
		k := x.Choose(len(c06segs) + 3)
		switch {
		case k < len(c06segs):
			s.collect(&c06segs[k])
		case k == len(c06segs):
			s.advance(time.Second)
		case k == len(c06segs)+1:
			s.advance(c06d - 1)
		default:
			s.advance(c06d)
		}
		s.runAll()
		h = core.Mix(h ^ s.m.hash())
	}
	x.State(h)
	s.drain()
}

func c06delayed(x *X) {
	s := newSim(x, c06d, true)
	defer s.w.Release()
	n := x.Pick(7, 8)
	h := uint64(0)
	al := []seg{c06segs[0], c06segs[1], c06segs[2], c06segs[3]}
	for i := 0; i < n; i++ {
		k := x.Choose(len(al) + 3 + len(s.w.Due))
		switch {
		case k < len(al):
			s.collect(&al[k])
		case k == len(al):
			s.advance(c06d)
		case k == len(al)+1:
			s.advance(6 * time.Second)
		case k == len(al)+2:
			s.pipes()
		default:
			s.runDue(k - len(al) - 3)
		}
		h = core.Mix(h ^ s.m.hash())
	}
	x.State(h)
	s.drain()
}

func c06options(x *X) {
	var s *sim
	v := x.Choose(6)
	switch v {
	case 0:
		s = newSim(x, 0, false)
	case 1:
		s = newSim(x, 0, true)
	case 2:
		s = newSim(x, c06d, false)
	case 3:
		s = newSim(x, 1, true)
	case 4:
		s = newSim(x, time.Hour, true)
	case 5:
		s = newSim(x, 1, false)
	}
	defer s.w.Release()
	n := x.Pick(5, 6)
	h := uint64(v)
	al := []seg{c06segs[0], c06segs[1], c06segs[2], c06segs[3], c06segs[4]}
	delayed := x.Bool()
	for i := 0; i < n; i++ {
		k := x.Choose(len(al) + 3)
		switch {
		case k < len(al):
			s.collect(&al[k])
		case k == len(al):
			s.advance(1)
		case k == len(al)+1:
			s.advance(c06d)
		default:
			if delayed && len(s.w.Due) > 0 {
				s.runDue(0)
			} else {
				s.advance(time.Hour)
			}
		}
		if !delayed {
			s.runAll()
		}
		h = core.Mix(h ^ s.m.hash())
	}
	x.State(h)
	s.drain()
}

func c06reentrant(x *X) {
	s := newSim(x, c06d, true)
	defer s.w.Release()
	v := x.Choose(5)
	calls := 0
	s.inH = func(l []*tpdu.TPDU) {
		if calls++; calls > 6 {
			return
		}
		switch v {
		case 0:
			s.pipes()
		case 1:
			s.collect(&c06segs[0])
		case 2:
			s.collect(&c06segs[4])
		case 3:
			s.close()
		case 4:
			s.pipes()
			s.collect(&c06segs[1])
			s.pipes()
		}
	}
	n := x.Pick(6, 7)
	h := uint64(v)
	al := []seg{c06segs[0], c06segs[1], c06segs[2], c06segs[3]}
	for i := 0; i < n; i++ {
		k := x.Choose(len(al) + 2)
		switch {
		case k < len(al):
			s.collect(&al[k])
		case k == len(al):
			s.advance(c06d)
		default:
			if len(s.w.Due) > 0 {
				s.runDue(x.Choose(len(s.w.Due)))
			} else {
				s.pipes()
			}
		}
		h = core.Mix(h ^ s.m.hash())
	}
	x.State(h)
	s.drain()
}

func c06restart(x *X) {
	tot := []int{3, 4, 5, 6, 9, 17, 33, 65, 129, 255, 7, 8}
	total := tot[x.Choose(x.Pick(10, 12))]
	sent := total
	if lim := x.Pick(5, 6); sent > lim {
		sent = lim
	}
	rev := x.Bool()
	s := newSim(x, c06d, true)
	defer s.w.Release()
	h := core.HashInts(total)
	late := false
	for i := 0; i < sent; i++ {
		k := i
		if rev {
			k = total - 1 - i
		}
		p := part("1", 1, total, k+1)
		s.collect(&p)
		if i == total-1 {
			break
		}
		switch x.Choose(6) {
		case 0:
			s.advance(1)
		case 1:
			s.advance(c06d - 1)
			s.collect(&p) // a duplicate does not restart the timeout
			s.pipes()
		case 2:
			s.advance(c06d - 1)
		case 3:
			s.advance(c06d)
		case 4:
			s.advance(c06d + 1)
		case 5: // the callback waits, for one or for several arrivals
			s.advance(c06d)
			late = true
		}
		if !late || x.Bool() {
			s.runAll()
			late = false
		}
		h = core.Mix(h ^ s.m.hash())
	}
	x.State(h)
	s.drain()
}

var c06durations = func() (out []time.Duration) {
	for d := time.Duration(10); d < 1e17; d *= 10 {
		out = append(out, d-1, d, d+1)
	}
	for b := uint(1); b < 59; b += 3 {
		out = append(out, 1<<b)
	}
	return append(out, 1, 2, 3, 999*time.Millisecond, 1500*time.Millisecond, 61*time.Second, 90*time.Minute, 36*time.Hour, 30*365*24*time.Hour)
}()

func c06timeouts(x *X) {
	d := c06durations[x.Choose(len(c06durations))]
	total := x.Range(2, 3)
	handler := x.Bool()
	how := x.Choose(4)
	s := newSim(x, d, handler)
	defer s.w.Release()
	x.State(core.HashInts(int(d), total, how, 1))
	for i := 1; i <= total; i++ {
		p := part("1", 1, total, i)
		s.collect(&p)
		if i == total {
			break
		}
		s.advance(d - 1)
		s.runAll()
		s.pipes()
		if i < total-1 {
			continue
		}
		switch how {
		case 1:
			s.advance(1)
			s.runAll()
			s.pipes()
		case 2:
			s.advance(1)
			s.pipes()
		case 3:
			s.advance(1)
			s.runAll()
			q := part("1", 1, total, 1)
			s.collect(&q)
			s.advance(d - 1)
			s.runAll()
		}
	}
	s.runAll()
	s.pipes()
	for n := 0; n < 3; n++ {
		if t, ok := s.w.NextDeadline(); ok {
			s.advance(t - s.w.Time())
			s.runAll()
		}
	}
	if s.m.timeout != 0 && len(s.m.open) > 0 {
		s.fail("%s never expires", s.m.open[0].str())
	}
	s.pipes()
	s.finish()
}
