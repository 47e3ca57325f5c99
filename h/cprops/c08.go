package cprops

import (
	"time"

	"verif.local/h/core"
)

func init() {
	core.Register("C08",
		core.Sub{Name: "histories", Bound: "all histories of 6 (7 thorough) steps from: close, arrival of one of 5 segments (single, parts, malformed), time, any one of the callbacks waiting, with timeout and handler, timeout and no handler, or neither; then everything is left to expire", Body: c08histories},
		core.Sub{Name: "after", Bound: "closing (1..3 times) after all histories of 4 arrivals over 6 segments of 3 messages, at once or with the timeouts elapsed but not handled, then every arrival of the alphabets of C05, with time passing in between", Body: c08after},
	)
}

var c08segs = []seg{c06segs[0], c06segs[1], c06segs[3], c06segs[4], c06segs[5]}

func c08histories(x *X) {
	v := x.Choose(3)
	var s *sim
	switch v {
	case 0:
		s = newSim(x, c06d, true)
	case 1:
		s = newSim(x, c06d, false)
	case 2:
		s = newSim(x, 0, false)
	}
	defer s.w.Release()
	n := x.Pick(6, 7)
	h := uint64(v)
	for i := 0; i < n; i++ {
		k := x.Choose(len(c08segs) + 3 + len(s.w.Due))
		switch {
		case k < len(c08segs):
			s.collect(&c08segs[k])
		case k == len(c08segs):
			s.close()
			s.pipes()
		case k == len(c08segs)+1:
			s.advance(c06d)
		case k == len(c08segs)+2:
			s.advance(4 * time.Second)
		default:
			s.runDue(k - len(c08segs) - 3)
		}
		if s.m.closed {
			s.pipes()
		}
		h = core.Mix(h ^ s.m.hash())
	}
	x.State(h)
	s.drain()
}

func c08after(x *X) {
	s := newSim(x, c06d, true)
	defer s.w.Release()
	al := append(append([]seg{}, c06segs[:5]...), part("3", 1, 2, 1))
	h := uint64(0)
	for i := 0; i < 4; i++ {
		s.collect(&al[x.Choose(len(al))])
	}
	switch x.Choose(3) {
	case 1:
		s.advance(c06d)
	case 2:
		s.advance(c06d - 1)
	}
	times := x.Range(1, 3)
	for i := 0; i < times; i++ {
		s.close()
	}
	h = core.Mix(s.m.hash() ^ uint64(times))
	x.State(h)
	s.pipes()
	order := x.Choose(2)
	if order == 1 {
		s.runAll()
		s.pipes()
	}
	for i := range c05segs {
		s.collect(&c05segs[i])
	}
	for i := range c05bad {
		s.collect(&c05bad[i])
	}
	for i := range al {
		s.collect(&al[i])
	}
	s.pipes()
	s.advance(c06d)
	s.close()
	s.pipes()
	s.drain()
}
