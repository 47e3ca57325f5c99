package cprops

import (
	"fmt"
	"reflect"
	"time"

	"verif.local/h/core"
	"verif.local/h/props"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func init() {
	core.Register("C05",
		core.Sub{Name: "keys", Bound: "all histories of 5 (6 thorough) arrivals over 13 segments of 2 (3)-part messages that agree or differ in each keying attribute (type, TOA, address, reference, total, reference width), the snapshot compared after every arrival", Body: c05keys},
		core.Sub{Name: "orders", Bound: "all arrival histories of up to 6 (7 thorough) parts of one 2..4-part message, so all orders, duplicates at every point and re-use of the reference, with a second message and single parts in between", Body: c05orders},
		core.Sub{Name: "malformed", Bound: "all histories of 4 (5 thorough) arrivals over 18 segments: sequence numbers 0 and beyond the total, totals 0 and 1, several concatenation elements, elements of wrong length, other elements, all TPDU types", Body: c05malformed},
		core.Sub{Name: "peers", Bound: "two-part messages interleaved for every pair of 363 peers (digits differing in each of 20 places, lengths, names differing in case or spacing, every type-of-address octet) x submit/deliver, and for every pair of 730 combinations of reference, total and address chosen to be confusable (every reference octet, every bit of 16, every total, digits moved between the fields)", Body: c05peers},
		core.Sub{Name: "fields", Bound: "all histories of 5 (6 thorough) arrivals of the 2..4 parts of one submit or deliver message, each as it was or with one of 21 fields that do not tell messages apart (references, flags, schemes, times, other addresses, other header elements) changed", Body: c05fields},
		core.Sub{Name: "bulk", Bound: "messages of 255 parts in 6 orders, 300 interleaved messages, 256 references, re-used, and 70000 (300000 thorough) messages pending at once", Body: c05bulk},
	)
}

var c05segs = func() []seg {
	D, S := tpdu.SmsDeliver, tpdu.SmsSubmit
	return []seg{
		mkseg("A1", D, 0x91, "1234", 1, 2, 1, false),
		mkseg("A2", D, 0x91, "1234", 1, 2, 2, false),
		mkseg("submit-1", S, 0x91, "1234", 1, 2, 1, false),
		mkseg("submit-2", S, 0x91, "1234", 1, 2, 2, false),
		mkseg("toa-2", D, 0x81, "1234", 1, 2, 2, false),
		mkseg("addr-2", D, 0x91, "12345", 1, 2, 2, false),
		mkseg("ref-1", D, 0x91, "1234", 2, 2, 1, false),
		mkseg("ref-2", D, 0x91, "1234", 2, 2, 2, false),
		mkseg("total-1", D, 0x91, "1234", 1, 3, 1, false),
		mkseg("total-2", D, 0x91, "1234", 1, 3, 2, false),
		mkseg("total-3", D, 0x91, "1234", 1, 3, 3, false),
		mkseg("wide-2", D, 0x91, "1234", 0x101, 2, 2, true),
		mkseg("empty-addr-2", D, 0x91, "", 1, 2, 2, false),
	}
}()

func c05keys(x *X) {
	s := newSim(x, 0, false)
	defer s.w.Release()
	n := x.Pick(5, 6)
	h := uint64(0)
	for i := 0; i < n; i++ {
		s.collect(&c05segs[x.Choose(len(c05segs))])
		s.pipes()
		h = core.Mix(h ^ s.m.hash())
	}
	x.State(h)
	s.finish()
}

func c05orders(x *X) {
	total := x.Range(2, 4)
	var al []seg
	for i := 1; i <= total; i++ {
		al = append(al, part("1234", 7, total, i))
	}
	al = append(al, part("1234", 8, 2, 1), part("1234", 8, 2, 2))
	al = append(al, seg{name: "single", t: peer(tpdu.SmsDeliver, 0x91, "1234")})
	s := newSim(x, 0, false)
	defer s.w.Release()
	n := x.Pick(6, 7)
	h := uint64(total)
	for i := 0; i < n; i++ {
		s.collect(&al[x.Choose(len(al))])
		h = core.Mix(h ^ s.m.hash())
		if i == 2 || i == n-1 {
			s.pipes()
		}
	}
	x.State(h)
	s.finish()
}

var c05bad = func() []seg {
	D := tpdu.SmsDeliver
	out := []seg{
		part("1", 1, 2, 1), part("1", 1, 2, 2),
		part("1", 1, 2, 0), part("1", 1, 2, 3), part("1", 1, 2, 255),
		part("1", 1, 0, 0), part("1", 1, 0, 1), part("1", 1, 1, 1), part("1", 1, 1, 0), part("1", 1, 1, 9),
		mkseg("wide 0", D, 0x91, "1", 1, 2, 0, true),
		mkseg("wide 2", D, 0x91, "1", 0x201, 2, 2, true),
		mkseg("port and concat 2", D, 0x91, "1", 1, 2, 2, false, tpdu.InformationElement{ID: 5, Data: []byte{1, 2, 3, 4}}),
	}
	one := func(name string, t tpdu.TPDU) { out = append(out, seg{name: name, t: t}) }
	one("no header", peer(D, 0x91, "1"))
	one("other header", withUDH(peer(D, 0x91, "1"), tpdu.InformationElement{ID: 5, Data: []byte{1, 2, 3, 4}}))
	for _, st := range []tpdu.SmsType{tpdu.SmsDeliverReport, tpdu.SmsSubmitReport, tpdu.SmsStatusReport, tpdu.SmsCommand} {
		out = append(out, mkseg("concatenated "+st.String(), st, 0x91, "1", 1, 2, 2, false))
	}
	out = append(out, mkseg("malformed report", tpdu.SmsStatusReport, 0x91, "1", 1, 2, 3, false))
	one("single report", peer(tpdu.SmsStatusReport, 0x91, "1"))
	one("single command", peer(tpdu.SmsCommand, 0x91, "1"))
	return out
}()

func c05malformed(x *X) {
	s := newSim(x, 0, false)
	defer s.w.Release()
	n := x.Pick(4, 5)
	h := uint64(0)
	for i := 0; i < n; i++ {
		s.collect(&c05bad[x.Choose(len(c05bad))])
		s.pipes()
		h = core.Mix(h ^ s.m.hash())
	}
	x.State(h)
	s.finish()
}

var c05addrs = props.PeerAddrs()

var c05mixed = func() (out []mkey) {
	D := tpdu.SmsDeliver
	for r := 0; r < 256; r++ {
		out = append(out, mkey{D, 0x91, "1234", r, 2})
	}
	for b := uint(8); b < 16; b++ {
		out = append(out, mkey{D, 0x91, "1234", 1 << b, 2}, mkey{D, 0x91, "1234", 1<<b | 1, 2}, mkey{D, 0x91, "1234", 0xffff &^ (1 << b), 2})
	}
	out = append(out, mkey{D, 0x91, "1234", 0xffff, 2})
	for n := 3; n < 256; n++ {
		out = append(out, mkey{D, 0x91, "1234", 1, n})
	}
	for _, a := range []string{"", "1", "12", "121", "1:2", "12:1", "11:1"} {
		for _, r := range []int{1, 2, 11, 12, 21, 112, 121} {
			for _, n := range []int{2, 12, 21, 112} {
				out = append(out, mkey{D, 0x91, a, r, n})
			}
		}
	}
	return
}()

func c05peers(x *X) {
	var a, b mkey
	if x.Bool() {
		i := x.Choose(len(c05mixed))
		j := i + x.Choose(len(c05mixed)-i)
		a, b = c05mixed[i], c05mixed[j]
	} else {
		st := tpdu.SmsDeliver
		if x.Bool() {
			st = tpdu.SmsSubmit
		}
		i := x.Choose(len(c05addrs))
		j := i + x.Choose(len(c05addrs)-i)
		a = mkey{st, c05addrs[i].TOA, c05addrs[i].Addr, 1, 2}
		b = mkey{st, c05addrs[j].TOA, c05addrs[j].Addr, 1, 2}
	}
	mk := func(k mkey, seq int) *seg {
		g := mkseg("part", k.st, k.toa, k.addr, k.ref, k.total, seq, k.ref > 255)
		g.name = fmt.Sprintf("%v/%02x/%s/%d part %d of %d", k.st, k.toa, k.addr, k.ref, seq, k.total)
		return &g
	}
	if x.Thorough() && x.Bool() {
		a, b = b, a
	}
	s := newSim(x, 0, false)
	defer s.w.Release()
	s.collect(mk(a, 1))
	s.collect(mk(b, 2))
	s.pipes()
	s.collect(mk(a, 2))
	s.collect(mk(b, 1))
	s.pipes()
	x.State(core.HashStr(fmt.Sprint(a, b)))
	s.finish()
}

// c05vary are changes that do not make a part one of another message.
var c05vary = []struct {
	name string
	f    func(*tpdu.TPDU)
}{
	{"reference", func(t *tpdu.TPDU) { t.MR = 77 }},
	{"more messages", func(t *tpdu.TPDU) { t.FirstOctet |= tpdu.FoMMS }},
	{"loop prevention or format", func(t *tpdu.TPDU) { t.FirstOctet |= tpdu.FoLP }},
	{"report", func(t *tpdu.TPDU) { t.FirstOctet |= tpdu.FoSRR }},
	{"reply path", func(t *tpdu.TPDU) { t.FirstOctet |= tpdu.FoRP }},
	{"header flag", func(t *tpdu.TPDU) { t.FirstOctet &^= tpdu.FoUDHI }},
	{"pid", func(t *tpdu.TPDU) { t.PID = 0x41 }},
	{"8 bit", func(t *tpdu.TPDU) { t.DCS = 4 }},
	{"class", func(t *tpdu.TPDU) { t.DCS = 0xf1 }},
	{"reserved scheme", func(t *tpdu.TPDU) { t.DCS = 0x8f }},
	{"time", func(t *tpdu.TPDU) { t.SCTS.Time = time.Date(2024, 2, 29, 12, 34, 56, 0, time.UTC) }},
	{"discharge time", func(t *tpdu.TPDU) { t.DT.Time = time.Date(2024, 2, 29, 12, 34, 56, 0, time.UTC) }},
	{"validity", func(t *tpdu.TPDU) { t.VP.SetRelative(time.Hour) }},
	{"status, cause, command", func(t *tpdu.TPDU) { t.ST, t.FCS, t.CT, t.MN = 1, 2, 3, 4 }},
	{"indicator", func(t *tpdu.TPDU) { t.PI = 7 }},
	{"other address", func(t *tpdu.TPDU) {
		a := tpdu.Address{TOA: 0x81, Addr: "999"}
		if t.SmsType() == tpdu.SmsSubmit {
			t.OA = a
		} else {
			t.DA = a
		}
	}},
	{"recipient", func(t *tpdu.TPDU) { t.RA = tpdu.Address{TOA: 0xd0, Addr: "abc"} }},
	{"element before", func(t *tpdu.TPDU) {
		t.UDH = append(tpdu.UserDataHeader{{ID: 5, Data: []byte{1, 2, 3, 4}}}, t.UDH...)
	}},
	{"element after", func(t *tpdu.TPDU) {
		t.UDH = append(t.UDH[:len(t.UDH):len(t.UDH)], tpdu.InformationElement{ID: 0x24, Data: []byte{1}})
	}},
	{"wide element of another message before", func(t *tpdu.TPDU) {
		t.UDH = append(tpdu.UserDataHeader{ie16(500, 9, 1)}, t.UDH...)
	}},
	{"earlier concatenation element", func(t *tpdu.TPDU) {
		t.UDH = append(tpdu.UserDataHeader{ie8(50, 9, 1)}, t.UDH...)
	}},
}

func c05fields(x *X) {
	st := []tpdu.SmsType{tpdu.SmsDeliver, tpdu.SmsSubmit}[x.Choose(2)]
	total := x.Range(2, 4)
	v := c05vary[x.Choose(len(c05vary))]
	var al []seg
	for i := 1; i <= total; i++ {
		g := mkseg(fmt.Sprintf("part %d of %d", i, total), st, 0x91, "1234", 7, total, i, false)
		al = append(al, g)
		g.t.UDH = append(tpdu.UserDataHeader{}, g.t.UDH...)
		v.f(&g.t)
		g.name += " with other " + v.name
		al = append(al, g)
	}
	s := newSim(x, 0, false)
	defer s.w.Release()
	n := x.Pick(5, 6)
	h := uint64(total)
	for i := 0; i < n; i++ {
		s.collect(&al[x.Choose(len(al))])
		h = core.Mix(h ^ s.m.hash())
	}
	s.pipes()
	x.State(h)
	s.finish()
}

func c05bulk(x *X) {
	mode := x.Choose(9)
	if mode == 8 {
		c05many(x)
		return
	}
	s := newSim(x, 0, false)
	defer s.w.Release()
	switch {
	case mode < 6:
		for rep := 0; rep < 2; rep++ {
			for i := 0; i < 255; i++ {
				k := i
				switch mode {
				case 1:
					k = 254 - i
				case 2:
					k = i * 2 % 255
				case 3:
					k = (i + 254) % 255
				case 4:
					k = i * 128 % 255
				case 5:
					k = (254*i + 7) % 255
				}
				p := part("42", 9, 255, k+1)
				s.collect(&p)
				if i%50 == 0 {
					s.collect(&p) // a duplicate
					s.pipes()
				}
			}
			s.pipes()
		}
	case mode == 6:
		// 300 peers, three parts each, in rounds
		for r := 1; r <= 3; r++ {
			for i := 0; i < 300; i++ {
				p := mkseg("p", tpdu.SmsDeliver, 0x91, string(rune('0'+i%10))+string(rune('0'+i/10%10))+string(rune('0'+i/100)), 1, 3, (r+i)%3+1, false)
				s.collect(&p)
			}
			s.pipes()
		}
	case mode == 7:
		for r := 0; r < 2; r++ {
			for ref := 0; ref < 256; ref++ {
				p := part("1", ref, 2, 1+(ref+r)%2)
				s.collect(&p)
			}
			s.pipes()
		}
		for _, ref := range []int{0, 255, 256, 65535, 65280} {
			for sq := 1; sq <= 2; sq++ {
				p := mkseg("w", tpdu.SmsSubmit, 0x91, "1", ref, 2, sq, true)
				s.collect(&p)
				s.pipes()
			}
		}
	}
	x.State(core.HashInts(mode))
	s.finish()
}

// c05many has very many messages pending, without the model, whose searches
// would be too slow: all are still there, and complete with their own parts.
func c05many(x *X) {
	n := x.Pick(70000, 300000)
	c := sms.NewCollector()
	mk := func(i, seq int) tpdu.TPDU {
		g := mkseg("", tpdu.SmsDeliver, 0x91, fmt.Sprint(100000+i/3), i, 3, seq, true)
		t := g.arrive(0)
		t.UD = tpdu.UserData{byte(i >> 16), byte(i >> 8), byte(i), byte(seq)}
		return t
	}
	for r := 1; r <= 3; r++ {
		if r > 1 {
			if l := len(c.Pipes()); l != n {
				x.Failf("%d of %d pending messages are in the snapshot", l, n)
			}
		}
		for i := 0; i < n; i++ {
			d, err := c.Collect(mk(i, (i+r)%3+1))
			x.Op()
			if err != nil || (d != nil) != (r == 3) {
				x.Failf("arrival %d of message %d of %d pending: %d parts, %v", r, i, n, len(d), err)
			}
			for k, p := range d {
				if w := mk(i, k+1); p == nil || !reflect.DeepEqual(*p, w) {
					x.Failf("message %d of %d pending completes with %v as part %d", i, n, p, k+1)
				}
			}
		}
	}
	if l := len(c.Pipes()); l != 0 || n == 0 {
		x.Failf("%d messages are pending at the end", l)
	}
	x.State(core.HashInts(8))
}
