package props

import (
	"fmt"

	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func init() {
	core.Register("C27",
		core.Sub{Name: "complete", Bound: "all lists of 0..3 (4 thorough, reduced) segments from 46: no concatenation or reference {1,2} x total 0..4 x sequence 0..4, as 8 or 16 bit elements", Body: c27complete},
		core.Sub{Name: "complete-long", Bound: "complete lists of every length 1..255, and with one segment's reference, total, sequence or element changed, moved, missing or repeated", Body: c27long},
		core.Sub{Name: "decode", Bound: "all lists of 0..3 (4 thorough) segments from 22 (plain, language headers, 8-bit, UCS-2 with split surrogates, odd, reserved schemes) x 14 option lists: text in order or an error and no text", Body: c27decode},
		core.Sub{Name: "schemes", Bound: "all 256 data coding schemes of the first x 20 (256 thorough) of the second segment, and each alone, x 7 user data, with and without language header: text by each one's own scheme", Body: c27schemes},
		core.Sub{Name: "languages", Bound: "every locking x shift identifier 0..16, 127..129, 255 in headers (also twice, also empty) and all 256 of either alone x 14 option lists: tables used", Body: c27languages},
	)
}

func c27seg(kind, r, t, s int) *tpdu.TPDU {
	switch kind {
	case 8:
		return &tpdu.TPDU{UDH: tpdu.UserDataHeader{{ID: 0, Data: []byte{byte(r), byte(t), byte(s)}}}}
	case 16:
		return &tpdu.TPDU{UDH: tpdu.UserDataHeader{{ID: 8, Data: []byte{byte(r), 7, byte(t), byte(s)}}}}
	}
	return &tpdu.TPDU{}
}

func c27check(x *X, segs []*tpdu.TPDU, desc string) {
	want := false
	if len(segs) == 1 {
		_, _, _, ok := c27info(segs[0])
		want = !ok
	}
	if len(segs) > 0 && !want {
		want = true
		t0, _, r0, _ := c27info(segs[0])
		for i, s := range segs {
			t, n, r, ok := c27info(s)
			if !ok || t != len(segs) || t != t0 || r != r0 || n != i+1 {
				want = false
			}
		}
	}
	x.Op()
	x.State(core.HashStr(desc))
	got := sms.IsCompleteMessage(segs)
	x.Logf("IsCompleteMessage(%s) = %v", desc, got)
	if got != want {
		x.Failf("IsCompleteMessage(%s) = %v; want %v", desc, got, want)
	}
}

func c27info(p *tpdu.TPDU) (t, n, r int, ok bool) {
	for _, ie := range p.UDH {
		if ie.ID == 0 && len(ie.Data) == 3 {
			return int(ie.Data[1]), int(ie.Data[2]), int(ie.Data[0]), true
		}
		if ie.ID == 8 && len(ie.Data) == 4 {
			return int(ie.Data[2]), int(ie.Data[3]), int(ie.Data[0])<<8 + int(ie.Data[1]), true
		}
	}
	return
}

func c27complete(x *X) {
	kind := x.Int(8, 16)
	n := x.Choose(x.Pick(4, 5))
	var segs []*tpdu.TPDU
	desc := fmt.Sprint(kind)
	for i := 0; i < n; i++ {
		if n == 4 {
			// reduced
			k := x.Choose(14)
			if k == 0 {
				segs = append(segs, c27seg(0, 0, 0, 0))
				desc += " -"
				continue
			}
			k--
			r, t, s := 1, 4, k%6
			if k >= 6 {
				t = 3 + k%2
				r = 1 + k/10
				s = 1 + (k-6)%4
			}
			segs = append(segs, c27seg(kind, r, t, s))
			desc += fmt.Sprintf(" %d/%d/%d", r, t, s)
			continue
		}
		k := x.Choose(51)
		if k == 50 {
			segs = append(segs, c27seg(0, 0, 0, 0))
			desc += " -"
			continue
		}
		r, t, s := 1+k/25, k/5%5, k%5
		segs = append(segs, c27seg(kind, r, t, s))
		desc += fmt.Sprintf(" %d/%d/%d", r, t, s)
	}
	c27check(x, segs, desc)
}

func c27long(x *X) {
	n := 1 + x.Choose(255)
	kind := x.Int(8, 16)
	var segs []*tpdu.TPDU
	for i := 1; i <= n; i++ {
		segs = append(segs, c27seg(kind, 9, n, i))
	}
	p := x.Choose(3)
	p = []int{0, n / 2, n - 1}[p]
	m := x.Choose(8)
	switch m {
	case 1:
		segs[p] = c27seg(kind, 10, n, p+1)
	case 2:
		segs[p] = c27seg(kind, 9, n+1, p+1)
	case 3:
		segs[p] = c27seg(kind, 9, n, p)
	case 4:
		segs[p] = c27seg(0, 0, 0, 0)
	case 5:
		segs = append(segs[:p], segs[p+1:]...)
	case 6:
		segs = append(segs, segs[p])
	case 7:
		segs[p], segs[0] = segs[0], segs[p]
	}
	c27check(x, segs, fmt.Sprintf("%d bit, %d segments, change %d at %d", kind, n, m, p))
}

// c27decodeRef is the reference: the text of the segments, or not ok.
// lockOK and shiftOK say which tables the options allow.
func c27decodeRef(segs []*tpdu.TPDU, lockOK, shiftOK func(int) bool) (out []byte, ok bool) {
	var pend []byte // a surrogate to be continued
	for _, s := range segs {
		a := ref.Alpha(byte(s.DCS))
		if len(pend) > 0 && a != 2 {
			return nil, false
		}
		switch a {
		case 1:
			out = append(out, s.UD...)
		case 2:
			if len(s.UD)%2 != 0 {
				return nil, false
			}
			d := append(pend, s.UD...)
			pend = nil
			rs, dangling, _ := ref.DecUTF16(d)
			if dangling {
				pend = append([]byte{}, d[len(d)-2:]...)
			}
			out = append(out, string(rs)...)
		default:
			lock, shift := 0, 0
			for _, ie := range s.UDH {
				if ie.ID == 25 {
					lock = 0
					if len(ie.Data) > 0 && lockOK(int(ie.Data[0])) {
						lock = int(ie.Data[0])
					}
				}
				if ie.ID == 24 {
					shift = 0
					if len(ie.Data) > 0 && shiftOK(int(ie.Data[0])) {
						shift = int(ie.Data[0])
					}
				}
			}
			rs, ok := ref.DecText(s.UD, lock, shift, false)
			if !ok {
				return nil, false
			}
			out = append(out, string(rs)...)
		}
	}
	if pend != nil {
		return nil, false
	}
	return out, true
}

func c27all(n int) bool  { return n >= 1 && n <= 13 }
func c27none(n int) bool { return false }
func c27is(l ...int) func(int) bool {
	return func(n int) bool {
		for _, v := range l {
			if v == n {
				return true
			}
		}
		return false
	}
}

type c27opt struct {
	name    string
	o       []sms.DecodeOption
	lock, s func(int) bool
}

func c27options() []c27opt {
	return []c27opt{
		{"none", nil, c27all, c27all},
		{"WithDefaultCharset", []sms.DecodeOption{sms.WithDefaultCharset}, c27none, c27none},
		{"WithCharset(1)", []sms.DecodeOption{sms.WithCharset(1)}, c27is(1), c27is(1)},
		{"WithCharset(3,4)", []sms.DecodeOption{sms.WithCharset(3, 4)}, c27is(3, 4), c27is(3, 4)},
		{"WithLockingCharset(3)", []sms.DecodeOption{sms.WithLockingCharset(3)}, c27is(3), c27none},
		{"WithShiftCharset(1)", []sms.DecodeOption{sms.WithShiftCharset(1)}, c27none, c27is(1)},
		{"WithShiftCharset(1), WithLockingCharset(1,3)", []sms.DecodeOption{sms.WithShiftCharset(1), sms.WithLockingCharset(1, 3)}, c27is(1, 3), c27is(1)},
		{"WithDefaultCharset, WithCharset(4)", []sms.DecodeOption{sms.WithDefaultCharset, sms.WithCharset(4)}, c27is(4), c27is(4)},
		{"WithCharset(200,255)", []sms.DecodeOption{sms.WithCharset(200, 255)}, c27none, c27none},
		{"WithCharset(1), WithCharset(2)", []sms.DecodeOption{sms.WithCharset(1), sms.WithCharset(2)}, c27is(1, 2), c27is(1, 2)},
		{"WithLockingCharset()", []sms.DecodeOption{sms.WithLockingCharset()}, c27none, c27none},
		{"WithAllCharsets", c27allCharsets(), c27all, c27all},
		{"WithCharset(1), WithAllCharsets", append([]sms.DecodeOption{sms.WithCharset(1)}, c27allCharsets()...), c27all, c27all},
		{"WithAllCharsets, WithDefaultCharset", append(c27allCharsets(), sms.WithDefaultCharset), c27all, c27all},
	}
}

// c27allCharsets returns the documented option for all character sets, or nil
// where it is none for decoding.
func c27allCharsets() []sms.DecodeOption {
	if o, ok := any(sms.WithAllCharsets).(sms.DecodeOption); ok {
		return []sms.DecodeOption{o}
	}
	return []sms.DecodeOption{nil}
}

var c27segs = func() []tpdu.TPDU {
	nl := func(id byte, n byte) tpdu.InformationElement {
		return tpdu.InformationElement{ID: id, Data: []byte{n}}
	}
	ud := []byte{0x24, 0x40, 0x1b, 0x65, 0x1b, 0x53, 0x5f}
	return []tpdu.TPDU{
		{UD: ud},
		{UD: ud, UDH: tpdu.UserDataHeader{nl(25, 1)}},
		{UD: ud, UDH: tpdu.UserDataHeader{nl(24, 1)}},
		{UD: ud, UDH: tpdu.UserDataHeader{nl(24, 3), nl(25, 4), {ID: 0, Data: []byte{1, 2, 3}}}},
		{UD: ud, UDH: tpdu.UserDataHeader{nl(24, 1), nl(24, 4)}},
		{UD: []byte{0x1b}},
		{UD: []byte{0x1b, 0x1b, 0x3c}},
		{DCS: 4, UD: []byte{0xff, 0x00, 0xc3}},
		{DCS: 0xf5, UD: []byte{0x41}},
		{DCS: 8, UD: []byte{0x20, 0xac, 0x00, 0x41}},
		{DCS: 8, UD: []byte{0x00, 0x41, 0xd8, 0x3d}},
		{DCS: 8, UD: []byte{0xde, 0x00, 0x00, 0x42}},
		{DCS: 8, UD: []byte{0xde, 0x00, 0xd8, 0x3d}},
		{DCS: 8, UD: []byte{0x00, 0x41, 0x42}},
		{DCS: 8},
		{DCS: 4},
		{},
		{DCS: 8, UD: []byte{0xde, 0x00}},
		{DCS: 0xe0, UD: []byte{0x04, 0x16, 0xd8, 0x3d}},
		{DCS: 0x80, UD: []byte{0x00, 0x42, 0x1b, 0x65}},
		{DCS: 0x0c, UD: []byte{0x02, 0x43}},
		{DCS: 0xd0, UD: []byte{0x44, 0x1b, 0x65}},
	}
}()

func c27dec(x *X, segs []*tpdu.TPDU, o c27opt) {
	var desc string
	for _, s := range segs {
		desc += fmt.Sprintf(" [dcs %02x udh %x ud %x]", byte(s.DCS), s.UDH, s.UD)
	}
	for _, d := range o.o {
		if d == nil {
			x.Failf("WithAllCharsets, documented as an option for encoding and decoding, is no DecodeOption")
		}
	}
	want, ok := c27decodeRef(segs, o.lock, o.s)
	got, err := sms.Decode(segs, o.o...)
	x.Op()
	x.State(core.HashStr(desc, o.name))
	if x.V {
		x.Logf("Decode(%s; %s) = %q, %v", desc, o.name, got, err)
	}
	if ok != (err == nil) {
		x.Failf("Decode(%s; %s) = %q, %v; want error %v", desc, o.name, got, err, !ok)
	}
	if !ok && len(got) != 0 {
		x.Failf("Decode(%s; %s) = %q together with error %v", desc, o.name, got, err)
	}
	if ok && !eq(got, want) {
		x.Failf("Decode(%s; %s) = %q; want %q", desc, o.name, got, want)
	}
}

func c27decode(x *X) {
	opts := c27options()
	n := x.Choose(x.Pick(4, 5))
	var segs []*tpdu.TPDU
	for i := 0; i < n; i++ {
		t := cloneT(c27segs[x.Choose(len(c27segs))])
		segs = append(segs, &t)
	}
	c27dec(x, segs, opts[x.Choose(len(opts))])
}

// c27schemes has every data coding scheme, also the reserved.
func c27schemes(x *X) {
	uds := [][]byte{nil, {0x00, 0x01}, {0x1b, 0x65}, {0x04, 0x1d, 0x00}, {0x00, 0x41, 0xd8, 0x3d}, {0xde, 0x00}, {0x24, 0x40, 0x1b, 0x53}}
	o := c27options()[0]
	var segs []*tpdu.TPDU
	seg := func(d byte) {
		t := &tpdu.TPDU{DCS: tpdu.DCS(d), UD: append([]byte(nil), uds[x.Choose(len(uds))]...)}
		if x.Bool() {
			t.UDH = tpdu.UserDataHeader{{ID: 25, Data: []byte{1}}, {ID: 24, Data: []byte{2}}}
		}
		// the top bits of an octet mean nothing in 7-bit
		if a := ref.Alpha(d); a == 0 || a == -1 {
			for i := range t.UD {
				t.UD[i] &= 0x7f
			}
		}
		segs = append(segs, t)
	}
	seg(byte(x.Choose(256)))
	if x.Bool() {
		if x.Thorough() {
			seg(byte(x.Choose(256)))
		} else {
			few := []byte{0, 4, 8, 0x0c, 0x14, 0x19, 0x28, 0x44, 0x78, 0x80, 0x84, 0x88, 0xb8, 0xc8, 0xd0, 0xe0, 0xf0, 0xf8, 0xf5, 0xff}
			seg(few[x.Choose(len(few))])
		}
	}
	c27dec(x, segs, o)
}

func c27languages(x *X) {
	ids := []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 127, 128, 129, 255}
	ie := func(id byte) (l tpdu.UserDataHeader) {
		switch k := x.Choose(len(ids) + 2); {
		case k == 0:
		case k == len(ids)+1:
			l = append(l, tpdu.InformationElement{ID: id})
		default:
			l = append(l, tpdu.InformationElement{ID: id, Data: []byte{ids[k-1], 99}[:1+k%2]})
		}
		return
	}
	var h tpdu.UserDataHeader
	if x.Bool() {
		// one alone
		h = tpdu.UserDataHeader{{ID: 24 + byte(x.Choose(2)), Data: []byte{byte(x.Choose(256))}}}
	} else {
		h = append(ie(25), ie(24)...)
	}
	if x.Bool() {
		h = append(h, tpdu.InformationElement{ID: 25, Data: []byte{3}})
	}
	var ud []byte
	for c := byte(0x20); c < 0x40; c++ {
		ud = append(ud, c, 0x1b, c+0x30)
	}
	o := c27options()
	c27dec(x, []*tpdu.TPDU{{UDH: h, UD: ud}}, o[x.Choose(len(o))])
}
