package props

import (
	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms/encoding/tpdu"
)

func init() {
	core.Register("C22",
		core.Sub{Name: "lists", Bound: "all lists of 0..4 (5 thorough) elements from 16 (identifiers 0,8,24,25,1,255, data of 0..6 octets): octets, back with 3 kinds of trailing octets, UDHL, IE, IEs, ConcatInfo of every queried identifier", Body: c22lists},
		core.Sub{Name: "sizes", Bound: "all lists of 1..3 elements with data lengths around every limit (0,1,2,119..126,249..257): exact octets or refused", Body: c22sizes},
		core.Sub{Name: "octets", Bound: "all octet strings of length 0..6 (7 thorough) over {0..6,8,24,255}: elements, octets used or error as the reference; only the header's own octets are read", Body: c22octets},
		core.Sub{Name: "long", Bound: "headers of every UDHL 0..255 split into two or three elements at every boundary, with every kind of truncation and overrun by -2..+2", Body: c22long},
		core.Sub{Name: "many", Bound: "headers of every number 0..140 (300 thorough) of elements with 4 patterns of identifiers and 5 data lengths, one concatenation element at every 1st..last place; lists of up to 520 elements with totals around 255, 256, 511, 512, 1024, 65536, 131072: exact octets or refused", Body: c22many},
		core.Sub{Name: "concat", Bound: "all 256 values of each of reference (both octets), total and sequence of 8 and 16 bit elements (others fixed at 3 values); all combinations of up to 3 concatenation elements with right and wrong lengths", Body: c22concat},
	)
}

func same2(a, b tpdu.UserDataHeader) bool { return ref.SameUDH(a, b) }

// c22query checks the queries of a list.
func c22query(x *X, h tpdu.UserDataHeader) {
	for _, id := range []byte{0, 8, 24, 25, 1, 255, 2} {
		last := -1
		var all tpdu.UserDataHeader
		for i := range h {
			if h[i].ID == id {
				last = i
				all = append(all, h[i])
			}
		}
		ie, ok := h.IE(id)
		if ok != (last >= 0) || ok && (ie.ID != id || !eq(ie.Data, h[last].Data)) {
			x.Failf("UDH %x: IE(%d) = %x, %v; want element %d", h, id, ie, ok, last)
		}
		if got := h.IEs(id); !same2(got, all) {
			x.Failf("UDH %x: IEs(%d) = %x; want %x", h, id, got, all)
		}
	}
	type ci struct {
		t, s, r int
		ok      bool
	}
	var w8, w16 ci
	for _, e := range h { // the last of each identifier decides
		if e.ID == 0 {
			w8 = ci{}
			if len(e.Data) == 3 {
				w8 = ci{int(e.Data[1]), int(e.Data[2]), int(e.Data[0]), true}
			}
		}
		if e.ID == 8 {
			w16 = ci{}
			if len(e.Data) == 4 {
				w16 = ci{int(e.Data[2]), int(e.Data[3]), int(e.Data[0])*256 + int(e.Data[1]), true}
			}
		}
	}
	w := w8
	if !w8.ok {
		w = w16
	}
	var g ci
	g.t, g.s, g.r, g.ok = h.ConcatInfo8()
	if g != w8 {
		x.Failf("UDH %x: ConcatInfo8 = %v; want %v", h, g, w8)
	}
	g.t, g.s, g.r, g.ok = h.ConcatInfo16()
	if g != w16 {
		x.Failf("UDH %x: ConcatInfo16 = %v; want %v", h, g, w16)
	}
	g.t, g.s, g.r, g.ok = h.ConcatInfo()
	if g != w {
		x.Failf("UDH %x: ConcatInfo = %v; want %v", h, g, w)
	}
	t := tpdu.TPDU{UDH: h}
	g.t, g.s, g.r, g.ok = t.ConcatInfo()
	if g != w || t.IsSingleSegment() == w.ok {
		x.Failf("TPDU with UDH %x: ConcatInfo = %v, IsSingleSegment %v; want %v", h, g, t.IsSingleSegment(), w)
	}
	l := 0
	for _, e := range h {
		l += 2 + len(e.Data)
	}
	if h.UDHL() != l || t.UDHL() != l {
		x.Failf("UDH %x: UDHL %d, %d; want %d", h, h.UDHL(), t.UDHL(), l)
	}
	x.Ops(21)
}

func c22rt(x *X, h tpdu.UserDataHeader, trail []byte) {
	want, ok := ref.UDH(h)
	keep := cloneUDH(h)
	got, err := h.MarshalBinary()
	x.Ops(2)
	x.State(core.Hash(want, trail))
	if x.V {
		x.Logf("UDH %x marshals to %x, %v", h, got, err)
	}
	if ok != (err == nil) || ok && !eq(got, want) {
		x.Failf("UDH %s marshals to %x, %v; want %x, %v", hx(flat(h)), got, err, want, ok)
	}
	if !ok {
		if got != nil {
			x.Failf("UDH of %d octets refused but %d octets returned", h.UDHL(), len(got))
		}
		return
	}
	if !same2(keep, h) {
		x.Failf("marshalling changed UDH %x to %x", keep, h)
	}
	if len(h) == 0 {
		return
	}
	src, changed := guarded(append(append([]byte{}, want...), trail...), 8)
	var back tpdu.UserDataHeader
	n, err := back.UnmarshalBinary(src)
	if err != nil || n != len(want) || !same2(back, h) {
		x.Failf("UDH octets %s then %x unmarshal to %x, %d octets used, %v; want %x, %d", hx(want), trail, back, n, err, h, len(want))
	}
	if m := changed(); m != "" {
		x.Failf("unmarshalling UDH %x: %s", want, m)
	}
	for i := range back {
		for j := range back[i].Data {
			back[i].Data[j] ^= 0xff
		}
	}
	if m := changed(); m != "" {
		x.Failf("unmarshalled UDH shares the input: %s", m)
	}
}

func flat(h tpdu.UserDataHeader) (b []byte) {
	for _, e := range h {
		b = append(b, e.ID, byte(len(e.Data)))
		b = append(b, e.Data...)
	}
	return
}

var c22els = []tpdu.InformationElement{
	{ID: 0, Data: []byte{7, 2, 1}}, {ID: 0, Data: []byte{8, 3, 2}}, {ID: 0, Data: []byte{9, 2}}, {ID: 0, Data: []byte{1, 2, 3, 4}},
	{ID: 8, Data: []byte{1, 4, 2, 1}}, {ID: 8, Data: []byte{0, 0xff, 3, 3}}, {ID: 8, Data: []byte{1, 2, 3}}, {ID: 8},
	{ID: 24, Data: []byte{1}}, {ID: 25, Data: []byte{2}}, {ID: 1, Data: []byte{}}, {ID: 255, Data: []byte{0xff, 0xfe}},
	{ID: 1, Data: []byte{1, 2, 3, 4, 5, 6}}, {ID: 24}, {ID: 0}, {ID: 255, Data: []byte{3}},
}

func c22lists(x *X) {
	n := x.Choose(x.Pick(5, 6))
	var h tpdu.UserDataHeader
	for i := 0; i < n; i++ {
		h = append(h, c22els[x.Choose(len(c22els))])
	}
	tr := [][]byte{nil, {0, 3, 1, 2, 3}, {0xff}}
	c22query(x, h)
	c22rt(x, h, tr[x.Choose(3)])
}

var c22lens = []int{0, 1, 2, 119, 120, 121, 122, 123, 124, 125, 126, 249, 250, 251, 252, 253, 254, 255, 256, 257}

func c22sizes(x *X) {
	n := 1 + x.Choose(3)
	var h tpdu.UserDataHeader
	for i := 0; i < n; i++ {
		h = append(h, tpdu.InformationElement{ID: byte(5 + i), Data: octets(c22lens[x.Choose(len(c22lens))])})
	}
	c22rt(x, h, []byte{1, 1})
}

// c22dec compares one unmarshal with the reference.
func c22dec(x *X, b []byte) {
	x.Op()
	x.State(core.Hash(b))
	src, changed := guarded(b, 16)
	var got tpdu.UserDataHeader
	n, err := got.UnmarshalBinary(src)
	want, wn, ok := ref.UnUDH(b)
	if x.V {
		x.Logf("UDH from %s: %x, %d octets, %v", hx(b), got, n, err)
	}
	if m := changed(); m != "" {
		x.Failf("unmarshalling UDH %s: %s", hx(b), m)
	}
	if ok != (err == nil) {
		x.Failf("UDH from %s: %x, error %v; want error %v", hx(b), got, err, !ok)
	}
	if ok && (n != wn || !same2(got, want)) {
		x.Failf("UDH from %s: %x, %d octets; want %x, %d", hx(b), got, n, want, wn)
	}
	if n < 0 || n > len(b) {
		x.Failf("UDH from %s: %d octets used of %d (error %v)", hx(b), n, len(b), err)
	}
	if ok {
		c22query(x, got)
	}
}

func c22octets(x *X) {
	n := x.Choose(x.Pick(7, 8))
	a := []byte{0, 1, 2, 3, 4, 5, 6, 8, 24, 255}
	b := make([]byte, n)
	for i := range b {
		b[i] = a[x.Choose(len(a))]
	}
	c22dec(x, b)
}

func c22long(x *X) {
	l := x.Choose(256)
	b := []byte{byte(l)}
	rest := l
	if rest >= 4 && x.Bool() {
		first := x.Choose(rest - 3)
		b = append(b, 7, byte(first))
		b = append(b, octets(first)...)
		rest -= 2 + first
	}
	if rest >= 2 {
		d := rest - 2 + x.Range(-2, 2)
		if d < 0 {
			d = 0
		}
		if d > 255 {
			d = 255
		}
		b = append(b, 9, byte(d))
		b = append(b, octets(rest-2)...)
	} else {
		b = append(b, octets(rest)...)
	}
	switch x.Choose(4) {
	case 1:
		b = b[:len(b)-1]
	case 2:
		b = append(b, 1)
	case 3:
		b = append(b, 1, 2, 3)
	}
	c22dec(x, b)
}

func c22many(x *X) {
	var h tpdu.UserDataHeader
	if x.Bool() { // totals far beyond the limit
		total := x.Int(255, 256, 257, 511, 512, 513, 767, 768, 1023, 1024, 1025, 32768, 65535, 65536, 65537, 131072, 131073) + x.Range(-3, 3)
		d := x.Int(0, 1, 126, 255)
		for total >= 2+d {
			h = append(h, tpdu.InformationElement{ID: byte(len(h)), Data: octets(d)})
			total -= 2 + d
		}
		if total >= 2 {
			h = append(h, tpdu.InformationElement{ID: 9, Data: octets(total - 2)})
		}
		x.Op()
		c22query(x, h)
		c22rt(x, h, nil)
		return
	}
	n := x.Choose(x.Pick(141, 301))
	pat := x.Choose(4)
	d := x.Choose(5)
	for i := 0; i < n; i++ {
		id := 1
		switch pat {
		case 1:
			id = []int{24, 25, 1}[i%3]
		case 2:
			id = i
		case 3:
			id = []int{0, 8}[i%2]
		}
		h = append(h, tpdu.InformationElement{ID: byte(id), Data: octets(d)})
		for j := range h[i].Data {
			h[i].Data[j] = byte(i + 7*j)
		}
	}
	if n > 0 && x.Bool() {
		h[x.Choose(n)] = tpdu.InformationElement{ID: byte(x.Int(0, 8)), Data: []byte{1, 2, 3, 4}[:3+x.Choose(2)]}
	}
	c22query(x, h)
	c22rt(x, h, []byte{0})
}

func c22concat(x *X) {
	var h tpdu.UserDataHeader
	fix := []int{0, 1, 255}
	vals := func(n, free int) []byte {
		d := make([]byte, n)
		for i := range d {
			if i == free {
				d[i] = byte(x.Choose(256))
			} else {
				d[i] = byte(fix[x.Choose(3)])
			}
		}
		return d
	}
	switch x.Choose(3) {
	case 0:
		h = tpdu.UserDataHeader{{ID: 0, Data: vals(3, x.Choose(3))}}
	case 1:
		h = tpdu.UserDataHeader{{ID: 8, Data: vals(4, x.Choose(4))}}
	case 2:
		n := x.Choose(4)
		for i := 0; i < n; i++ {
			h = append(h, tpdu.InformationElement{ID: byte(x.Int(0, 8)), Data: octets(x.Choose(6))})
			for j := range h[i].Data {
				h[i].Data[j] += byte(i)
			}
		}
	}
	x.State(core.Hash(flat(h)))
	c22query(x, h)
}
