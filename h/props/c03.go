package props

import (
	"fmt"

	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms/encoding/tpdu"
)

func init() {
	core.Register("C03",
		core.Sub{Name: "lengths", Bound: "submit, deliver and the four other types x 3 alphabets x template headers of 0..30 (all 0..140 thorough) octets x 8/16 bit references x every message length within 2 of each segment count 1..4, 127..128, 254..256 and all lengths to 450: pieces, headers, capacity, marshalled size", Body: c03lengths},
		core.Sub{Name: "boundary", Bound: "all arrangements of escapes / surrogate pairs in the 10 (14 thorough) units around the first and second boundary x header lengths 0..9", Body: c03boundary},
		core.Sub{Name: "every-boundary", Bound: "an escape, a run of 2 or 3 escapes, or a surrogate pair at each of 5 places around each of the boundaries 1..254, alone or around all boundaries, x 3 header lengths x 8/16 bit references", Body: c03every},
		core.Sub{Name: "runs", Bound: "runs of 1..330 escapes (or of 1..170 surrogate pairs) ending at every distance -3..+3 from each of the boundaries 1..3 or from the end of the message, x headers of 0, 1, 3, 4, 100 octets (0..20, 100, 125..130 thorough) x 8/16 bit", Body: c03runs},
		core.Sub{Name: "tiny", Bound: "headers leaving room for 0..5 units x all messages of length <= 8 (11 thorough) over {character, escape} or {BMP, high, low pairs}: pieces or refusal", Body: c03tiny},
		core.Sub{Name: "units", Bound: "every UTF-16 unit (65536) and every octet or septet as the last unit before the boundary, the first after it, and in pairs with both halves of a surrogate pair x 2 boundaries", Body: c03units},
		core.Sub{Name: "wide", Bound: "five types x 3 alphabets x header lengths 0..20 and 100..300, 510..514, 1022..1026 (one or two elements) x 7 causes of failure in reports x 8/16 bit x 9 message lengths: pieces, or refusal where the header leaves no room", Body: c03wide},
		core.Sub{Name: "template", Bound: "product of all template fields, flags, validity periods, coding schemes and header elements x 1, 2, 3 segments x 8/16 bit x counters at wrap points", Body: c03template},
	)
}

type fixedCounter struct{ n int }

func (c *fixedCounter) Count() int { c.n++; return c.n }

// c03run segments and checks everything the property states.
func c03run(x *X, tmpl tpdu.TPDU, msg []byte, wide bool, mr, cr int, desc string) {
	x.Op()
	var so []tpdu.SegmentationOption
	var wmr, wcr func() int
	if wide {
		so = append(so, tpdu.With16BitConcatRef)
	}
	m, c := &fixedCounter{mr}, &fixedCounter{cr}
	if mr >= 0 {
		so = append(so, tpdu.WithMR(m))
		wmr = counter(mr)
	}
	if cr >= 0 {
		so = append(so, tpdu.WithConcatRef(c))
		wcr = counter(cr)
	}
	want := refPDUs(cloneT(tmpl), msg, wide, wmr, wcr)
	got := tmpl.Segment(msg, so...)
	if x.V {
		x.Logf("Segment(%s, %d units, wide %v): %d segments; want %d", desc, len(msg), wide, len(got), len(want))
	}
	if len(got) != len(want) {
		x.Failf("Segment of %d octets with %s (16 bit %v): %d segments; want %d", len(msg), desc, wide, len(got), len(want))
	}
	if d := diffPDUs(got, want); d != "" {
		x.Failf("Segment of %d octets with %s (16 bit %v): %s", len(msg), desc, wide, d)
	}
	if mr >= 0 && m.n != mr+len(got) {
		x.Failf("Segment of %d octets with %s: %d message references used for %d segments", len(msg), desc, m.n-mr, len(got))
	}
	used := 0
	if len(got) > 1 {
		used = 1
	}
	if cr >= 0 && c.n != cr+used {
		x.Failf("Segment of %d octets with %s: %d concatenation references used for %d segments", len(msg), desc, c.n-cr, len(got))
	}
	// and each fits: the field as marshalled
	for i := range got {
		f, ok := ref.UDField(got[i].UDH, got[i].UD, byte(got[i].DCS), got[i].FirstOctet&0x40 != 0)
		if ref.Alpha(byte(got[i].DCS)) >= 0 && (ref.Alpha(byte(got[i].DCS)) != 2 || len(msg)%2 == 0) {
			if !ok || len(f)-1 > refMax(&tmpl) {
				x.Failf("Segment of %d octets with %s: segment %d has %d octets of user data", len(msg), desc, i+1, len(f)-1)
			}
			if i < 2 || i == len(got)-1 {
				b, err := got[i].MarshalBinary()
				if err != nil || len(b) < len(f) || !eq(b[len(b)-len(f):], f) {
					x.Failf("Segment of %d octets with %s: segment %d marshals to %x, %v; want it to end %x", len(msg), desc, i+1, b, err, f)
				}
			}
		}
	}
}

func c03hdr(hl int) tpdu.UserDataHeader {
	switch {
	case hl < 2:
		return nil
	case hl > 20 && hl%2 == 0:
		return tpdu.UserDataHeader{{ID: 5, Data: octets(4)}, {ID: 0x51, Data: octets(hl - 8)}}
	}
	return tpdu.UserDataHeader{{ID: 0x51, Data: octets(hl - 2)}}
}

func c03tmpl(st tpdu.SmsType, dcs byte, hl int) tpdu.TPDU {
	t := base(st)
	t.DCS = tpdu.DCS(dcs)
	if h := c03hdr(hl); h != nil || hl == 1 {
		t.UDH = h
		if hl == 1 {
			t.UDH = tpdu.UserDataHeader{}
		}
		t.FirstOctet |= 0x40
	}
	if optional(st) {
		t.PI = 7
	}
	return t
}

func c03lengths(x *X) {
	st := []tpdu.SmsType{tpdu.SmsSubmit, tpdu.SmsDeliver, tpdu.SmsDeliverReport, tpdu.SmsSubmitReport, tpdu.SmsStatusReport}[x.Choose(5)]
	dcs := byte(x.Int(0, 4, 8))
	hl := x.Choose(x.Pick(31, 145))
	wide := x.Bool()
	// header lengths in octets, length octet included
	h1 := hl
	if hl >= 1 {
		h1 = hl + 1
	}
	if hl == 1 {
		h1 = 1
	}
	if hl == 0 {
		h1 = 0
	}
	h2 := h1
	if h2 == 0 {
		h2 = 1
	}
	h2 += 5
	if wide {
		h2++
	}
	room := refRoom(maxUD[st], h2, ref.Alpha(dcs))
	if room < 1 {
		room = 1
	}
	k := x.Choose(450 + 5*7)
	n := k + 1
	if k >= 450 {
		k -= 450
		n = room*[]int{3, 4, 127, 128, 254, 255, 256}[k/5] + k%5 - 2
	}
	if n < 1 {
		return
	}
	var msg []byte
	switch dcs {
	case 0:
		msg = pattern(n)
	default:
		msg = octets(n)
		for i := 0; dcs == 8 && i < n; i += 2 {
			msg[i] &= 0x7f
		}
	}
	x.State(core.HashInts(int(st), int(dcs), hl, n))
	mr, cr := -1, -1
	if n%3 > 0 {
		mr, cr = 255*n-1, 256*n-2
	}
	c03run(x, c03tmpl(st, dcs, hl), msg, wide, mr, cr, fmt.Sprintf("%v, DCS %02x, header %d", st, dcs, hl))
}

// c03boundary puts all arrangements of multi-unit characters at a boundary.
func c03boundary(x *X) {
	ucs := x.Bool()
	hl := x.Choose(10)
	dcs := byte(0)
	alpha := 0
	if ucs {
		dcs, alpha = 8, 2
	}
	t := c03tmpl(tpdu.SmsSubmit, dcs, hl)
	hb, _ := ref.UDH(t.UDH)
	h := len(hb)
	if hl <= 1 {
		h = 1
	}
	room := refRoom(140, h+5, alpha)
	w := x.Pick(10, 14)
	which := x.Range(1, 2)
	unit := 1
	if ucs {
		unit = 2
	}
	start := which*room/unit - w + 2
	var msg []byte
	for i := 0; i < start; i++ {
		if ucs {
			msg = append(msg, 0x04)
		}
		msg = append(msg, byte('a'+i%26))
	}
	for i := 0; i < w; i++ {
		switch {
		case !ucs && x.Bool():
			msg = append(msg, 0x1b)
		case !ucs:
			msg = append(msg, 'e')
		case ucs && i+1 < w && x.Bool():
			msg = append(msg, 0xd8, 0x3d, 0xde, byte(i))
			i++
		default:
			msg = append(msg, 0x04, byte(0x10+i))
		}
	}
	tail := x.Int(0, 1, 30, 300)
	for i := 0; i < tail; i++ {
		if ucs {
			msg = append(msg, 0x04)
		}
		msg = append(msg, byte('A'+i%26))
	}
	x.State(core.Hash(msg, []byte{byte(hl)}))
	c03run(x, t, msg, false, -1, -1, fmt.Sprintf("DCS %02x, header %d, boundary %x", dcs, hl, msg[start*unit:]))
}

// c03every puts an escape or pair around each boundary of a long message.
func c03every(x *X) {
	ucs := x.Bool()
	hl := x.Int(0, 3, 4)
	wide := x.Bool()
	run := 1 + x.Choose(3)
	off := x.Choose(5)
	which := x.Choose(255) // 0: all
	dcs, alpha, unit := byte(0), 0, 1
	if ucs {
		dcs, alpha, unit = 8, 2, 2
		if run > 2 {
			return
		}
	}
	t := c03tmpl(tpdu.SmsSubmit, dcs, hl)
	hb, _ := ref.UDH(t.UDH)
	h := len(hb)
	if h == 0 {
		h = 1
	}
	concat := 5
	if wide {
		concat = 6
	}
	room := refRoom(140, h+concat, alpha) / unit
	// Units in all: the last segment is not full.
	total := room*(which+1) - 20
	if which == 0 {
		total = room*255 - 300
	}
	u := make([]int, total)
	for i := range u {
		u[i] = 'a' + i%26
	}
	put := func(at int) {
		p := at - off + 1 - run
		for i := 0; i < run; i++ {
			if p+i < 0 || p+i+1 >= len(u) {
				continue
			}
			if ucs {
				if i == 0 || run == 2 {
					u[p+i*2], u[p+i*2+1] = 0xd83d, 0xde00+i
				}
			} else {
				u[p+i] = 0x1b
			}
		}
	}
	if which > 0 {
		put(which * room)
	} else {
		// each place moves the boundaries after it
		for b := room; b < len(u); b += room {
			put(b)
			if !ucs {
				k := 0
				for b-1-k >= 0 && u[b-1-k] == 0x1b {
					k++
				}
				b -= k & 1
			} else if u[b-1]&0xfc00 == 0xd800 {
				b--
			}
		}
	}
	msg := make([]byte, 0, len(u)*unit)
	for _, v := range u {
		if ucs {
			msg = append(msg, byte(v>>8))
		}
		msg = append(msg, byte(v))
	}
	x.State(core.Hash(msg, []byte{byte(hl), byte(concat)}))
	c03run(x, t, msg, wide, -1, -1, fmt.Sprintf("DCS %02x, header %d, boundary %d, %d at -%d", dcs, hl, which, run, off))
}

// c03units puts every unit at a boundary.
// c03runs places long runs of escapes or surrogate pairs.
func c03runs(x *X) {
	ucs := x.Bool()
	hl := 0
	if x.Thorough() {
		if hl = x.Choose(28); hl > 20 {
			hl = []int{100, 125, 126, 127, 128, 129, 130}[hl-21]
		}
	} else {
		hl = x.Int(0, 1, 3, 4, 100)
	}
	wide := x.Bool()
	dcs, alpha, unit := byte(0), 0, 1
	run := 0
	if ucs {
		dcs, alpha, unit = 8, 2, 2
		run = 1 + x.Choose(170)
	} else {
		run = 1 + x.Choose(330)
	}
	t := c03tmpl(tpdu.SmsSubmit, dcs, hl)
	hb, _ := ref.UDH(t.UDH)
	h := len(hb)
	if hl <= 1 {
		h = 1
	}
	concat := 5
	if wide {
		concat = 6
	}
	room := refRoom(140, h+concat, alpha) / unit
	if room < 1 {
		return
	}
	which := x.Choose(4) // 0: the end of the message
	end := 0
	tail := 0
	if which == 0 {
		end = run*unit + x.Choose(room+1)
	} else {
		end = which*room + x.Range(-3, 3)
		tail = x.Int(1, 40)
	}
	n := run
	if ucs {
		n = 2 * run
	}
	if end < n {
		end = n
	}
	var msg []byte
	put := func(u int) {
		if ucs {
			msg = append(msg, byte(u>>8))
		}
		msg = append(msg, byte(u))
	}
	for i := 0; i < end-n; i++ {
		put('a' + i%26)
	}
	for i := 0; i < run; i++ {
		if ucs {
			put(0xd83d)
			put(0xde00 + i)
		} else {
			put(0x1b)
		}
	}
	for i := 0; i < tail; i++ {
		put('A' + i%26)
	}
	x.State(core.Hash(msg, []byte{byte(hl)}))
	c03run(x, t, msg, wide, -1, -1, fmt.Sprintf("DCS %02x, header %d, a run of %d up to %d of %d", dcs, hl, run, end, len(msg)/unit))
}

func c03units(x *X) {
	dcs := byte(x.Int(0, 4, 8))
	alpha := ref.Alpha(dcs)
	hl := x.Int(0, 2)
	h := 1
	if hl > 0 {
		h = hl + 1
	}
	room := refRoom(140, h+5, alpha)
	which := x.Range(1, 2)
	var u []byte
	switch dcs {
	case 8:
		v := x.Choose(65536)
		u = []byte{byte(v >> 8), byte(v)}
	case 4:
		u = []byte{byte(x.Choose(256))}
	default:
		u = []byte{byte(x.Choose(128))}
	}
	k := x.Choose(4)
	n := len(u)
	if dcs == 8 && u[0]&0xfc == 0xd8 { // only as part of a pair, whose first half is at the boundary
		u = append(u, 0xdc|u[1]&3, u[1])
	}
	fill := func(n int) (o []byte) {
		for i := 0; len(o) < n; i++ {
			if dcs == 8 {
				o = append(o, 0x04)
			}
			o = append(o, byte('a'+i%26))
		}
		return
	}
	var msg []byte
	switch k {
	case 0: // last before the boundary
		msg = append(fill(which*room-n), u...)
	case 1: // first after it
		msg = append(fill(which*room), u...)
	case 2: // either side of the boundary
		msg = append(append(fill(which*room-n), u...), u...)
	case 3: // with the other half
		if dcs != 8 {
			msg = append(append(fill(which*room-2*n), 0x1b), u...)
			break
		}
		if u[0]&0xfc == 0xdc {
			msg = append(append(fill(which*room-2), 0xd8|u[1]&3, u[1]), u...)
		} else {
			msg = append(append(fill(which*room-2), u...), 0xdf, u[1])
		}
	}
	msg = append(msg, fill(20)...)
	x.State(core.Hash(u, []byte{dcs, byte(hl), byte(which), byte(k)}))
	c03run(x, c03tmpl(tpdu.SmsSubmit, dcs, hl), msg, false, -1, -1, fmt.Sprintf("DCS %02x, header %d, unit %x at boundary %d, way %d", dcs, hl, u, which, k))
}

func c03wide(x *X) {
	st := []tpdu.SmsType{tpdu.SmsSubmit, tpdu.SmsDeliver, tpdu.SmsDeliverReport, tpdu.SmsSubmitReport, tpdu.SmsStatusReport}[x.Choose(5)]
	dcs := byte(x.Int(0, 4, 8))
	fcs := byte(0x81)
	if isReport(st) {
		fcs = byte(x.Int(0x81, 0, 1, 0x7f, 0x80, 0xd0, 0xff))
	}
	wide := x.Bool()
	k := x.Choose(232)
	hl := k
	switch {
	case k > 226:
		hl = 1022 + k - 227
	case k > 221:
		hl = 510 + k - 222
	case k > 20:
		hl = 100 + k - 21
	}
	t := c03tmpl(st, dcs, hl)
	if hl > 259 {
		t.UDH = nil
		for l := hl; l > 1; l -= 102 {
			d := l - 2
			if d > 100 {
				d = 100
			}
			t.UDH = append(t.UDH, tpdu.InformationElement{ID: 0x51, Data: octets(d)})
		}
	}
	if isReport(st) {
		t.FCS = fcs
	}
	n := x.Int(1, 2, 8, 100, 139, 150, 160, 170, 301)
	msg := octets(n)
	for i := range msg {
		switch dcs {
		case 0:
			msg[i] = byte('a' + i%26)
		case 8:
			msg[i] &= 0x7f
		}
	}
	x.State(core.HashInts(int(st), int(dcs), int(fcs), hl, n))
	c03run(x, t, msg, wide, -1, -1, fmt.Sprintf("%v, DCS %02x, header %d, cause %02x", st, dcs, hl, fcs))
}

func c03tiny(x *X) {
	ucs := x.Choose(3) // 7-bit, 8-bit, UCS-2
	dcs := []byte{0, 4, 8}[ucs]
	room := x.Choose(6)
	if ucs == 2 {
		room *= 2
	}
	wide := x.Bool()
	// find the header that leaves this room beside the concatenation element
	hl := -1
	for h := 2; h < 140; h++ {
		e := h + 1 + 5
		if wide {
			e++
		}
		if refRoom(140, e, ucs2alpha(ucs)) == room {
			hl = h
			break
		}
	}
	if hl < 0 {
		return
	}
	n := 1 + x.Choose(x.Pick(9, 12))
	var msg []byte
	for i := 0; i < n; i++ {
		switch ucs {
		case 0:
			msg = append(msg, []byte{0x1b, 'a'}[x.Choose(2)])
		case 1:
			msg = append(msg, byte(i))
		case 2:
			if x.Bool() {
				msg = append(msg, 0xd8, 0x3d, 0xde, byte(i))
			} else {
				msg = append(msg, 0xdc, byte(i)) // a lone low surrogate stands for itself
			}
		}
	}
	x.State(core.Hash(msg, []byte{byte(hl), byte(dcs)}))
	c03run(x, c03tmpl(tpdu.SmsDeliver, dcs, hl), msg, wide, 0, 0, fmt.Sprintf("DCS %02x, header %d (room %d), message %x", dcs, hl, room, msg))
}

func ucs2alpha(k int) int { return k }

func c03template(x *X) {
	st := []tpdu.SmsType{tpdu.SmsSubmit, tpdu.SmsDeliver}[x.Choose(2)]
	t := pickFields(x, st)
	alpha := ref.Alpha(byte(t.DCS))
	for _, ie := range t.UDH {
		if ie.ID == 0 || ie.ID == 8 {
			return
		}
	}
	hb, _ := ref.UDH(t.UDH)
	h := len(hb)
	if h == 0 {
		h = 1
	}
	wide := x.Bool()
	if wide {
		h++
	}
	n := refRoom(140, h+5, alpha)
	switch x.Choose(3) {
	case 0:
		n = 4
	case 1:
		n += 20
	case 2:
		n = n*2 + 2
	}
	msg := udFor(byte(t.DCS), n)
	mr, cr := -1, -1
	switch x.Choose(4) {
	case 1:
		mr, cr = 253, 254
	case 2:
		mr, cr = 254, 255
	case 3:
		mr, cr = 65534, 65534
	}
	desc := showT(&t)
	x.State(core.HashStr(desc, string(msg)))
	c03run(x, t, msg, wide, mr, cr, desc)
}
