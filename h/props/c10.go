package props

import (
	"fmt"

	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func init() {
	fields := "product of all flag bits, addresses, message references, times, 8 validity periods, indicators, coding schemes, headers and user data of each of the 6 TPDU types"
	lengths := "6 types x 3 alphabets x header lengths 0..23 (an empty header too) and around 128, 140, 255 (every 0..258 thorough) x every user data length 0..261"
	values := "every value of every one-octet field (message reference, PID, DCS, failure cause, command type, message number, status, indicator, first octet) of every type, with and without user data"
	core.Register("C10",
		core.Sub{Name: "fields", Bound: fields + ": marshal then unmarshal gives the same fields", Body: func(x *X) { c10rt(x, pickFields(x, smsTypes[x.Choose(6)]), false) }},
		core.Sub{Name: "lengths", Bound: lengths + ": survives or is refused", Body: func(x *X) { c10rt(x, pickLengths(x), true) }},
		core.Sub{Name: "values", Bound: values + ": survives", Body: func(x *X) { c10rt(x, pickValues(x), true) }},
		core.Sub{Name: "octets", Bound: "40 PDUs with every octet set to every value (pairs of octets from 12 values thorough), truncated or extended: what unmarshals marshals back to the same octets but for the meaningless bits, and is then stable", Body: c10octets},
	)
	core.Assume("C10", "reports without a failure cause do not say whether they carry one and are excluded from the round trip, as are reports with user data in an alphabet they do not carry")
	core.Register("C11",
		core.Sub{Name: "fields", Bound: fields + ": exactly the reference's octets, and they decode to the reference's fields", Body: func(x *X) { c11m(x, pickFields(x, smsTypes[x.Choose(6)])) }},
		core.Sub{Name: "lengths", Bound: lengths + ": exactly the reference's octets, or refused exactly when a length does not fit its field", Body: func(x *X) { c11m(x, pickLengths(x)) }},
		core.Sub{Name: "values", Bound: values + ": exactly the reference's octets", Body: func(x *X) { c11m(x, pickValues(x)) }},
		core.Sub{Name: "misfits", Bound: "every address length 0..260 of digits and names, 4 headers over 255 octets, invalid digits, zones and validity formats in every type: exact octets or an error", Body: c11misfit},
		core.Sub{Name: "octets", Bound: "40 PDUs with every octet set to every value (pairs of octets from 12 values thorough): the fields read are the reference's", Body: c11octets},
	)
	core.Register("C12",
		core.Sub{Name: "prefixes", Bound: "every prefix of, and 5 extensions to, every PDU of the field product (last choices reduced) and 40 PDUs: refused unless complete, field and offset named, nothing returned", Body: c12prefix},
		core.Sub{Name: "octets", Bound: "40 PDUs with every octet set to every value, and every pair of a length-like octet and truncation: refused exactly when the reference refuses", Body: c12octets},
		core.Sub{Name: "udl", Bound: "all types x 3 alphabets x every UDL 0..255 x actual lengths -3..+3 octets of it, with and without a header of 0..12 octets: refused unless consistent", Body: c12udl},
		core.Sub{Name: "headers", Bound: "every UDHL 0..40 and IEDL 0..40 in deliver and submit PDUs with 0..24 octets of user data in 3 alphabets", Body: c12headers},
		core.Sub{Name: "short", Bound: "all octet strings of length 0..4 (5 thorough) over 14 octets, both directions, and all 256 first octets x 0..3 following octets", Body: c12short},
	)
}

func c10diff(x *X, t tpdu.TPDU, what string, b []byte) {
	var back tpdu.TPDU
	back.Direction = t.Direction
	err := back.UnmarshalBinary(append([]byte{}, b...))
	x.Op()
	if err != nil {
		x.Failf("%s %s marshals to %s, which is refused: %v", what, showT(&t), hx(b), err)
	}
	if d := ref.DiffTPDU(&t, &back); d != "" {
		x.Failf("%s %s marshals to %s, which unmarshals to %s (%s differs)", what, showT(&t), hx(b), showT(&back), d)
	}
	o := sms.AsMT
	if t.Direction == tpdu.MO {
		o = sms.AsMO
	}
	b2, err := sms.Unmarshal(b, o)
	if err != nil {
		x.Failf("sms.Unmarshal(%s): %v; TPDU.UnmarshalBinary accepts it", hx(b), err)
	}
	if d := ref.DiffTPDU(&t, b2); d != "" {
		x.Failf("sms.Unmarshal(%s) = %s; want %s (%s differs)", hx(b), showT(b2), showT(&t), d)
	}
}

func c10rt(x *X, t tpdu.TPDU, mayRefuse bool) {
	st := t.SmsType()
	if isReport(st) && t.FCS == 0 {
		return
	}
	if optional(st) && t.PI&2 == 0 && t.DCS != 0 {
		return
	}
	keep := cloneT(t)
	b, err := t.MarshalBinary()
	x.Op()
	x.State(core.Hash(b))
	if x.V {
		x.Logf("%s marshals to %s, %v", showT(&t), hx(b), err)
	}
	if d := ref.DiffTPDU(&keep, &t); d != "" {
		x.Failf("marshalling changed %s of %s", d, showT(&keep))
	}
	if err != nil {
		if _, ok := ref.Marshal(&t); !ok && mayRefuse {
			return
		}
		x.Failf("%s is refused: %v", showT(&t), err)
	}
	// user data that an octet cannot carry
	c10diff(x, t, st.String(), b)
}

// mutate chooses a PDU with an octet (or two) changed.
func mutate(x *X) (pdu, []byte) {
	c := corpus()
	p := c[x.Choose(len(c))]
	b := append([]byte{}, p.b...)
	b[x.Choose(len(b))] = byte(x.Choose(256))
	if x.Thorough() {
		b[x.Choose(len(b))] ^= []byte{0, 1, 0x40, 0xff, 0x80, 0x08, 0x0f}[x.Choose(7)]
	}
	return p, b
}

func c10octets(x *X) {
	p, b := mutate(x)
	switch x.Choose(4) {
	case 1:
		b = b[:len(b)-1]
	case 2:
		b = append(b, 0x21)
	case 3:
		b = b[:len(b)/2]
	}
	var t tpdu.TPDU
	t.Direction = p.dir
	x.Op()
	if t.UnmarshalBinary(b) != nil {
		return
	}
	x.State(core.Hash(b))
	if isReport(t.SmsType()) && t.FCS == 0 {
		return
	}
	d := ref.Unmarshal(b, p.dir)
	if !d.OK {
		return // C12 decides
	}
	want, ok := ref.Marshal(&d.T)
	got, err := t.MarshalBinary()
	x.Op()
	if x.V {
		x.Logf("%s unmarshals to %s and marshals to %s, %v", hx(b), showT(&t), hx(got), err)
	}
	if !ok {
		return // content that unmarshals leniently and cannot be written, like an odd reserved form
	}
	if err != nil || !eq(got, want) {
		x.Failf("%s unmarshals to %s, which marshals to %s, %v; want %s", hx(b), showT(&t), hx(got), err, hx(want))
	}
	var t2 tpdu.TPDU
	t2.Direction = p.dir
	if err := t2.UnmarshalBinary(got); err != nil {
		x.Failf("%s unmarshals and marshals to %s, which is refused: %v", hx(b), hx(got), err)
	}
	b2, err := t2.MarshalBinary()
	if err != nil || !eq(b2, got) {
		x.Failf("%s marshals to %s, then to %s, %v", hx(b), hx(got), hx(b2), err)
	}
}

func c11m(x *X, t tpdu.TPDU) {
	want, ok := ref.Marshal(&t)
	got, err := t.MarshalBinary()
	x.Op()
	x.State(core.Hash(want))
	if x.V {
		x.Logf("%s marshals to %s, %v", showT(&t), hx(got), err)
	}
	if ok != (err == nil) || ok && !eq(got, want) {
		x.Failf("%s marshals to %s, %v; want %s, %v", showT(&t), hx(got), err, hx(want), ok)
	}
	if !ok {
		if len(got) != 0 {
			x.Failf("%s: %s together with error %v", showT(&t), hx(got), err)
		}
		return
	}
	c11u(x, want, t.Direction)
}

// c11u compares the fields read with the reference's.
func c11u(x *X, b []byte, dir tpdu.Direction) {
	d := ref.Unmarshal(b, dir)
	var t tpdu.TPDU
	t.Direction = dir
	err := t.UnmarshalBinary(append([]byte{}, b...))
	x.Op()
	if x.V {
		x.Logf("%s unmarshals to %s, %v", hx(b), showT(&t), err)
	}
	if err != nil || !d.OK {
		return // C12 decides
	}
	if f := ref.DiffTPDU(&d.T, &t); f != "" {
		x.Failf("%s unmarshals to %s; want %s (%s differs)", hx(b), showT(&t), showT(&d.T), f)
	}
}

func c11misfit(x *X) {
	st := smsTypes[x.Choose(6)]
	t := base(st)
	if optional(st) {
		t.PI = 7
	}
	switch x.Choose(4) {
	case 0:
		n := x.Choose(261)
		if x.Bool() {
			setAddr(&t, st, tpdu.Address{TOA: 0x91, Addr: digits(n)})
		} else {
			setAddr(&t, st, tpdu.Address{TOA: 0xd0, Addr: string(pattern2(n))})
		}
	case 1:
		h := tpdu.UserDataHeader{{ID: 1, Data: octets(x.Int(0, 120, 250, 253, 254, 255, 256, 300, 512, 513, 600))}}
		if x.Bool() {
			h = append(h, tpdu.InformationElement{ID: 2, Data: octets(x.Int(0, 1, 2, 129, 130, 131, 132, 253, 254, 255, 256, 257, 260))})
		}
		t.UDH = h
		t.FirstOctet |= tpdu.FoUDHI
		if hasDCS(st) {
			t.DCS = tpdu.DCS(x.Int(0, 4, 8))
		}
		t.UD = udFor(byte(t.DCS), x.Int(0, 2, 8))
	case 2:
		setAddr(&t, st, tpdu.Address{TOA: byte(x.Int(0x91, 0xd0)), Addr: []string{"12x", "1 2", "12F", "+1", "\u20ac", "{", "a\u0416"}[x.Choose(7)]})
	case 3:
		if st == tpdu.SmsSubmit {
			t.VP = tpdu.ValidityPeriod{Format: tpdu.ValidityPeriodFormat(x.Int(4, 5, 255, 1)), EFI: byte(x.Choose(8))}
			t.FirstOctet |= 0x08
		} else {
			q := x.Int(80, -80, 79, -79, 100)
			t.SCTS.Time = tTimes[0].In(loc(q))
			if x.Bool() {
				t.SCTS.Time = tTimes[0]
				t.DT.Time = tTimes[0].In(loc(q))
			}
		}
	}
	c11m(x, t)
}

func pattern2(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = "ABC 123 xyz"[i%11]
	}
	return b
}

func c11octets(x *X) {
	p, b := mutate(x)
	x.State(core.Hash(b))
	c11u(x, b, p.dir)
}

// fieldName maps the names errors use.
func c12where(field string) string {
	// SmsDeliver.oa.addr -> oa
	s := field
	i := 0
	for i < len(s) && s[i] != '.' {
		i++
	}
	if i == len(s) {
		return s
	}
	s = s[i+1:]
	for i = 0; i < len(s) && s[i] != '.'; i++ {
	}
	return s[:i]
}

// c12check demands that b is refused exactly when the reference refuses it,
// and how.
func c12check(x *X, b []byte, dir tpdu.Direction) {
	d := ref.Unmarshal(b, dir)
	o := sms.AsMT
	if dir == tpdu.MO {
		o = sms.AsMO
	}
	x.Op()
	x.State(core.Hash(b, []byte{byte(dir)}))
	src, changed := guarded(b, 32)
	p, err := sms.Unmarshal(src, o)
	if x.V {
		x.Logf("%s (direction %d): %v", hx(b), dir, err)
	}
	if m := changed(); m != "" {
		x.Failf("Unmarshal(%s): %s", hx(b), m)
	}
	// nothing at all after the input must make no difference
	if _, err2 := sms.Unmarshal(append(make([]byte, 0, len(b)), b...)[:len(b):len(b)], o); fmt.Sprint(err2) != fmt.Sprint(err) {
		x.Failf("%s (direction %d): %v, but %v when octets follow the input", hx(b), dir, err2, err)
	}
	if d.OK {
		if err != nil {
			x.Failf("%s (direction %d) is refused: %v; it is a valid %s", hx(b), dir, err, d.T.SmsType())
		}
		return
	}
	if err == nil {
		x.Failf("%s (direction %d) is accepted as %s; %s at octet %d is wrong", hx(b), dir, showT(p), d.Field, d.Start)
	}
	if p != nil {
		x.Failf("%s is refused (%v) but a TPDU is returned", hx(b), err)
	}
	de, ok := err.(tpdu.DecodeError)
	if !ok {
		x.Failf("%s: the error %T %v does not tell the field", hx(b), err, err)
	}
	if w := c12where(de.Field); w != d.Field && !(d.Field == "ud" && (w == "sm" || w == "alphabet" || w == "udl" || w == "udh")) {
		x.Failf("%s: the error names field %q; want %s at octet %d", hx(b), de.Field, d.Field, d.Start)
	}
	if de.Offset < d.Start || de.Offset > len(b) {
		x.Failf("%s: the error (%v) names octet %d; the field %s starts at %d of %d", hx(b), err, de.Offset, d.Field, d.Start, len(b))
	}
	if fmt.Sprint(err) == "" || de.Err == nil {
		x.Failf("%s: the error says nothing", hx(b))
	}
}

func c12prefix(x *X) {
	var b []byte
	var dir tpdu.Direction
	if x.Bool() {
		st := smsTypes[x.Choose(6)]
		t := base(st)
		dir = t.Direction
		if hasAddr(st) {
			setAddr(&t, st, tAddrs[x.Choose(6)])
		}
		if optional(st) {
			t.PI = tpdu.PI(x.Choose(8))
		}
		if st == tpdu.SmsSubmit {
			t.VP = tVPs[x.Choose(8)]
			t.FirstOctet |= tpdu.FirstOctet(t.VP.Format) << 3
		}
		if hasDCS(st) && (!optional(st) || t.PI&2 != 0) {
			t.DCS = tpdu.DCS(tDCSs[x.Choose(8)])
		}
		if !optional(st) || t.PI&4 != 0 {
			t.UDH = tUDHs[x.Choose(7)]
			if t.UDH != nil {
				t.FirstOctet |= tpdu.FoUDHI
			}
			t.UD = udFor(byte(t.DCS), x.Choose(x.Pick(18, 40)))
		}
		b, _ = ref.Marshal(&t)
	} else {
		c := corpus()
		p := c[x.Choose(len(c))]
		b, dir = p.b, p.dir
	}
	k := x.Choose(len(b) + 5)
	if k < len(b) {
		b = b[:len(b)-k]
	} else {
		b = append(append([]byte{}, b...), [][]byte{{}, {0}, {1}, {0, 0}, {0xff, 1, 2}}[k-len(b)]...)
	}
	c12check(x, b, dir)
}

func c12octets(x *X) {
	p, b := mutate(x)
	switch x.Choose(5) {
	case 1:
		b = b[:len(b)-1]
	case 2:
		b = append(b, 0)
	case 3:
		b = append(b, 0x21, 0x22)
	case 4:
		b = b[:len(b)-2]
	}
	dir := p.dir
	if x.Bool() {
		dir = 1 - dir
	}
	c12check(x, b, dir)
}

func c12udl(x *X) {
	st := smsTypes[x.Choose(6)]
	t := base(st)
	if optional(st) {
		t.PI = 6
	}
	if hasDCS(st) {
		t.DCS = tpdu.DCS(x.Int(0, 4, 8))
	}
	h := x.Choose(8)
	if h > 0 {
		t.FirstOctet |= tpdu.FoUDHI
	}
	b, ok := ref.Marshal(&t)
	if !ok || b[len(b)-1] != 0 {
		panic("udl")
	}
	b = b[:len(b)-1]
	udl := x.Choose(256)
	oct := udl
	if ref.Alpha(byte(t.DCS)) == 0 {
		oct = (udl*7 + 7) / 8
	}
	n := max(0, oct+x.Range(-3, 3))
	body := make([]byte, n)
	if x.Bool() {
		copy(body, octets(n))
	}
	if h > 0 {
		hd := []byte{byte([]int{0, 0, 2, 3, 5, 6, 9, 12}[h])}
		if hd[0] > 0 {
			hd = append(hd, 9, hd[0]-2)
		}
		copy(body, hd)
	}
	b = append(append(b, byte(udl)), body...)
	c12check(x, b, t.Direction)
}

func c12headers(x *X) {
	st := []tpdu.SmsType{tpdu.SmsDeliver, tpdu.SmsSubmit}[x.Choose(2)]
	t := base(st)
	t.DCS = tpdu.DCS(x.Int(0, 4, 8))
	t.FirstOctet |= tpdu.FoUDHI
	n := x.Choose(25)
	udhl := x.Choose(41)
	iedl := x.Choose(41)
	b, _ := ref.Marshal(&t)
	b = b[:len(b)-1]
	body := octets(n)
	if n > 0 {
		body[0] = byte(udhl)
	}
	if n > 2 {
		body[2] = byte(iedl)
	}
	udl := n
	if t.DCS == 0 {
		udl = n * 8 / 7
	}
	b = append(append(b, byte(udl)), body...)
	c12check(x, b, t.Direction)
}

func c12short(x *X) {
	dir := tpdu.Direction(x.Choose(2))
	if x.Bool() {
		b := []byte{byte(x.Choose(256))}
		b = append(b, []byte{0x03, 0x91, 0x21}[:x.Choose(4)]...)
		c12check(x, b, dir)
		return
	}
	n := x.Choose(x.Pick(5, 6))
	a := []byte{0, 1, 2, 3, 4, 7, 0x41, 0x91, 0xd0, 0xff, 0x10, 0x18, 0x44, 0x21}
	b := make([]byte, n)
	for i := range b {
		b[i] = a[x.Choose(len(a))]
	}
	c12check(x, b, dir)
}
