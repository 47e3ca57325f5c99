package props

import (
	"fmt"

	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"
)

func init() {
	core.Register("C29",
		core.Sub{Name: "tpdu", Bound: "all sequences of 2 (3 thorough) unmarshals of 60 octet strings (40 valid PDUs of all types and 20+ invalid ones, failing at every field), with both directions set between them: the TPDU equals a fresh one", Body: c29tpdu},
		core.Sub{Name: "tpdu-cuts", Bound: "every prefix of each of 40 PDUs (failing wherever it may), then each of 40 PDUs: equals a fresh one", Body: c29cuts},
		core.Sub{Name: "tpdu-preset", Bound: "every field preset (by hand or setters), then each of 40 PDUs: equals a fresh one", Body: c29preset},
		core.Sub{Name: "parts", Bound: "all sequences of 3 (4 thorough) unmarshals into one address, time stamp, validity period (all formats), header, SMSC address and PDU, of 10..14 strings each, good and bad", Body: c29parts},
	)
}

func c29inputs() []pdu {
	l := append([]pdu{}, corpus()...)
	for i, p := range corpus() {
		if i%2 == 0 {
			l = append(l, pdu{p.dir, p.st, p.b[:len(p.b)-1-i%5]})
		}
	}
	// alphanumeric and empty addresses of every field
	l = append(l, pdu{tpdu.MT, 0, []byte{0, 0, 0xd0, 0, 0, 0x71, 0x80, 0x13, 0x11, 0x12, 0x45, 0x23, 0}},
		pdu{tpdu.MT, 0, []byte{0, 4, 0xd0, 0xc1, 0x60, 0, 0, 0x71, 0x80, 0x13, 0x11, 0x12, 0x45, 0x23, 0}},
		pdu{tpdu.MO, 0, []byte{1, 7, 0, 0xd0, 0, 0, 0}},
		pdu{tpdu.MO, 0, []byte{1, 7, 4, 0xd0, 0xc1, 0x60, 0, 0, 0}},
		pdu{tpdu.MT, 0, []byte{2, 7, 0, 0xd0, 0x71, 0x80, 0x13, 0x11, 0x12, 0x45, 0x23, 0x71, 0x80, 0x13, 0x11, 0x12, 0x45, 0x23, 0}})
	l = append(l, pdu{tpdu.MT, 0, []byte{3}}, pdu{tpdu.MO, 0, []byte{0xff, 1, 2}}, pdu{tpdu.MT, 0, nil},
		pdu{tpdu.MT, 0, []byte{0x40, 2, 0x91, 0x21, 1, 0, 0x71, 0x80, 0x13, 0x11, 0x12, 0x45, 0x23, 5, 9, 1}}, // header too long
		pdu{tpdu.MO, 0, []byte{0x19, 7, 2, 0x91, 0x21, 1, 0, 0x71, 0xb0}})
	return l
}

func c29step(x *X, t *tpdu.TPDU, p pdu) {
	t.Direction = p.dir
	err := t.UnmarshalBinary(append([]byte{}, p.b...))
	fresh := tpdu.TPDU{Direction: p.dir}
	ferr := fresh.UnmarshalBinary(append([]byte{}, p.b...))
	x.Op()
	x.State(core.Hash(p.b))
	if x.V {
		x.Logf("UnmarshalBinary(%s) (direction %d): %s, %v", hx(p.b), p.dir, showT(t), err)
	}
	if fmt.Sprint(err) != fmt.Sprint(ferr) {
		x.Failf("unmarshalling %s (direction %d) into the used TPDU: %v; into a fresh one: %v", hx(p.b), p.dir, err, ferr)
	}
	if err != nil && len(p.b) == 0 {
		return
	}
	if d := ref.DiffTPDU(t, &fresh); d != "" {
		x.Failf("unmarshalling %s (direction %d) into the used TPDU gives %s; into a fresh one %s (%s differs)", hx(p.b), p.dir, showT(t), showT(&fresh), d)
	}
	if err == nil && ((t.UDH == nil) != (fresh.UDH == nil) || (t.UD == nil) != (fresh.UD == nil)) {
		x.Failf("unmarshalling %s (direction %d) into the used TPDU gives header %#v and user data %#v; into a fresh one %#v and %#v", hx(p.b), p.dir, t.UDH, t.UD, fresh.UDH, fresh.UD)
	}
}

func c29tpdu(x *X) {
	in := c29inputs()
	var t tpdu.TPDU
	for n := x.Pick(2, 3); n > 0; n-- {
		p := in[x.Choose(len(in))]
		if x.Bool() {
			p.dir = 1 - p.dir
		}
		c29step(x, &t, p)
	}
}

func c29cuts(x *X) {
	c := corpus()
	p := c[x.Choose(len(c))]
	p.b = p.b[:x.Choose(len(p.b))]
	var t tpdu.TPDU
	c29step(x, &t, p)
	c29step(x, &t, c[x.Choose(len(c))])
}

func c29preset(x *X) {
	c := corpus()
	t := tpdu.TPDU{}
	switch x.Choose(6) {
	case 0:
		t = tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 0xff, OA: tAddrs[1], DA: tAddrs[2], RA: tAddrs[1], FCS: 1, MR: 2, CT: 3, MN: 4, PI: 0xff, ST: 5, PID: 6, DCS: 0xf5, VP: tVPs[7], UDH: tUDHs[4], UD: octets(9)}
		t.SCTS.Time, t.DT.Time = tTimes[1], tTimes[1]
	case 1:
		t.SetUDH(tUDHs[1])
		t.SetUD(octets(3))
		t.SetDCS(0xf5)
		t.SetPID(3)
	case 2:
		t.SetVP(tVPs[3])
	case 3:
		t.SetVP(tVPs[7])
		t.PI = 7
	case 4:
		n, _ := tpdu.NewSubmit(tpdu.WithDA(tAddrs[1]), tpdu.Dcs8BitData)
		t = *n
	case 5:
		t.FirstOctet = 0x40
		t.FCS, t.ST = 9, 9
		t.DT.Time = tTimes[0]
	}
	c29step(x, &t, c[x.Choose(len(c))])
}

func c29parts(x *X) {
	n := x.Pick(3, 4)
	switch x.Choose(6) {
	case 0:
		in := [][]byte{{4, 0x91, 0x21, 0x43}, {0, 0x81}, {3, 0xa1, 0x21, 0xf3}, {7, 0xd0, 0xc1, 0x60, 0x30, 0x18}, {14, 0xd0, 0xc1, 0x60, 0x30, 0x18, 1, 2, 3}, {4, 0x91, 0x21}, {9}, {2, 0x91, 0xff}, {2, 0xd0, 0x1b}, {1, 0x91, 0x21}, {0, 0xd0}, {1, 0xd0, 0x0d}, {0, 0x91}}
		var a tpdu.Address
		for i := 0; i < n; i++ {
			b := in[x.Choose(len(in))]
			var f tpdu.Address
			k, err := a.UnmarshalBinary(b)
			fk, ferr := f.UnmarshalBinary(b)
			c29same(x, "address", b, k, fk, err, ferr, err != nil || a == f, a, f)
		}
	case 1:
		in := [][]byte{{0x71, 0x80, 0x13, 0x11, 0x12, 0x45, 0x23}, {0x99, 0x21, 0x13, 0x32, 0x95, 0x95, 0x97}, {0x07, 0x10, 0x10, 0, 0, 0, 0}, {0x71, 0x80, 0xb3, 0x11, 0x12, 0x45, 0x23}, {1, 2}, {0x71, 0x80, 0x13, 0x11, 0x12, 0x45, 0xff}}
		var a tpdu.Timestamp
		for i := 0; i < n; i++ {
			b := in[x.Choose(len(in))]
			var f tpdu.Timestamp
			err := a.UnmarshalBinary(b)
			ferr := f.UnmarshalBinary(b)
			c29same(x, "time stamp", b, 0, 0, err, ferr, err != nil || ref.SameTime(a.Time, f.Time), a, f)
		}
	case 2:
		type vin struct {
			f int
			b []byte
		}
		in := []vin{{0, nil}, {2, []byte{5}}, {3, []byte{0x71, 0x80, 0x13, 0x11, 0x12, 0x45, 0x23}}, {1, []byte{0x40, 0, 0, 0, 0, 0, 0}}, {1, []byte{0x01, 9, 0, 0, 0, 0, 0}}, {1, []byte{0x82, 9, 0, 0, 0, 0, 0}}, {1, []byte{3, 0x21, 0x31, 0x41, 0, 0, 0}}, {1, []byte{3, 0x21, 0x31, 0x41, 0, 1, 0}}, {1, []byte{7, 0, 0, 0, 0, 0, 0}}, {3, []byte{0x71, 0xb0, 0x13, 0x11, 0x12, 0x45, 0x23}}, {9, nil}, {2, nil}}
		var a tpdu.ValidityPeriod
		for i := 0; i < n; i++ {
			v := in[x.Choose(len(in))]
			var f tpdu.ValidityPeriod
			k, err := a.UnmarshalBinary(v.b, tpdu.ValidityPeriodFormat(v.f))
			fk, ferr := f.UnmarshalBinary(v.b, tpdu.ValidityPeriodFormat(v.f))
			c29same(x, fmt.Sprintf("validity period (format %d)", v.f), v.b, k, fk, err, ferr, err != nil || ref.SameVP(a, f), a, f)
		}
	case 3:
		in := [][]byte{{0}, {5, 0, 3, 1, 2, 3}, {2, 9, 0}, {9, 0, 3, 4, 5, 6, 8, 2, 1, 1}, {3, 0, 3, 1}, {5, 0, 4, 1, 2, 3}, {}, {10, 1, 1, 1, 9, 9, 1}}
		var a tpdu.UserDataHeader
		for i := 0; i < n; i++ {
			b := in[x.Choose(len(in))]
			var f tpdu.UserDataHeader
			k, err := a.UnmarshalBinary(b)
			fk, ferr := f.UnmarshalBinary(b)
			c29same(x, "header", b, k, fk, err, ferr, err != nil || ref.SameUDH(a, f) && (a == nil) == (f == nil), a, f)
		}
	case 4, 5:
		in := [][]byte{{0}, {3, 0x91, 0x21, 0x43, 7, 7}, {1, 0x81}, {2, 0xa1, 0xf1}, {3, 0x91, 0x21}, {}, {9, 1}, {0, 1, 2, 3}, {2, 0x91, 0x1f, 9}}
		var a pdumode.SMSCAddress
		var p pdumode.PDU
		for i := 0; i < n; i++ {
			b := in[x.Choose(len(in))]
			var f pdumode.SMSCAddress
			k, err := a.UnmarshalBinary(b)
			fk, ferr := f.UnmarshalBinary(b)
			c29same(x, "SMSC address", b, k, fk, err, ferr, err != nil || a == f, a, f)
			var fp pdumode.PDU
			err = p.UnmarshalBinary(b)
			ferr = fp.UnmarshalBinary(b)
			c29same(x, "PDU", b, 0, 0, err, ferr, err != nil || p.SMSC == fp.SMSC && eq(p.TPDU, fp.TPDU), p, fp)
		}
	}
}

func c29same(x *X, what string, b []byte, k, fk int, err, ferr error, same bool, a, f interface{}) {
	x.Op()
	x.State(core.HashStr(what, string(b)))
	if x.V {
		x.Logf("%s from %x: %+v, %v", what, b, a, err)
	}
	if k != fk || fmt.Sprint(err) != fmt.Sprint(ferr) || !same {
		x.Failf("%s from %x into a used value: %+v, %d, %v; into a fresh one: %+v, %d, %v", what, b, a, k, err, f, fk, ferr)
	}
}
