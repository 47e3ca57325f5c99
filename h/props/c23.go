package props

import (
	"encoding/hex"
	"strings"

	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"
)

func init() {
	core.Register("C23",
		core.Sub{Name: "wrap", Bound: "all digit strings of length 0..4 over 0-9*#abc and all lengths 0..520, x 4 types of address (all 256 for length 0..1) x 5 TPDUs (empty included): octets, hex, and back from lower, upper and mixed case", Body: c23wrap},
		core.Sub{Name: "sizes", Bound: "every TPDU length 0..1100, and 65535..65537 octets, x SMSC addresses of 0, 1, 11, 255, 508 digits", Body: c23sizes},
		core.Sub{Name: "octets", Bound: "all octet strings of length 0..5 (6 thorough) over 12 octets; every length octet 0..255 x every 1..4 octets of truncation or extension x 3 contents", Body: c23octets},
		core.Sub{Name: "hex", Bound: "every character 0..255 at every position of 3 hex PDUs, every truncation, every inserted character of 8: refused or the same octets", Body: c23hex},
		core.Sub{Name: "invalid", Bound: "every 8-bit character at every position of numbers of length 1..5: refused or exact", Body: c23invalid},
	)
}

// refSMSC encodes an SMSC address.
func refSMSC(a tpdu.Address) ([]byte, bool) {
	s, ok := ref.SemiEnc(a.Addr)
	if !ok || len(s)+1 > 255 {
		return nil, false
	}
	if len(s) == 0 {
		return []byte{0}, true
	}
	return append([]byte{byte(len(s) + 1), a.TOA}, s...), true
}

func refUnSMSC(b []byte) (a tpdu.Address, n int, ok bool) {
	if len(b) < 1 {
		return a, 0, false
	}
	l := int(b[0])
	if l == 0 {
		return a, 1, true
	}
	if len(b) < 1+l {
		return a, 0, false
	}
	s, _, ok := ref.SemiDec(2*(l-1), b[2:1+l])
	return tpdu.Address{TOA: b[1], Addr: s}, 1 + l, ok
}

func c23rt(x *X, a tpdu.Address, t []byte) {
	want, ok := refSMSC(a)
	if ok {
		want = append(want, t...)
	}
	x.Ops(2)
	p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: a}, TPDU: append([]byte{}, t...)}
	got, err := p.MarshalBinary()
	hs, herr := p.MarshalHexString()
	if x.V {
		x.Logf("SMSC %02x %q with TPDU %x: %s, %v", a.TOA, a.Addr, t, hs, err)
	}
	if p.SMSC.Address != a || !eq(p.TPDU, t) {
		x.Failf("marshalling changed the PDU SMSC %02x %q TPDU %x to %02x %q %x", a.TOA, a.Addr, t, p.SMSC.TOA, p.SMSC.Addr, p.TPDU)
	}
	if ok != (err == nil) || ok != (herr == nil) || ok && !eq(got, want) {
		x.Failf("SMSC %02x %q (%d) with TPDU %x marshals to %s, %v, %v; want %s, %v", a.TOA, a.Addr, len(a.Addr), t, hx(got), err, herr, hx(want), ok)
	}
	if !ok {
		return
	}
	x.State(core.Hash(want))
	if !strings.EqualFold(hs, hex.EncodeToString(want)) {
		x.Failf("SMSC %02x %q with TPDU %x: hex %s; want %x", a.TOA, a.Addr, t, hs, want)
	}
	ea := a
	if a.Addr == "" {
		ea = tpdu.Address{}
	}
	check := func(how string, q *pdumode.PDU, err error) {
		x.Op()
		if err != nil || q.SMSC.Address != ea || !eq(q.TPDU, t) {
			x.Failf("%s of %s: %+v, %v; want SMSC %02x %q TPDU %x", how, hx(want), q, err, ea.TOA, ea.Addr, t)
		}
	}
	src, changed := guarded(want, 8)
	q, err := pdumode.UnmarshalBinary(src)
	check("UnmarshalBinary", q, err)
	if m := changed(); m != "" {
		x.Failf("UnmarshalBinary of %x: %s", want, m)
	}
	var q2 pdumode.PDU
	err = q2.UnmarshalBinary(src)
	check("PDU.UnmarshalBinary", &q2, err)
	lo, up := strings.ToLower(hs), strings.ToUpper(hs)
	mixed := []byte(lo)
	for i := 0; i < len(mixed); i += 3 {
		mixed[i] = up[i]
	}
	for _, s := range []string{lo, up, string(mixed)} {
		q, err = pdumode.UnmarshalHexString(s)
		check("UnmarshalHexString", q, err)
	}
	var q3 pdumode.PDU
	err = q3.UnmarshalHexString(up)
	check("PDU.UnmarshalHexString", &q3, err)
}

var c23tpdus = [][]byte{nil, {0}, {0x07, 0x91, 0x21}, {0xff, 0xff, 0xff}, octets(180)}

func c23wrap(x *X) {
	t := c23tpdus[x.Choose(5)]
	if x.Bool() {
		n := x.Choose(521)
		c23rt(x, tpdu.Address{TOA: byte(x.Int(0x91, 0x81, 0xd0, 0)), Addr: digits(n)}, t)
		return
	}
	n := x.Choose(5)
	s := make([]byte, n)
	for i := range s {
		s[i] = "0123456789*#abc"[x.Choose(15)]
	}
	toa := byte(0)
	if n < 2 {
		toa = byte(x.Choose(256))
	} else {
		toa = byte(x.Int(0x91, 0x81, 0xd0, 0))
	}
	c23rt(x, tpdu.Address{TOA: toa, Addr: string(s)}, t)
}

func c23dec(x *X, b []byte) {
	x.Op()
	x.State(core.Hash(b))
	src, changed := guarded(b, 8)
	q, err := pdumode.UnmarshalBinary(src)
	a, n, ok := refUnSMSC(b)
	if x.V {
		x.Logf("PDU from %s: %+v, %v", hx(b), q, err)
	}
	if m := changed(); m != "" {
		x.Failf("UnmarshalBinary of %x: %s", b, m)
	}
	h, herr := pdumode.UnmarshalHexString(hex.EncodeToString(b))
	if ok != (err == nil) || ok != (herr == nil) {
		x.Failf("PDU from %s: %+v, errors %v, %v; want error %v", hx(b), q, err, herr, !ok)
	}
	if !ok {
		if q != nil || h != nil {
			x.Failf("PDU from %s: %+v, %+v together with an error", hx(b), q, h)
		}
		return
	}
	if q.SMSC.Address != a || !eq(q.TPDU, b[n:]) || h.SMSC.Address != a || !eq(h.TPDU, b[n:]) {
		x.Failf("PDU from %s: %+v, from hex %+v; want SMSC %02x %q TPDU %x", hx(b), q, h, a.TOA, a.Addr, b[n:])
	}
}

func c23octets(x *X) {
	if x.Bool() {
		l := x.Choose(256)
		c := []byte{0x21, 0xf3, 0x00}[x.Choose(3)]
		n := max(0, l+x.Range(-4, 4))
		b := []byte{byte(l)}
		for i := 0; i < n; i++ {
			b = append(b, c)
		}
		c23dec(x, b)
		return
	}
	n := x.Choose(x.Pick(6, 7))
	a := []byte{0, 1, 2, 3, 4, 5, 0x91, 0x21, 0xf3, 0x3f, 0xff, 0xed}
	b := make([]byte, n)
	for i := range b {
		b[i] = a[x.Choose(len(a))]
	}
	c23dec(x, b)
}

func c23hex(x *X) {
	s := []string{"0691214365870f01020304", "00AbCdEf", "03912143"}[x.Choose(3)]
	b := []byte(s)
	switch x.Choose(3) {
	case 0:
		b[x.Choose(len(b))] = byte(x.Choose(256))
	case 1:
		b = b[:x.Choose(len(b)+1)]
	case 2:
		p := x.Choose(len(b) + 1)
		c := "0gF x\n\x00"[x.Choose(7)]
		b = append(b[:p], append([]byte{c}, b[p:]...)...)
		if x.Bool() {
			b = append(b, '0')
		}
	}
	s = string(b)
	x.Op()
	x.State(core.HashStr(s))
	q, err := pdumode.UnmarshalHexString(s)
	x.Logf("PDU from %q: %+v, %v", s, q, err)
	var raw []byte
	ok := len(s)%2 == 0
	for i := 0; ok && i < len(s); i += 2 {
		v := 0
		for _, c := range []byte(s[i : i+2]) {
			k := strings.IndexByte("0123456789abcdef0123456789ABCDEF", c)
			if k < 0 {
				ok = false
			}
			v = v<<4 | k&15
		}
		raw = append(raw, byte(v))
	}
	var a tpdu.Address
	n := 0
	if ok {
		a, n, ok = refUnSMSC(raw)
	}
	if ok != (err == nil) {
		x.Failf("PDU from %q: %+v, error %v; want error %v", s, q, err, !ok)
	}
	if ok && (q.SMSC.Address != a || !eq(q.TPDU, raw[n:])) {
		x.Failf("PDU from %q: %+v; want SMSC %02x %q TPDU %x", s, q, a.TOA, a.Addr, raw[n:])
	}
}

func c23invalid(x *X) {
	n := 1 + x.Choose(5)
	s := []byte(digits(n))
	s[x.Choose(n)] = byte(x.Choose(256))
	c23rt(x, tpdu.Address{TOA: 0x91, Addr: string(s)}, []byte{1, 2})
}

func c23sizes(x *X) {
	a := tpdu.Address{TOA: 0x91, Addr: digits(x.Int(0, 1, 11, 255, 508))}
	n := x.Choose(1104)
	if n > 1100 {
		n = 65535 + n - 1101
	}
	c23rt(x, a, octets(n))
}
