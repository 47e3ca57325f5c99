package props

import (
	"encoding/hex"
	"fmt"

	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/bcd"
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/semioctet"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"
)

func init() {
	core.Register("C09",
		core.Sub{Name: "pairs", Bound: "all octet strings of length 0..2 (each 256 values), every decoder", Body: func(x *X) {
			b := make([]byte, x.Choose(3))
			for i := range b {
				b[i] = byte(x.Choose(256))
			}
			c09all(x, b)
		}},
		core.Sub{Name: "short", Bound: "all octet strings of length 3..5 (6 thorough) over 12 octets, every decoder", Body: func(x *X) {
			a := []byte{0x00, 0x01, 0x41, 0x02, 0x91, 0xd0, 0xff, 0x04, 0x08, 0x1b, 0x18, 0x07}
			b := make([]byte, x.Range(3, x.Pick(5, 6)))
			for i := range b {
				b[i] = a[x.Choose(len(a))]
			}
			c09all(x, b)
		}},
		core.Sub{Name: "uniform", Bound: "strings of one octet value (256) of every length 0..300, optionally with a different first octet (6), every decoder", Body: func(x *X) {
			n := x.Choose(301)
			b := rep(byte(x.Choose(256)), n)
			if k := x.Choose(x.Pick(3, 7)); k > 0 && n > 0 {
				b[0] = []byte{0x40, 0x01, 0x02, 0x58, 0x00, 0x41}[k-1]
			}
			c09all(x, b)
		}},
		core.Sub{Name: "mutations", Bound: "40 PDUs with every octet set to every value (and a second octet changed, thorough) and cut at every place, as TPDUs of both directions and through every decoder", Body: func(x *X) {
			_, b := mutate(x)
			if x.Bool() {
				b = b[:x.Choose(len(b))]
			}
			c09all(x, b)
		}},
		core.Sub{Name: "sizes", Bound: "6 types x 3 alphabets x header lengths 0..23 and around 128, 140, 255 (every 0..258 thorough) x every user data length 0..261, and addresses of every length of both kinds: TPDU decoders", Body: c09sizes},
		core.Sub{Name: "wrapped", Bound: "40 PDUs in PDU mode behind 5 SMSC addresses, binary and hex, nested decoding, every truncation and every octet of the wrapper and the first 12 octets of the PDU set to every value", Body: c09wrapped},
		core.Sub{Name: "text", Bound: "DecodeUserData over alphabets -1..4, headers with language elements of 0..3 octets and all 256 languages, 8 kinds of user data of 0..4 octets, all decode options", Body: c09text},
	)
}

// c09sizes decodes TPDUs of every size.
func c09sizes(x *X) {
	var t tpdu.TPDU
	if x.Bool() {
		t = pickLengths(x)
	} else {
		st := smsTypes[x.Choose(6)]
		if !hasAddr(st) {
			return
		}
		t = base(st)
		if x.Bool() {
			setAddr(&t, st, tpdu.Address{TOA: 0x91, Addr: digits(x.Choose(256))})
		} else {
			setAddr(&t, st, tpdu.Address{TOA: 0xd0, Addr: string(rep('r', x.Choose(146)))})
		}
	}
	b, ok := ref.Marshal(&t)
	if !ok {
		return
	}
	x.Op()
	x.State(core.Hash(b))
	s1, changed := guarded(b, 24)
	put := func(v ...interface{}) {}
	if bad := c09tpdu(s1, put); bad != "" {
		x.Failf("decoding %s: %s", hx(b), bad)
	}
	if m := changed(); m != "" {
		x.Failf("decoding %s: %s", hx(b), m)
	}
	c09tails(x, b)
	if len(t.UDH) > 0 {
		hb, _ := ref.UDH(t.UDH)
		if bad := c09header(hb, put); bad != "" {
			x.Failf("decoding header %s: %s", hx(hb), bad)
		}
	}
}

// c09tpdu decodes b as a TPDU of either direction.
func c09tpdu(b []byte, put func(...interface{})) string {
	for _, o := range []sms.UnmarshalOption{sms.AsMT, sms.AsMO} {
		t, err := sms.Unmarshal(b, o)
		if err != nil {
			if t != nil {
				return "a TPDU together with an error"
			}
			put(err.Error())
			continue
		}
		l := 0
		for _, ie := range t.UDH {
			l += 2 + len(ie.Data)
		}
		if l+(len(t.UD)*7+7)/8 > len(b) {
			return fmt.Sprintf("TPDU claims %d octets of header and %d septets or octets of data from %d octets", l, len(t.UD), len(b))
		}
		if a, err := t.Alphabet(); err == nil && a != tpdu.Alpha7Bit && l+len(t.UD) > len(b) {
			return fmt.Sprintf("TPDU claims %d octets of header and %d of data from %d octets", l, len(t.UD), len(b))
		}
		put(showT(t), t.MTI(), t.SmsType(), t.UDBlockSize(), t.UDHL(), t.UDHI(), t.IsSingleSegment(), t.DCS.String(), t.PI.String(), t.OA.Number(), t.DA.Number(), t.RA.Number(), t.SCTS.String(), t.VP.Format.String(), t.FirstOctet.VPF())
		m, err := sms.Decode([]*tpdu.TPDU{t})
		if err != nil && m != nil {
			return "text together with an error"
		}
		put(string(m), fmt.Sprint(err))
		put(sms.IsCompleteMessage([]*tpdu.TPDU{t}))
		c := sms.NewCollector()
		d, err := c.Collect(*t)
		put(len(d), fmt.Sprint(err))
		d, err = c.Collect(*t)
		put(len(d), fmt.Sprint(err))
		if _, err := t.MarshalBinary(); err != nil {
			put(err.Error())
		}
		// the TPDU must not depend on the input any more
		keep := showT(t)
		save := append([]byte(nil), b...)
		for i := range b {
			b[i] ^= 0x5a
		}
		if s := showT(t); s != keep {
			copy(b, save)
			return fmt.Sprintf("the TPDU keeps a reference to its input: %s became %s", keep, s)
		}
		copy(b, save)
	}
	return ""
}

// c09header decodes b as a user data header.
func c09header(b []byte, put func(...interface{})) string {
	var h tpdu.UserDataHeader
	n, err := h.UnmarshalBinary(b)
	put(n, fmt.Sprint(err), fmt.Sprintf("%x", h))
	if len(h) > 0 {
		keep := fmt.Sprintf("%x", h)
		for i := range b {
			b[i] ^= 0x5a
		}
		now := fmt.Sprintf("%x", h)
		for i := range b {
			b[i] ^= 0x5a
		}
		if now != keep {
			return fmt.Sprintf("the header keeps a reference to its input: %s became %s", keep, now)
		}
	}
	return ""
}

// c09run runs every decoder on b; the result is everything they returned.
func c09run(b []byte, log func(string, ...interface{})) (out []interface{}, bad string) {
	put := func(v ...interface{}) { out = append(out, v...) }
	if bad := c09tpdu(b, put); bad != "" {
		return out, bad
	}
	if p, err := pdumode.UnmarshalBinary(b); err == nil {
		put(p.SMSC.TOA, p.SMSC.Addr, hex.EncodeToString(p.TPDU))
		if len(p.TPDU) > len(b) {
			return out, "the PDU is longer than the input"
		}
		if t, err := sms.Unmarshal(p.TPDU); err == nil {
			put(showT(t))
		}
	}
	if p, err := pdumode.UnmarshalHexString(string(b)); err == nil {
		put(p.SMSC.Addr, p.TPDU)
	}
	if bad := c09header(b, put); bad != "" {
		return out, bad
	}
	var a tpdu.Address
	n, err := a.UnmarshalBinary(b)
	put(n, fmt.Sprint(err), a.TOA, a.Addr, a.Number())
	var ts tpdu.Timestamp
	err = ts.UnmarshalBinary(b)
	put(fmt.Sprint(err), ts.String())
	for f := 0; f < 6; f++ {
		var v tpdu.ValidityPeriod
		n, err = v.UnmarshalBinary(b, tpdu.ValidityPeriodFormat(f))
		put(n, fmt.Sprint(err), v.Duration, v.Time.String(), v.EFI)
	}
	for f := 0; f < 7; f++ {
		u := gsm7.Unpack7Bit(b, f)
		put(string(u))
		if len(u) > len(b)*8/7 {
			return out, fmt.Sprintf("%d septets from %d octets", len(u), len(b))
		}
		put(string(gsm7.Unpack7BitUSSD(b, f)))
	}
	d, err := gsm7.Decode(b)
	put(string(d), fmt.Sprint(err))
	d, err = gsm7.Decode(b, gsm7.Strict, gsm7.WithCharset(1), gsm7.WithExtCharset(2))
	put(string(d), fmt.Sprint(err))
	r, err := ucs2.Decode(b)
	put(string(r), fmt.Sprint(err))
	if len(b) > 0 {
		i, err := bcd.Decode(b[0])
		j, err2 := bcd.DecodeSigned(b[0])
		put(i, fmt.Sprint(err), j, fmt.Sprint(err2))
	}
	for _, k := range []int{0, 1, len(b), 2 * len(b), 2*len(b) + 3} {
		s, n, err := semioctet.Decode(make([]byte, k), b)
		put(string(s), n, fmt.Sprint(err))
		if n > len(b) || len(s) > k {
			return out, fmt.Sprintf("semi-octets: %d digits, %d octets of %d for %d digits", len(s), n, len(b), k)
		}
	}
	return out, ""
}

// c09tails unmarshals b with nothing after it, and with valid and invalid
// digits after it, which must make no difference.
func c09tails(x *X, b []byte) {
	for _, o := range []sms.UnmarshalOption{sms.AsMT, sms.AsMO} {
		var first string
		for i, tail := range [][]byte{nil, c09zeros, c09ones} {
			s := append(append(make([]byte, 0, len(b)+len(tail)), b...), tail...)
			t, err := sms.Unmarshal(s[:len(b):len(b)+len(tail)], o)
			r := fmt.Sprint(err)
			if t != nil {
				r += showT(t)
			}
			if i == 0 {
				first = r
			} else if r != first {
				x.Failf("decoding %s depends on what follows the input: %s, and with %x following %s", hx(b), first, tail, r)
			}
		}
	}
}

// c09tails2 does the same for the parts of a TPDU and for 7-bit data.
func c09tails2(x *X, b []byte) {
	var first string
	for i, tail := range [][]byte{nil, c09zeros, c09ones} {
		full := append(append(make([]byte, 0, len(b)+len(tail)), b...), tail...)
		s := full[:len(b):len(full)]
		var h tpdu.UserDataHeader
		n, err := h.UnmarshalBinary(s)
		var a tpdu.Address
		n2, err2 := a.UnmarshalBinary(s)
		var v, w tpdu.ValidityPeriod
		n3, err3 := v.UnmarshalBinary(s, tpdu.VpfEnhanced)
		n4, err4 := w.UnmarshalBinary(s, tpdu.VpfAbsolute)
		p, err5 := pdumode.UnmarshalBinary(s)
		r := fmt.Sprint(n, err, h, n2, err2, a, n3, err3, v.Duration, v.EFI, n4, err4, w.Time, err5)
		if p != nil {
			r += fmt.Sprint(p.SMSC, p.TPDU)
		}
		if i == 0 {
			first = r
		} else if r != first {
			x.Failf("decoding %s depends on what follows the input: %s, and with %x following %s", hx(b), first, tail, r)
		}
		for f := 0; f < 7; f++ {
			gsm7.Unpack7Bit(s, f)
			gsm7.Unpack7BitUSSD(s, f)
		}
	}
}

var c09zeros, c09ones = make([]byte, 160), rep(0x11, 160)

func c09all(x *X, b []byte) {
	x.Ops(38)
	x.State(core.Hash(b))
	s1, changed := guarded(b, 24)
	r1, bad := c09run(s1, x.Logf)
	if x.V {
		x.Logf("decoders on %s: %v", hx(b), r1)
	}
	if bad != "" {
		x.Failf("decoding %s: %s", hx(b), bad)
	}
	if m := changed(); m != "" {
		x.Failf("decoding %s: %s", hx(b), m)
	}
	c09tails(x, b)
	if len(b) <= 24 {
		c09tails2(x, b)
	}
	if len(b) > 6 && !x.Thorough() {
		return
	}
	// other octets after the input must make no difference
	s2 := append(append(make([]byte, 0, len(b)+24), b...), make([]byte, 24)...)[:len(b)]
	r2, _ := c09run(s2, x.Logf)
	if len(r1) != len(r2) {
		x.Failf("decoding %s depends on what follows the input", hx(b))
	}
	if fmt.Sprint(r1...) != fmt.Sprint(r2...) {
		x.Failf("decoding %s depends on what follows the input: %v; %v", hx(b), r1, r2)
	}
}

func c09wrapped(x *X) {
	c := corpus()
	p := c[x.Choose(len(c))]
	w := [][]byte{{0}, {1, 0x91}, {2, 0x91, 0x21}, {7, 0x91, 0x64, 0x05, 0x09, 0x00, 0x99, 0xf0}, {3, 0xd0, 0xff, 0x0f}}[x.Choose(5)]
	b := append(append([]byte{}, w...), p.b...)
	switch x.Choose(3) {
	case 1:
		b = b[:x.Choose(len(b)+1)]
	case 2:
		b[x.Choose(min(len(b), len(w)+12))] = byte(x.Choose(256))
	}
	x.Ops(4)
	x.State(core.Hash(b))
	src, changed := guarded(b, 8)
	q, err := pdumode.UnmarshalBinary(src)
	q2, err2 := pdumode.UnmarshalHexString(hex.EncodeToString(b))
	if x.V {
		x.Logf("%s: %+v, %v", hx(b), q, err)
	}
	if (err == nil) != (err2 == nil) {
		x.Failf("%s: binary %v, hex %v", hx(b), err, err2)
	}
	if m := changed(); m != "" {
		x.Failf("%s: %s", hx(b), m)
	}
	if err != nil {
		return
	}
	if len(q.TPDU) > len(b) || !eq(q.TPDU, q2.TPDU) {
		x.Failf("%s: binary %x, hex %x", hx(b), q.TPDU, q2.TPDU)
	}
	for _, o := range []sms.UnmarshalOption{sms.AsMT, sms.AsMO} {
		t, err := sms.Unmarshal(q.TPDU, o)
		x.Op()
		if err == nil {
			sms.Decode([]*tpdu.TPDU{t})
			_ = showT(t)
		}
	}
	if m := changed(); m != "" {
		x.Failf("%s: %s", hx(b), m)
	}
}

func c09text(x *X) {
	alpha := tpdu.Alphabet(x.Range(-1, 4))
	var h tpdu.UserDataHeader
	switch x.Choose(4) {
	case 1:
		h = tpdu.UserDataHeader{{ID: 25, Data: octets(x.Choose(4))}, {ID: 24, Data: octets(x.Choose(4))}}
	case 2:
		l := byte(x.Choose(256))
		h = tpdu.UserDataHeader{{ID: 25, Data: []byte{l}}, {ID: 24, Data: []byte{byte(x.Choose(16))}}}
	case 3:
		l := byte(x.Choose(256))
		h = tpdu.UserDataHeader{{ID: 24, Data: []byte{l}}}
	}
	n := x.Choose(5)
	ud := [][]byte{{0x1b, 0x65, 0x1b, 0x1b}, {0x41, 0x42, 0x43, 0x44}, {0xff, 0x80, 0x9b, 0x00}, {0xd8, 0x3d, 0xde, 0x00}, {0xdc, 0x00, 0xd8, 0x00}, {0x1b, 0x1b, 0x1b, 0x1b}, {0, 0, 0, 0}, {0x0a, 0x0d, 0x1b, 0x14}}[x.Choose(8)][:n]
	var o []tpdu.UDDecodeOption
	switch x.Choose(4) {
	case 1:
		o = append(o, tpdu.WithAllCharsets)
	case 2:
		o = append(o, tpdu.WithCharset(0, 255, -1, 1))
	case 3:
		o = append(o, tpdu.WithLockingCharset(3), tpdu.WithShiftCharset(200))
	}
	x.Op()
	src, changed := guarded(ud, 8)
	m, err := tpdu.DecodeUserData(src, h, alpha, o...)
	x.State(core.Hash(ud, flat(h), []byte{byte(alpha)}))
	x.Logf("DecodeUserData(%x, %x, %d) = %q, %v", ud, h, alpha, m, err)
	if c := changed(); c != "" {
		x.Failf("DecodeUserData(%x, %x, %d): %s", ud, h, alpha, c)
	}
	if alpha != tpdu.Alpha8Bit && alpha != tpdu.AlphaUCS2 && err != nil {
		x.Failf("DecodeUserData(%x, %x, %d): %v", ud, h, alpha, err)
	}
}
