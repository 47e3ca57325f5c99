package props

import (
	"strings"

	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func init() {
	core.Register("C13",
		core.Sub{Name: "digits", Bound: "all digit strings of length 0..4 (5 thorough) over 0-9*#abc, x 4 types of address (all 256 for length 0..1), marshal, back with trailing octets", Body: c13digits},
		core.Sub{Name: "lengths", Bound: "every length 0..258 of digits and of alphanumeric names (5 character patterns), x all 128 types and plans: exact octets or refused, back", Body: c13lengths},
		core.Sub{Name: "ends", Bound: "digit strings of every length 5..42 (5..255 thorough) x all first two and last digits x 2 types; names of every length 3..20 (40 thorough) x all pairs of first and last basic character", Body: c13ends},
		core.Sub{Name: "alpha", Bound: "all names of length 0..2 over the 127 basic characters, and of length 1..8 (10 thorough) over {@,A,CR,...}; strings with characters outside the basic table", Body: c13alpha},
		core.Sub{Name: "invalid", Bound: "every 8-bit character and some others at every position of a digit string of length 1..6", Body: c13invalid},
		core.Sub{Name: "scalars", Bound: "every Unicode scalar value (1,112,064) inside an alphanumeric name and inside a number: exact or refused", Body: c13scalars},
		core.Sub{Name: "octets", Bound: "every length octet 0..255 x all 256 types of address x 6 fills x 4 truncations/extensions, and all contents over 9 octets for lengths 0..6 (8 thorough)", Body: c13octets},
		core.Sub{Name: "number", Bound: "Number/SetNumber/FromNumber/Set*/getters over all 256 types of address and all numbers with and without '+', all sequences of 2 (3 thorough) setters", Body: c13number},
		core.Sub{Name: "long", Bound: "numbers of every length 0..300 x 4 kinds of first characters through FromNumber, SetNumber, sms.To and sms.From: the address has all of the number, and marshals exactly or is refused", Body: c13long},
		core.Sub{Name: "fields", Bound: "SetTypeOfNumber and SetNumberingPlan with all 256 values on all 256 types of address: the field set, no other bit changed; the codes of all named types and plans", Body: c13fields},
	)
}

// the codes of TS 23.040 section 9.1.2.5
var c13codes = []struct {
	name      string
	got, want int
}{
	{"TonUnknown", int(tpdu.TonUnknown), 0}, {"TonInternational", int(tpdu.TonInternational), 1}, {"TonNational", int(tpdu.TonNational), 2},
	{"TonNetworkSpecific", int(tpdu.TonNetworkSpecific), 3}, {"TonSubscriberNumber", int(tpdu.TonSubscriberNumber), 4},
	{"TonAlphanumeric", int(tpdu.TonAlphanumeric), 5}, {"TonAbbreviated", int(tpdu.TonAbbreviated), 6}, {"TonExtension", int(tpdu.TonExtension), 7},
	{"NpUnknown", int(tpdu.NpUnknown), 0}, {"NpISDN", int(tpdu.NpISDN), 1}, {"NpData", int(tpdu.NpData), 3}, {"NpTelex", int(tpdu.NpTelex), 4},
	{"NpScSpecificA", int(tpdu.NpScSpecificA), 5}, {"NpScSpecificB", int(tpdu.NpScSpecificB), 6}, {"NpNational", int(tpdu.NpNational), 8},
	{"NpPrivate", int(tpdu.NpPrivate), 9}, {"NpErmes", int(tpdu.NpErmes), 10}, {"NpExtension", int(tpdu.NpExtension), 15},
}

func c13fields(x *X) {
	toa := byte(x.Choose(256))
	x.State(uint64(toa))
	for _, c := range c13codes {
		if c.got != c.want {
			x.Failf("%s is %d; want %d", c.name, c.got, c.want)
		}
	}
	na := tpdu.NewAddress(func(a tpdu.Address) tpdu.Address { a.TOA, a.Addr = toa, "7"; return a })
	if na.TOA != toa|0x80 || na.Addr != "7" {
		x.Failf("NewAddress with an option setting the type %02x: %02x %q", toa, na.TOA, na.Addr)
	}
	for v := 0; v < 256; v++ {
		a := tpdu.Address{TOA: toa, Addr: "123"}
		a.SetTypeOfNumber(tpdu.TypeOfNumber(v))
		if (a.TOA^toa)&^0x70 != 0 || v < 8 && int(a.TypeOfNumber()) != v || a.Addr != "123" {
			x.Failf("SetTypeOfNumber(%d) of %02x gives %02x %q", v, toa, a.TOA, a.Addr)
		}
		a = tpdu.Address{TOA: toa, Addr: "123"}
		a.SetNumberingPlan(tpdu.NumberingPlan(v))
		if (a.TOA^toa)&^0x0f != 0 || v < 16 && int(a.NumberingPlan()) != v || a.Addr != "123" {
			x.Failf("SetNumberingPlan(%d) of %02x gives %02x %q", v, toa, a.TOA, a.Addr)
		}
		x.Ops(2)
	}
}

func c13rt(x *X, a tpdu.Address) {
	want, ok := ref.Addr(a)
	x.Ops(2)
	b := a
	got, err := b.MarshalBinary()
	if x.V {
		x.Logf("address %02x %q marshals to %x, %v", a.TOA, a.Addr, got, err)
	}
	if b != a {
		x.Failf("marshalling changed address %02x %q to %02x %q", a.TOA, a.Addr, b.TOA, b.Addr)
	}
	if ok != (err == nil) || ok && !eq(got, want) {
		x.Failf("address %02x %q (%d) marshals to %x, %v; want %x, %v", a.TOA, a.Addr, len(a.Addr), got, err, want, ok)
	}
	if !ok {
		x.State(core.HashStr(a.Addr, string(rune(a.TOA))))
		return
	}
	x.State(core.Hash(want))
	for _, tr := range [][]byte{nil, {0}, {0xff, 0x31, 0x0d}} {
		src, changed := guarded(append(append([]byte{}, want...), tr...), 8)
		var back tpdu.Address
		n, err := back.UnmarshalBinary(src)
		if err != nil || n != len(want) || back != a {
			x.Failf("address %02x %q = %x followed by %x unmarshals to %02x %q, %d octets, %v", a.TOA, a.Addr, want, tr, back.TOA, back.Addr, n, err)
		}
		if m := changed(); m != "" {
			x.Failf("unmarshalling address %x: %s", want, m)
		}
	}
}

func c13toa(x *X) byte { return []byte{0x91, 0x81, 0xa1, 0xc8}[x.Choose(4)] }

func c13digits(x *X) {
	n := x.Choose(x.Pick(5, 6))
	s := make([]byte, n)
	for i := range s {
		s[i] = "0123456789*#abc"[x.Choose(15)]
	}
	var toa byte
	if n < 2 {
		toa = byte(x.Choose(256))
		if toa>>4&7 == 5 {
			return
		}
	} else {
		toa = c13toa(x)
	}
	c13rt(x, tpdu.Address{TOA: toa, Addr: string(s)})
}

func c13lengths(x *X) {
	toa := byte(x.Choose(128)) | 0x80
	n := x.Choose(259)
	if toa>>4&7 != 5 {
		c13rt(x, tpdu.Address{TOA: toa, Addr: digits(n)})
		return
	}
	p := []string{"A", "@", "AbC@ 123\r", "\r", "à\u00a3Z"}[x.Choose(5)]
	r := []rune(strings.Repeat(p, n+1))[:n]
	c13rt(x, tpdu.Address{TOA: toa, Addr: string(r)})
}

// c13ends varies what strings of any length start and end with.
func c13ends(x *X) {
	const d = "0123456789*#abc"
	basic := func() string {
		k := x.Choose(127)
		if k >= 0x1b {
			k++
		}
		return string(ref.Locking[0][k])
	}
	if x.Bool() {
		n := 3 + x.Choose(x.Pick(18, 38))
		c13rt(x, tpdu.Address{TOA: 0xd0, Addr: basic() + strings.Repeat("k", n-2) + basic()})
		return
	}
	s := []byte(digits(5 + x.Choose(x.Pick(38, 251))))
	s[0], s[1], s[len(s)-1] = d[x.Choose(15)], d[x.Choose(15)], d[x.Choose(15)]
	c13rt(x, tpdu.Address{TOA: byte(x.Int(0x91, 0x81)), Addr: string(s)})
}

func c13alpha(x *X) {
	var r []rune
	switch x.Choose(3) {
	case 0:
		n := x.Choose(3)
		for i := 0; i < n; i++ {
			k := x.Choose(127)
			if k >= 0x1b {
				k++
			}
			r = append(r, ref.Locking[0][k])
		}
	case 1:
		n := 1 + x.Choose(x.Pick(8, 10))
		for i := 0; i < n; i++ {
			r = append(r, []rune{'@', 'A', '\r', 'à'}[x.Choose(4)])
		}
	case 2:
		n := x.Choose(9)
		for i := 0; i < n; i++ {
			r = append(r, 'k')
		}
		p := x.Choose(n + 1)
		r = append(r[:p], append([]rune{allRunes[x.Choose(len(allRunes))]}, r[p:]...)...)
	}
	c13rt(x, tpdu.Address{TOA: byte(x.Int(0xd0, 0xd1, 0x50)), Addr: string(r)})
}

func c13invalid(x *X) {
	n := 1 + x.Choose(6)
	s := []byte(digits(n))
	p := x.Choose(n)
	switch k := x.Choose(260); {
	case k < 256:
		s[p] = byte(k)
	default:
		s = append(s[:p], append([]byte([]string{"é", "٣", "１", " "}[k-256]), s[p:]...)...)
	}
	c13rt(x, tpdu.Address{TOA: c13toa(x), Addr: string(s)})
}

func c13dec(x *X, b []byte) {
	x.Op()
	x.State(core.Hash(b))
	src, changed := guarded(b, 16)
	var got tpdu.Address
	n, err := got.UnmarshalBinary(src)
	want, wn, ok := ref.UnAddr(b)
	if x.V {
		x.Logf("address from %s: %02x %q, %d, %v", hx(b), got.TOA, got.Addr, n, err)
	}
	if m := changed(); m != "" {
		x.Failf("unmarshalling address %s: %s", hx(b), m)
	}
	if ok != (err == nil) {
		x.Failf("address from %s: %02x %q, error %v; want error %v", hx(b), got.TOA, got.Addr, err, !ok)
	}
	if ok && (n != wn || got != want) {
		x.Failf("address from %s: %02x %q, %d octets; want %02x %q, %d", hx(b), got.TOA, got.Addr, n, want.TOA, want.Addr, wn)
	}
	if n < 0 || n > len(b) {
		x.Failf("address from %s: %d octets used of %d (error %v)", hx(b), n, len(b), err)
	}
}

func c13octets(x *X) {
	if x.Bool() {
		l := x.Choose(x.Pick(7, 9))
		b := []byte{byte(l), byte(x.Int(0x91, 0xd0))}
		for i := 0; i < (l+1)/2; i++ {
			b = append(b, []byte{0x21, 0xf3, 0x0f, 0xff, 0x1b, 0x00, 0xed, 0xcb, 0x9d}[x.Choose(9)])
		}
		c13dec(x, b)
		return
	}
	l := x.Choose(256)
	toa := byte(x.Choose(256))
	fill := []byte{0x21, 0x00, 0xf1, 0xff, 0x1b, 0x5a}[x.Choose(6)]
	n := (l+1)/2 + []int{0, -1, 1, -2}[x.Choose(4)]
	b := []byte{byte(l), toa}
	for i := 0; i < n; i++ {
		b = append(b, fill)
	}
	if n < -1 {
		b = b[:1]
	}
	c13dec(x, b)
}

func c13number(x *X) {
	toa := byte(x.Choose(256))
	nums := []string{"", "1", "+1", "+", "++1", "1+", "61409865629", "+61409865629", "abc*#", "a+b", "0+"}
	a := tpdu.Address{TOA: toa, Addr: nums[x.Choose(len(nums))]}
	if x.Bool() {
		var o []tpdu.AddressOption
		s := nums[x.Choose(len(nums))]
		if x.Bool() {
			o = append(o, tpdu.FromNumber(s))
		}
		na := tpdu.NewAddress(o...)
		want := tpdu.Address{TOA: 0x80}
		if o != nil {
			want = tpdu.Address{TOA: 0x91, Addr: strings.TrimPrefix(s, "+")}
		}
		x.Op()
		x.Logf("NewAddress(%q) = %02x %q", s, na.TOA, na.Addr)
		if na != want {
			x.Failf("NewAddress(%q %v) = %02x %q; want %02x %q", s, o != nil, na.TOA, na.Addr, want.TOA, want.Addr)
		}
		return
	}
	w := a
	n := x.Choose(x.Pick(3, 4))
	for i := 0; i < n; i++ {
		switch x.Choose(3) {
		case 0:
			s := nums[x.Choose(len(nums))]
			a.SetNumber(s)
			w.TOA = w.TOA&0x80 | 0x11
			w.Addr = strings.TrimPrefix(s, "+")
			x.Logf("SetNumber(%q)", s)
		case 1:
			t := x.Choose(8)
			a.SetTypeOfNumber(tpdu.TypeOfNumber(t))
			w.TOA = w.TOA&^0x70 | byte(t)<<4
			x.Logf("SetTypeOfNumber(%d)", t)
		case 2:
			p := x.Choose(16)
			a.SetNumberingPlan(tpdu.NumberingPlan(p))
			w.TOA = w.TOA&^0x0f | byte(p)
			x.Logf("SetNumberingPlan(%d)", p)
		}
		x.Op()
		x.State(core.HashStr(a.Addr, string(rune(a.TOA))))
		if a != w {
			x.Failf("address is %02x %q; want %02x %q", a.TOA, a.Addr, w.TOA, w.Addr)
		}
	}
	x.Ops(3)
	if int(a.TypeOfNumber()) != int(w.TOA>>4&7) || int(a.NumberingPlan()) != int(w.TOA&15) {
		x.Failf("address %02x: type %d, plan %d", w.TOA, a.TypeOfNumber(), a.NumberingPlan())
	}
	wn := w.Addr
	if w.TOA>>4&7 == 1 {
		wn = "+" + wn
	}
	if a.Number() != wn {
		x.Failf("Number of %02x %q is %q; want %q", w.TOA, w.Addr, a.Number(), wn)
	}
}

func c13long(x *X) {
	n := x.Choose(301)
	s := []string{"", "+", "++", "00"}[x.Choose(4)] + digits(n)
	w := tpdu.Address{TOA: 0x91, Addr: strings.TrimPrefix(s, "+")}
	a := tpdu.NewAddress(tpdu.FromNumber(s))
	b := tpdu.Address{TOA: 0x81, Addr: "old"}
	b.SetNumber(s)
	x.State(core.HashStr(s))
	x.Ops(4)
	if a != w || b != w {
		x.Failf("FromNumber(%q) is %02x %q, SetNumber %02x %q; want %02x %q", s, a.TOA, a.Addr, b.TOA, b.Addr, w.TOA, w.Addr)
	}
	for _, c := range []struct {
		name string
		o    []sms.EncoderOption
		get  func(*tpdu.TPDU) tpdu.Address
	}{
		{"To", []sms.EncoderOption{sms.AsSubmit, sms.To(s)}, func(t *tpdu.TPDU) tpdu.Address { return t.DA }},
		{"From", []sms.EncoderOption{sms.AsDeliver, sms.From(s)}, func(t *tpdu.TPDU) tpdu.Address { return t.OA }},
	} {
		p, err := sms.Encode([]byte("x"), c.o...)
		if err != nil || len(p) != 1 || c.get(&p[0]) != w {
			x.Failf("%s(%q) gives %+v, %v; want address %02x %q", c.name, s, p, err, w.TOA, w.Addr)
		}
	}
	if a.Number() != "+"+w.Addr {
		x.Failf("Number of %q is %q", s, a.Number())
	}
	c13rt(x, w)
}

func c13scalars(x *X) {
	hi := rune(x.Choose(0x110000 >> 8))
	toa := byte(x.Int(0xd0, 0x91))
	for lo := rune(0); lo < 256; lo++ {
		r := hi<<8 | lo
		if r >= 0xd800 && r <= 0xdfff {
			continue
		}
		c13rt(x, tpdu.Address{TOA: toa, Addr: "1" + string(r) + "2"})
	}
}
