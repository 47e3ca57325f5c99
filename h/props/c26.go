package props

import (
	"fmt"
	"sort"
	"time"

	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/bcd"
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/semioctet"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"
)

func init() {
	core.Register("C26",
		core.Sub{Name: "histories", Bound: "all sequences of 3 (4 thorough) of 68 library calls on shared and separate objects, arguments with guarded spare capacity: after each call all arguments and all earlier results unchanged", Body: c26histories},
		core.Sub{Name: "reuse", Bound: "all sequences of 3 (4 thorough) unmarshals of 11 headers or 9 PDUs, and of 2 (3 thorough) of the corpus of TPDUs, into one value: the copies kept of it unchanged", Body: c26reuse},
		core.Sub{Name: "headers", Bound: "submit/deliver x 3 alphabets x 6 template headers x 1..4 segments x Segment/Encode/8-16 bit: every write to any header element, element list or field of any segment, template or option: all others unchanged", Body: c26headers},
		core.Sub{Name: "arguments", Bound: "every argument length 0..330 (0..600 thorough) of each converting call, with spare capacity 0, 1, 7, 600: argument and spare capacity unchanged, twice the same result", Body: c26arguments},
		core.Sub{Name: "ownership", Bound: "each converting call on all 256 single octets and all lengths 0..140 (0..255 thorough): the result unchanged when the argument is overwritten (but for the documented references), and every other such call unchanged when the result is overwritten", Body: c26ownership},
		core.Sub{Name: "options", Bound: "all lists of 0..3 options with spare capacity for each variadic call: list and spare capacity unchanged", Body: c26options},
	)
}

// c26ctx is what the calls of one history share.
type c26ctx struct {
	tmpl   tpdu.TPDU
	enc    *sms.Encoder
	encH   *sms.Encoder
	col    *sms.Collector
	tgt    [2]tpdu.TPDU
	udh    tpdu.UserDataHeader
	pdu    pdumode.PDU
	segs   []tpdu.TPDU // one message of three parts
	cset   []int
	opts   []sms.EncoderOption
	checks []func() string
	gdec   gsm7.Decoder
	genc   gsm7.Encoder
}

type c26noOpt struct{ sms.EncoderOption }

func (c *c26ctx) guard(b []byte) []byte {
	g, chk := guarded(b, 40)
	c.checks = append(c.checks, func() string {
		if d := chk(); d != "" {
			return "argument: " + d
		}
		return ""
	})
	return g
}

// result remembers what was returned.
func (c *c26ctx) result(show func() string) {
	was := show()
	c.checks = append(c.checks, func() string {
		if now := show(); now != was {
			return fmt.Sprintf("a result changed from %.600s to %.600s", was, now)
		}
		return ""
	})
}

func (c *c26ctx) bytes(b []byte, err error) {
	c.result(func() string { return fmt.Sprintf("%x %v", b, err) })
}

func (c *c26ctx) tpdus(l []tpdu.TPDU, err error) {
	c.result(func() string {
		s := fmt.Sprintf("%v", err)
		for i := range l {
			s += "; " + showT(&l[i])
		}
		return s
	})
}

func (c *c26ctx) ptrs(l []*tpdu.TPDU, err error) {
	c.result(func() string {
		s := fmt.Sprintf("%v", err)
		for _, p := range l {
			if p == nil {
				s += "; nil"
			} else {
				s += "; " + showT(p)
			}
		}
		return s
	})
}

// content of a value that the caller may overwrite by a later call.
func (c *c26ctx) parts(t *tpdu.TPDU, err error) {
	u := *t
	c.ptrs([]*tpdu.TPDU{&u}, err)
}

func newC26() *c26ctx {
	c := &c26ctx{}
	h, chk := spareUDH(tpdu.UserDataHeader{{ID: 0x70, Data: []byte{1, 2}}})
	c.udh = h
	c.checks = append(c.checks, func() string {
		if d := chk(); d != "" {
			return "template header: " + d
		}
		return ""
	})
	c.tmpl = tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 0x41, DA: tpdu.Address{TOA: 0x91, Addr: "123"}, UDH: h, UD: c.guard([]byte("template"))}
	c.enc = sms.NewEncoder(sms.AsSubmit, sms.To("1"))
	c.encH = sms.NewEncoder(sms.WithTemplate(c.tmpl), sms.WithCharset(1))
	c.col = sms.NewCollector(sms.WithReassemblyTimeout(time.Hour, nil))
	c.cset = make([]int, 2, 5)
	copy(c.cset[:5], []int{1, 3, -7, -7, -7})
	c.checks = append(c.checks, func() string {
		for i, v := range []int{1, 3, -7, -7, -7} {
			if c.cset[:5][i] != v {
				return fmt.Sprintf("the list of languages was changed: %v", c.cset[:5])
			}
		}
		return ""
	})
	t := c.tmpl
	t.DCS = 0
	t.UD = nil
	c.segs = make([]tpdu.TPDU, 3)
	for i := range c.segs {
		s := t
		s.UDH = tpdu.UserDataHeader{{ID: 0, Data: c.guard([]byte{9, 3, byte(i + 1)})}, {ID: 25, Data: c.guard([]byte{1})}}
		s.UD = c.guard([]byte{0x1b, 0x65, byte('a' + i), 0x1b})
		c.segs[i] = s
		k := &c.segs[i]
		c.result(func() string { return showT(k) })
	}
	c.opts = make([]sms.EncoderOption, 2, 6)
	c.opts[0], c.opts[1] = sms.WithShiftCharset(1), sms.WithLockingCharset(c.cset...)
	spare := [4]*c26noOpt{{}, {}, {}, {}}
	for i := range spare {
		c.opts[:6][2+i] = spare[i]
	}
	c.checks = append(c.checks, func() string {
		for i := range spare {
			if c.opts[:6][2+i] != sms.EncoderOption(spare[i]) {
				return "the spare capacity of the option list was changed"
			}
		}
		return ""
	})
	c.gdec = gsm7.NewDecoder(gsm7.WithCharset(1))
	c.genc = gsm7.NewEncoder(gsm7.WithExtCharset(3))
	return c
}

func refs(l []tpdu.TPDU) (o []*tpdu.TPDU) {
	for i := range l {
		o = append(o, &l[i])
	}
	return
}

type c26op struct {
	name string
	run  func(c *c26ctx)
}

var c26ops = func() []c26op {
	mv := func(i int) []byte { return corpus()[i%len(corpus())].b }
	dv := func(i int) tpdu.Direction { return corpus()[i%len(corpus())].dir }
	o := []c26op{
		{"sms.Encode short", func(c *c26ctx) { p, e := sms.Encode(c.guard([]byte("hi {you}")), c.opts...); c.tpdus(p, e) }},
		{"sms.Encode long", func(c *c26ctx) { p, e := sms.Encode(c.guard(c04rep("hi {you}", 200)), c.opts...); c.tpdus(p, e) }},
		{"sms.Encode unicode", func(c *c26ctx) { p, e := sms.Encode(c.guard(c04rep("日本😀", 90)), c.opts...); c.tpdus(p, e) }},
		{"sms.Encode turkish", func(c *c26ctx) { p, e := sms.Encode(c.guard(c04rep("şİ", 190)), c.opts...); c.tpdus(p, e) }},
		{"Encoder.Encode", func(c *c26ctx) { p, e := c.enc.Encode(c.guard(c04rep("€x", 170))); c.tpdus(p, e) }},
		{"Encoder.Encode with charset", func(c *c26ctx) {
			p, e := c.enc.Encode(c.guard([]byte("ş")), sms.WithCharset(c.cset...))
			c.tpdus(p, e)
		}},
		{"Encoder with header", func(c *c26ctx) { p, e := c.encH.Encode(c.guard([]byte("abc"))); c.tpdus(p, e) }},
		{"Encoder with header, turkish", func(c *c26ctx) { p, e := c.encH.Encode(c.guard(c04rep("ş", 140))); c.tpdus(p, e) }},
		{"Encoder with header, 8-bit", func(c *c26ctx) { p, e := c.encH.Encode(c.guard(octets(300)), sms.As8Bit); c.tpdus(p, e) }},
		{"Segment one", func(c *c26ctx) { c.tpdus(c.tmpl.Segment(c.guard(pattern(20))), nil) }},
		{"Segment three", func(c *c26ctx) { c.tpdus(c.tmpl.Segment(c.guard(pattern(320))), nil) }},
		{"Segment 16 bit", func(c *c26ctx) { c.tpdus(c.tmpl.Segment(c.guard(pattern(320)), tpdu.With16BitConcatRef), nil) }},
		{"TPDU.MarshalBinary", func(c *c26ctx) { b, e := c.tmpl.MarshalBinary(); c.bytes(b, e) }},
		{"segment MarshalBinary", func(c *c26ctx) { b, e := c.segs[1].MarshalBinary(); c.bytes(b, e) }},
		{"UDH.MarshalBinary", func(c *c26ctx) { b, e := c.udh.MarshalBinary(); c.bytes(b, e) }},
		{"UDH.UnmarshalBinary", func(c *c26ctx) {
			var h tpdu.UserDataHeader
			_, e := h.UnmarshalBinary(c.guard([]byte{6, 5, 4, 1, 2, 3, 4, 99, 98}))
			c.result(func() string { return fmt.Sprintf("%x %v", h, e) })
		}},
		{"UDH.IE", func(c *c26ctx) {
			i, ok := c.segs[0].UDH.IE(0)
			c.result(func() string { return fmt.Sprintf("%x %v", i, ok) })
		}},
		{"UDH.IEs", func(c *c26ctx) {
			i := c.segs[0].UDH.IEs(25)
			c.result(func() string { return fmt.Sprintf("%x", i) })
		}},
		{"ConcatInfo", func(c *c26ctx) {
			s, n, r, ok := c.segs[2].ConcatInfo()
			c.result(func() string { return fmt.Sprint(s, n, r, ok) })
		}},
		{"sms.Decode", func(c *c26ctx) { b, e := sms.Decode(refs(c.segs)); c.bytes(b, e) }},
		{"sms.Decode one charset", func(c *c26ctx) { b, e := sms.Decode(refs(c.segs[:1]), sms.WithCharset(c.cset...)); c.bytes(b, e) }},
		{"sms.Decode UCS-2", func(c *c26ctx) {
			a := tpdu.TPDU{DCS: 8, UD: c.guard([]byte{0, 65, 0xd8, 0x3d})}
			b := tpdu.TPDU{DCS: 8, UD: c.guard([]byte{0xde, 0, 0, 66})}
			m, e := sms.Decode([]*tpdu.TPDU{&a, &b})
			c.bytes(m, e)
			c.ptrs([]*tpdu.TPDU{&a, &b}, nil)
		}},
		{"sms.Decode 8-bit", func(c *c26ctx) {
			a := tpdu.TPDU{DCS: 4, UD: c.guard(octets(9))}
			b := tpdu.TPDU{DCS: 4, UD: c.guard(octets(7))}
			m, e := sms.Decode([]*tpdu.TPDU{&a, &b})
			c.bytes(m, e)
		}},
		{"IsCompleteMessage", func(c *c26ctx) {
			ok := sms.IsCompleteMessage(refs(c.segs))
			c.result(func() string { return fmt.Sprint(ok) })
		}},
		{"Collect 1", func(c *c26ctx) { d, e := c.col.Collect(c.segs[0]); c.ptrs(d, e) }},
		{"Collect 2", func(c *c26ctx) { d, e := c.col.Collect(c.segs[1]); c.ptrs(d, e) }},
		{"Collect 3", func(c *c26ctx) { d, e := c.col.Collect(c.segs[2]); c.ptrs(d, e) }},
		{"Collect single", func(c *c26ctx) { d, e := c.col.Collect(c.tmpl); c.ptrs(d, e) }},
		{"Pipes", func(c *c26ctx) {
			m := c.col.Pipes()
			c.result(func() string {
				var ks []string
				for k := range m {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				s := ""
				for _, k := range ks {
					s += k
					for _, p := range m[k] {
						if p == nil {
							s += " nil"
						} else {
							s += " " + showT(p)
						}
					}
				}
				return s
			})
		}},
		{"Collector.Close", func(c *c26ctx) { c.col.Close() }},
		{"EncodeUserData", func(c *c26ctx) {
			ud, h, a := tpdu.EncodeUserData(c.guard([]byte("ş€")), tpdu.WithCharset(c.cset...))
			c.result(func() string { return fmt.Sprintf("%x %x %v", ud, h, a) })
		}},
		{"EncodeUserData all", func(c *c26ctx) {
			ud, h, a := tpdu.EncodeUserData(c.guard([]byte("Ãê")), tpdu.WithLockingCharset(c.cset...), tpdu.WithAllCharsets)
			c.result(func() string { return fmt.Sprintf("%x %x %v", ud, h, a) })
		}},
		{"DecodeUserData", func(c *c26ctx) {
			b, e := tpdu.DecodeUserData(c.segs[0].UD, c.segs[0].UDH, tpdu.Alpha7Bit, tpdu.WithAllCharsets)
			c.bytes(b, e)
		}},
		{"DecodeUserData 8-bit", func(c *c26ctx) {
			b, e := tpdu.DecodeUserData(c.segs[0].UD, c.segs[0].UDH, tpdu.Alpha8Bit)
			c.bytes(b, e)
		}},
		{"gsm7.Encode", func(c *c26ctx) { b, e := gsm7.Encode(c.guard([]byte("a€b\r"))); c.bytes(b, e) }},
		{"gsm7.Decode", func(c *c26ctx) { b, e := gsm7.Decode(c.guard([]byte{0x1b, 0x65, 0, 0x1b})); c.bytes(b, e) }},
		{"Encoder.Encode gsm7", func(c *c26ctx) { b, e := c.genc.Encode(c.guard([]byte("ê€"))); c.bytes(b, e) }},
		{"Decoder.Decode gsm7", func(c *c26ctx) { b, e := c.gdec.Decode(c.guard([]byte{0x1b, 0x65, 7, 9})); c.bytes(b, e) }},
		{"Decoder.Strict gsm7", func(c *c26ctx) {
			d := c.gdec.Strict()
			b, e := d.Decode(c.guard([]byte{0x1b, 0x11, 7, 9}))
			c.bytes(b, e)
		}},
		{"Decoder of unknown extension", func(c *c26ctx) {
			b, e := c.gdec.Decode(c.guard([]byte{0x1b, 0x11, 7, 9}))
			c.bytes(b, e)
		}},
		{"gsm7.Pack7Bit", func(c *c26ctx) { c.bytes(gsm7.Pack7Bit(c.guard(pattern(15)), 3), nil) }},
		{"gsm7.Unpack7Bit", func(c *c26ctx) { c.bytes(gsm7.Unpack7Bit(c.guard(octets(15)), 3), nil) }},
		{"gsm7.Pack7BitUSSD", func(c *c26ctx) { c.bytes(gsm7.Pack7BitUSSD(c.guard(pattern(7)), 0), nil) }},
		{"gsm7.Pack7BitUSSD cr", func(c *c26ctx) { c.bytes(gsm7.Pack7BitUSSD(c.guard(append(pattern(7), 13)), 0), nil) }},
		{"gsm7.Unpack7BitUSSD", func(c *c26ctx) { c.bytes(gsm7.Unpack7BitUSSD(c.guard(octets(7)), 0), nil) }},
		{"ucs2.Encode", func(c *c26ctx) {
			r := []rune("a😀b")
			c.bytes(ucs2.Encode(r), nil)
			c.result(func() string { return string(r) })
		}},
		{"ucs2.Decode", func(c *c26ctx) {
			r, e := ucs2.Decode(c.guard([]byte{0, 65, 0xd8, 0x3d, 0xde, 0, 0xd8, 0x3d}))
			c.result(func() string { return fmt.Sprintf("%x %v", r, e) })
		}},
		{"semioctet.Encode", func(c *c26ctx) { b, e := semioctet.Encode(c.guard([]byte("12*a#"))); c.bytes(b, e) }},
		{"semioctet.Encode nothing", func(c *c26ctx) { b, e := semioctet.Encode(c.guard(nil)); c.bytes(append(b, 1), e) }},
		{"semioctet.Decode", func(c *c26ctx) {
			dst := make([]byte, 5)
			b, _, e := semioctet.Decode(dst, c.guard([]byte{0x21, 0x43, 0xf5}))
			c.bytes(b, e)
		}},
		{"bcd", func(c *c26ctx) { b, e := bcd.Encode(42); c.bytes([]byte{b}, e) }},
		{"Address digits", func(c *c26ctx) { b, e := tAddrsCopy(1).MarshalBinary(); c.bytes(b, e) }},
		{"Address text", func(c *c26ctx) { b, e := tAddrsCopy(2).MarshalBinary(); c.bytes(b, e) }},
		{"Address.UnmarshalBinary", func(c *c26ctx) {
			var a tpdu.Address
			n, e := a.UnmarshalBinary(c.guard([]byte{5, 0x91, 0x21, 0x43, 0xf5, 7, 8}))
			c.result(func() string { return fmt.Sprint(a, n, e) })
		}},
		{"Address.UnmarshalBinary text", func(c *c26ctx) {
			b, _ := ref.Addr(tAddrs[2])
			var a tpdu.Address
			n, e := a.UnmarshalBinary(c.guard(b))
			c.result(func() string { return fmt.Sprint(a, n, e) })
		}},
		{"Timestamp", func(c *c26ctx) {
			t := tpdu.Timestamp{Time: tTimes[0]}
			b, e := t.MarshalBinary()
			c.bytes(b, e)
			var u tpdu.Timestamp
			e = u.UnmarshalBinary(c.guard(b))
			c.result(func() string { return fmt.Sprint(u, e) })
		}},
		{"ValidityPeriod", func(c *c26ctx) {
			v := tVPs[7]
			b, e := v.MarshalBinary()
			c.bytes(b, e)
			var u tpdu.ValidityPeriod
			_, e = u.UnmarshalBinary(c.guard(b), v.Format)
			c.result(func() string { return fmt.Sprint(u, e) })
		}},
		{"pdumode marshal", func(c *c26ctx) {
			p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: tAddrs[1]}, TPDU: c.guard(mv(0))}
			b, e := p.MarshalBinary()
			c.bytes(b, e)
			s, e := p.MarshalHexString()
			c.result(func() string { return fmt.Sprint(s, e) })
		}},
		{"pdumode unmarshal", func(c *c26ctx) {
			p, e := pdumode.UnmarshalBinary(c.guard(append([]byte{3, 0x91, 0x21, 0x43}, mv(0)...)))
			c.result(func() string { return fmt.Sprint(p, e) })
		}},
		{"pdumode unmarshal hex into shared", func(c *c26ctx) {
			e := c.pdu.UnmarshalHexString("039121430011223344")
			p := c.pdu
			c.result(func() string { return fmt.Sprint(p, e) })
		}},
		{"pdumode unmarshal into shared", func(c *c26ctx) {
			e := c.pdu.UnmarshalBinary(c.guard([]byte{2, 0x81, 0x55, 9, 8, 7}))
			p := c.pdu
			c.result(func() string { return fmt.Sprint(p, e) })
		}},
		{"setters", func(c *c26ctx) {
			t := c.tmpl
			t.SetUD(c.guard(octets(3)))
			t.SetUDH(append(t.UDH[:0:0], t.UDH...))
			t.SetDCS(4)
			t.SetVP(tVPs[5])
			c.parts(&t, nil)
		}},
	}
	for i := 0; i < 3; i++ {
		i := i
		o = append(o, c26op{fmt.Sprintf("sms.Unmarshal %d", i), func(c *c26ctx) {
			var t *tpdu.TPDU
			var e error
			k := i * 11
			if dv(k) == tpdu.MO {
				t, e = sms.Unmarshal(c.guard(mv(k)), sms.AsMO)
			} else {
				t, e = sms.Unmarshal(c.guard(mv(k)))
			}
			c.ptrs([]*tpdu.TPDU{t}, e)
		}})
		o = append(o, c26op{fmt.Sprintf("UnmarshalBinary %d into shared", i), func(c *c26ctx) {
			k := []int{1, 2, 3}[i]
			t := &c.tgt[dv(k)]
			t.Direction = dv(k)
			e := t.UnmarshalBinary(c.guard(mv(k)))
			c.parts(t, e)
		}})
	}
	return o
}()

func tAddrsCopy(i int) *tpdu.Address { a := tAddrs[i]; return &a }

func c26histories(x *X) {
	n := x.Pick(3, 4)
	c := newC26()
	defer c.col.Close() // its timers keep it, and with it everything else, for an hour
	desc := ""
	h := uint64(0)
	for i := 0; i < n; i++ {
		k := x.Choose(len(c26ops))
		op := c26ops[k]
		desc += " [" + op.name + "]"
		h = core.Mix(h*131 + uint64(k) + 1)
		op.run(c)
		x.Op()
		x.Logf("%s", op.name)
		for _, f := range c.checks {
			if d := f(); d != "" {
				x.Failf("after%s: %s", desc, d)
			}
		}
	}
	x.State(h)
}

// c26headers writes to one thing and looks at all the others.
func c26headers(x *X) {
	st := c01types[x.Choose(2)]
	dcs := byte(x.Int(0, 4, 8))
	hs := []tpdu.UserDataHeader{nil, {{ID: 0x70, Data: []byte{1, 2}}}, {{ID: 0x70, Data: []byte{1}}, {ID: 0x71, Data: []byte{2, 3}}}, {{ID: 0x70, Data: nil}}, {}, {{ID: 0x50, Data: octets(30)}}}
	hdr := hs[x.Choose(len(hs))]
	spare := x.Bool()
	var h tpdu.UserDataHeader
	if hdr != nil {
		h = cloneUDH(hdr)
		if spare {
			h, _ = spareUDH(hdr)
		}
	}
	t := tpdu.TPDU{Direction: st.Direction(), FirstOctet: tpdu.FirstOctet(st.MTI()), DCS: tpdu.DCS(dcs), UDH: h}
	if h != nil {
		t.FirstOctet |= 0x40
	}
	n := 10 + 130*x.Choose(4)
	how := x.Choose(4)
	make := func() []tpdu.TPDU {
		x.Op()
		switch how {
		case 0:
			return t.Segment(udFor(dcs, n))
		case 1:
			return t.Segment(udFor(dcs, n), tpdu.With16BitConcatRef)
		case 2:
			if dcs == 0 {
				l, _ := sms.Encode(c04rep("ş", n), sms.WithTemplate(t), sms.WithCharset(1))
				return l
			}
		}
		l, _ := sms.Encode(udFor(dcs&^3, n), sms.WithTemplate(t))
		return l
	}
	e := sms.NewEncoder(sms.WithTemplate(t))
	var ls [][]tpdu.TPDU
	switch how {
	case 3: // two messages of one encoder
		x.Ops(2)
		a, _ := e.Encode(udFor(dcs&^3, n))
		b, _ := e.Encode(udFor(dcs&^3, n))
		ls = [][]tpdu.TPDU{a, b}
	default:
		ls = [][]tpdu.TPDU{make()}
	}
	all := []*tpdu.TPDU{&t}
	for _, l := range ls {
		if len(l) == 0 {
			x.Failf("nothing encoded")
		}
		for i := range l {
			all = append(all, &l[i])
		}
	}
	was := make2(all)
	w := x.Choose(len(all))
	p := all[w]
	what := x.Choose(5)
	ie := 0
	if what < 3 {
		if len(p.UDH) == 0 {
			return
		}
		ie = x.Choose(len(p.UDH))
	}
	switch what {
	case 0: // data of an element
		if len(p.UDH[ie].Data) == 0 {
			p.UDH[ie].Data = append(p.UDH[ie].Data, 0x99)
		}
		for i := range p.UDH[ie].Data {
			p.UDH[ie].Data[i] ^= 0xff
		}
	case 1: // an element
		p.UDH[ie] = tpdu.InformationElement{ID: 0x33, Data: []byte{9, 9, 9}}
	case 2: // append to its data
		p.UDH[ie].Data = append(p.UDH[ie].Data, 0x77)
		d := p.UDH[ie].Data
		d[len(d)-1] = 0x66
	case 3: // append an element
		p.SetUDH(append(p.UDH, tpdu.InformationElement{ID: 0x44, Data: []byte{4}}))
	case 4:
		p.SetUDH(nil)
		p.MR, p.PID = 0x55, 0x66
	}
	desc := fmt.Sprintf("%v, DCS %02x, header %x, %d TPDUs, how %d, write %d of element %d in %d", st, dcs, hdr, len(all)-1, how, what, ie, w)
	x.State(core.HashStr(desc))
	x.Logf("%s", desc)
	now := make2(all)
	for i := range all {
		if i != w && was[i] != now[i] {
			name := "the template"
			if i > 0 {
				name = fmt.Sprintf("TPDU %d", i)
			}
			x.Failf("%s: %s changed from %s to %s", desc, name, was[i], now[i])
		}
	}
}

func make2(all []*tpdu.TPDU) (o []string) {
	for _, p := range all {
		o = append(o, showT(p))
	}
	return
}

func c26arguments(x *X) {
	max := x.Pick(331, 601)
	n := x.Choose(max)
	spare := x.Int(0, 1, 7, 600)
	k := x.Choose(18)
	var arg []byte
	switch k {
	case 0, 8:
		arg = c04rep("ab€c{", n)
	case 1:
		arg = c04rep("日a😀", n)
	case 2, 3, 9, 11, 12, 17:
		arg = pattern(n)
	case 14:
		arg = []byte(digits(n))
	default:
		arg = octets(n)
	}
	if k == 17 && n > 0 {
		arg[n-1] = 13
	}
	if k == 4 || k == 16 {
		for i := 0; i < n; i += 2 {
			arg[i] &= 0x7f
		}
	}
	g, chk := guarded(arg, spare)
	dir := tpdu.Direction(n & 1)
	run := func() string {
		x.Op()
		switch k {
		case 0, 1:
			p, e := sms.Encode(g)
			return fmt.Sprint(len(p), e)
		case 2, 3, 4:
			t := tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 1, DCS: tpdu.DCS([]byte{0, 4, 8}[k-2])}
			s := ""
			for _, p := range t.Segment(g) {
				b, e := p.MarshalBinary()
				s += fmt.Sprintf("%x %v;", b, e)
			}
			return s
		case 5, 6:
			t := tpdu.TPDU{Direction: dir}
			if k == 6 && len(g) > 0 { // a long user data field
				var b []byte
				m := len(g)
				if m > 140 {
					m = 140
				}
				b = append([]byte{0, 0, 0x91, 0, 4, 0x71, 0x10, 0x10, 0, 0, 0, 0, byte(m)}, g[:m]...)
				g2, chk2 := guarded(b, spare)
				t.Direction = tpdu.MT
				e := t.UnmarshalBinary(g2)
				if d := chk2(); d != "" {
					x.Failf("UnmarshalBinary of %x: argument: %s", b, d)
				}
				return fmt.Sprint(showT(&t), e)
			}
			e := t.UnmarshalBinary(g)
			return fmt.Sprint(showT(&t), e)
		case 7:
			var h tpdu.UserDataHeader
			m, e := h.UnmarshalBinary(g)
			return fmt.Sprintf("%x %v %v", h, m, e)
		case 8:
			b, e := gsm7.Encode(g)
			return fmt.Sprintf("%x %v", b, e)
		case 9:
			b, e := gsm7.Decode(g, gsm7.WithCharset(3))
			return fmt.Sprintf("%x %v", b, e)
		case 10:
			return fmt.Sprintf("%x", gsm7.Unpack7Bit(g, n%7))
		case 11:
			return fmt.Sprintf("%x", gsm7.Pack7Bit(g, n%7))
		case 12:
			return fmt.Sprintf("%x", gsm7.Pack7BitUSSD(g, n%7))
		case 13:
			return fmt.Sprintf("%x", gsm7.Unpack7BitUSSD(g, n%7))
		case 14:
			b, e := semioctet.Encode(g)
			return fmt.Sprintf("%x %v", b, e)
		case 15:
			b, m, e := semioctet.Decode(make([]byte, n), g)
			return fmt.Sprintf("%x %v %v", b, m, e)
		case 16:
			r, e := ucs2.Decode(g)
			return fmt.Sprintf("%x %v", r, e)
		case 17:
			b, e := gsm7.Encode(g, gsm7.WithCharset(1))
			return fmt.Sprintf("%x %v %x", b, e, gsm7.Pack7BitUSSD(g, 0))
		}
		return ""
	}
	a := run()
	x.State(core.HashInts(k, n))
	if d := chk(); d != "" {
		x.Failf("call %d with %d octets and %d spare: argument: %s", k, n, spare, d)
	}
	if b := run(); a != b {
		x.Failf("call %d with the same %d octets: first %.300s, then %.300s", k, n, a, b)
	}
}

// c26opt is an option list of T with guarded spare capacity.
func c26list[T comparable](x *X, pick []T, spare []T) ([]T, func() bool) {
	n := x.Choose(4)
	buf := make([]T, n+len(spare))
	for i := 0; i < n; i++ {
		buf[i] = pick[x.Choose(len(pick))]
	}
	copy(buf[n:], spare)
	was := append([]T(nil), buf...)
	return buf[:n], func() bool {
		for i := range buf {
			if buf[i] != was[i] {
				return false
			}
		}
		return true
	}
}

type c26e struct{ sms.EncoderOption }
type c26d struct{ sms.DecodeOption }
type c26t struct{ tpdu.Option }
type c26ud struct{ tpdu.UDDecodeOption }
type c26ue struct{ tpdu.UDEncodeOption }

func c26options(x *X) {
	k := x.Choose(18)
	x.Op()
	ok := func() bool { return true }
	if k >= 9 { // the identifiers given to the options themselves
		var l []int
		l, ok = c26list(x, []int{3, 1, 2}, []int{9, 7, 8})
		h := tpdu.UserDataHeader{{ID: 25, Data: []byte{1}}, {ID: 24, Data: []byte{2}}}
		dec := func(o sms.DecodeOption) {
			for i := 0; i < 2; i++ {
				sms.Decode([]*tpdu.TPDU{{UD: []byte("x"), UDH: h}}, o)
			}
		}
		enc := func(o sms.EncoderOption) {
			e := sms.NewEncoder(sms.WithShiftCharset(5, 4), o)
			e.Encode([]byte("şÃ"))
			e.Encode([]byte("şÃ"), o, sms.WithCharset(2, 1))
			sms.Encode([]byte("ह"), o)
		}
		ud := func(o tpdu.UDEncodeOption) {
			for i := 0; i < 2; i++ {
				tpdu.EncodeUserData([]byte("şÃ"), o, tpdu.WithShiftCharset(2, 1))
			}
		}
		udd := func(o tpdu.UDDecodeOption) {
			for i := 0; i < 2; i++ {
				tpdu.DecodeUserData([]byte("x"), h, 0, o, tpdu.WithShiftCharset(2, 1))
			}
		}
		switch k {
		case 9:
			o := sms.WithCharset(l...)
			enc(o)
			dec(o)
		case 10:
			o := sms.WithLockingCharset(l...)
			enc(o)
			dec(o)
		case 11:
			o := sms.WithShiftCharset(l...)
			enc(o)
			dec(o)
		case 12:
			o := tpdu.WithCharset(l...)
			ud(o)
			udd(o)
		case 13:
			o := tpdu.WithLockingCharset(l...)
			ud(o)
			udd(o)
		case 14:
			o := tpdu.WithShiftCharset(l...)
			ud(o)
			udd(o)
		case 15:
			var l []gsm7.DecoderOption
			l, ok = c26list(x, []gsm7.DecoderOption{gsm7.WithCharset(1), gsm7.WithExtCharset(1), gsm7.Strict, gsm7.WithCharset(3)}, []gsm7.DecoderOption{gsm7.NullDecoder{}, gsm7.WithCharset(9)})
			gsm7.Decode([]byte("x"), l...)
			gsm7.NewDecoder(l...)
		case 16:
			var l []gsm7.EncoderOption
			l, ok = c26list(x, []gsm7.EncoderOption{gsm7.WithCharset(1), gsm7.WithExtCharset(1), gsm7.WithCharset(3)}, []gsm7.EncoderOption{gsm7.WithCharset(9), gsm7.WithExtCharset(9)})
			gsm7.Encode([]byte("x"), l...)
			gsm7.NewEncoder(l...)
		case 17:
			var l []sms.UnmarshalOption
			l, ok = c26list(x, []sms.UnmarshalOption{sms.AsMO, sms.AsMT}, []sms.UnmarshalOption{sms.AsMT, sms.AsMO})
			sms.Unmarshal([]byte{0, 0}, l...)
		}
		x.State(uint64(k) + 1)
		if !ok() {
			x.Failf("options %d: the identifiers given or their spare capacity were changed", k)
		}
		return
	}
	switch k {
	case 0, 1, 2:
		p := []sms.EncoderOption{&c26e{sms.AsSubmit}, &c26e{sms.AsDeliver}, &c26e{sms.WithCharset(1)}, &c26e{sms.To("1")}, &c26e{sms.As8Bit}, &c26e{sms.WithAllCharsets}}
		s := []sms.EncoderOption{&c26e{}, &c26e{}, &c26e{}}
		var l []sms.EncoderOption
		l, ok = c26list(x, p, s)
		switch k {
		case 0:
			sms.Encode([]byte("ş"), l...)
		case 1:
			e := sms.NewEncoder(l...)
			e.Encode([]byte("x"))
		case 2:
			e := sms.NewEncoder(sms.AsSubmit, sms.WithShiftCharset(3))
			e.Encode([]byte("ş"), l...)
		}
	case 3:
		p := []sms.DecodeOption{&c26d{sms.WithCharset(1)}, &c26d{sms.WithLockingCharset(1)}, &c26d{sms.WithDefaultCharset}}
		var l []sms.DecodeOption
		l, ok = c26list(x, p, []sms.DecodeOption{&c26d{}, &c26d{}})
		sms.Decode([]*tpdu.TPDU{{UD: []byte("x"), UDH: tpdu.UserDataHeader{{ID: 25, Data: []byte{1}}}}}, l...)
	case 4, 5, 6:
		p := []tpdu.Option{&c26t{tpdu.SmsSubmit}, &c26t{tpdu.SmsDeliver}, &c26t{tpdu.DCS(4)}, &c26t{tpdu.MO}, &c26t{tpdu.WithUDH(tpdu.UserDataHeader{{ID: 1}})}}
		var l []tpdu.Option
		l, ok = c26list(x, p, []tpdu.Option{&c26t{}, &c26t{}})
		switch k {
		case 4:
			tpdu.New(l...)
		case 5:
			tpdu.NewDeliver(l...)
		case 6:
			tpdu.NewSubmit(l...)
		}
	case 7:
		p := []tpdu.UDEncodeOption{&c26ue{tpdu.WithCharset(1)}, &c26ue{tpdu.WithShiftCharset(3)}, &c26ue{tpdu.WithAllCharsets}}
		var l []tpdu.UDEncodeOption
		l, ok = c26list(x, p, []tpdu.UDEncodeOption{&c26ue{}})
		tpdu.EncodeUserData([]byte("ş"), l...)
	case 8:
		p := []tpdu.UDDecodeOption{&c26ud{tpdu.WithCharset(1)}, &c26ud{tpdu.WithShiftCharset(3)}, &c26ud{tpdu.WithAllCharsets}}
		var l []tpdu.UDDecodeOption
		l, ok = c26list(x, p, []tpdu.UDDecodeOption{&c26ud{}})
		tpdu.DecodeUserData([]byte("x"), tpdu.UserDataHeader{{ID: 25, Data: []byte{1}}}, 0, l...)
	}
	x.State(uint64(k) + 1)
	if !ok() {
		x.Failf("call %d: the option list or its spare capacity was changed", k)
	}
}

// c26conv are the calls whose results belong to the caller, who may change
// them, or (but for keep) reuse the argument.
var c26conv = []struct {
	name string
	keep bool // documented to refer to its argument
	f    func(b []byte) [][]byte
}{
	{"Pack7Bit", false, func(b []byte) [][]byte { return [][]byte{gsm7.Pack7Bit(b, 0)} }},
	{"Pack7Bit fill 3", false, func(b []byte) [][]byte { return [][]byte{gsm7.Pack7Bit(b, 3)} }},
	{"Unpack7Bit", false, func(b []byte) [][]byte { return [][]byte{gsm7.Unpack7Bit(b, 0)} }},
	{"Unpack7Bit fill 3", false, func(b []byte) [][]byte { return [][]byte{gsm7.Unpack7Bit(b, 3)} }},
	{"Pack7BitUSSD", false, func(b []byte) [][]byte { return [][]byte{gsm7.Pack7BitUSSD(b, 0)} }},
	{"Unpack7BitUSSD", false, func(b []byte) [][]byte { return [][]byte{gsm7.Unpack7BitUSSD(b, 0)} }},
	{"gsm7.Encode", false, func(b []byte) [][]byte { r, _ := gsm7.Encode(b); return [][]byte{r} }},
	{"gsm7.Encode turkish", false, func(b []byte) [][]byte { r, _ := gsm7.Encode(b, gsm7.WithCharset(1)); return [][]byte{r} }},
	{"gsm7.Decode", false, func(b []byte) [][]byte { r, _ := gsm7.Decode(b); return [][]byte{r} }},
	{"gsm7.Decode turkish", false, func(b []byte) [][]byte { r, _ := gsm7.Decode(b, gsm7.WithCharset(1)); return [][]byte{r} }},
	{"semioctet.Encode", false, func(b []byte) [][]byte { r, _ := semioctet.Encode(b); return [][]byte{r} }},
	{"semioctet.Decode", false, func(b []byte) [][]byte { r, _, _ := semioctet.Decode(make([]byte, 2*len(b)), b); return [][]byte{r} }},
	{"ucs2.Encode", false, func(b []byte) [][]byte { return [][]byte{ucs2.Encode([]rune(string(b)))} }},
	{"EncodeUserData", false, func(b []byte) [][]byte {
		ud, h, _ := tpdu.EncodeUserData(b, tpdu.WithAllCharsets)
		r := [][]byte{ud}
		for _, ie := range h {
			r = append(r, ie.Data)
		}
		return r
	}},
	{"DecodeUserData 7-bit", false, func(b []byte) [][]byte { r, _ := tpdu.DecodeUserData(b, nil, 0); return [][]byte{r} }},
	{"DecodeUserData UCS-2", false, func(b []byte) [][]byte { r, _ := tpdu.DecodeUserData(b, nil, 2); return [][]byte{r} }},
	{"sms.Decode 8-bit", false, func(b []byte) [][]byte {
		r, _ := sms.Decode([]*tpdu.TPDU{{DCS: 4, UD: b}, {DCS: 4, UD: b}})
		return [][]byte{r}
	}},
	{"sms.Decode 8-bit, one", false, func(b []byte) [][]byte {
		r, _ := sms.Decode([]*tpdu.TPDU{{DCS: 4, UD: b}})
		return [][]byte{r}
	}},
	{"sms.Decode 7-bit", false, func(b []byte) [][]byte { r, _ := sms.Decode([]*tpdu.TPDU{{UD: b}}); return [][]byte{r} }},
	{"sms.Encode", false, func(b []byte) [][]byte {
		l, _ := sms.Encode(b)
		return c26fields(l)
	}},
	{"sms.Encode all charsets", false, func(b []byte) [][]byte {
		l, _ := sms.Encode(c04rep("ş"+string(b), 160), sms.WithAllCharsets)
		return c26fields(l)
	}},
	{"Segment with header", true, func(b []byte) [][]byte {
		t := tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 0x41, DCS: 4, UDH: tpdu.UserDataHeader{{ID: 0x70, Data: []byte{1, 2}}}}
		return c26fields(t.Segment(b))
	}},
	{"TPDU.MarshalBinary", false, func(b []byte) [][]byte {
		t := tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 0x41, DCS: 4, UDH: tpdu.UserDataHeader{{ID: 0x70, Data: b}}, UD: b}
		r, _ := t.MarshalBinary()
		return [][]byte{r}
	}},
	{"TPDU.MarshalBinary 7-bit", false, func(b []byte) [][]byte {
		t := tpdu.TPDU{UD: b}
		r, _ := t.MarshalBinary()
		return [][]byte{r}
	}},
	{"UDH.MarshalBinary", false, func(b []byte) [][]byte {
		r, _ := tpdu.UserDataHeader{{ID: 0x70, Data: b}}.MarshalBinary()
		return [][]byte{r}
	}},
	{"UDH.UnmarshalBinary", false, func(b []byte) [][]byte {
		var h tpdu.UserDataHeader
		h.UnmarshalBinary(b)
		var r [][]byte
		for _, ie := range h {
			r = append(r, ie.Data)
		}
		return r
	}},
	{"UDH.UnmarshalBinary of an element", false, func(b []byte) [][]byte {
		var h tpdu.UserDataHeader
		if len(b) < 3 {
			return nil
		}
		b[0], b[2] = byte(len(b)-1), byte(len(b)-3)
		h.UnmarshalBinary(b)
		var r [][]byte
		for _, ie := range h {
			r = append(r, ie.Data)
		}
		return r
	}},
	{"TPDU.UnmarshalBinary", false, func(b []byte) [][]byte { return c26un(b, false) }},
	{"TPDU.UnmarshalBinary with header", false, func(b []byte) [][]byte { return c26un(b, true) }},
	{"Address.MarshalBinary", false, func(b []byte) [][]byte {
		a := tpdu.Address{TOA: 0x91, Addr: digits(len(b) % 21)}
		r, _ := a.MarshalBinary()
		a = tpdu.Address{TOA: 0xd0, Addr: "ab" + digits(len(b)%9)}
		s, _ := a.MarshalBinary()
		return [][]byte{r, s}
	}},
	{"Timestamp.MarshalBinary", false, func(b []byte) [][]byte {
		t := tpdu.Timestamp{Time: tTimes[0]}
		r, _ := t.MarshalBinary()
		return [][]byte{r}
	}},
	{"ValidityPeriod.MarshalBinary", false, func(b []byte) [][]byte {
		var o [][]byte
		for _, v := range tVPs {
			r, _ := v.MarshalBinary()
			o = append(o, r)
		}
		return o
	}},
	{"PDU.MarshalBinary", false, func(b []byte) [][]byte {
		p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: tAddrs[len(b)%2]}, TPDU: b}
		r, _ := p.MarshalBinary()
		return [][]byte{r}
	}},
	{"PDU.UnmarshalBinary", true, func(b []byte) [][]byte {
		p, err := pdumode.UnmarshalBinary(append([]byte{0}, b...))
		if err != nil {
			return nil
		}
		return [][]byte{p.TPDU}
	}},
}

func c26fields(l []tpdu.TPDU) (o [][]byte) {
	for _, p := range l {
		o = append(o, p.UD)
		for _, ie := range p.UDH {
			o = append(o, ie.Data)
		}
	}
	return
}

// c26un unmarshals a deliver made around the octets, its header and data being
// the octets.
func c26un(b []byte, udh bool) [][]byte {
	f := []byte{0x00, 0, 0x91, 0, 4, 0x71, 0x10, 0x10, 0, 0, 0, 0, byte(len(b))}
	if udh {
		f[0] = 0x40
	}
	// in front of the octets in the same buffer
	buf := make([]byte, len(f)+len(b), len(f)+len(b))
	copy(buf, f)
	copy(buf[len(f):], b)
	if udh && len(b) > 5 {
		buf[len(f)], buf[len(f)+2] = byte(len(b)-3), byte(len(b)-5)
	}
	var t tpdu.TPDU
	t.UnmarshalBinary(buf)
	r := c26fields([]tpdu.TPDU{t})
	for i := range buf {
		buf[i] ^= 0xa5
	}
	return r
}

func c26ownership(x *X) {
	var arg []byte
	if k := x.Choose(256 + x.Pick(140, 255)); k < 256 {
		arg = []byte{byte(k)}
	} else {
		n := k - 255
		switch x.Choose(4) {
		case 0:
			arg = octets(n)
		case 1:
			arg = pattern(n)
		case 2:
			arg = []byte(digits(n))
		case 3:
			arg = c04rep("abş", n)
		}
	}
	i := x.Choose(len(c26conv))
	f := c26conv[i]
	show := func(r [][]byte) string { return fmt.Sprintf("%x", r) }
	call := func(k int) (r [][]byte, s string) {
		x.Op()
		r = c26conv[k].f(append([]byte(nil), arg...))
		return r, show(r)
	}
	var was []string
	for j := range c26conv {
		_, s := call(j)
		was = append(was, s)
	}
	a := append([]byte(nil), arg...)
	r := f.f(a)
	s := show(r)
	x.State(core.Hash(arg, []byte{byte(i)}))
	x.Logf("%s(%x) = %s", f.name, arg, s)
	if s != was[i] {
		x.Failf("%s(%x) = %.300s, after other calls %.300s", f.name, arg, was[i], s)
	}
	if !f.keep {
		for j := range a {
			a[j] ^= 0xff
		}
		if now := show(r); now != s {
			x.Failf("%s(%x): the result changes with the argument, from %.300s to %.300s", f.name, arg, s, now)
		}
	}
	for _, b := range r {
		for j := range b {
			b[j] ^= 0xff
		}
	}
	for j := range c26conv {
		if _, s := call(j); s != was[j] {
			x.Failf("%s(%x) = %.300s, after the result of %s was overwritten %.300s", c26conv[j].name, arg, was[j], f.name, s)
		}
	}
}
