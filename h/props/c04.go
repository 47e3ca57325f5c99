package props

import (
	"fmt"

	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func init() {
	core.Register("C04",
		core.Sub{Name: "sequences", Bound: "10 encoders (templates with headers, with spare capacity, options, shared counters near wrap, counters given by an option) x all sequences of 1..3 (4 thorough) calls from 17 (short/long, charsets, 8-bit, UCS-2, types, headers, templates, too long, refused, empty): all TPDUs, counters, earlier results and the template", Body: c04sequences},
		core.Sub{Name: "long", Bound: "70000 messages through one encoder, 600 of 2..4 parts, and one each of 5..255: every reference in turn, across all wraps", Body: c04long},
	)
}

type C04Call struct {
	Name string
	Msg  []byte
	Opts func() []sms.EncoderOption
	// model of the options
	Mod func(c *encCfg)
}

func c04set(t *tpdu.TPDU, st tpdu.SmsType) {
	t.Direction = st.Direction()
	t.FirstOctet = t.FirstOctet&^3 | tpdu.FirstOctet(st.MTI())
}

func c04rep(s string, n int) []byte { return c01rep(s)(n) }

var c04calls = []C04Call{
	{"short", []byte("hello"), nil, nil},
	{"long", c04rep("long text ", 170), nil, nil},
	{"turkish without charset", []byte("şu"), nil, nil},
	{"turkish", []byte("şu"), func() []sms.EncoderOption { return []sms.EncoderOption{sms.WithCharset(1)} },
		func(c *encCfg) { c.locking = append(c.locking, 1); c.shift = append(c.shift, 1) }},
	{"long turkish", c04rep("şu€", 160), func() []sms.EncoderOption { return []sms.EncoderOption{sms.WithLockingCharset(1)} },
		func(c *encCfg) { c.locking = append(c.locking, 1) }},
	{"portuguese shift", []byte("Ãê"), func() []sms.EncoderOption { return []sms.EncoderOption{sms.WithShiftCharset(3)} },
		func(c *encCfg) { c.shift = append(c.shift, 3) }},
	{"all charsets", []byte("Ãêş"), func() []sms.EncoderOption { return []sms.EncoderOption{sms.WithAllCharsets} },
		func(c *encCfg) { c.locking = append(c.locking, c02all...); c.shift = append(c.shift, c02all...) }},
	{"long unicode", c04rep("日本😀", 75), nil, nil},
	{"8-bit", octets(20), func() []sms.EncoderOption { return []sms.EncoderOption{sms.As8Bit} },
		func(c *encCfg) { c.tmpl.DCS = 4 }},
	{"long UCS-2", c01kinds[6].make(80), func() []sms.EncoderOption { return []sms.EncoderOption{sms.AsUCS2} },
		func(c *encCfg) { c.tmpl.DCS = 8 }},
	{"deliver", []byte("from"), func() []sms.EncoderOption { return []sms.EncoderOption{sms.AsDeliver, sms.From("99")} },
		func(c *encCfg) { c04set(&c.tmpl, tpdu.SmsDeliver); c.tmpl.OA = tpdu.Address{TOA: 0x91, Addr: "99"} }},
	{"submit to", c04rep("to", 200), func() []sms.EncoderOption { return []sms.EncoderOption{sms.AsSubmit, sms.To("+88")} },
		func(c *encCfg) { c04set(&c.tmpl, tpdu.SmsSubmit); c.tmpl.DA = tpdu.Address{TOA: 0x91, Addr: "88"} }},
	{"header", []byte("with port"), func() []sms.EncoderOption {
		return []sms.EncoderOption{sms.WithTemplateOption(tpdu.WithUDH(tpdu.UserDataHeader{{ID: 5, Data: []byte{1, 2, 3, 4}}}))}
	}, func(c *encCfg) {
		c.tmpl.UDH = tpdu.UserDataHeader{{ID: 5, Data: []byte{1, 2, 3, 4}}}
		c.tmpl.FirstOctet |= 0x40
	}},
	{"template", c04rep("tmpl", 170), func() []sms.EncoderOption {
		return []sms.EncoderOption{sms.WithTemplate(tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 0x21, DA: tpdu.Address{TOA: 0xd0, Addr: "x"}, PID: 9})}
	}, func(c *encCfg) {
		c.tmpl = tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 0x21, DA: tpdu.Address{TOA: 0xd0, Addr: "x"}, PID: 9}
	}},
	{"too long", octets(255*134 + 1), func() []sms.EncoderOption { return []sms.EncoderOption{sms.As8Bit} },
		func(c *encCfg) { c.tmpl.DCS = 4 }},
	{"refused scheme", []byte("日"), func() []sms.EncoderOption {
		return []sms.EncoderOption{sms.WithTemplateOption(tpdu.DCS(0xf1))}
	}, func(c *encCfg) { c.tmpl.DCS = 0xf1 }},
	{"empty", nil, nil, nil},
}

type c04enc struct {
	name   string
	make   func() (*sms.Encoder, func() string) // and what tells whether the template was altered
	cfg    encCfg
	mr, cr int
}

func spareUDH(h tpdu.UserDataHeader) (tpdu.UserDataHeader, func() string) {
	buf := make(tpdu.UserDataHeader, len(h)+6)
	for i := range buf {
		buf[i] = tpdu.InformationElement{ID: 0xee, Data: []byte{0xee}}
	}
	var data []func() string
	for i := range h {
		d, chk := guarded(h[i].Data, 4)
		buf[i] = tpdu.InformationElement{ID: h[i].ID, Data: d}
		data = append(data, chk)
	}
	return buf[:len(h)], func() string {
		for i := range buf {
			w := tpdu.InformationElement{ID: 0xee, Data: []byte{0xee}}
			if i < len(h) {
				w = h[i]
				if d := data[i](); d != "" {
					return fmt.Sprintf("element %d: %s", i, d)
				}
			}
			if buf[i].ID != w.ID || !eq(buf[i].Data, w.Data) {
				return fmt.Sprintf("element %d changed to %x", i, buf[i])
			}
		}
		return ""
	}
}

// spareUD gives a template user data with room for more, and what tells
// whether it was altered.
func spareUD(t tpdu.TPDU) (tpdu.TPDU, func() string) {
	ud, chk := guarded([]byte("template text"), 400)
	t.UD = ud
	return t, func() string {
		if d := chk(); d != "" {
			return "user data: " + d
		}
		return ""
	}
}

var c04encs = func() []c04enc {
	none := func() string { return "" }
	mo := tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 1}
	h1 := tpdu.UserDataHeader{{ID: 0x70, Data: []byte{7, 7}}}
	h2 := tpdu.UserDataHeader{{ID: 0x70, Data: []byte{7, 7}}, {ID: 0x71, Data: nil}}
	full := tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 0xa5 | 0x10, MR: 77, PID: 3, DCS: 0x10, DA: tpdu.Address{TOA: 0x91, Addr: "555"}, VP: tVPs[1]}
	withh := func(h tpdu.UserDataHeader) tpdu.TPDU {
		t := mo
		t.UDH = h
		t.FirstOctet |= 0x40
		return t
	}
	return []c04enc{
		{name: "plain", make: func() (*sms.Encoder, func() string) { return sms.NewEncoder(), none }},
		{name: "submit", make: func() (*sms.Encoder, func() string) { return sms.NewEncoder(sms.AsSubmit, sms.To("1")), none },
			cfg: encCfg{tmpl: tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 1, DA: tpdu.Address{TOA: 0x91, Addr: "1"}}}},
		{name: "header with spare capacity", make: func() (*sms.Encoder, func() string) {
			h, chk := spareUDH(h1)
			return sms.NewEncoder(sms.WithTemplate(withh(h))), chk
		}, cfg: encCfg{tmpl: withh(h1)}},
		{name: "two elements, charsets", make: func() (*sms.Encoder, func() string) {
			h, chk := spareUDH(h2)
			return sms.NewEncoder(sms.AsSubmit, sms.WithTemplateOption(tpdu.WithUDH(h)), sms.WithCharset(3), sms.WithShiftCharset(1)), chk
		}, cfg: encCfg{tmpl: withh(h2), locking: []int{3}, shift: []int{3, 1}}},
		{name: "all fields", make: func() (*sms.Encoder, func() string) {
			t, chk := spareUD(full)
			return sms.NewEncoder(sms.WithTemplate(t)), chk
		}, cfg: encCfg{tmpl: full}},
		{name: "three charset options", make: func() (*sms.Encoder, func() string) {
			return sms.NewEncoder(sms.AsSubmit, sms.WithLockingCharset(4), sms.WithShiftCharset(4), sms.WithCharset(2)), none
		}, cfg: encCfg{tmpl: mo, locking: []int{4, 2}, shift: []int{4, 2}}},
		{name: "counters about to wrap", make: func() (*sms.Encoder, func() string) {
			e := sms.NewEncoder(sms.AsSubmit)
			e.MsgCount, e.ConcatRef = &fixedCounter{253}, &fixedCounter{254}
			return e, none
		}, cfg: encCfg{tmpl: mo}, mr: 253, cr: 254},
		{name: "counters given by an option", make: func() (*sms.Encoder, func() string) {
			return sms.NewEncoder(sms.AsSubmit, c04counters{&fixedCounter{40}, &fixedCounter{90}}), none
		}, cfg: encCfg{tmpl: mo}, mr: 40, cr: 90},
		{name: "8-bit header", make: func() (*sms.Encoder, func() string) {
			h, chk := spareUDH(h1)
			t := withh(h)
			t.DCS = 4
			return sms.NewEncoder(sms.WithTemplate(t)), chk
		}, cfg: func() encCfg { t := withh(h1); t.DCS = 4; return encCfg{tmpl: t} }()},
		{name: "deliver, all charsets", make: func() (*sms.Encoder, func() string) {
			return sms.NewEncoder(sms.AsDeliver, sms.From("42"), sms.WithAllCharsets), none
		}, cfg: encCfg{tmpl: tpdu.TPDU{OA: tpdu.Address{TOA: 0x91, Addr: "42"}}, locking: c02all, shift: c02all}},
	}
}()

// c04counters is an option of a user's own.
type c04counters struct{ mr, cr tpdu.Counter }

func (o c04counters) ApplyEncoderOption(e *sms.Encoder) { e.MsgCount, e.ConcatRef = o.mr, o.cr }

func c04sequences(x *X) {
	en := c04encs[x.Choose(len(c04encs))]
	e, chk := en.make()
	mr, cr := counter(en.mr), counter(en.cr)
	n := x.Pick(3, 4)
	h := core.HashStr(en.name)
	type past struct {
		name string
		got  []tpdu.TPDU
		want []tpdu.TPDU
	}
	var all []past
	desc := en.name + ":"
	for i := 0; i < n; i++ {
		k := x.Choose(len(c04calls) + 1)
		if k == 0 {
			break
		}
		c := c04calls[k-1]
		desc += " [" + c.Name + "]"
		h = core.Mix(h*31 + uint64(k))
		cfg := encCfg{cloneT(en.cfg.tmpl), append([]int{}, en.cfg.locking...), append([]int{}, en.cfg.shift...)}
		var eo []sms.EncoderOption
		if c.Opts != nil {
			eo = c.Opts()
			c.Mod(&cfg)
		}
		x.Op()
		got, err := e.Encode(c.Msg, eo...)
		if x.V {
			x.Logf("%s: Encode(%.20q (%d octets)) = %d TPDUs, %v", desc, c.Msg, len(c.Msg), len(got), err)
		}
		want, ok := refEncode(cfg, c.Msg, mr, cr)
		if ok != (err == nil) || !ok && len(got) != 0 {
			x.Failf("%s: %d TPDUs, error %v; want error %v", desc, len(got), err, !ok)
		}
		if d := diffPDUs(got, want); d != "" {
			x.Failf("%s: %s", desc, d)
		}
		all = append(all, past{c.Name, got, want})
	}
	x.State(h)
	for i, p := range all {
		if d := diffPDUs(p.got, p.want); d != "" {
			x.Failf("%s: the result of call %d was altered later: %s", desc, i+1, d)
		}
	}
	if d := chk(); d != "" {
		x.Failf("%s: the template was altered: %s", desc, d)
	}
}

func c04long(x *X) {
	mode := x.Choose(4)
	e := sms.NewEncoder(sms.AsSubmit)
	mr, cr := 0, 0
	switch mode {
	case 0:
		for i := 0; i < 70000; i++ {
			p, err := e.Encode([]byte("x"))
			mr++
			if err != nil || len(p) != 1 || p[0].MR != byte(mr) {
				x.Failf("message %d: %v, %v", i+1, p, err)
			}
			x.Op()
		}
	case 1, 3:
		for i := 0; i < 600; i++ {
			n := 2 + i%3
			if mode == 3 {
				if n = 5 + i; n > 255 {
					break
				}
			}
			p, err := e.Encode(c04rep("abc", 153*n-1))
			if err != nil || len(p) != n {
				x.Failf("message %d: %d TPDUs, %v", i+1, len(p), err)
			}
			cr++
			x.Op()
			for j := range p {
				mr++
				w := tpdu.UserDataHeader{{ID: 0, Data: []byte{byte(cr), byte(n), byte(j + 1)}}}
				if p[j].MR != byte(mr) || !ref.SameUDH(p[j].UDH, w) {
					x.Failf("message %d: part %d has reference %d and header %x; want %d and %x", i+1, j+1, p[j].MR, p[j].UDH, byte(mr), w)
				}
			}
		}
	case 2:
		// 16 bit references straight from the segmentation
		mc, cc := &sms.Counter{}, &sms.Counter{}
		t := tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 1, DCS: 4}
		msg := octets(141)
		for i := 0; i < 66000; i++ {
			p := t.Segment(msg, tpdu.WithMR(mc), tpdu.WithConcatRef(cc), tpdu.With16BitConcatRef)
			x.Op()
			cr++
			for j := range p {
				mr++
				w := tpdu.UserDataHeader{{ID: 8, Data: []byte{byte(cr >> 8), byte(cr), 2, byte(j + 1)}}}
				if len(p) != 2 || p[j].MR != byte(mr) || !ref.SameUDH(p[j].UDH, w) {
					x.Failf("message %d: part %d has reference %d and header %x; want %d and %x", i+1, j+1, p[j].MR, p[j].UDH, byte(mr), w)
				}
			}
		}
		if mc.Read() != mr || cc.Read() != cr {
			x.Failf("counters read %d, %d after %d TPDUs and %d messages", mc.Read(), cc.Read(), mr, cr)
		}
	}
	x.State(uint64(mode))
}
