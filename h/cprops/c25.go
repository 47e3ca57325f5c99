package cprops

import (
	"encoding/hex"
	"fmt"
	"strings"
	"time"

	"verif.local/h/core"
	"verif.local/h/props"
	"verif.local/h/ref"
	"verif.local/h/sched"
	"verif.local/h/touch"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/bcd"
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/gsm7/charset"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/semioctet"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"
)

func init() {
	core.Register("C25",
		schedules("C25", "first use", "from a fresh process, all interleavings of 2 threads: all pairs of the 12 ways to look up, encode or decode with a language, for all 14 languages (and 2 unknown); all triples of two table look-ups and any other", c25first),
		schedules("C25", "languages", "from a fresh process, all interleavings of 2 threads using different languages (all pairs of languages and of look-up, encode and decode), and of 2 threads of 2 uses", c25langs),
		schedules("C25", "general", "from a fresh process, all interleavings of 2 threads (thorough: 3, and 2 of 2 uses): all pairs of 60 uses of the library on shared input: messages, addresses, timestamps, TPDUs of all types, PDU mode, refused input", c25general),
	)
	warm["C25"] = c25alone
}

// A use of the library: the call and what reads its result, then what renders it.
type use struct {
	name string
	f    func() func() string
}

var c25uses []use
var c25want map[string]string

// c25alone notes what each use gives alone in a fresh process.
func c25alone() {
	sched.SaveVars()
	c25want = map[string]string{}
	all := c25list()
	for _, u := range all {
		sched.RestoreVars()
		c25want[u.name] = u.f()()
	}
	sched.RestoreVars()
}

func c25list() (all []use) {
	for n := 0; n <= c25last; n++ {
		all = append(all, c25lang(n)...)
	}
	return append(all, c25gen()...)
}

const c25last = 15 // 14 and 15 are unknown

func c25bytes(b []byte, err error) func() string {
	b = touch.Bytes(b)
	return func() string { return fmt.Sprintf("%x %v", b, err) }
}

func c25pdus(l []tpdu.TPDU, err error) func() string {
	l = touch.TPDUs(l)
	return func() string {
		s := fmt.Sprint(len(l), " TPDUs ", err)
		for i := range l {
			t := &l[i]
			s += fmt.Sprintf("\n%d %x %x %x %x %x %x %x %x %x %x %+v %+v %+v %v %v %v ", t.Direction, byte(t.FirstOctet), t.FCS, t.MR, t.CT, t.MN, t.ST, byte(t.PI), t.PID, byte(t.DCS), []byte(t.UD), t.DA, t.OA, t.RA, t.SCTS, t.DT, t.VP)
			for _, ie := range t.UDH {
				s += fmt.Sprintf("{%d %x}", ie.ID, ie.Data)
			}
		}
		return s
	}
}

// a text in the characters only a language has, and its coding
func c25text(n int) (lock, shift string, lb, sb []byte) {
	def := map[rune]bool{}
	for _, r := range ref.LockTable(0) {
		def[r] = true
	}
	for c, r := range ref.LockTable(n) {
		if r >= 0 && !def[r] && c != 0x1b && len(lb) < 3 {
			lock += string(r)
			lb = append(lb, byte(c))
		}
	}
	if lock == "" {
		lock, lb = "a", []byte{'a'}
	}
	for c := 0; c < 128; c++ {
		r := ref.ShiftTable(n)[c]
		if r >= 0 && !def[r] && c != 0x1b && len(sb) < 4 {
			shift += string(r)
			sb = append(sb, 0x1b, byte(c))
		}
	}
	return
}

func c25lang(n int) []use {
	lock, shift, lb, sb := c25text(n)
	both := lock + shift
	bb := append(append([]byte{}, lb...), sb...)
	enc := func(f func() charset.Encoder) func() func() string {
		return func() func() string {
			k, h := touch.EncTable(f())
			return func() string { return fmt.Sprint(k, " ", h) }
		}
	}
	dec := func(f func() charset.Decoder) func() func() string {
		return func() func() string {
			k, h := touch.DecTable(f())
			return func() string { return fmt.Sprint(k, " ", h) }
		}
	}
	seg := &tpdu.TPDU{FirstOctet: 0x40, UDH: tpdu.UserDataHeader{{ID: 25, Data: []byte{byte(n)}}, {ID: 24, Data: []byte{byte(n)}}}, UD: bb}
	us := []use{
		{"NewEncoder", enc(func() charset.Encoder { return charset.NewEncoder(n) })},
		{"NewDecoder", dec(func() charset.Decoder { return charset.NewDecoder(n) })},
		{"NewExtEncoder", enc(func() charset.Encoder { return charset.NewExtEncoder(n) })},
		{"NewExtDecoder", dec(func() charset.Decoder { return charset.NewExtDecoder(n) })},
		{"gsm7.Encode locking", func() func() string { return c25bytes(gsm7.Encode([]byte(lock), gsm7.WithCharset(n))) }},
		{"gsm7.Encode shift", func() func() string { return c25bytes(gsm7.Encode([]byte(shift), gsm7.WithExtCharset(n))) }},
		{"gsm7.Decode locking", func() func() string { return c25bytes(gsm7.Decode(lb, gsm7.WithCharset(n))) }},
		{"gsm7.Decode shift", func() func() string { return c25bytes(gsm7.Decode(sb, gsm7.WithExtCharset(n), gsm7.Strict)) }},
		{"Encode", func() func() string { return c25pdus(sms.Encode([]byte(both), sms.WithCharset(n))) }},
		{"Decode", func() func() string { return c25bytes(sms.Decode([]*tpdu.TPDU{seg})) }},
		{"EncodeUserData", func() func() string {
			ud, udh, a := tpdu.EncodeUserData([]byte(shift), tpdu.WithLockingCharset(n), tpdu.WithShiftCharset(n))
			ud = touch.Bytes(ud)
			return func() string { return fmt.Sprint(ud, udh, a) }
		}},
		{"DecodeUserData", func() func() string {
			return c25bytes(tpdu.DecodeUserData(bb, seg.UDH, tpdu.Alpha7Bit, tpdu.WithLockingCharset(n), tpdu.WithShiftCharset(n)))
		}},
	}
	for i := range us {
		us[i].name = fmt.Sprintf("%s(%d)", us[i].name, n)
	}
	return us
}

func c25gen() (us []use) {
	add := func(name string, f func() func() string) { us = append(us, use{name, f}) }
	enc := func(name, msg string, o ...sms.EncoderOption) {
		m := []byte(msg)
		add("Encode "+name, func() func() string { return c25pdus(sms.Encode(m, o...)) })
	}
	enc("short", "hello")
	enc("escapes", "[10 €]")
	enc("long", strings.Repeat("long text ", 17))
	enc("unicode", strings.Repeat("日本😀", 30))
	enc("all charsets", "Ãêş", sms.WithAllCharsets)
	enc("8-bit", "\x00\xff8-bit", sms.As8Bit)
	enc("deliver", "from", sms.AsDeliver, sms.From("12345"))
	enc("to", "to", sms.To("+12345"))
	enc("refused", "日", sms.WithTemplateOption(tpdu.DCS(0xf1)))
	dec := func(name string, l ...*tpdu.TPDU) {
		add("Decode "+name, func() func() string { return c25bytes(sms.Decode(l)) })
		add("IsCompleteMessage "+name, func() func() string {
			r := sms.IsCompleteMessage(l)
			return func() string { return fmt.Sprint(r) }
		})
	}
	cc := func(n, i byte) tpdu.UserDataHeader { return tpdu.UserDataHeader{{ID: 0, Data: []byte{1, n, i}}} }
	dec("text", &tpdu.TPDU{UD: []byte("hello\x1b\x65")})
	dec("split surrogate", &tpdu.TPDU{DCS: 8, FirstOctet: 0x40, UDH: cc(2, 1), UD: append(make([]byte, 0, 16), 0, 'a', 0xd8, 0x3d)},
		&tpdu.TPDU{DCS: 8, FirstOctet: 0x40, UDH: cc(2, 2), UD: append(make([]byte, 0, 16), 0xde, 0, 0, 'b')})
	dec("dangling", &tpdu.TPDU{DCS: 8, UD: []byte{0xd8, 0x3d}})
	dec("8-bit", &tpdu.TPDU{DCS: 4, FirstOctet: 0x40, UDH: cc(1, 1), UD: []byte{1, 2}})
	seen := map[string]int{}
	for _, p := range props.Corpus() {
		p := p
		if seen[p.Type.String()]++; seen[p.Type.String()] > 2 {
			continue
		}
		n := fmt.Sprintf("%s %d", p.Type, seen[p.Type.String()])
		add("Unmarshal "+n, func() func() string {
			o := sms.AsMT
			if p.Dir == tpdu.MO {
				o = sms.AsMO
			}
			t, err := sms.Unmarshal(p.B, o)
			return c25pdus(touch.PDU(t), err)
		})
		t := tpdu.TPDU{Direction: p.Dir}
		if err := t.UnmarshalBinary(p.B); err == nil {
			add("MarshalBinary "+n, func() func() string { return c25bytes(t.MarshalBinary()) })
		}
	}
	add("Unmarshal truncated", func() func() string {
		t, err := sms.Unmarshal([]byte{4, 2, 0x91})
		return c25pdus(touch.PDU(t), err)
	})
	an := []byte{0x0b, 0xd0, 0xc8, 0x32, 0x9b, 0xfd, 0x06, 0x00}
	add("Address alphanumeric", func() func() string {
		var a tpdu.Address
		n, err := a.UnmarshalBinary(an)
		return func() string { return fmt.Sprint(a, n, err) }
	})
	add("Address bad", func() func() string {
		var a tpdu.Address
		n, err := a.UnmarshalBinary([]byte{3, 0x91, 0xdf})
		return func() string { return fmt.Sprint(a, n, err) }
	})
	for _, s := range []string{"Hello€", "1234*#a", "\x01"} {
		a := tpdu.Address{TOA: 0xd0, Addr: s}
		if s[0] == '1' {
			a.TOA = 0x91
		}
		add("Address out "+fmt.Sprintf("%q", s), func() func() string { b := a; return c25bytes(b.MarshalBinary()) })
	}
	add("Number", func() func() string {
		a := tpdu.NewAddress(tpdu.FromNumber("+123"))
		n := a.Number()
		return func() string { return fmt.Sprint(a, n) }
	})
	ts := []byte{0x51, 0x50, 0x71, 0x32, 0x20, 0x05, 0x23}
	add("Timestamp in", func() func() string {
		var t tpdu.Timestamp
		err := t.UnmarshalBinary(ts)
		return func() string { return fmt.Sprint(t, err) }
	})
	when := tpdu.Timestamp{Time: time.Date(2020, 2, 3, 4, 5, 6, 0, time.FixedZone("x", -3600))}
	add("Timestamp out", func() func() string { t := when; return c25bytes(t.MarshalBinary()) })
	for i, vp := range []tpdu.ValidityPeriod{{Format: tpdu.VpfRelative, Duration: time.Hour}, {Format: tpdu.VpfAbsolute, Time: when}, {Format: tpdu.VpfEnhanced, Duration: 7 * time.Second, EFI: 2}} {
		vp := vp
		add(fmt.Sprintf("ValidityPeriod %d", i), func() func() string {
			v := vp
			b, err := v.MarshalBinary()
			var u tpdu.ValidityPeriod
			n, err2 := u.UnmarshalBinary(b, vp.Format)
			return func() string { return fmt.Sprint(b, err, u, n, err2) }
		})
	}
	add("ucs2", func() func() string {
		b := touch.Bytes(ucs2.Encode([]rune("a😀")))
		r, err := ucs2.Decode(b)
		r = touch.Runes(r)
		return func() string { return fmt.Sprint(b, r, err) }
	})
	add("packing", func() func() string {
		p := touch.Bytes(gsm7.Pack7Bit([]byte("hello world"), 3))
		u := touch.Bytes(gsm7.Unpack7Bit(p, 3))
		q := touch.Bytes(gsm7.Pack7BitUSSD([]byte("1234567"), 0))
		v := touch.Bytes(gsm7.Unpack7BitUSSD(q, 0))
		return func() string { return fmt.Sprint(p, u, q, v) }
	})
	add("semioctet", func() func() string {
		b, err := semioctet.Encode([]byte("12*#abc"))
		d, n, err2 := semioctet.Decode(make([]byte, 7), touch.Bytes(b))
		d = touch.Bytes(d)
		return func() string { return fmt.Sprint(b, err, d, n, err2) }
	})
	add("bcd", func() func() string {
		a, e1 := bcd.Encode(42)
		b, e2 := bcd.DecodeSigned(0x99)
		_, e3 := bcd.Decode(0xfa)
		return func() string { return fmt.Sprint(a, e1, b, e2, e3) }
	})
	hx := "07911326040000f0040b911346610089f60000208062917314080cc8f71d14969741f977fd07"
	add("pdumode in", func() func() string {
		p, err := pdumode.UnmarshalHexString(hx)
		if err != nil {
			return func() string { return err.Error() }
		}
		t, err := sms.Unmarshal(p.TPDU)
		return c25pdus(touch.PDU(t), err)
	})
	pm := pdumode.PDU{TPDU: []byte{1, 2, 3}}
	pm.SMSC.Addr, pm.SMSC.TOA = "12345", 0x91
	add("pdumode out", func() func() string {
		p := pm
		s, err := p.MarshalHexString()
		return func() string { return fmt.Sprint(s, err) }
	})
	raw, _ := hex.DecodeString(hx)
	add("pdumode binary", func() func() string {
		p, err := pdumode.UnmarshalBinary(raw)
		if err != nil {
			return func() string { return err.Error() }
		}
		return c25bytes(p.TPDU, err)
	})
	add("headers", func() func() string {
		h := cc(2, 1)
		b, err := h.MarshalBinary()
		var g tpdu.UserDataHeader
		n, err2 := g.UnmarshalBinary(touch.Bytes(b))
		s, q, r, ok := g.ConcatInfo()
		return func() string { return fmt.Sprint(b, err, g, n, err2, s, q, r, ok) }
	})
	add("New", func() func() string {
		t, err := tpdu.NewSubmit(tpdu.WithDA(tpdu.Address{TOA: 0x91, Addr: "1"}), tpdu.Dcs8BitData)
		u, err2 := tpdu.NewDeliver(tpdu.WithUDH(cc(2, 2)), tpdu.SmsStatusReport)
		return c25pdus(append(touch.PDU(t), touch.PDU(u)...), fmt.Errorf("%v %v", err, err2))
	})
	add("names", func() func() string {
		d := tpdu.DCS(0x11)
		a, e1 := d.Alphabet()
		c, e2 := d.Class()
		w, e3 := d.WithAlphabet(tpdu.AlphaUCS2)
		s := d.String()
		return func() string { return fmt.Sprint(a, e1, c, e2, w, e3, s) }
	})
	add("Collector", func() func() string {
		c := sms.NewCollector()
		var out []tpdu.TPDU
		var err error
		for i := byte(1); i <= 2; i++ {
			var l []*tpdu.TPDU
			l, err = c.Collect(tpdu.TPDU{FirstOctet: 0x40, OA: tpdu.Address{TOA: 0x91, Addr: "1"}, UDH: cc(2, i), UD: []byte{i}})
			for _, t := range l {
				out = append(out, touch.PDU(t)...)
			}
		}
		c.Close()
		return c25pdus(out, err)
	})
	return
}

// c25scn makes a scenario of some threads.
func c25scn(bound int, threads ...[]use) sched.Scenario {
	var ns []string
	for _, t := range threads {
		var l []string
		for _, u := range t {
			l = append(l, u.name)
		}
		ns = append(ns, strings.Join(l, ", "))
	}
	return sched.Scenario{Name: strings.Join(ns, " | "), Bound: bound, Make: func() *sched.Inst {
		in := &sched.Inst{}
		got := make([][]func() string, len(threads))
		for i, us := range threads {
			i, us := i, us
			l := make([]func() string, len(us))
			in.Threads = append(in.Threads, func(t *sched.Thread) {
				for j, u := range us {
					l[j] = u.f()
				}
				got[i] = l
			})
		}
		var hist []string
		in.Check = func(w *sched.World, o *sched.Outcome) string {
			for i, us := range threads {
				for j, u := range us {
					g, want := got[i][j](), c25want[u.name]
					hist = append(hist, fmt.Sprintf("T%d: %s = %s", i+1, u.name, g))
					if g != want {
						return fmt.Sprintf("%s in thread %d gives %s; alone %s", u.name, i+1, g, want)
					}
				}
			}
			return ""
		}
		in.History = func() []string { return hist }
		in.Hash = func() uint64 { return core.HashStr(hist...) }
		return in
	}}
}

func c25first(tier int) (out []sched.Scenario) {
	for n := 0; n <= c25last; n++ {
		us := c25lang(n)
		for i := range us {
			for j := i; j < len(us); j++ {
				out = append(out, c25scn(-1, us[i:i+1], us[j:j+1]))
			}
		}
		for i := 0; i < 4; i++ {
			for j := i; j < 4; j++ {
				for k := j; k < len(us); k++ {
					out = append(out, c25scn(-1, us[i:i+1], us[j:j+1], us[k:k+1]))
				}
			}
		}
	}
	return
}

func c25langs(tier int) (out []sched.Scenario) {
	var ls [][]use
	for n := 0; n <= c25last; n++ {
		ls = append(ls, c25lang(n))
	}
	kinds := []int{0, 1, 2, 8, 9}
	for a := range ls {
		for b := a + 1; b < len(ls); b++ {
			for _, i := range kinds {
				for _, j := range kinds {
					out = append(out, c25scn(-1, ls[a][i:i+1], ls[b][j:j+1]))
				}
			}
			// crossing uses
			{
				for _, i := range []int{0, 1} {
					for _, j := range []int{0, 1} {
						A, B := ls[a][i], ls[b][j]
						out = append(out, c25scn(-1, []use{A, B}, []use{B, A}))
					}
				}
			}
		}
	}
	return
}

func c25general(tier int) (out []sched.Scenario) {
	us := c25gen()
	for i := range us {
		for j := i; j < len(us); j++ {
			out = append(out, c25scn(pick(tier, 2, 3), us[i:i+1], us[j:j+1]))
			if tier > 0 {
				out = append(out, c25scn(1, []use{us[i], us[j]}, []use{us[j], us[i]}))
				out = append(out, c25scn(1, us[i:i+1], us[j:j+1], us[i:i+1]))
			}
		}
	}
	// the languages come in, too
	for _, n := range []int{1, 3, 13} {
		l := c25lang(n)
		for i := range us {
			for _, k := range []int{8, 9} {
				out = append(out, c25scn(2, us[i:i+1], l[k:k+1]))
			}
		}
	}
	return
}
