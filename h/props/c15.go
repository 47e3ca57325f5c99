package props

import (
	"time"

	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms/encoding/tpdu"
)

func init() {
	core.Register("C15",
		core.Sub{Name: "relative", Bound: "every 30 s (every second thorough) from 0 to 25 h, every 15 min to 64 weeks, each representable period +-{0,1ns,1s,1min}, huge periods, and every minute from 0 to -26 h and further: largest representable not longer, monotone, round trip; as relative and as enhanced relative with all flag bits", Body: c15relative},
		core.Sub{Name: "codes", Bound: "all 256 relative codes decode to the tabulated period and encode back", Body: c15codes},
		core.Sub{Name: "enhanced", Bound: "all 256 enhanced indicators x {every second 0..300, every second around each h/min carry, every 977 s to 101 h, 99:59:59 +-2 s, huge, fractions, every minute from 0 to -26 h}", Body: c15enhanced},
		core.Sub{Name: "octets", Bound: "all formats 0..4,255 x octet strings of every length 0..9 with each octet over all 256 values (others from 4 patterns)", Body: c15octets},
		core.Sub{Name: "setters", Bound: "all sequences of 1..4 setters and unmarshals, good and bad (13 operations): the period is exactly the last set", Body: c15setters},
	)
	core.Assume("C15", "absolute times as in C14")
}

func c15rt(x *X, v tpdu.ValidityPeriod) []byte {
	x.Ops(2)
	want, ok := ref.VP(&v)
	in := v
	got, err := in.MarshalBinary()
	if x.V {
		x.Logf("validity %s %s efi %02x marshals to %x, %v", v.Format, v.Duration, v.EFI, got, err)
	}
	if !ref.SameVP(in, v) {
		x.Failf("marshalling changed the validity period %v to %v", v, in)
	}
	if ok != (err == nil) || ok && !eq(got, want) {
		x.Failf("validity %s %s efi %02x marshals to %x, %v; want %x, %v", v.Format, v.Duration, v.EFI, got, err, want, ok)
	}
	x.State(core.Hash(want, []byte{byte(v.Format)}))
	if !ok {
		return nil
	}
	for _, tr := range [][]byte{nil, {0xff, 0x01}} {
		var back tpdu.ValidityPeriod
		src, changed := guarded(append(append([]byte{}, want...), tr...), 4)
		n, err := back.UnmarshalBinary(src, v.Format)
		if err != nil || n != len(want) || back.Format != v.Format {
			x.Failf("validity octets %x then %x unmarshal with %d octets used, %v; want %d", want, tr, n, err, len(want))
		}
		if m := changed(); m != "" {
			x.Failf("unmarshalling validity period %x: %s", want, m)
		}
		w, _, _ := ref.UnVP(want, v.Format)
		if !ref.SameVP(back, w) {
			x.Failf("validity octets %x unmarshal to %v; want %v", want, back, w)
		}
		if back.Duration > v.Duration && !(want[len(want)-1] == 0 && back.Duration == 5*time.Minute) && v.Format != tpdu.VpfEnhanced {
			x.Failf("validity %s became %s", v.Duration, back.Duration)
		}
	}
	return got
}

func c15relative(x *X) {
	var d time.Duration
	switch x.Choose(5) {
	case 0:
		if x.Thorough() {
			d = time.Duration(x.Choose(25*60)*60+x.Choose(60)) * time.Second
		} else {
			d = time.Duration(x.Choose(25*60)*60+x.Int(0, 30)) * time.Second
		}
	case 1:
		d = time.Duration(x.Choose(64*7*24)*4+x.Choose(4)) * 15 * time.Minute
	case 2:
		d = ref.RelDuration(byte(x.Choose(256))) + []time.Duration{0, -1, 1, -time.Second, time.Second, -time.Minute, time.Minute}[x.Choose(7)]
	case 3:
		d = []time.Duration{0, 1, time.Second, time.Minute, 441*24*time.Hour - 1, 441 * 24 * time.Hour, 448 * 24 * time.Hour, 500 * 24 * time.Hour, 449*24*time.Hour + 1, 20000 * 24 * time.Hour, 1<<63 - 1}[x.Choose(11)]
	case 4:
		d = c15negative(x)
	}
	var v tpdu.ValidityPeriod
	if k := x.Choose(33); k == 0 {
		v.SetRelative(d)
		if !ref.SameVP(v, tpdu.ValidityPeriod{Format: tpdu.VpfRelative, Duration: d}) {
			x.Failf("SetRelative(%s) gives %v", d, v)
		}
	} else {
		efi := byte(k-1)<<3 | 1
		v.SetEnhanced(d, efi)
		if !ref.SameVP(v, tpdu.ValidityPeriod{Format: tpdu.VpfEnhanced, Duration: d, EFI: efi}) {
			x.Failf("SetEnhanced(%s, %02x) gives %v", d, efi, v)
		}
	}
	b := c15rt(x, v)
	c := b[0]
	if v.Format == tpdu.VpfEnhanced {
		c = b[1]
	}
	// the largest not exceeding the request, at least the shortest
	got := ref.RelDuration(c)
	if got > d && c != 0 {
		x.Failf("validity %s was lengthened to %s", d, got)
	}
	if c < 255 && ref.RelDuration(c+1) <= d {
		x.Failf("validity %s was shortened to %s although %s is representable", d, got, ref.RelDuration(c+1))
	}
}

// c15negative: periods already over are carried as the shortest one.
func c15negative(x *X) time.Duration {
	if x.Bool() {
		return -time.Duration(x.Choose(26*60)) * time.Minute
	}
	return []time.Duration{-1, -time.Second, -5 * time.Minute, -10 * time.Minute, -12 * time.Hour, -24 * time.Hour, -1000 * time.Hour, -1 << 63}[x.Choose(8)]
}

func c15codes(x *X) {
	c := byte(x.Choose(256))
	x.Ops(2)
	x.State(uint64(c) + 1)
	var v tpdu.ValidityPeriod
	n, err := v.UnmarshalBinary([]byte{c}, tpdu.VpfRelative)
	if err != nil || n != 1 || v.Duration != ref.RelDuration(c) {
		x.Failf("relative code %d decodes to %s, %d octets, %v; want %s", c, v.Duration, n, err, ref.RelDuration(c))
	}
	b, err := v.MarshalBinary()
	if err != nil || !eq(b, []byte{c}) {
		x.Failf("relative code %d = %s encodes to %x, %v", c, v.Duration, b, err)
	}
	x.Logf("code %d = %s", c, v.Duration)
}

func c15enhanced(x *X) {
	efi := byte(x.Choose(256))
	var d time.Duration
	switch x.Choose(6) {
	case 0:
		d = time.Duration(x.Choose(301)) * time.Second
	case 1:
		d = time.Duration(x.Int(0, 1, 9, 10, 11, 19, 59, 89, 98, 99)*3600+x.Int(0, 1, 9, 10, 58, 59)*60+x.Int(0, 1, 9, 10, 59)) * time.Second
	case 2:
		d = time.Duration(x.Choose(372)*977) * time.Second
	case 3:
		d = 100*time.Hour + time.Duration(x.Range(-3, 3))*time.Second
	case 4:
		d = []time.Duration{1, time.Second - 1, 255*time.Second + 999*time.Millisecond, 255*time.Second + 1, 256 * time.Second, 511 * time.Second, 512 * time.Second, 100*time.Hour - 1, 100*time.Hour + 1, 1000 * time.Hour, 1<<63 - 1}[x.Choose(11)]
	case 5:
		d = c15negative(x)
	}
	var v tpdu.ValidityPeriod
	v.SetEnhanced(d, efi)
	b := c15rt(x, v)
	if b == nil {
		return
	}
	w, _, ok := ref.UnVP(b, tpdu.VpfEnhanced)
	if !ok {
		x.Failf("enhanced %s efi %02x marshals to %x, which does not decode", d, efi, b)
	}
	if efi&7 > 1 && w.Duration > max(d, 0) {
		x.Failf("enhanced validity %s efi %02x was lengthened to %s", d, efi, w.Duration)
	}
	lim := map[byte]time.Duration{2: 255 * time.Second, 3: 100*time.Hour - time.Second}[efi&7]
	if lim != 0 && d >= 0 && d%time.Second == 0 && d <= lim && w.Duration != d {
		x.Failf("enhanced validity %s efi %02x became %s", d, efi, w.Duration)
	}
}

func c15dec(x *X, b []byte, f tpdu.ValidityPeriodFormat) {
	x.Op()
	x.State(core.Hash(b, []byte{byte(f)}))
	src, changed := guarded(b, 8)
	var got tpdu.ValidityPeriod
	n, err := got.UnmarshalBinary(src, f)
	want, wn, ok := ref.UnVP(b, f)
	if x.V {
		x.Logf("validity format %d from %x: %v, %d octets, %v", f, b, got, n, err)
	}
	if m := changed(); m != "" {
		x.Failf("unmarshalling validity period %x: %s", b, m)
	}
	if ok != (err == nil) {
		x.Failf("validity format %d from %x: %v, error %v; want error %v", f, b, got, err, !ok)
	}
	if ok && (n != wn || !ref.SameVP(got, want)) {
		x.Failf("validity format %d from %x: %v, %d octets; want %v, %d", f, b, got, n, want, wn)
	}
}

func c15octets(x *X) {
	f := tpdu.ValidityPeriodFormat(x.Int(0, 1, 2, 3, 4, 255))
	n := x.Choose(10)
	base := [][]byte{{0, 0, 0, 0, 0, 0, 0, 0, 0}, {1, 0x15, 0, 0, 0, 0, 0, 9, 9}, {0x43, 0x21, 0x95, 0x40, 0, 0, 0, 1, 1}, {0x02, 0x21, 0x13, 0x32, 0x95, 0x95, 0x97, 0xff, 0xff}}[x.Choose(4)]
	b := append([]byte{}, base[:n]...)
	if n > 0 {
		b[x.Choose(n)] = byte(x.Choose(256))
	}
	if n > 1 {
		b[x.Choose(n)] ^= byte(x.Int(0, 1, 0x0a, 0x80))
	}
	c15dec(x, b, f)
}

func c15setters(x *X) {
	t1 := tpdu.Timestamp{Time: time.Date(2021, 3, 4, 5, 6, 7, 0, loc(8))}
	var v, w tpdu.ValidityPeriod
	n := 1 + x.Choose(4)
	for i := 0; i < n; i++ {
		k := x.Choose(13)
		valid := true
		un := func(b []byte, f tpdu.ValidityPeriodFormat) {
			x.Logf("UnmarshalBinary(%x, %d)", b, f)
			_, err := v.UnmarshalBinary(b, f)
			var ok bool
			w, _, ok = ref.UnVP(b, f)
			if ok != (err == nil) {
				x.Failf("UnmarshalBinary(%x, %d): %v; want error %v", b, f, err, !ok)
			}
			valid = ok
		}
		x.Op()
		switch k {
		case 0:
			v.SetAbsolute(t1)
			w = tpdu.ValidityPeriod{Format: tpdu.VpfAbsolute, Time: t1}
			x.Logf("SetAbsolute")
		case 1:
			v.SetRelative(90 * time.Minute)
			w = tpdu.ValidityPeriod{Format: tpdu.VpfRelative, Duration: 90 * time.Minute}
			x.Logf("SetRelative")
		case 2:
			v.SetEnhanced(45*time.Second, 2)
			w = tpdu.ValidityPeriod{Format: tpdu.VpfEnhanced, Duration: 45 * time.Second, EFI: 2}
			x.Logf("SetEnhanced seconds")
		case 3:
			v.SetEnhanced(0, 0x40)
			w = tpdu.ValidityPeriod{Format: tpdu.VpfEnhanced, EFI: 0x40}
			x.Logf("SetEnhanced none")
		case 4:
			un([]byte{0x12, 0x21, 0x13, 0x32, 0x95, 0x95, 0x21}, tpdu.VpfAbsolute)
		case 5:
			un([]byte{0xc5}, tpdu.VpfRelative)
		case 6:
			un([]byte{0x83, 0x21, 0x13, 0x32, 0, 0, 0}, tpdu.VpfEnhanced)
		case 7:
			un([]byte{0x02, 0x21, 0, 0, 0, 0, 0}, tpdu.VpfEnhanced)
		case 8:
			un(nil, tpdu.VpfNotPresent)
		case 9:
			un([]byte{0x03, 0xff, 0x13, 0x32, 0, 0, 0}, tpdu.VpfEnhanced)
		case 10:
			un([]byte{0x12, 0x21, 0xb3, 0x32, 0x95, 0x95, 0x21}, tpdu.VpfAbsolute)
		case 11:
			un([]byte{0x01, 0x02}, tpdu.VpfEnhanced)
		case 12:
			un([]byte{0x40, 0, 0, 0, 0, 0, 0}, tpdu.VpfEnhanced)
		}
		x.State(core.HashStr(v.Duration.String(), v.Format.String(), string(rune(v.EFI))))
		if valid && !ref.SameVP(v, w) {
			x.Failf("the validity period is %s %s %s efi %02x; want %s %s %s efi %02x", v.Format, v.Duration, v.Time, v.EFI, w.Format, w.Duration, w.Time, w.EFI)
		}
	}
}
