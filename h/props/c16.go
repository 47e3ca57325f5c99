package props

import (
	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms/encoding/gsm7"
)

func init() {
	core.Register("C16",
		core.Sub{Name: "pack-short", Bound: "all septet strings of length 0..2, and length 3 over all values (thorough) or 48 values (quick), all fills 0-6", Body: packShort},
		core.Sub{Name: "pack-long", Bound: "all lengths 0..330 with: pattern, all-ones, all-zero, each single bit set/cleared at every position; all fills", Body: packLong},
		core.Sub{Name: "unpack-octets", Bound: "all octet strings of length 0..2 (3 thorough), and every single octet value at every position in strings of length 0..24, all fills", Body: unpackOctets},
	)
	core.Register("C17",
		core.Sub{Name: "ussd-short", Bound: "all septet strings of length 0..2 and of length 3 over 24 values, all fills 0-6", Body: ussdShort},
		core.Sub{Name: "ussd-endings", Bound: "lengths 1..34 with all combinations of the last three septets over 13 look-alike values, and all 128^2 last two septets at lengths up to 18, all fills", Body: ussdEndings},
		core.Sub{Name: "ussd-unpack", Bound: "all pairs of last two octets after prefixes of 0..16 octets, all fills: filler recognised exactly by position", Body: ussdUnpack},
	)
}

func checkPack(x *X, s []byte, fill int) {
	x.Ops(2)
	x.State(core.Hash(s, []byte{byte(fill)}))
	in, chk := guarded(s, 4)
	got := gsm7.Pack7Bit(in, fill)
	want := ref.Pack(s, fill)
	x.Logf("Pack7Bit(%x,%d)=%x", s, fill, got)
	if !eq(got, want) {
		x.Failf("Pack7Bit(%x, %d) = %x; want %x", s, fill, got, want)
	}
	if m := chk(); m != "" {
		x.Failf("Pack7Bit(%x, %d) modified its argument: %s", s, fill, m)
	}
	if len(s) == 0 {
		return
	}
	back := gsm7.Unpack7Bit(got, fill)
	w := s
	if spare := len(got)*8 - fill - 7*len(s); spare == 7 {
		w = append(append([]byte(nil), s...), 0)
	}
	x.Logf("Unpack7Bit=%x", back)
	if !eq(back, w) {
		x.Failf("Unpack7Bit(Pack7Bit(%x, %d)) = %x; want %x", s, fill, back, w)
	}
}

func packShort(x *X) {
	n := x.Choose(4)
	s := make([]byte, n)
	vals := 128
	if n == 3 && !x.Thorough() {
		vals = 48
	}
	for i := range s {
		v := x.Choose(vals)
		if vals == 48 {
			v = (v*43 + v/3) & 127
		}
		s[i] = byte(v)
	}
	checkPack(x, s, x.Choose(7))
}

func packLong(x *X) {
	n := x.Choose(331)
	var s []byte
	switch x.Choose(5) {
	case 0:
		s = pattern(n)
	case 1:
		s = rep(0x7f, n)
	case 2:
		s = rep(0, n)
	case 3, 4:
		if n == 0 || n > x.Pick(170, 330) {
			return
		}
		base := byte(0)
		if x.Bool() {
			base = 0x7f
		}
		s = rep(base, n)
		s[x.Choose(n)] ^= 1 << uint(x.Choose(7))
	}
	if n > 90 && len(s) > 0 && !x.Thorough() {
		checkPack(x, s, x.Int(0, 1, 3, 6))
		return
	}
	checkPack(x, s, x.Choose(7))
}

func unpackOctets(x *X) {
	var p []byte
	if x.Bool() {
		n := x.Choose(x.Pick(3, 4))
		for i := 0; i < n; i++ {
			p = append(p, byte(x.Choose(256)))
		}
	} else {
		n := x.Range(1, 24)
		p = octets(n)
		if x.Bool() {
			p = rep(0, n)
		}
		p[x.Choose(n)] = byte(x.Choose(256))
	}
	fill := x.Choose(7)
	in, chk := guarded(p, 4)
	x.Op()
	x.State(core.Hash(p, []byte{byte(fill)}))
	got := gsm7.Unpack7Bit(in, fill)
	want := ref.Unpack(p, fill)
	x.Logf("Unpack7Bit(%x,%d)=%x", p, fill, got)
	if !eq(got, want) {
		x.Failf("Unpack7Bit(%x, %d) = %x; want %x", p, fill, got, want)
	}
	if m := chk(); m != "" {
		x.Failf("Unpack7Bit(%x, %d) modified its argument: %s", p, fill, m)
	}
}

func checkUSSD(x *X, s []byte, fill int) {
	x.Ops(2)
	x.State(core.Hash(s, []byte{byte(fill)}))
	in, chk := guarded(s, 4)
	got := gsm7.Pack7BitUSSD(in, fill)
	want := ref.PackUSSD(s, fill)
	x.Logf("Pack7BitUSSD(%x,%d)=%x", s, fill, got)
	if !eq(got, want) {
		x.Failf("Pack7BitUSSD(%x, %d) = %x; want %x", s, fill, got, want)
	}
	if m := chk(); m != "" {
		x.Failf("Pack7BitUSSD(%x, %d) modified its argument: %s", s, fill, m)
	}
	back := gsm7.Unpack7BitUSSD(got, fill)
	x.Logf("Unpack7BitUSSD=%x", back)
	n := len(s)
	w := s
	if n >= 2 && s[n-1] == 0x0d && s[n-2] == 0x0d && (fill+7*n)%8 == 7 {
		w = s[:n-1] // indistinguishable from the filler for a single CR
	}
	if !eq(back, w) {
		x.Failf("Unpack7BitUSSD(Pack7BitUSSD(%x, %d)) = %x; want %x", s, fill, back, w)
	}
}

var ussdVals = []byte{0, 1, 0x0d, 'x', 0x1a, 0x1b, 0x34, 0x35, 0x06, 0x40, 0x68, 0x7f, 0x50}

func ussdShort(x *X) {
	n := x.Choose(4)
	s := make([]byte, n)
	for i := range s {
		if n < 3 {
			s[i] = byte(x.Choose(128))
		} else {
			v := x.Choose(24)
			if v < len(ussdVals) {
				s[i] = ussdVals[v]
			} else {
				s[i] = byte(v*11) & 0x7f
			}
		}
	}
	checkUSSD(x, s, x.Choose(7))
}

func ussdEndings(x *X) {
	var s []byte
	if x.Bool() {
		n := x.Range(1, 34)
		s = rep('x', n)
		for i := n - 1; i >= 0 && i >= n-3; i-- {
			s[i] = ussdVals[x.Choose(len(ussdVals))]
		}
	} else {
		n := x.Range(2, x.Pick(18, 26))
		s = rep(0x55, n)
		s[n-1] = byte(x.Choose(128))
		s[n-2] = byte(x.Choose(128))
	}
	checkUSSD(x, s, x.Choose(7))
}

func ussdUnpack(x *X) {
	n := x.Choose(17)
	p := append(rep(0x5a, n), byte(x.Choose(256)), byte(x.Choose(256)))
	fill := x.Choose(7)
	if p[len(p)-1] == 0x8d {
		return // a CR with a non-zero pad bit is not something the standard defines
	}
	in, chk := guarded(p, 4)
	x.Op()
	x.State(core.Hash(p, []byte{byte(fill)}))
	got := gsm7.Unpack7BitUSSD(in, fill)
	want := ref.UnpackUSSD(p, fill)
	x.Logf("Unpack7BitUSSD(%x,%d)=%x", p, fill, got)
	if !eq(got, want) {
		x.Failf("Unpack7BitUSSD(%x, %d) = %x; want %x", p, fill, got, want)
	}
	if m := chk(); m != "" {
		x.Failf("Unpack7BitUSSD(%x, %d) modified its argument: %s", p, fill, m)
	}
}
