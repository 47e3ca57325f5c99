package props

import (
	"math"

	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms/encoding/bcd"
	"github.com/warthog618/sms/encoding/semioctet"
)

func init() {
	core.Register("C24",
		core.Sub{Name: "bcd-octets", Bound: "all 256 octets, signed and unsigned decode and re-encode", Body: bcdOctets},
		core.Sub{Name: "bcd-ints", Bound: "all integers -70000..70000 and +-2^k+-1, signed and unsigned encode", Body: bcdInts},
		core.Sub{Name: "semi-encode", Bound: "all strings over the 15 digits up to length 4 (5 thorough); every octet value at every position of strings of length 1..8; lengths 0..300", Body: semiEncode},
		core.Sub{Name: "semi-decode", Bound: "all octet strings of length 0..2, and of length 3..4 over 6 (quick) nibble values, with all destination lengths up to two more than the digits", Body: semiDecode},
	)
}

func bcdOctets(x *X) {
	b := byte(x.Choose(256))
	signed := x.Bool()
	x.Ops(2)
	x.State(core.HashInts(int(b), int(b2i(signed))))
	if !signed {
		v, err := bcd.Decode(b)
		w, ok := ref.UnBCD(b)
		x.Logf("Decode(%02x)=%d,%v want %d,%v", b, v, err, w, ok)
		if (err == nil) != ok || ok && v != w {
			x.Failf("bcd.Decode(%02x) = %d, %v; want %d, ok=%v", b, v, err, w, ok)
		}
		if ok {
			if e, err := bcd.Encode(v); err != nil || e != b {
				x.Failf("bcd.Encode(%d) = %02x, %v; want %02x", v, e, err, b)
			}
		}
		return
	}
	v, err := bcd.DecodeSigned(b)
	w, ok := ref.UnBCD(b &^ 8)
	if b&8 != 0 {
		w = -w
	}
	x.Logf("DecodeSigned(%02x)=%d,%v want %d,%v", b, v, err, w, ok)
	if (err == nil) != ok || ok && v != w {
		x.Failf("bcd.DecodeSigned(%02x) = %d, %v; want %d, ok=%v", b, v, err, w, ok)
	}
	if ok && w != 0 {
		if e, err := bcd.EncodeSigned(v); err != nil || e != b {
			x.Failf("bcd.EncodeSigned(%d) = %02x, %v; want %02x", v, e, err, b)
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func bcdInts(x *X) {
	var v int
	switch x.Choose(2) {
	case 0:
		v = x.Choose(140001) - 70000
	case 1:
		k := uint(x.Choose(63))
		v = 1<<k + x.Choose(5) - 2
		if x.Bool() {
			v = -v
		}
		if k == 62 && x.Bool() {
			v = x.Int(math.MaxInt, math.MinInt, math.MinInt+1)
		}
	}
	x.Ops(2)
	x.State(core.HashInts(v))
	e, err := bcd.Encode(v)
	x.Logf("Encode(%d)=%02x,%v", v, e, err)
	if ok := v >= 0 && v <= 99; (err == nil) != ok || ok && e != ref.BCD(v) {
		x.Failf("bcd.Encode(%d) = %02x, %v", v, e, err)
	}
	if err == nil {
		if d, err := bcd.Decode(e); err != nil || d != v {
			x.Failf("bcd.Decode(bcd.Encode(%d)) = %d, %v", v, d, err)
		}
	}
	e, err = bcd.EncodeSigned(v)
	x.Logf("EncodeSigned(%d)=%02x,%v", v, e, err)
	ok := v >= -79 && v <= 79
	var w byte
	if ok {
		if v < 0 {
			w = ref.BCD(-v) | 8
		} else {
			w = ref.BCD(v)
		}
	}
	if (err == nil) != ok || ok && e != w {
		x.Failf("bcd.EncodeSigned(%d) = %02x, %v; want %02x ok=%v", v, e, err, w, ok)
	}
	if err == nil {
		if d, err := bcd.DecodeSigned(e); err != nil || d != v {
			x.Failf("bcd.DecodeSigned(bcd.EncodeSigned(%d)) = %d, %v", v, d, err)
		}
	}
}

func semiEncode(x *X) {
	var s []byte
	switch x.Choose(3) {
	case 0:
		n := x.Choose(x.Pick(5, 6))
		for i := 0; i < n; i++ {
			s = append(s, "0123456789*#abc"[x.Choose(15)])
		}
	case 1:
		n := x.Range(1, 8)
		s = []byte(digits(n))
		s[x.Choose(n)] = byte(x.Choose(256))
		if n > 1 && x.Bool() {
			s[n-1] = byte(x.Choose(256))
		}
	case 2:
		s = []byte(digits(x.Choose(301)))
	}
	in, check := guarded(s, 4)
	x.Op()
	x.State(core.Hash(s))
	got, err := semioctet.Encode(in)
	want, ok := ref.SemiEnc(string(s))
	x.Logf("Encode(%q)=%x,%v", s, got, err)
	if (err == nil) != ok || ok && !eq(got, want) {
		x.Failf("semioctet.Encode(%q) = %x, %v; want %x, ok=%v", s, got, err, want, ok)
	}
	if m := check(); m != "" {
		x.Failf("semioctet.Encode(%q) modified its argument: %s", s, m)
	}
	if !ok {
		return
	}
	x.Op()
	back, n, err := semioctet.Decode(make([]byte, len(s)), got)
	if err != nil || string(back) != string(s) || n != len(got) {
		x.Failf("semioctet.Decode(Encode(%q)) = %q, %d, %v", s, back, n, err)
	}
}

func semiDecode(x *X) {
	var src []byte
	nib := []byte{0, 9, 10, 14, 15, 5}
	n := x.Choose(5)
	for i := 0; i < n; i++ {
		if n <= 2 {
			src = append(src, byte(x.Choose(256)))
		} else {
			k := x.Pick(4, 6)
			if n == 3 {
				k = 6
			}
			src = append(src, nib[len(nib)-k:][x.Choose(k)]|nib[len(nib)-k:][x.Choose(k)]<<4)
		}
	}
	l := x.Choose(2*n + 3)
	in, check := guarded(src, 3)
	dst, dcheck := guarded(make([]byte, l), 4)
	x.Op()
	x.State(core.Hash(src, []byte{byte(l)}))
	got, used, err := semioctet.Decode(dst, in)
	want, wused, ok := ref.SemiDec(l, src)
	x.Logf("Decode(len %d, %x)=%q,%d,%v", l, src, got, used, err)
	if (err == nil) != ok || ok && (string(got) != want || used != wused) {
		x.Failf("semioctet.Decode(len %d, %x) = %q, %d, %v; want %q, %d, ok=%v", l, src, got, used, err, want, wused, ok)
	}
	if m := check(); m != "" {
		x.Failf("semioctet.Decode(%d, %x) modified its source: %s", l, src, m)
	}
	// only the destination itself may have been written
	save := append([]byte(nil), dst...)
	for i := range dst {
		dst[i] = 0
	}
	if m := dcheck(); m != "" {
		x.Failf("semioctet.Decode(len %d, %x) wrote outside its destination: %s", l, src, m)
	}
	_ = save
}
