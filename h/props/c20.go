package props

import (
	"errors"

	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"
)

func init() {
	core.Register("C20",
		core.Sub{Name: "scalars", Bound: "every Unicode scalar value (1,112,064), alone, doubled and beside a one-unit and a two-unit neighbour on either side: exact UTF-16BE and back", Body: c20scalar},
		core.Sub{Name: "strings", Bound: "all strings of 0..4 (5 thorough) of 16 representative scalars (around every UTF-16 boundary, the byte order marks): exact octets, decode back", Body: c20strings},
		core.Sub{Name: "units", Bound: "all sequences of 0..5 (6 thorough) UTF-16 units of 15 (paired and unpaired surrogates included), whole and with an odd octet: same text or error as the reference", Body: c20units},
		core.Sub{Name: "splits", Bound: "all sequences of 0..4 (5 thorough) of 9 units x every way to split them between segments at even offsets (empty segments between them and at the ends included): decodes as the whole", Body: c20splits},
	)
}

var c20runes = []rune{0, 'a', 0x20ac, 0x7f, 0x80, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x103ff, 0x10400, 0x1f600, 0x10ffff}

var c20unit = []uint16{0x0041, 0xd800, 0xdc00, 0xdbff, 0xdfff, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x0000, 0xd83d, 0xde00, 0xd8dc, 0xfeff, 0xfffe}

func c20scalar(x *X) {
	// two choices keep the tree balanced for the workers
	hi := x.Choose(0x110000 >> 8)
	r := rune(hi<<8 | x.Choose(256))
	if r >= 0xd800 && r <= 0xdfff {
		return
	}
	for _, rs := range [][]rune{{r}, {r, 'a'}, {'a', r}, {r, r}, {'a', r, 'a'}, {0x1f600, r}, {r, 0x1f600}} {
		c20rt(x, rs)
	}
}

func c20rt(x *X, rs []rune) {
	x.Ops(2)
	want := ref.EncUTF16(rs)
	x.State(core.Hash(want))
	in := append([]rune(nil), rs...)
	got := ucs2.Encode(in)
	x.Logf("Encode(%x) = %x", rs, got)
	if !eq(got, want) {
		x.Failf("Encode(%x) = %x; want %x", rs, got, want)
	}
	src, changed := guarded(want, 4)
	back, err := ucs2.Decode(src)
	if err != nil || string(back) != string(rs) {
		x.Failf("Decode(%x) = %x, %v; want %x", want, back, err, rs)
	}
	if m := changed(); m != "" {
		x.Failf("Decode(%x): %s", want, m)
	}
}

func c20strings(x *X) {
	n := x.Choose(x.Pick(5, 6))
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = c20runes[x.Choose(len(c20runes))]
	}
	c20rt(x, rs)
}

func c20seq(x *X, n, alpha int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		u := c20unit[x.Choose(alpha)]
		b = append(b, byte(u>>8), byte(u))
	}
	return b
}

func c20units(x *X) {
	b := c20seq(x, x.Choose(x.Pick(6, 7)), len(c20unit))
	if len(b) < 10 && x.Bool() {
		b = append(b, byte(x.Int(0, 0x41, 0xd8, 0xdc)))
	}
	x.Op()
	x.State(core.Hash(b))
	src, changed := guarded(b, 4)
	got, err := ucs2.Decode(src)
	if m := changed(); m != "" {
		x.Failf("Decode(%x): %s", b, m)
	}
	want, dangling, odd := ref.DecUTF16(b)
	x.Logf("Decode(%x) = %x, %v", b, got, err)
	var ds ucs2.ErrDanglingSurrogate
	switch {
	case odd:
		if err != ucs2.ErrInvalidLength {
			x.Failf("Decode(%x) = %x, %v; want the length refused", b, got, err)
		}
	case dangling:
		if !errors.As(err, &ds) {
			x.Failf("Decode(%x) = %x, %v; want a dangling surrogate error", b, got, err)
		}
		if !eq(ds, b[len(b)-2:]) {
			x.Failf("Decode(%x): the error names %x as the dangling surrogate", b, []byte(ds))
		}
	case err != nil || string(got) != string(want) || len(got) != len(want):
		x.Failf("Decode(%x) = %x, %v; want %x", b, got, err, want)
	}
}

func c20splits(x *X) {
	n := x.Choose(x.Pick(5, 6))
	b := c20seq(x, n, 9)
	// cut[i] says whether there is a cut before unit i; also at both ends
	var segs []*tpdu.TPDU
	var parts [][]byte
	cur := []byte{}
	flush := func() {
		parts = append(parts, cur)
		segs = append(segs, &tpdu.TPDU{DCS: tpdu.DcsUCS2Data, UD: append([]byte(nil), cur...)})
		cur = []byte{}
	}
	for i := 0; i < n; i++ {
		// no cut, a cut, or a cut with an empty segment between
		for k := x.Choose(3); k > 0; k-- {
			flush()
		}
		cur = append(cur, b[2*i:2*i+2]...)
	}
	flush()
	if x.Bool() {
		flush()
	}
	x.Ops(len(segs))
	x.State(core.HashStr(string(b), string(rune(len(parts)))))
	got, err := sms.Decode(segs)
	want, dangling, _ := ref.DecUTF16(b)
	x.Logf("Decode(%x) = %q, %v", parts, got, err)
	if dangling {
		if err == nil {
			x.Failf("Decode(segments %x) = %q; want a dangling surrogate error", parts, got)
		}
		if got != nil {
			x.Failf("Decode(segments %x) = %q together with error %v", parts, got, err)
		}
		return
	}
	if err != nil || string(got) != string(want) {
		x.Failf("Decode(segments %x) = %q, %v; want %q", parts, got, err, string(want))
	}
}
