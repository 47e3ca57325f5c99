package props

import (
	"sort"

	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/gsm7/charset"
)

func init() {
	core.Register("C19",
		core.Sub{Name: "decode-short", Bound: "all septet strings of length 0..2 over all 128 septets and 0x80,0x9b,0xff, x all 15 locking x 15 shift tables and none, x strict/lenient", Body: c19dec2},
		core.Sub{Name: "decode-3", Bound: "all strings of length 3 (4 thorough) over {ESC, CR, 0x0a, 'a', 0x40, 0x65, 0x7f, undefined..} x all table pairs x strict/lenient", Body: c19dec3},
		core.Sub{Name: "encode", Bound: "every character of every table, all control characters, and outsiders, alone and between others, x all 15 x 15 table pairs and none; encode, exact septets, decode back", Body: c19enc},
		core.Sub{Name: "scalars", Bound: "every Unicode scalar value (1,112,064) between two letters x the locking and shift tables of every language (same language, and each with the default of the other kind)", Body: c19scalars},
		core.Sub{Name: "encode-pairs", Bound: "all pairs of 40 representative characters x all table pairs", Body: c19encPairs},
		core.Sub{Name: "builders", Bound: "the method forms (WithCharset/WithExtCharset/Strict on Encoder and Decoder) agree with the option forms for all table pairs x one-character texts", Body: c19builders},
	)
}

var allRunes []rune

func init() {
	m := map[rune]bool{}
	for n := 0; n < 14; n++ {
		for _, r := range ref.Locking[n] {
			if r >= 0 {
				m[r] = true
			}
		}
		for _, r := range ref.Shift[n] {
			if r >= 0 {
				m[r] = true
			}
		}
	}
	for r := rune(0); r < 0x100; r++ {
		m[r] = true
	}
	for _, r := range []rune{0x100, 0x3b1, 0x416, 0x2019, 0x20ab, 0xfffd, 0xffff, 0x1f600, 0x10ffff, 0x0b84, 0xfeff} {
		m[r] = true
	}
	for r := range m {
		allRunes = append(allRunes, r)
	}
	sort.Slice(allRunes, func(i, j int) bool { return allRunes[i] < allRunes[j] })
}

func c19opts(lock, shift int, strict bool) []gsm7.DecoderOption {
	var o []gsm7.DecoderOption
	if lock != 0 {
		o = append(o, gsm7.WithCharset(lock))
	}
	if shift == ref.None {
		o = append(o, gsm7.WithoutExtCharset)
	} else if shift != 0 {
		o = append(o, gsm7.WithExtCharset(shift))
	}
	if strict {
		o = append(o, gsm7.Strict)
	}
	return o
}

func c19eopts(lock, shift int) []gsm7.EncoderOption {
	var o []gsm7.EncoderOption
	if lock != 0 {
		o = append(o, gsm7.WithCharset(lock))
	}
	if shift != 0 {
		o = append(o, gsm7.WithExtCharset(shift))
	}
	return o
}

func chooseShift(x *X) int {
	if s := x.Choose(16); s < 15 {
		return s
	}
	return ref.None
}

func c19checkDec(x *X, s []byte, lock, shift int, strict bool) {
	x.Op()
	got, err := gsm7.Decode(s, c19opts(lock, shift, strict)...)
	want, ok := ref.DecText(s, lock, shift, strict)
	if x.V {
		x.Logf("Decode(%x, locking %d, shift %d, strict %v) = %q, %v", s, lock, shift, strict, got, err)
	}
	if ok != (err == nil) {
		x.Failf("Decode(%x, locking %d, shift %d, strict %v): error %v; want error %v", s, lock, shift, strict, err, !ok)
	}
	if ok && string(got) != string(want) {
		x.Failf("Decode(%x, locking %d, shift %d, strict %v) = %q; want %q", s, lock, shift, strict, got, string(want))
	}
}

func c19septet(x *X) byte {
	k := x.Choose(131)
	if k < 128 {
		return byte(k)
	}
	return []byte{0x80, 0x9b, 0xff}[k-128]
}

func c19dec2(x *X) {
	lock := x.Choose(15)
	shift := chooseShift(x)
	strict := x.Bool()
	n := x.Choose(3)
	s := make([]byte, n)
	for i := range s {
		s[i] = c19septet(x)
	}
	x.State(core.Hash(s, []byte{byte(lock), byte(shift)}))
	c19checkDec(x, s, lock, shift, strict)
}

func c19dec3(x *X) {
	lock := x.Choose(15)
	shift := chooseShift(x)
	strict := x.Bool()
	al := []byte{0x1b, 'a', 0x0d, 0x0a, 0x40, 0x65, 0x7f, 0x14, 0x20, 0x0b, 0x53}
	n := x.Pick(3, 5)
	if n > 3 {
		n = x.Range(3, 5)
	}
	if n == 5 {
		al = al[:6]
	}
	s := make([]byte, n)
	for i := range s {
		s[i] = al[x.Choose(len(al))]
	}
	x.State(core.Hash(s, []byte{byte(lock), byte(shift)}))
	c19checkDec(x, s, lock, shift, strict)
}

func c19checkEnc(x *X, rs []rune, lock, shift int) {
	x.Op()
	var got []byte
	var err error
	if shift == ref.None {
		e := gsm7.NewEncoder(c19eopts(lock, 0)...).WithExtCharset(nil)
		got, err = e.Encode([]byte(string(rs)))
	} else {
		got, err = gsm7.Encode([]byte(string(rs)), c19eopts(lock, shift)...)
	}
	want, ok := ref.EncText(rs, lock, shift)
	if x.V {
		x.Logf("Encode(%q, locking %d, shift %d) = %x, %v", string(rs), lock, shift, got, err)
	}
	if ok != (err == nil) {
		x.Failf("Encode(%q, locking %d, shift %d): error %v; want error %v", string(rs), lock, shift, err, !ok)
	}
	if !ok {
		return
	}
	if !eq(got, want) {
		x.Failf("Encode(%q, locking %d, shift %d) = %x; want %x", string(rs), lock, shift, got, want)
	}
	x.Op()
	back, err := gsm7.Decode(got, c19opts(lock, shift, true)...)
	if err != nil || string(back) != string(rs) {
		x.Failf("Encode(%q, locking %d, shift %d) = %x, which decodes to %q, %v", string(rs), lock, shift, got, back, err)
	}
}

func c19enc(x *X) {
	lock := x.Choose(15)
	shift := chooseShift(x)
	r := allRunes[x.Choose(len(allRunes))]
	var rs []rune
	switch x.Choose(4) {
	case 0:
		rs = []rune{r}
	case 1:
		rs = []rune{'A', r, 'B'}
	case 2:
		rs = []rune{r, '€', r}
	case 3:
		rs = []rune{' ', ' ', ' ', ' ', ' ', ' ', ' ', r, r}
	}
	x.State(core.HashStr(string(rs), string(rune(lock)), string(rune(shift+100))))
	c19checkEnc(x, rs, lock, shift)
}

var repRunes = []rune{'a', 'Z', '0', ' ', '@', 0, '\n', '\r', '\f', 0x1b, '€', '^', '{', '|', '~', '\\', 'ç', 'Ç', 'Ğ', 'ı', 'á', 'ã', 'Φ', 'ê', '∞', 'ª',
	0x0995, 0x0a95, 0x0915, 0x0c95, 0x0d15, 0x0b15, 0x0a15, 0x0b95, 0x0c15, 0x0627, 0x0966, '*', '¡', 0x1f600}

func c19encPairs(x *X) {
	lock := x.Choose(15)
	shift := chooseShift(x)
	rs := []rune{repRunes[x.Choose(len(repRunes))], repRunes[x.Choose(len(repRunes))]}
	if x.Thorough() && x.Bool() {
		rs = append(rs, repRunes[x.Choose(len(repRunes))])
	}
	x.State(core.HashStr(string(rs), string(rune(lock)), string(rune(shift+100))))
	c19checkEnc(x, rs, lock, shift)
}

func c19builders(x *X) {
	lock, shift := x.Choose(15), x.Choose(15)
	strict := x.Bool()
	s := []byte{byte(x.Choose(128))}
	if x.Bool() {
		s = append([]byte{0x1b}, s...)
	}
	x.State(core.Hash(s, []byte{byte(lock), byte(shift)}))
	x.Ops(2)
	d := gsm7.NewDecoder().WithCharset(charset.NewDecoder(lock)).WithExtCharset(charset.NewExtDecoder(shift))
	if strict {
		d = d.Strict()
	}
	got, err := d.Decode(s)
	want, ok := ref.DecText(s, lock, shift, strict)
	if x.V {
		x.Logf("Decoder(%d,%d,%v).Decode(%x) = %q, %v", lock, shift, strict, s, got, err)
	}
	if ok != (err == nil) || ok && string(got) != string(want) {
		x.Failf("Decoder.WithCharset(%d).WithExtCharset(%d) strict=%v: Decode(%x) = %q, %v; want %q, error %v", lock, shift, strict, s, got, err, string(want), !ok)
	}
	if !ok {
		return
	}
	e := gsm7.NewEncoder().WithCharset(charset.NewEncoder(lock)).WithExtCharset(charset.NewExtEncoder(shift))
	enc, err := e.Encode([]byte(string(want)))
	we, wok := ref.EncText(want, lock, shift)
	if wok != (err == nil) || wok && !eq(enc, we) {
		x.Failf("Encoder.WithCharset(%d).WithExtCharset(%d): Encode(%q) = %x, %v; want %x, error %v", lock, shift, string(want), enc, err, we, !wok)
	}
}

func c19scalars(x *X) {
	hi := rune(x.Choose(0x110000 >> 8))
	n := x.Choose(14)
	for lo := rune(0); lo < 256; lo++ {
		r := hi<<8 | lo
		if r >= 0xd800 && r <= 0xdfff {
			continue
		}
		rs := []rune{'A', r, 'b'}
		c19checkEnc(x, rs, n, n)
		if n > 0 && hi < 0x30 {
			c19checkEnc(x, rs, 0, n)
			c19checkEnc(x, rs, n, 0)
		}
	}
	x.State(core.HashStr(string(hi), string(rune(n))))
}
