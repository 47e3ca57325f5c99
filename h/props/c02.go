package props

import (
	"fmt"
	"sync"

	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func init() {
	core.Register("C02",
		core.Sub{Name: "options", Bound: "all lists of 0..3 options from 16 (default, all, charset, locking, shift with 0..3 languages incl. unknown ones) x 1..2 (3 thorough) characters from 40 representatives: tables chosen, user data, labels, decoding by label", Body: c02options},
		core.Sub{Name: "characters", Bound: "every character of every table and outsiders, alone and among others, x all single-language options and all 13: tables chosen, user data, labels, decoding by label", Body: c02chars},
		core.Sub{Name: "identifiers", Bound: "every identifier -300..1100 and those within 14 of multiples of 256, 4096, 65536, 2^31 and 2^32 x locking/shift/both options, alone and after a known one x texts of 4 languages: an identifier that is no language enables nothing", Body: c02ids},
		core.Sub{Name: "scalars", Bound: "every Unicode scalar value (1,112,064) after a letter x no option, all languages, one language (thorough: each language): tables chosen, user data, decoding by label", Body: c02scalars},
		core.Sub{Name: "pairs", Bound: "for every ordered pair of languages, every text of 1..2 characters that tells their tables apart x locking/shift/both options: tables chosen", Body: c02pairs},
		core.Sub{Name: "dcs", Bound: "all 256 template coding schemes x texts needing 7-bit, language tables or UCS-2 x single or several segments: labels of the TPDUs or refusal", Body: c02dcs},
	)
}

type c02opt struct {
	name           string
	e              sms.EncoderOption
	u              tpdu.UDEncodeOption
	locking, shift []int
}

var c02all = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}

func c02cs(n ...int) c02opt {
	return c02opt{fmt.Sprintf("WithCharset%v", n), sms.WithCharset(n...), tpdu.WithCharset(n...), n, n}
}
func c02lock(n ...int) c02opt {
	return c02opt{fmt.Sprintf("WithLockingCharset%v", n), sms.WithLockingCharset(n...), tpdu.WithLockingCharset(n...), n, nil}
}
func c02shift(n ...int) c02opt {
	return c02opt{fmt.Sprintf("WithShiftCharset%v", n), sms.WithShiftCharset(n...), tpdu.WithShiftCharset(n...), nil, n}
}

var c02opts = []c02opt{
	{"WithDefaultCharset", sms.WithDefaultCharset, tpdu.CharsetOption{}, nil, nil},
	{"WithAllCharsets", sms.WithAllCharsets, tpdu.WithAllCharsets, c02all, c02all},
	c02cs(1), c02cs(3), c02cs(2), c02cs(13), c02cs(4, 6), c02cs(3, 1, 2), c02cs(0, 14, 99, -1), c02cs(5),
	c02lock(3), c02lock(1), c02lock(6, 4),
	c02shift(1), c02shift(3), c02shift(4, 2),
}

// c02check compares both encoders with the model for one text.
func c02check(x *X, msg string, opts []c02opt) {
	rs := []rune(msg)
	var locking, shift []int
	var eo []sms.EncoderOption
	var uo []tpdu.UDEncodeOption
	desc := ""
	for _, o := range opts {
		locking = append(locking, o.locking...)
		shift = append(shift, o.shift...)
		eo = append(eo, o.e)
		uo = append(uo, o.u)
		desc += " " + o.name
	}
	x.State(core.HashStr(msg, desc))
	x.Ops(2)
	wud, wudh, walpha := refUserData(rs, locking, shift)
	ud, udh, alpha := tpdu.EncodeUserData([]byte(msg), uo...)
	if x.V {
		x.Logf("EncodeUserData(%q,%s) = %x, header %x, alphabet %v", msg, desc, ud, udh, alpha)
	}
	if int(alpha) != walpha || !ref.SameUDH(udh, wudh) || !eq(ud, wud) {
		x.Failf("EncodeUserData(%q,%s) = %x, header %x, alphabet %v; want %x, header %x, alphabet %d", msg, desc, ud, udh, alpha, wud, wudh, walpha)
	}
	pdus, err := sms.Encode([]byte(msg), eo...)
	want, _ := refEncode(encCfg{tmpl: tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 1}, locking: locking, shift: shift}, []byte(msg), counter(0), counter(0))
	if err != nil {
		x.Failf("Encode(%q,%s): %v", msg, desc, err)
	}
	if d := diffPDUs(pdus, want); d != "" {
		x.Failf("Encode(%q,%s): %s", msg, desc, d)
	}
	c02label(x, msg, pdus)
}

// c02label decodes TPDUs by their labels only.
func c02label(x *X, msg string, pdus []tpdu.TPDU) {
	var l []*tpdu.TPDU
	for i := range pdus {
		l = append(l, &pdus[i])
	}
	x.Op()
	got, err := sms.Decode(l)
	if err != nil || string(got) != msg {
		x.Failf("Encode(%q) gives %s, which decodes to %q, %v", msg, showT(l[0]), got, err)
	}
	if m, ok := c27decodeRef(l, c27all, c27all); !ok || string(m) != msg {
		x.Failf("Encode(%q) gives %s, which means %q", msg, showT(l[0]), m)
	}
}

func c02options(x *X) {
	n := x.Choose(4)
	var o []c02opt
	for i := 0; i < n; i++ {
		o = append(o, c02opts[x.Choose(len(c02opts))])
	}
	c := repRunes
	m := 1
	if n < 3 {
		m = 2
	}
	if x.Thorough() {
		m = 2
		if n < 2 {
			m = 3
		}
	}
	var rs []rune
	for i := 0; i < m; i++ {
		k := x.Choose(len(c) + 1)
		if k == 0 {
			break
		}
		rs = append(rs, c[k-1])
	}
	if len(rs) == 0 {
		return
	}
	c02check(x, string(rs), o)
}

func c02ids(x *X) {
	n := 0
	if x.Bool() {
		n = x.Range(-300, 1100)
	} else {
		n = x.Int(-1<<32, -1<<31, -65536, -4096, 4096, 65536, 65536*256, 1<<31, 1<<32, 1<<40) + x.Range(-14, 14)
	}
	o := []c02opt{[]func(...int) c02opt{c02cs, c02lock, c02shift}[x.Choose(3)](n)}
	if x.Bool() {
		o = append([]c02opt{c02cs(7)}, o...)
	}
	c02check(x, []string{"x", "\u015f\u0131", "\u00c3\u00ea", "\u00c1\u00cd", "\u062a\u060f"}[x.Choose(5)], o)
}

func c02chars(x *X) {
	var o []c02opt
	switch k := x.Choose(42); {
	case k == 0:
	case k == 1:
		o = []c02opt{c02opts[1]}
	case k == 2:
		o = []c02opt{c02cs(13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1)}
	case k < 16:
		o = []c02opt{c02cs(k - 2)}
	case k < 29:
		o = []c02opt{c02lock(k - 15)}
	default:
		o = []c02opt{c02shift(k - 28)}
	}
	r := allRunes[x.Choose(len(allRunes))]
	var s string
	switch x.Choose(5) {
	case 0:
		s = string(r)
	case 1:
		s = "A" + string(r) + "b"
	case 2:
		s = string(r) + "€" + string(r)
	case 3:
		s = "*" + string(r) + "ç"
	case 4:
		s = "[" + string(r)
	}
	c02check(x, s, o)
}

var c02pairOnce sync.Once
var c02pairTexts [14][14][]string

// texts that some table choice among two languages can hold and others not.
func c02prepare() {
	for a := 1; a <= 13; a++ {
		for b := 1; b <= 13; b++ {
			seen := map[[8]bool]bool{}
			add := func(rs ...rune) {
				var k [8]bool
				for i, p := range [][2]int{{0, 0}, {a, 0}, {b, 0}, {0, a}, {0, b}, {a, a}, {b, b}, {a, b}} {
					_, k[i] = ref.EncText(rs, p[0], p[1])
				}
				if !seen[k] {
					seen[k] = true
					c02pairTexts[a][b] = append(c02pairTexts[a][b], string(rs))
				}
			}
			var cs []rune
			for _, t := range []*ref.Table{ref.LockTable(a), ref.LockTable(b), ref.ShiftTable(a), ref.ShiftTable(b)} {
				one := map[[8]bool]bool{}
				for _, r := range t {
					if r < 0 || r == 0x1b {
						continue
					}
					var k [8]bool
					for i, p := range [][2]int{{0, 0}, {a, 0}, {b, 0}, {0, a}, {0, b}, {a, a}, {b, b}, {a, b}} {
						_, k[i] = ref.EncText([]rune{r}, p[0], p[1])
					}
					if !one[k] {
						one[k] = true
						cs = append(cs, r)
					}
				}
			}
			for _, r := range cs {
				add(r)
			}
			for _, r := range cs {
				for _, q := range cs {
					add(r, q)
				}
			}
		}
	}
}

func c02pairs(x *X) {
	c02pairOnce.Do(c02prepare)
	a, b := 1+x.Choose(13), 1+x.Choose(13)
	ts := c02pairTexts[a][b]
	t := ts[x.Choose(len(ts))]
	var o []c02opt
	switch x.Choose(9) {
	case 0:
		o = []c02opt{c02cs(a, b)}
	case 1:
		o = []c02opt{c02cs(a), c02cs(b)}
	case 2:
		o = []c02opt{c02lock(a, b), c02shift(b, a)}
	case 3:
		o = []c02opt{c02shift(a, b)}
	case 4:
		o = []c02opt{c02lock(a, b)}
	case 5:
		o = []c02opt{c02lock(a), c02shift(b)}
	case 6:
		o = []c02opt{c02shift(a), c02lock(b, a)}
	case 7:
		o = []c02opt{c02cs(a), c02lock(b)}
	case 8:
		o = []c02opt{c02cs(a), c02opts[1], c02shift(b)}
	}
	c02check(x, t, o)
}

func c02dcs(x *X) {
	d := byte(x.Choose(256))
	texts := []string{"plain text", "€{}", "ğüş", "Şekil", "日本", "😀!", "ação", "\u0915"}
	msg := texts[x.Choose(len(texts))]
	if x.Bool() {
		for len([]rune(msg)) < 200 {
			msg += msg
		}
	}
	var eo []sms.EncoderOption
	st := []tpdu.SmsType{tpdu.SmsSubmit, tpdu.SmsDeliver}[x.Choose(2)]
	c := encCfg{tmpl: tpdu.TPDU{Direction: st.Direction(), FirstOctet: tpdu.FirstOctet(st.MTI())}}
	eo = append(eo, sms.WithTemplateOption(st), sms.WithTemplateOption(tpdu.DCS(d)))
	if x.Bool() {
		eo = append(eo, sms.WithCharset(1, 3, 6))
		c.locking, c.shift = []int{1, 3, 6}, []int{1, 3, 6}
	}
	c.tmpl.DCS = tpdu.DCS(d)
	x.State(core.HashStr(string(rune(d)), msg))
	x.Op()
	want, ok := refEncode(c, []byte(msg), counter(0), counter(0))
	if a := ref.Alpha(d); a == 1 || a == 2 {
		return // not text
	}
	got, err := sms.Encode([]byte(msg), eo...)
	x.Logf("Encode(%.20q, DCS %02x): %d TPDUs, %v", msg, d, len(got), err)
	if ok != (err == nil) {
		x.Failf("Encode(%.20q, %d octets, DCS %02x): error %v; want error %v", msg, len(msg), d, err, !ok)
	}
	if !ok {
		if len(got) != 0 {
			x.Failf("Encode(%.20q, DCS %02x): TPDUs together with error %v", msg, d, err)
		}
		return
	}
	if d>>4 == 15 { // bit 3 is reserved
		for i := range want {
			want[i].DCS &^= 8
		}
		got = append([]tpdu.TPDU(nil), got...)
		for i := range got {
			got[i].DCS &^= 8
		}
	}
	if e := diffPDUs(got, want); e != "" {
		x.Failf("Encode(%.20q, DCS %02x): %s", msg, d, e)
	}
	c02label(x, msg, got)
}

func c02scalars(x *X) {
	hi := rune(x.Choose(0x110000 >> 8))
	k := x.Choose(x.Pick(3, 15))
	var o []tpdu.UDEncodeOption
	var l []int
	desc := "no option"
	switch {
	case k == 1:
		o, l, desc = []tpdu.UDEncodeOption{tpdu.WithAllCharsets}, c02all, "all languages"
	case k > 1:
		n := k - 1
		if k == 2 && !x.Thorough() {
			n = 13
		}
		o, l, desc = []tpdu.UDEncodeOption{tpdu.WithCharset(n)}, []int{n}, fmt.Sprint("language ", n)
	}
	x.State(core.HashStr(string(hi), desc))
	for lo := rune(0); lo < 256; lo++ {
		r := hi<<8 | lo
		if r >= 0xd800 && r <= 0xdfff {
			continue
		}
		rs := []rune{'A', r}
		msg := string(rs)
		x.Ops(2)
		ud, udh, alpha := tpdu.EncodeUserData([]byte(msg), o...)
		wud, wudh, walpha := refUserData(rs, l, l)
		if x.V {
			x.Logf("EncodeUserData(%q, %s) = %x, header %x, alphabet %v", msg, desc, ud, udh, alpha)
		}
		if int(alpha) != walpha || !ref.SameUDH(udh, wudh) || !eq(ud, wud) {
			x.Failf("EncodeUserData(%q, %s) = %x, header %x, alphabet %v; want %x, header %x, alphabet %d", msg, desc, ud, udh, alpha, wud, wudh, walpha)
		}
		if got, err := tpdu.DecodeUserData(ud, udh, alpha, tpdu.WithAllCharsets); err != nil || string(got) != msg {
			x.Failf("EncodeUserData(%q, %s) = %x, header %x, alphabet %v, which decodes to %q, %v", msg, desc, ud, udh, alpha, got, err)
		}
	}
}
