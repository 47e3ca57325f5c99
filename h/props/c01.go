package props

import (
	"fmt"
	"sync"

	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func init() {
	core.Register("C01",
		core.Sub{Name: "text", Bound: "every character of every table and outsiders x 5 contexts x 17 charset options x submit/deliver, one segment and several", Body: c01text},
		core.Sub{Name: "lengths", Bound: "submit/deliver x default text, escape-heavy text, language text, surrogate-heavy text, 8-bit, UCS-2 x every length 1..330 (1..1100 thorough) and around 2..5, 254..256 segments x in order/reversed", Body: c01lengths},
		core.Sub{Name: "orders", Bound: "every arrival order of one message of 2..7 (9 thorough) segments x 6 kinds", Body: c01orders},
		core.Sub{Name: "interleave", Bound: "every interleaving of the arrivals of two messages of 2+2, 2+3, 3+3, 4+4 (5+5 thorough) segments and three of 2+2+2, 3+2+2, 1+2+3, 3+3+3 (2+3+4 thorough), from one encoder or with colliding references to different peers/types, x kinds, each in every order or reversed", Body: c01interleave},
		core.Sub{Name: "peers", Bound: "two two-part messages with the same reference interleaved, for every ordered pair of 355 peers (numbers differing in each of 20 places, in length, names in case or spacing, every type of address) x submit/deliver", Body: c01peers},
		core.Sub{Name: "astral", Bound: "a character of each of the 1024 high surrogates (with both ends of the low surrogates) at each of 4 places around the first boundary x submit/deliver", Body: c01astral},
		core.Sub{Name: "mixes", Bound: "all texts of 0..4 (5 thorough) characters over 9 kinds (plain, CR, '@', escaped, language, symbol, surrogate pair, replacement character, byte order mark) after 59..67, 145..153 or 0 characters and before 0 or 20 more x submit/deliver x default or all character sets", Body: c01mixes},
		core.Sub{Name: "wrap", Bound: "2000 (20000 thorough) messages of 0..4 extra parts in a row from one encoder into one collector, so that every reference is re-used, in order and shuffled by 3 strides, up to 200 pending at once, x submit/deliver", Body: c01wrap},
		core.Sub{Name: "templates", Bound: "product of template fields (flags, addresses, validity periods, coding schemes, header elements) x 1..3 segments", Body: c01templates},
	)
}

// c01kind makes a message of n units and the options for encoding it.
type c01kind struct {
	name string
	opts []sms.EncoderOption
	make func(n int) []byte
	back func(msg []byte) []byte // the text it decodes to
}

func c01rep(s string) func(n int) []byte {
	rs := []rune(s)
	return func(n int) []byte {
		o := make([]rune, n)
		for i := range o {
			o[i] = rs[i%len(rs)]
		}
		return []byte(string(o))
	}
}

func same(m []byte) []byte { return m }

var c01kinds = []c01kind{
	{"default text", nil, c01rep("The quick @ br$wn\n"), same},
	{"escapes", nil, c01rep("€[a]{}^"), same},
	{"turkish", []sms.EncoderOption{sms.WithAllCharsets}, c01rep("şğİ€xç"), same},
	{"portuguese shift", []sms.EncoderOption{sms.WithShiftCharset(3)}, c01rep("áãabÂ€"), same},
	{"surrogates", nil, c01rep("😀日😁a"), same},
	{"8-bit", []sms.EncoderOption{sms.As8Bit}, octets, same},
	{"UCS-2", []sms.EncoderOption{sms.AsUCS2}, func(n int) []byte {
		var o []byte
		for i := 0; i < n; i++ {
			o = append(o, byte(i%200), byte(i*7))
		}
		return o
	}, func(m []byte) []byte {
		rs, _, _ := ref.DecUTF16(m)
		return []byte(string(rs))
	}},
}

// c01send marshals TPDUs and unmarshals them again, checking each.
func c01send(x *X, pdus []tpdu.TPDU, dir tpdu.Direction, desc string) []*tpdu.TPDU {
	var out []*tpdu.TPDU
	for i := range pdus {
		x.Ops(2)
		b, err := pdus[i].MarshalBinary()
		if err != nil {
			x.Failf("%s: TPDU %d of %d does not marshal: %v (%s)", desc, i+1, len(pdus), err, showT(&pdus[i]))
		}
		if dir == tpdu.MT && len(b) > 1+12+1+1+7+1+140 || dir == tpdu.MO && len(b) > 1+1+12+1+1+7+1+140 {
			x.Failf("%s: TPDU %d of %d is %d octets", desc, i+1, len(pdus), len(b))
		}
		var t *tpdu.TPDU
		if dir == tpdu.MO {
			t, err = sms.Unmarshal(b, sms.AsMO)
		} else {
			t, err = sms.Unmarshal(b)
		}
		if err != nil {
			x.Failf("%s: TPDU %d of %d, %x, does not unmarshal: %v", desc, i+1, len(pdus), b, err)
		}
		out = append(out, t)
	}
	return out
}

// c01deliver collects TPDUs in an order and returns the message completed.
// done is called with the index of the arrival and the parts returned.
func c01collect(x *X, c *sms.Collector, t *tpdu.TPDU, desc string) []*tpdu.TPDU {
	x.Op()
	d, err := c.Collect(*t)
	if err != nil {
		x.Failf("%s: Collect: %v", desc, err)
	}
	return d
}

func c01decode(x *X, d []*tpdu.TPDU, want []byte, desc string) {
	x.Op()
	if !sms.IsCompleteMessage(d) {
		x.Failf("%s: the collected parts are not a complete message", desc)
	}
	got, err := sms.Decode(d)
	if err != nil || !eq(got, want) {
		x.Failf("%s: decoded to %.300q, %v; want %.300q", desc, got, err, want)
	}
}

func c01peer(st tpdu.SmsType, n string) []sms.EncoderOption {
	if st == tpdu.SmsSubmit {
		return []sms.EncoderOption{sms.AsSubmit, sms.To(n)}
	}
	return []sms.EncoderOption{sms.AsDeliver, sms.From(n)}
}

func c01run(x *X, st tpdu.SmsType, opts []sms.EncoderOption, msg, want []byte, order int, desc string) {
	eo := append(c01peer(st, "+61409876543"), opts...)
	x.Op()
	pdus, err := sms.Encode(msg, eo...)
	if err != nil {
		x.Failf("%s: Encode: %v", desc, err)
	}
	if len(pdus) == 0 {
		x.Failf("%s: no TPDUs", desc)
	}
	l := c01send(x, pdus, st.Direction(), desc)
	c := sms.NewCollector()
	for i := range l {
		k := i
		switch order {
		case 1:
			k = len(l) - 1 - i
		case 2: // odd ones first
			k = 2*i + 1
			if k >= len(l) {
				k = 2 * (i - len(l)/2)
			}
		}
		d := c01collect(x, c, l[k], desc)
		if i < len(l)-1 && d != nil {
			x.Failf("%s: a message of %d parts was complete after %d", desc, len(l), i+1)
		}
		if i == len(l)-1 {
			if len(d) != len(l) {
				x.Failf("%s: %d parts returned; want %d", desc, len(d), len(l))
			}
			for j := range d {
				a := d[j].OA
				if st == tpdu.SmsSubmit {
					a = d[j].DA
				}
				if a.TOA != 0x91 || a.Addr != "61409876543" || d[j].SmsType() != st {
					x.Failf("%s: part %d is a %v with address %02x %q", desc, j+1, d[j].SmsType(), a.TOA, a.Addr)
				}
			}
			c01decode(x, d, want, desc)
		}
	}
	if len(c.Pipes()) != 0 {
		x.Failf("%s: parts are left in the collector", desc)
	}
}

var c01types = []tpdu.SmsType{tpdu.SmsSubmit, tpdu.SmsDeliver}

func c01text(x *X) {
	st := c01types[x.Choose(2)]
	var o []sms.EncoderOption
	k := x.Choose(17)
	switch {
	case k == 1:
		o = append(o, sms.WithAllCharsets)
	case k == 2:
		o = append(o, sms.WithLockingCharset(c02all...))
	case k == 3:
		o = append(o, sms.WithShiftCharset(c02all...))
	case k > 3:
		o = append(o, sms.WithCharset(k-3))
	}
	r := allRunes[x.Choose(len(allRunes))]
	var s string
	m := x.Choose(5)
	switch m {
	case 0:
		s = string(r)
	case 1:
		s = "A" + string(r) + "b€" + string(r)
	case 2:
		s = string(c01rep(string(r) + "x")(150))
	case 3:
		s = string(c01rep(string(r))(180))
	case 4:
		s = string(c01rep("ab@" + string(r) + "€")(400))
	}
	x.State(core.HashStr(s, string(rune(k))))
	desc := fmt.Sprintf("%v %.20q (%d characters), charsets %d", st, s, len([]rune(s)), k)
	x.Logf("%s", desc)
	c01run(x, st, o, []byte(s), []byte(s), m%3, desc)
}

func c01astral(x *X) {
	st := c01types[x.Choose(2)]
	r := rune(0x10000 + x.Choose(1024)<<10 + x.Int(0, 0x3ff))
	at := 64 + x.Choose(4)
	s := string(c01rep("日本")(at)) + string(r) + string(c01rep("日本")(70))
	x.State(core.HashStr(s))
	desc := fmt.Sprintf("%v %U after %d characters", st, r, at)
	x.Logf("%s", desc)
	c01run(x, st, nil, []byte(s), []byte(s), 1, desc)
}

func c01lengths(x *X) {
	st := c01types[x.Choose(2)]
	k := c01kinds[x.Choose(len(c01kinds))]
	max := x.Pick(330, 1100)
	i := x.Choose(max + 7*15)
	n := i + 1
	if i >= max {
		// around segment counts
		i -= max
		u := []int{153, 134, 67}[i%3]
		n = u*[]int{2, 3, 4, 5, 254, 255, 100}[i/15] + (i%15)/3*1 - 2
	}
	order := x.Choose(3)
	msg := k.make(n)
	desc := fmt.Sprintf("%v %s of %d", st, k.name, n)
	x.State(core.HashStr(desc))
	x.Logf("%s order %d", desc, order)
	// too long?
	eo := append(c01peer(st, "+61409876543"), k.opts...)
	if n > 15000 || len(msg) > 30000 {
		c := encCfg{tmpl: tpdu.TPDU{Direction: st.Direction(), FirstOctet: tpdu.FirstOctet(st.MTI())}}
		switch k.name {
		case "8-bit":
			c.tmpl.DCS = 4
		case "UCS-2":
			c.tmpl.DCS = 8
		case "turkish":
			c.locking, c.shift = c02all, c02all
		case "portuguese shift":
			c.shift = []int{3}
		}
		_, ok := refEncode(c, msg, counter(0), counter(0))
		p, err := sms.Encode(msg, eo...)
		x.Op()
		if ok != (err == nil) || !ok && len(p) != 0 {
			x.Failf("%s: Encode gives %d TPDUs, %v; want error %v", desc, len(p), err, !ok)
		}
		if !ok {
			return
		}
	}
	c01run(x, st, k.opts, msg, k.back(msg), order, desc)
}

type c01fact struct {
	msg  []byte
	want []byte
	l    []*tpdu.TPDU
}

// c01message encodes a message of exactly parts segments with encoder e.
func c01message(x *X, e *sms.Encoder, k c01kind, parts int, eo []sms.EncoderOption, dir tpdu.Direction) c01fact {
	for n := 20; ; n += 7 {
		msg := k.make(n)
		d, err := sms.NewEncoder(append(append([]sms.EncoderOption{}, eo...), k.opts...)...).Encode(msg)
		if err != nil {
			x.Failf("Encode: %v", err)
		}
		if len(d) > parts {
			panic("no length")
		}
		if len(d) < parts {
			continue
		}
		d, err = e.Encode(msg, append(append([]sms.EncoderOption{}, eo...), k.opts...)...)
		if err != nil {
			x.Failf("Encode: %v", err)
		}
		return c01fact{msg, k.back(msg), c01send(x, d, dir, k.name)}
	}
}

type c01key struct {
	k, parts, st int
}

// cache is what sync.Map is. This package must not use sync.Map itself: it is
// built without the race detector also where the library is built with it, and
// the linker would keep the one uninstrumented copy of sync.Map's code for both.
type cache struct {
	mu sync.RWMutex
	m  map[interface{}]interface{}
}

func (c *cache) Load(k interface{}) (interface{}, bool) {
	c.mu.RLock()
	defer c.mu.RUnlock()
	v, ok := c.m[k]
	return v, ok
}

func (c *cache) Store(k, v interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.m == nil {
		c.m = map[interface{}]interface{}{}
	}
	c.m[k] = v
}

var c01cache cache

func c01one(x *X, k, parts, st int) c01fact {
	if f, ok := c01cache.Load(c01key{k, parts, st}); ok {
		return f.(c01fact)
	}
	f := c01message(x, sms.NewEncoder(), c01kinds[k], parts, c01peer(c01types[st], "+61409876543"), c01types[st].Direction())
	c01cache.Store(c01key{k, parts, st}, f)
	return f
}

func c01orders(x *X) {
	n := x.Range(2, x.Pick(7, 9))
	k := x.Choose(len(c01kinds))
	st := x.Choose(2)
	f := c01one(x, k, n, st)
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	c := sms.NewCollector()
	desc := fmt.Sprintf("%v %s of %d parts, order", c01types[st], c01kinds[k].name, n)
	h := core.HashInts(k, n, st)
	for len(left) > 0 {
		i := x.Choose(len(left))
		p := left[i]
		left = append(left[:i:i], left[i+1:]...)
		desc += fmt.Sprintf(" %d", p+1)
		h = core.Mix(h*31 + uint64(p) + 1)
		d := c01collect(x, c, f.l[p], desc)
		if (d != nil) != (len(left) == 0) {
			x.Failf("%s: %d parts returned with %d to come", desc, len(d), len(left))
		}
		if d != nil {
			c01decode(x, d, f.want, desc)
		}
	}
	x.State(h)
	x.Logf("%s: %q", desc, f.want)
	if len(c.Pipes()) != 0 {
		x.Failf("%s: parts are left in the collector", desc)
	}
}

type c01ikey struct{ mode, kinds, a, b, c int }

func c01interleave(x *X) {
	sizes := [][]int{{2, 2}, {2, 3}, {3, 3}, {2, 2, 2}, {3, 2, 2}, {1, 2, 3}, {3, 3, 3}, {4, 4}, {5, 5}, {2, 3, 4}}[x.Choose(x.Pick(8, 10))]
	mode := x.Choose(4)
	ks := x.Choose(7)
	key := c01ikey{mode, ks, sizes[0], sizes[1], 0}
	if len(sizes) > 2 {
		key.c = sizes[2]
	}
	var msgs []c01fact
	if f, ok := c01cache.Load(key); ok {
		msgs = f.([]c01fact)
	} else {
		e := sms.NewEncoder()
		for i, n := range sizes {
			k := c01kinds[(ks+i)%len(c01kinds)]
			switch mode {
			case 0: // one encoder, one peer
				msgs = append(msgs, c01message(x, e, k, n, c01peer(tpdu.SmsDeliver, "123"), tpdu.MT))
			case 1: // the same reference from different numbers, one the prefix of the other
				msgs = append(msgs, c01message(x, sms.NewEncoder(), k, n, c01peer(tpdu.SmsDeliver, []string{"123", "1234", "12341"}[i]), tpdu.MT))
			case 2: // the same reference and number, other type of TPDU or of number
				if i == 0 {
					msgs = append(msgs, c01message(x, sms.NewEncoder(), k, n, c01peer(tpdu.SmsSubmit, "123"), tpdu.MO))
				} else {
					msgs = append(msgs, c01message(x, sms.NewEncoder(), k, n, []sms.EncoderOption{sms.AsDeliver,
						sms.WithTemplateOption(tpdu.WithOA(tpdu.Address{TOA: []byte{0, 0x91, 0x81}[i], Addr: "123"}))}, tpdu.MT))
				}
			case 3: // one encoder, one peer, submit
				msgs = append(msgs, c01message(x, e, k, n, c01peer(tpdu.SmsSubmit, "*123"), tpdu.MO))
			}
		}
		c01cache.Store(key, msgs)
	}
	if x.Bool() { // reversed parts
		for i := range msgs {
			m := msgs[i]
			var l []*tpdu.TPDU
			for j := len(m.l) - 1; j >= 0; j-- {
				l = append(l, m.l[j])
			}
			m.l = l
			msgs = append(append(append([]c01fact{}, msgs[:i]...), m), msgs[i+1:]...)
		}
	}
	next := make([]int, len(msgs))
	c := sms.NewCollector()
	desc := fmt.Sprintf("%v mode %d kinds %d:", sizes, mode, ks)
	h := core.HashStr(desc)
	for {
		var can []int
		for i := range msgs {
			if next[i] < len(msgs[i].l) {
				can = append(can, i)
			}
		}
		if len(can) == 0 {
			break
		}
		i := can[x.Choose(len(can))]
		desc += fmt.Sprintf(" %d/%d", i+1, next[i]+1)
		h = core.Mix(h*31 + uint64(i) + 1)
		d := c01collect(x, c, msgs[i].l[next[i]], desc)
		next[i]++
		if (d != nil) != (next[i] == len(msgs[i].l)) {
			x.Failf("%s: %d parts returned", desc, len(d))
		}
		if d != nil {
			c01decode(x, d, msgs[i].want, desc)
		}
	}
	x.State(h)
	x.Logf("%s", desc)
	if len(c.Pipes()) != 0 {
		x.Failf("%s: parts are left in the collector", desc)
	}
}

var c01addrs = func() (out []tpdu.Address) {
	for _, a := range PeerAddrs() {
		// what the standard allows: 10 octets of digits or septets
		if n := len([]rune(a.Addr)); n <= 11 || n <= 20 && a.TOA>>4&7 != 5 {
			out = append(out, a)
		}
	}
	return
}()

// c01from gives the two parts of a message of a peer, as received.
func c01from(x *X, st, i int) c01fact {
	key := c01key{-1 - i, 0, st}
	if f, ok := c01cache.Load(key); ok {
		return f.(c01fact)
	}
	a := c01addrs[i]
	o := []sms.EncoderOption{sms.AsSubmit, sms.WithTemplateOption(tpdu.WithDA(a))}
	if st == 1 {
		o = []sms.EncoderOption{sms.AsDeliver, sms.WithTemplateOption(tpdu.WithOA(a))}
	}
	msg := []byte(fmt.Sprintf("%0170d€", i))
	d, err := sms.NewEncoder(o...).Encode(msg)
	if err != nil || len(d) != 2 {
		x.Failf("Encode for %02x %q: %d TPDUs, %v", a.TOA, a.Addr, len(d), err)
	}
	f := c01fact{msg, msg, c01send(x, d, c01types[st].Direction(), fmt.Sprintf("for %02x %q", a.TOA, a.Addr))}
	for _, t := range f.l {
		g := t.DA
		if st == 1 {
			g = t.OA
		}
		if g != a {
			x.Failf("a TPDU for %02x %q arrives with %02x %q", a.TOA, a.Addr, g.TOA, g.Addr)
		}
	}
	c01cache.Store(key, f)
	return f
}

func c01peers(x *X) {
	st := x.Choose(2)
	i, j := x.Choose(len(c01addrs)), x.Choose(len(c01addrs))
	if i == j {
		return
	}
	m := []c01fact{c01from(x, st, i), c01from(x, st, j)}
	desc := fmt.Sprintf("%v for %02x %q and %02x %q", c01types[st], c01addrs[i].TOA, c01addrs[i].Addr, c01addrs[j].TOA, c01addrs[j].Addr)
	x.State(core.HashInts(st, i, j))
	x.Logf("%s", desc)
	c := sms.NewCollector()
	for n, s := range []struct{ m, p int }{{0, 0}, {1, 1}, {0, 1}, {1, 0}} {
		d := c01collect(x, c, m[s.m].l[s.p], desc)
		if (d != nil) != (n >= 2) {
			x.Failf("%s: %d parts returned on arrival %d", desc, len(d), n+1)
		}
		if d != nil {
			c01decode(x, d, m[s.m].want, desc)
		}
	}
	if len(c.Pipes()) != 0 {
		x.Failf("%s: parts are left in the collector", desc)
	}
}

func c01templates(x *X) {
	st := c01types[x.Choose(2)]
	t := pickFields(x, st)
	for _, ie := range t.UDH {
		if ie.ID == 0 || ie.ID == 8 || ie.ID == 24 || ie.ID == 25 {
			return
		}
	}
	t.UD = nil
	a := ref.Alpha(byte(t.DCS))
	n := []int{3, 200, 400}[x.Choose(3)]
	var msg []byte
	want := msg
	switch a {
	case 1:
		msg = octets(n)
		want = msg
	case 2:
		msg = c01kinds[6].make(n)
		want = c01kinds[6].back(msg)
	default:
		msg = c01rep("t€xt")(n)
		want = msg
	}
	desc := showT(&t)
	x.State(core.HashStr(desc, string(msg)))
	x.Ops(2)
	e := sms.NewEncoder(sms.WithTemplate(t))
	pdus, err := e.Encode(msg)
	if err != nil {
		x.Failf("Encode of %d octets with %s: %v", len(msg), desc, err)
	}
	l := c01send(x, pdus, st.Direction(), desc)
	c := sms.NewCollector()
	for i := range l {
		w := cloneT(t)
		w.UD, w.UDH, w.MR = l[i].UD, l[i].UDH, l[i].MR
		w.FirstOctet |= l[i].FirstOctet & 0x40
		w.PI, l[i].PI = 0, 0
		if st == tpdu.SmsSubmit && l[i].MR != byte(i+1) {
			x.Failf("%s: message reference %d of TPDU %d", desc, l[i].MR, i+1)
		}
		if d := ref.DiffTPDU(l[i], &w); d != "" {
			x.Failf("Encode of %d octets with %s: %s of TPDU %d differs: %s", len(msg), desc, d, i+1, showT(l[i]))
		}
		h := cloneUDH(t.UDH)
		if len(l) > 1 {
			h = append(h, tpdu.InformationElement{ID: 0, Data: []byte{1, byte(len(l)), byte(i + 1)}})
		}
		if !ref.SameUDH(h, l[i].UDH) {
			x.Failf("Encode of %d octets with %s: header of TPDU %d: %x", len(msg), desc, i+1, l[i].UDH)
		}
		d := c01collect(x, c, l[i], desc)
		if (d != nil) != (i == len(l)-1) {
			x.Failf("%s: %d parts returned after part %d", desc, len(d), i+1)
		}
		if d != nil {
			c01decode(x, d, want, desc)
		}
	}
}

var c01mix = []string{"a", "\r", "@", "€", "ş", "日", "😀", "\ufffd", "\ufeff"}

func c01mixes(x *X) {
	st := c01types[x.Choose(2)]
	all := x.Bool()
	pre := x.Choose(19)
	switch {
	case pre == 0:
	case pre < 10:
		pre += 58
	default:
		pre += 135
	}
	post := 20 * x.Choose(2)
	n := x.Choose(x.Pick(5, 6))
	s := string(rep('x', pre))
	for i := 0; i < n; i++ {
		s += c01mix[x.Choose(len(c01mix))]
	}
	s += string(rep('y', post))
	if s == "" {
		return
	}
	x.State(core.HashStr(s))
	var o []sms.EncoderOption
	if all {
		o = append(o, sms.WithAllCharsets)
	}
	desc := fmt.Sprintf("%v %q, all character sets %v", st, s, all)
	x.Logf("%s", desc)
	c01run(x, st, o, []byte(s), []byte(s), 1, desc)
}

// c01wrap sends many messages; the parts of some wait while others pass.
func c01wrap(x *X) {
	st := c01types[x.Choose(2)]
	stride := []int{1, 7, 61}[x.Choose(3)]
	extra := x.Choose(5)
	total := x.Pick(2000, 20000)
	e := sms.NewEncoder(c01peer(st, "+61409876543")...)
	c := sms.NewCollector()
	type wait struct {
		msg []byte
		l   []*tpdu.TPDU
	}
	mk := func(i int) wait {
		msg := []byte(fmt.Sprintf("message %d of many %s", i, rep('.', 133+150*extra+i%20)))
		d, err := e.Encode(msg)
		x.Op()
		if err != nil {
			x.Failf("Encode of message %d: %v", i, err)
		}
		return wait{msg, c01send(x, d, st.Direction(), "message")}
	}
	take := func(w wait, from, to int) {
		for k := from; k < to && k < len(w.l); k++ {
			d := c01collect(x, c, w.l[k], string(w.msg[:24]))
			if (d != nil) != (k == len(w.l)-1) {
				x.Failf("%.24s: %d parts returned after part %d of %d", w.msg, len(d), k+1, len(w.l))
			}
			if d != nil {
				c01decode(x, d, w.msg, string(w.msg[:24]))
			}
		}
	}
	// the first part of each, and the rest after up to 200 others
	var q []wait
	for i := 0; i < total; i++ {
		w := mk(i)
		take(w, 0, 1)
		if len(w.l) > 1 {
			q = append(q, w)
		}
		if len(q) >= 200 || i == total-1 {
			for len(q) > 0 {
				k := stride % len(q)
				take(q[k], 1, len(q[k].l))
				q = append(q[:k:k], q[k+1:]...)
			}
		}
	}
	x.State(core.HashInts(int(st), stride, extra))
	if len(c.Pipes()) != 0 {
		x.Failf("parts are left in the collector")
	}
}
