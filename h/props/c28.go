package props

import (
	"fmt"
	"time"

	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func init() {
	core.Register("C28",
		core.Sub{Name: "setters", Bound: "all sequences of 0..4 (5 thorough) of 25 setters from 4 starting TPDUs (all first octet bits set or clear): every field, flag and indicator against a model", Body: c28setters},
		core.Sub{Name: "options", Bound: "New, NewSubmit, NewDeliver with all sequences of 0..3 (4 thorough) of 23 options, invalid types included", Body: c28options},
		core.Sub{Name: "encoder-options", Bound: "sms.Encode and NewEncoder(...).Encode with all sequences of 0..4 of 15 options split between construction and call: template fields of the result", Body: c28encoder},
		core.Sub{Name: "bits", Bound: "every bit accessor and With* of the first octet for all 256 values x all message types and validity formats 0..3 and outside; all 256 parameter indicators; names of all types, and the codes of all named values", Body: c28bits},
		core.Sub{Name: "values", Bound: "all 256 first octets x 4 parameter indicators x each setter and option with every value: 256 coding schemes, protocols, type numbers -300..300, all user data lengths 0..160, 7 validity formats", Body: c28values},
	)
}

type c28op struct {
	name string
	do   func(t *tpdu.TPDU) error
	mod  func(t *tpdu.TPDU) bool // the model; false: refused
}

func c28setUDH(h tpdu.UserDataHeader) (func(t *tpdu.TPDU), func(t *tpdu.TPDU)) {
	return func(t *tpdu.TPDU) { t.SetUDH(cloneUDH(h)) }, func(t *tpdu.TPDU) {
		t.UDH = h
		if h != nil {
			t.FirstOctet |= 0x40
			t.PI |= 4
		} else {
			t.FirstOctet &^= 0x40
		}
	}
}

func c28common() (ops []c28op) {
	add := func(name string, do, mod func(t *tpdu.TPDU)) {
		ops = append(ops, c28op{name, func(t *tpdu.TPDU) error { do(t); return nil }, func(t *tpdu.TPDU) bool { mod(t); return true }})
	}
	for _, v := range []byte{0, 8, 0xf5} {
		v := v
		add(fmt.Sprintf("SetDCS(%02x)", v), func(t *tpdu.TPDU) { t.SetDCS(v) }, func(t *tpdu.TPDU) { t.DCS = tpdu.DCS(v); t.PI |= 2 })
	}
	for _, v := range []byte{0, 0x7f} {
		v := v
		add(fmt.Sprintf("SetPID(%02x)", v), func(t *tpdu.TPDU) { t.SetPID(v) }, func(t *tpdu.TPDU) { t.PID = v; t.PI |= 1 })
	}
	for _, v := range []tpdu.UserData{nil, {}, {1, 2}} {
		v := v
		add(fmt.Sprintf("SetUD(%v)", []byte(v)), func(t *tpdu.TPDU) { t.SetUD(v) }, func(t *tpdu.TPDU) {
			t.UD = v
			t.PI &^= 4
			if v != nil {
				t.PI |= 4
			}
		})
	}
	for _, h := range []tpdu.UserDataHeader{nil, {}, tUDHs[1], tUDHs[3]} {
		d, m := c28setUDH(h)
		add(fmt.Sprintf("SetUDH(%#v)", h), d, m)
	}
	for _, v := range tVPs {
		v := v
		add(fmt.Sprintf("SetVP(%s)", v.Format), func(t *tpdu.TPDU) { t.SetVP(v) }, func(t *tpdu.TPDU) {
			t.VP = v
			t.FirstOctet = t.FirstOctet&^0x18 | tpdu.FirstOctet(v.Format)<<3
		})
	}
	for _, st := range []tpdu.SmsType{0, 1, 2, 3, 4, 5, -1, 6, 7, 256} {
		st := st
		ops = append(ops, c28op{fmt.Sprintf("SetSmsType(%d)", st), func(t *tpdu.TPDU) error { return t.SetSmsType(st) }, c28type(st)})
	}
	return
}

// c28type models setting the type: deliver 0 MT, deliver report 0 MO, submit
// report 1 MT, submit 1 MO, status report 2 MT, command 2 MO.
func c28type(st tpdu.SmsType) func(t *tpdu.TPDU) bool {
	return func(t *tpdu.TPDU) bool {
		if st < 0 || st > 5 {
			return false
		}
		dir := []tpdu.Direction{tpdu.MT, tpdu.MO, tpdu.MT, tpdu.MO, tpdu.MT, tpdu.MO}[st]
		mti := []byte{0, 0, 1, 1, 2, 2}[st]
		t.Direction = dir
		t.FirstOctet = t.FirstOctet&^3 | tpdu.FirstOctet(mti)
		return true
	}
}

func c28check(x *X, t, w *tpdu.TPDU) {
	if d := ref.DiffTPDU(t, w); d != "" {
		x.Failf("the TPDU is %s; want %s (%s differs)", showT(t), showT(w), d)
	}
	fo := byte(w.FirstOctet)
	wst := tpdu.SmsType(-1)
	for _, st := range smsTypes {
		if st.Direction() == w.Direction && byte(st.MTI()) == fo&3 {
			wst = st
		}
	}
	if wst >= 0 && t.SmsType() != wst {
		x.Failf("SmsType is %s; want %s", t.SmsType(), wst)
	}
	if byte(t.MTI()) != fo&3 || t.UDHI() != (fo&0x40 != 0) || byte(t.FirstOctet.VPF()) != fo>>3&3 {
		x.Failf("first octet %02x: MTI %d, UDHI %v, VPF %d", fo, t.MTI(), t.UDHI(), t.FirstOctet.VPF())
	}
	x.State(core.HashStr(showT(w)))
	x.Ops(4)
}

func c28setters(x *X) {
	ops := c28common()
	t := tpdu.TPDU{}
	switch x.Choose(4) {
	case 1:
		t.FirstOctet = 0xff &^ 0x58
	case 2:
		t.FirstOctet = 0xff &^ 0x18
		t.UDH = tUDHs[2]
		t.PI = 0xff
	case 3:
		t.SetVP(tVPs[3])
		t.FirstOctet |= 0x24
		t.Direction = tpdu.MO
	}
	w := cloneT(t)
	for n := x.Pick(3, 4); n > 0; n-- {
		k := x.Choose(1 + len(ops))
		if k == 0 {
			break
		}
		o := ops[k-1]
		err := o.do(&t)
		ok := o.mod(&w)
		x.Op()
		if x.V {
			x.Logf("%s (%v): %s", o.name, err, showT(&t))
		}
		if ok != (err == nil) {
			x.Failf("%s: error %v; want error %v", o.name, err, !ok)
		}
		c28check(x, &t, &w)
	}
}

type c28opt struct {
	name string
	o    tpdu.Option
	mod  func(t *tpdu.TPDU) bool
}

func c28opts() (l []c28opt) {
	add := func(name string, o tpdu.Option, mod func(t *tpdu.TPDU)) {
		l = append(l, c28opt{name, o, func(t *tpdu.TPDU) bool { mod(t); return true }})
	}
	a := tAddrs[0]
	b := tAddrs[2]
	add("WithDA(a)", tpdu.WithDA(a), func(t *tpdu.TPDU) { t.DA = a })
	add("WithDA(b)", tpdu.WithDA(b), func(t *tpdu.TPDU) { t.DA = b })
	add("WithOA(a)", tpdu.WithOA(a), func(t *tpdu.TPDU) { t.OA = a })
	add("WithOA(b)", tpdu.WithOA(b), func(t *tpdu.TPDU) { t.OA = b })
	for _, h := range []tpdu.UserDataHeader{nil, {}, tUDHs[1], tUDHs[3]} {
		_, m := c28setUDH(h)
		add(fmt.Sprintf("WithUDH(%#v)", h), tpdu.WithUDH(cloneUDH(h)), m)
	}
	for _, v := range []tpdu.DCS{0, 4, 8, 0xf5} {
		v := v
		add(fmt.Sprintf("DCS(%02x)", byte(v)), v, func(t *tpdu.TPDU) { t.DCS = v; t.PI |= 2 })
	}
	for _, v := range []tpdu.Direction{tpdu.MO, tpdu.MT} {
		v := v
		add(fmt.Sprintf("Direction(%d)", v), v, func(t *tpdu.TPDU) { t.Direction = v })
	}
	for _, v := range []tpdu.MessageType{0, 1, 2} {
		v := v
		add(fmt.Sprintf("MessageType(%d)", v), v, func(t *tpdu.TPDU) { t.FirstOctet = t.FirstOctet&^3 | tpdu.FirstOctet(v) })
	}
	for _, st := range []tpdu.SmsType{0, 1, 2, 3, 4, 5, -1, 6} {
		l = append(l, c28opt{fmt.Sprintf("SmsType(%d)", st), st, c28type(st)})
	}
	return
}

func c28options(x *X) {
	opts := c28opts()
	w := tpdu.TPDU{}
	w.OA.TOA, w.DA.TOA, w.RA.TOA = 0x80, 0x80, 0x80
	kind := x.Choose(3)
	switch kind {
	case 1:
		c28type(tpdu.SmsSubmit)(&w)
	case 2:
		c28type(tpdu.SmsDeliver)(&w)
	}
	var o []tpdu.Option
	var names []string
	ok := true
	for n := x.Pick(3, 4); n > 0; n-- {
		k := x.Choose(1 + len(opts))
		if k == 0 {
			break
		}
		o = append(o, opts[k-1].o)
		names = append(names, opts[k-1].name)
		if ok {
			ok = opts[k-1].mod(&w)
		}
	}
	o = o[:len(o):len(o)]
	var t *tpdu.TPDU
	var err error
	switch kind {
	case 0:
		t, err = tpdu.New(o...)
	case 1:
		t, err = tpdu.NewSubmit(o...)
	case 2:
		t, err = tpdu.NewDeliver(o...)
	}
	x.Op()
	x.Logf("constructor %d %v: %v", kind, names, err)
	if ok != (err == nil) || ok != (t != nil) {
		x.Failf("constructor %d with %v: %v, %v; want error %v", kind, names, t, err, !ok)
	}
	if ok {
		c28check(x, t, &w)
	}
}

func c28encoder(x *X) {
	type eo struct {
		name string
		o    sms.EncoderOption
		mod  func(t *tpdu.TPDU)
	}
	tm := tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 0xa5, PID: 9, MR: 7}
	tm.DA = tAddrs[1]
	tm.SetVP(tVPs[1])
	no := tpdu.Address{TOA: 0x91, Addr: "123"}
	type f = func(t *tpdu.TPDU)
	l := []eo{
		{"AsSubmit", sms.AsSubmit, f(func(t *tpdu.TPDU) { c28type(tpdu.SmsSubmit)(t) })},
		{"AsDeliver", sms.AsDeliver, f(func(t *tpdu.TPDU) { c28type(tpdu.SmsDeliver)(t) })},
		{"To(+123)", sms.To("+123"), func(t *tpdu.TPDU) { t.DA = no }},
		{"To(45)", sms.To("45"), func(t *tpdu.TPDU) { t.DA = tpdu.Address{TOA: 0x91, Addr: "45"} }},
		{"From(123)", sms.From("123"), func(t *tpdu.TPDU) { t.OA = no }},
		{"As8Bit", sms.As8Bit, func(t *tpdu.TPDU) { t.DCS = 4; t.PI |= 2 }},
		{"AsUCS2", sms.AsUCS2, func(t *tpdu.TPDU) { t.DCS = 8; t.PI |= 2 }},
		{"WithTemplate", sms.WithTemplate(tm), func(t *tpdu.TPDU) { *t = cloneT(tm) }},
		{"WithTemplate of a flagged empty header", sms.WithTemplate(tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 0x41}), func(t *tpdu.TPDU) { *t = tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 0x41} }},
		{"WithTemplateOption(DCS f1)", sms.WithTemplateOption(tpdu.DCS(0xf1)), func(t *tpdu.TPDU) { t.DCS = 0xf1; t.PI |= 2 }},
		{"WithTemplateOption(UDH)", sms.WithTemplateOption(tpdu.WithUDH(tUDHs[4][:1])), func(t *tpdu.TPDU) { t.UDH = cloneUDH(tUDHs[4][:1]); t.FirstOctet |= 0x40; t.PI |= 4 }},
		{"WithTemplateOption(OA)", sms.WithTemplateOption(tpdu.WithOA(tAddrs[2])), func(t *tpdu.TPDU) { t.OA = tAddrs[2] }},
		{"WithAllCharsets", sms.WithAllCharsets, func(t *tpdu.TPDU) {}},
		{"With16BitConcatRef", nil, func(t *tpdu.TPDU) {}},
		{"DCS 0", sms.WithTemplateOption(tpdu.DCS(0)), func(t *tpdu.TPDU) { t.DCS = 0; t.PI |= 2 }},
	}
	var w tpdu.TPDU
	n := x.Choose(5)
	var o []sms.EncoderOption
	var names []string
	apply := x.Choose(n + 2) // options given at construction; n+1: the package function
	if apply == n+1 {
		c28type(tpdu.SmsSubmit)(&w)
	}
	for i := 0; i < n; i++ {
		e := l[x.Choose(len(l))]
		names = append(names, e.name)
		if e.o != nil {
			o = append(o, e.o)
		} else {
			o = append(o, sms.WithTemplateOption(tpdu.DCS(byte(w.DCS))))
			w.PI |= 2
		}
		e.mod(&w)
	}
	msg := []byte("hi")
	x.Ops(2)
	var got []tpdu.TPDU
	var err error
	mr := byte(1)
	if apply == n+1 {
		got, err = sms.Encode(msg, o...)
	} else {
		e := sms.NewEncoder(o[:apply]...)
		got, err = e.Encode(msg, o[apply:]...)
	}
	if x.V {
		x.Logf("options %v (%d at construction): %v", names, apply, err)
	}
	if err != nil || len(got) != 1 {
		x.Failf("options %v (%d at construction): %d TPDUs, %v", names, apply, len(got), err)
	}
	w.MR = mr
	w.UD = tpdu.UserData(msg)
	if w.DCS == 8 {
		w.UD = tpdu.UserData(msg)
	}
	got[0].PI &= 3 // whether user data is indicated is not part of these types
	w.PI &= 3
	c28check(x, &got[0], &w)
}

var c28codes = []struct {
	name      string
	got, want int
}{
	{"FoMTIMask", int(tpdu.FoMTIMask), 3}, {"FoMTIShift", int(tpdu.FoMTIShift), 0}, {"FoMMS", int(tpdu.FoMMS), 4}, {"FoRD", int(tpdu.FoRD), 4}, {"FoLP", int(tpdu.FoLP), 8},
	{"FoVPFMask", int(tpdu.FoVPFMask), 0x18}, {"FoVPFShift", int(tpdu.FoVPFShift), 3}, {"FoSRI", int(tpdu.FoSRI), 0x20}, {"FoSRR", int(tpdu.FoSRR), 0x20},
	{"FoSRQ", int(tpdu.FoSRQ), 0x20}, {"FoUDHI", int(tpdu.FoUDHI), 0x40}, {"FoRP", int(tpdu.FoRP), 0x80},
	{"MT", int(tpdu.MT), 0}, {"MO", int(tpdu.MO), 1},
	{"MtDeliver", int(tpdu.MtDeliver), 0}, {"MtSubmit", int(tpdu.MtSubmit), 1}, {"MtCommand", int(tpdu.MtCommand), 2}, {"MtReserved", int(tpdu.MtReserved), 3},
	{"VpfNotPresent", int(tpdu.VpfNotPresent), 0}, {"VpfEnhanced", int(tpdu.VpfEnhanced), 1}, {"VpfRelative", int(tpdu.VpfRelative), 2}, {"VpfAbsolute", int(tpdu.VpfAbsolute), 3},
	{"EvpfNotPresent", int(tpdu.EvpfNotPresent), 0}, {"EvpfRelative", int(tpdu.EvpfRelative), 1}, {"EvpfRelativeSeconds", int(tpdu.EvpfRelativeSeconds), 2}, {"EvpfRelativeHHMMSS", int(tpdu.EvpfRelativeHHMMSS), 3},
	{"SmsDeliver", int(tpdu.SmsDeliver), 0}, {"SmsDeliverReport", int(tpdu.SmsDeliverReport), 1}, {"SmsSubmitReport", int(tpdu.SmsSubmitReport), 2},
	{"SmsSubmit", int(tpdu.SmsSubmit), 3}, {"SmsStatusReport", int(tpdu.SmsStatusReport), 4}, {"SmsCommand", int(tpdu.SmsCommand), 5},
	{"MaxUDL", tpdu.MaxUDL, 140}, {"Alpha7Bit", int(tpdu.Alpha7Bit), 0}, {"Alpha8Bit", int(tpdu.Alpha8Bit), 1}, {"AlphaUCS2", int(tpdu.AlphaUCS2), 2},
	{"Dcs8BitData", int(tpdu.Dcs8BitData), 4}, {"DcsUCS2Data", int(tpdu.DcsUCS2Data), 8},
	{"MClass0", int(tpdu.MClass0), 0}, {"MClass1", int(tpdu.MClass1), 1}, {"MClass2", int(tpdu.MClass2), 2}, {"MClass3", int(tpdu.MClass3), 3},
}

func c28bits(x *X) {
	for _, c := range c28codes {
		if c.got != c.want {
			x.Failf("%s is %d; want %d", c.name, c.got, c.want)
		}
	}
	v := byte(x.Choose(256))
	f := tpdu.FirstOctet(v)
	x.Ops(12)
	x.State(uint64(v) + 1)
	for i, c := range []struct {
		got  bool
		mask byte
	}{{f.MMS(), 4}, {f.RD(), 4}, {f.LP(), 8}, {f.SRI(), 0x20}, {f.SRR(), 0x20}, {f.SRQ(), 0x20}, {f.UDHI(), 0x40}, {f.RP(), 0x80}} {
		if c.got != (v&c.mask != 0) {
			x.Failf("first octet %02x: flag %d (mask %02x) is %v", v, i, c.mask, c.got)
		}
	}
	if byte(f.MTI()) != v&3 || byte(f.VPF()) != v>>3&3 {
		x.Failf("first octet %02x: MTI %d, VPF %d", v, f.MTI(), f.VPF())
	}
	m := x.Int(0, 1, 2, 3, 4, 5, 8, 16, 255, -1)
	g := f.WithMTI(tpdu.MessageType(m))
	if byte(g)&^3 != v&^3 || m >= 0 && m <= 3 && int(g.MTI()) != m {
		x.Failf("first octet %02x WithMTI(%d) is %02x", v, m, byte(g))
	}
	m &= 0xff
	g = f.WithVPF(tpdu.ValidityPeriodFormat(m))
	if byte(g)&^0x18 != v&^0x18 || m <= 3 && int(g.VPF()) != m {
		x.Failf("first octet %02x WithVPF(%d) is %02x", v, m, byte(g))
	}
	p := tpdu.PI(v)
	if p.PID() != (v&1 != 0) || p.DCS() != (v&2 != 0) || p.UDL() != (v&4 != 0) {
		x.Failf("parameter indicator %02x: PID %v DCS %v UDL %v", v, p.PID(), p.DCS(), p.UDL())
	}
	for _, st := range smsTypes {
		if tpdu.SmsType(byte(st.MTI())<<1|byte(st.Direction())) != st {
			x.Failf("%s: MTI %d, direction %d", st, st.MTI(), st.Direction())
		}
	}
	names := []string{"SmsDeliver", "SmsDeliverReport", "SmsSubmitReport", "SmsSubmit", "SmsStatusReport", "SmsCommand"}
	for i, n := range names {
		if tpdu.SmsType(i).String() != n {
			x.Failf("type %d is called %s; want %s", i, tpdu.SmsType(i), n)
		}
	}
	x.Logf("first octet and indicator %02x", v)
	_ = time.Second
}

func c28values(x *X) {
	t := tpdu.TPDU{FirstOctet: tpdu.FirstOctet(x.Choose(256)), PI: tpdu.PI(x.Int(0, 0xff, 0xfa, 5))}
	if x.Bool() {
		t.Direction = tpdu.MO
	}
	t.DCS, t.PID, t.UD = 0x33, 0x44, []byte{1}
	start := cloneT(t)
	try := func(name string, v int, do func(t *tpdu.TPDU) error, mod func(t *tpdu.TPDU) bool) {
		t, w := cloneT(start), cloneT(start)
		err := do(&t)
		ok := mod(&w)
		x.Op()
		if ok != (err == nil) || ref.DiffTPDU(&t, &w) != "" {
			x.Failf("%s(%d) of %s: %s, %v; want %s, error %v", name, v, showT(&start), showT(&t), err, showT(&w), !ok)
		}
	}
	x.State(core.HashStr(showT(&start)))
	switch x.Choose(6) {
	case 0:
		for v := 0; v < 256; v++ {
			try("SetDCS", v, func(t *tpdu.TPDU) error { t.SetDCS(byte(v)); return nil }, func(t *tpdu.TPDU) bool { t.DCS = tpdu.DCS(v); t.PI |= 2; return true })
			try("DCS option", v, func(t *tpdu.TPDU) error { return tpdu.DCS(v).ApplyTPDUOption(t) }, func(t *tpdu.TPDU) bool { t.DCS = tpdu.DCS(v); t.PI |= 2; return true })
		}
	case 1:
		for v := 0; v < 256; v++ {
			try("SetPID", v, func(t *tpdu.TPDU) error { t.SetPID(byte(v)); return nil }, func(t *tpdu.TPDU) bool { t.PID = byte(v); t.PI |= 1; return true })
		}
	case 2:
		for v := -300; v <= 300; v++ {
			try("SetSmsType", v, func(t *tpdu.TPDU) error { return t.SetSmsType(tpdu.SmsType(v)) }, c28type(tpdu.SmsType(v)))
			try("SmsType option", v, func(t *tpdu.TPDU) error { return tpdu.SmsType(v).ApplyTPDUOption(t) }, c28type(tpdu.SmsType(v)))
		}
	case 3:
		for v := 0; v <= 160; v++ {
			ud := octets(v)
			try("SetUD", v, func(t *tpdu.TPDU) error { t.SetUD(ud); return nil }, func(t *tpdu.TPDU) bool {
				t.UD = ud
				t.PI |= 4
				return true
			})
		}
		try("SetUD(nil)", 0, func(t *tpdu.TPDU) error { t.SetUD(nil); return nil }, func(t *tpdu.TPDU) bool { t.UD = nil; t.PI &^= 4; return true })
	case 4:
		for i, vp := range tVPs {
			try("SetVP", i, func(t *tpdu.TPDU) error { t.SetVP(vp); return nil }, func(t *tpdu.TPDU) bool {
				t.VP = vp
				t.FirstOctet = t.FirstOctet&^0x18 | tpdu.FirstOctet(vp.Format)<<3
				return true
			})
		}
		for v := 0; v < 256; v++ {
			// A format that the octet has no room for disturbs nothing else.
			t := cloneT(start)
			vp := tpdu.ValidityPeriod{Format: tpdu.ValidityPeriodFormat(v)}
			t.SetVP(vp)
			x.Op()
			w := start.FirstOctet &^ 0x18
			if v > 3 && t.FirstOctet&^0x18 == w {
				w = t.FirstOctet
			} else {
				w |= tpdu.FirstOctet(v&3) << 3
			}
			if t.FirstOctet != w || t.VP != vp {
				x.Failf("SetVP(format %d) of %s: %s", v, showT(&start), showT(&t))
			}
		}
	case 5:
		for i, h := range tUDHs {
			d, m := c28setUDH(h)
			try("SetUDH", i, func(t *tpdu.TPDU) error { d(t); return nil }, func(t *tpdu.TPDU) bool { m(t); return true })
			try("WithUDH", i, func(t *tpdu.TPDU) error { return tpdu.WithUDH(cloneUDH(h)).ApplyTPDUOption(t) }, func(t *tpdu.TPDU) bool { m(t); return true })
		}
	}
}
