// Package ref holds boring, independent reference models of the codecs, written
// from 3GPP TS 23.038 and TS 23.040 and not from the library.
package ref

import (
	"time"

	"github.com/warthog618/sms/encoding/tpdu"
)

// ---- character tables ----

// Table maps the 128 codes to runes, -1 where undefined.
type Table [128]rune

// Locking and Shift are the tables by national language; index 0 is the default.
var (
	Locking [14]Table
	Shift   [14]Table
	lockEnc [14]map[rune]byte
	shftEnc [14]map[rune]byte
)

func init() {
	for n := 0; n < 14; n++ {
		fill(&Locking[n], LockingPairs[n])
		fill(&Shift[n], ShiftPairs[n])
		lockEnc[n] = inv(&Locking[n])
		shftEnc[n] = inv(&Shift[n])
	}
}

func fill(t *Table, ps []Pair) {
	for i := range t {
		t[i] = -1
	}
	for _, p := range ps {
		t[p.Code] = p.Rune
	}
}

func inv(t *Table) map[rune]byte {
	m := map[rune]byte{}
	for i := 127; i >= 0; i-- {
		if t[i] >= 0 {
			m[t[i]] = byte(i)
		}
	}
	return m
}

// LockTable returns the locking table of a language, the default one if there is none.
func LockTable(nli int) *Table {
	if nli < 0 || nli > 13 {
		nli = 0
	}
	return &Locking[nli]
}

// ShiftTable returns the shift table of a language, the default one if there is none.
func ShiftTable(nli int) *Table {
	if nli < 0 || nli > 13 {
		nli = 0
	}
	return &Shift[nli]
}

func idx(nli int) int {
	if nli < 0 || nli > 13 {
		return 0
	}
	return nli
}

// None means no shift table at all.
const None = -99

// EncText encodes runes with a locking and a shift table.
func EncText(rs []rune, lock, shift int) ([]byte, bool) {
	var out []byte
	for _, r := range rs {
		if r == 0x1b {
			return nil, false
		}
		if c, ok := lockEnc[idx(lock)][r]; ok {
			out = append(out, c)
			continue
		}
		if shift == None {
			return nil, false
		}
		c, ok := shftEnc[idx(shift)][r]
		if !ok {
			return nil, false
		}
		out = append(out, 0x1b, c)
	}
	return out, true
}

// DecText decodes septets.  In strict mode ok is false for undefined septets.
func DecText(s []byte, lock, shift int, strict bool) (rs []rune, ok bool) {
	lt := LockTable(lock)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == 0x1b {
			if i+1 == len(s) || s[i+1] == 0x1b {
				rs = append(rs, ' ')
				i++
				continue
			}
			i++
			c = s[i]
			if shift != None && c < 128 {
				if r := ShiftTable(shift)[c]; r >= 0 {
					rs = append(rs, r)
					continue
				}
			}
			if strict {
				return nil, false
			}
		}
		if c < 128 && lt[c] >= 0 {
			rs = append(rs, lt[c])
			continue
		}
		if strict {
			return nil, false
		}
		rs = append(rs, ' ')
	}
	return rs, true
}

// ---- bit streams ----

// Pack writes septets as an LSB first bit stream after fill zero bits.
func Pack(s []byte, fill int) []byte {
	if len(s) == 0 {
		return nil
	}
	n := fill + 7*len(s)
	out := make([]byte, (n+7)/8)
	for k, c := range s {
		for i := 0; i < 7; i++ {
			if c>>uint(i)&1 == 1 {
				p := fill + 7*k + i
				out[p/8] |= 1 << uint(p%8)
			}
		}
	}
	return out
}

// Unpack reads all complete septets after fill bits.
func Unpack(p []byte, fill int) []byte {
	n := (8*len(p) - fill) / 7
	if n <= 0 {
		return nil
	}
	out := make([]byte, n)
	for k := range out {
		for i := 0; i < 7; i++ {
			b := fill + 7*k + i
			if p[b/8]>>uint(b%8)&1 == 1 {
				out[k] |= 1 << uint(i)
			}
		}
	}
	return out
}

// PackUSSD adds the CR filler of TS 23.038 6.1.2.3.1.
func PackUSSD(s []byte, fill int) []byte {
	out := Pack(s, fill)
	if len(s) == 0 {
		return nil
	}
	spare := 8*len(out) - (fill + 7*len(s))
	if spare == 7 {
		out[len(out)-1] |= 0x0d << 1
	} else if spare == 0 && s[len(s)-1] == 0x0d {
		out = append(out, 0x0d)
	}
	return out
}

// UnpackUSSD removes CR filler: a CR ending on an octet boundary, or one that
// starts on an octet boundary after another CR.
func UnpackUSSD(p []byte, fill int) []byte {
	s := Unpack(p, fill)
	if len(p) < 2 || len(s) == 0 {
		return s
	}
	end := fill + 7*len(s)
	if s[len(s)-1] == 0x0d {
		if end == 8*len(p) {
			return s[:len(s)-1]
		}
		if (end-7)%8 == 0 && len(s) > 1 && s[len(s)-2] == 0x0d {
			return s[:len(s)-1]
		}
	}
	return s
}

// ---- UTF-16 ----

// EncUTF16 encodes scalar values big endian.
func EncUTF16(rs []rune) []byte {
	var out []byte
	u := func(v rune) { out = append(out, byte(v>>8), byte(v)) }
	for _, r := range rs {
		if r >= 0x10000 {
			v := r - 0x10000
			u(0xd800 + v>>10)
			u(0xdc00 + v&0x3ff)
		} else {
			u(r)
		}
	}
	return out
}

// DecUTF16 decodes; dangling is true when the last unit is an unpaired
// surrogate.
func DecUTF16(b []byte) (rs []rune, dangling, odd bool) {
	if len(b)%2 != 0 {
		return nil, false, true
	}
	for i := 0; i < len(b); i += 2 {
		u := rune(b[i])<<8 | rune(b[i+1])
		if u < 0xd800 || u > 0xdfff {
			rs = append(rs, u)
			continue
		}
		if i+2 == len(b) {
			return rs, true, false
		}
		v := rune(b[i+2])<<8 | rune(b[i+3])
		if u < 0xdc00 && v >= 0xdc00 && v <= 0xdfff {
			rs = append(rs, 0x10000+(u-0xd800)<<10+(v-0xdc00))
			i += 2
			continue
		}
		rs = append(rs, 0xfffd)
	}
	return rs, false, false
}

// ---- small fields ----

// BCD encodes 0..99 with swapped nibbles.
func BCD(v int) byte { return byte(v/10 | v%10<<4) }

// UnBCD decodes, ok false for non decimal digits.
func UnBCD(b byte) (int, bool) {
	h, l := int(b&15), int(b>>4)
	if h > 9 || l > 9 {
		return 0, false
	}
	return h*10 + l, true
}

// SCTS encodes a time stamp.
func SCTS(t time.Time) ([]byte, bool) {
	_, z := t.Zone()
	q := z / 900
	neg := q < 0
	if neg {
		q = -q
	}
	if q > 79 {
		return nil, false
	}
	zb := BCD(q)
	if neg {
		zb |= 8
	}
	return []byte{BCD(t.Year() % 100), BCD(int(t.Month())), BCD(t.Day()), BCD(t.Hour()), BCD(t.Minute()), BCD(t.Second()), zb}, true
}

// UnSCTS decodes a time stamp; ok is false for bad digits or short input.
func UnSCTS(b []byte) (t time.Time, ok bool) {
	if len(b) < 7 {
		return t, false
	}
	var v [6]int
	for i := range v {
		if v[i], ok = UnBCD(b[i]); !ok {
			return t, false
		}
	}
	q, ok := UnBCD(b[6] &^ 8)
	if !ok {
		return t, false
	}
	if b[6]&8 != 0 {
		q = -q
	}
	y := v[0] + 1900
	if v[0] < 70 {
		y += 100
	}
	// days from civil, so that out of range months and days normalise as in any calendar
	loc := time.UTC
	if q != 0 {
		loc = time.FixedZone("", q*900)
	}
	return time.Date(y, time.Month(v[1]), v[2], v[3], v[4], v[5], 0, loc), true
}

// RelDuration is the TS 23.040 9.2.3.12.1 table.
func RelDuration(c byte) time.Duration {
	n := time.Duration(c)
	switch {
	case c <= 143:
		return (n + 1) * 5 * time.Minute
	case c <= 167:
		return 12*time.Hour + (n-143)*30*time.Minute
	case c <= 196:
		return (n - 166) * 24 * time.Hour
	default:
		return (n - 192) * 7 * 24 * time.Hour
	}
}

// RelCode is the largest code whose period does not exceed d (0 if none).
func RelCode(d time.Duration) byte {
	for c := 255; c > 0; c-- {
		if RelDuration(byte(c)) <= d {
			return byte(c)
		}
	}
	return 0
}

// VP encodes a validity period.
func VP(v *tpdu.ValidityPeriod) ([]byte, bool) {
	switch v.Format {
	case tpdu.VpfNotPresent:
		return nil, true
	case tpdu.VpfAbsolute:
		return SCTS(v.Time.Time)
	case tpdu.VpfRelative:
		return []byte{RelCode(v.Duration)}, true
	case tpdu.VpfEnhanced:
		b := make([]byte, 7)
		b[0] = v.EFI
		s := int64(v.Duration / time.Second)
		if s < 0 {
			s = 0
		}
		switch v.EFI & 7 {
		case 0:
		case 1:
			b[1] = RelCode(v.Duration)
		case 2:
			if s > 255 {
				s = 255
			}
			b[1] = byte(s)
		case 3:
			if s > 99*3600+59*60+59 {
				s = 99*3600 + 59*60 + 59
			}
			b[1], b[2], b[3] = BCD(int(s/3600)), BCD(int(s/60%60)), BCD(int(s%60))
		default:
			return nil, false
		}
		return b, true
	}
	return nil, false
}

// UnVP decodes a validity period of the given format and the octets used.
func UnVP(b []byte, f tpdu.ValidityPeriodFormat) (v tpdu.ValidityPeriod, n int, ok bool) {
	switch f {
	case tpdu.VpfNotPresent:
		return v, 0, true
	case tpdu.VpfAbsolute:
		t, ok := UnSCTS(b)
		if !ok {
			return v, 0, false
		}
		v.Time.Time = t
		v.Format = f
		return v, 7, true
	case tpdu.VpfRelative:
		if len(b) < 1 {
			return v, 0, false
		}
		v.Format = f
		v.Duration = RelDuration(b[0])
		return v, 1, true
	case tpdu.VpfEnhanced:
		if len(b) < 7 {
			return v, 0, false
		}
		used := 1
		switch b[0] & 7 {
		case 0:
		case 1:
			v.Duration = RelDuration(b[1])
			used = 2
		case 2:
			v.Duration = time.Duration(b[1]) * time.Second
			used = 2
		case 3:
			var p [3]int
			for i := range p {
				if p[i], ok = UnBCD(b[1+i]); !ok {
					return tpdu.ValidityPeriod{}, 0, false
				}
			}
			v.Duration = time.Duration(p[0]*3600+p[1]*60+p[2]) * time.Second
			used = 4
		default:
			return v, 0, false
		}
		for _, x := range b[used:7] {
			if x != 0 {
				return tpdu.ValidityPeriod{}, 0, false
			}
		}
		v.Format = f
		v.EFI = b[0]
		return v, 7, true
	}
	return v, 0, false
}

const digits = "0123456789*#abc"

// SemiEnc encodes digits as semi-octets.
func SemiEnc(s string) ([]byte, bool) {
	out := make([]byte, (len(s)+1)/2)
	for i := range out {
		out[i] = 0xff
	}
	for i := 0; i < len(s); i++ {
		v := -1
		for k := 0; k < len(digits); k++ {
			if digits[k] == s[i] {
				v = k
			}
		}
		if v < 0 {
			return nil, false
		}
		if i%2 == 0 {
			out[i/2] = out[i/2]&0xf0 | byte(v)
		} else {
			out[i/2] = out[i/2]&0x0f | byte(v)<<4
		}
	}
	return out, true
}

// SemiDec decodes up to n digits: fill nibbles are skipped, and a digit where
// the last octet must hold fill is refused.  used is the octets consumed.
func SemiDec(n int, src []byte) (s string, used int, ok bool) {
	var out []byte
	for used < len(src) && len(out) < n {
		o := src[used]
		used++
		if o&15 != 15 {
			out = append(out, digits[o&15])
		}
		if o>>4 != 15 {
			if len(out) == n {
				return "", used, false
			}
			out = append(out, digits[o>>4])
		}
	}
	return string(out), used, true
}

// Addr encodes an address.
func Addr(a tpdu.Address) ([]byte, bool) {
	if a.TOA>>4&7 == 5 {
		s, ok := EncText([]rune(a.Addr), 0, None)
		if !ok {
			return nil, false
		}
		l := (len(s)*7 + 3) / 4
		if l > 255 {
			return nil, false
		}
		return append([]byte{byte(l), a.TOA}, Pack(s, 0)...), true
	}
	s, ok := SemiEnc(a.Addr)
	if !ok || len(a.Addr) > 255 {
		return nil, false
	}
	return append([]byte{byte(len(a.Addr)), a.TOA}, s...), true
}

// UnAddr decodes an address and the octets used.
func UnAddr(b []byte) (a tpdu.Address, n int, ok bool) {
	if len(b) < 2 {
		return a, 0, false
	}
	l := int(b[0])
	n = 2 + (l+1)/2
	if len(b) < n {
		return a, 0, false
	}
	if b[1]>>4&7 == 5 {
		s := Unpack(b[2:n], 0)
		if k := l * 4 / 7; len(s) > k {
			s = s[:k]
		}
		rs, ok := DecText(s, 0, None, true)
		if !ok {
			return a, 0, false
		}
		return tpdu.Address{TOA: b[1], Addr: string(rs)}, n, true
	}
	s, used, ok := SemiDec(l, b[2:n])
	if !ok || used != n-2 || len(s) < l {
		return a, 0, false
	}
	return tpdu.Address{TOA: b[1], Addr: s}, n, true
}

// UDH encodes a header, nil if there is none.
func UDH(h tpdu.UserDataHeader) ([]byte, bool) {
	if len(h) == 0 {
		return nil, true
	}
	out := []byte{0}
	for _, ie := range h {
		if len(ie.Data) > 255 {
			return nil, false
		}
		out = append(out, ie.ID, byte(len(ie.Data)))
		out = append(out, ie.Data...)
	}
	if len(out)-1 > 255 {
		return nil, false
	}
	out[0] = byte(len(out) - 1)
	return out, true
}

// UnUDH decodes a header and the octets used.
func UnUDH(b []byte) (h tpdu.UserDataHeader, n int, ok bool) {
	if len(b) < 1 || len(b) < 1+int(b[0]) {
		return nil, 0, false
	}
	n = 1 + int(b[0])
	r := b[1:n]
	for len(r) > 0 {
		if len(r) < 2 || len(r) < 2+int(r[1]) {
			return nil, 0, false
		}
		h = append(h, tpdu.InformationElement{ID: r[0], Data: append([]byte{}, r[2:2+int(r[1])]...)})
		r = r[2+int(r[1]):]
	}
	return h, n, true
}

// Alpha gives the alphabet of a DCS: 0 7-bit, 1 8-bit, 2 UCS-2, -1 reserved.
func Alpha(d byte) int {
	switch d >> 4 {
	case 8, 9, 10, 11:
		return -1
	case 12, 13:
		return 0
	case 14:
		return 2
	case 15:
		return int(d >> 2 & 1)
	}
	switch d >> 2 & 3 {
	case 1:
		return 1
	case 2:
		return 2
	}
	return 0
}

// UDField encodes the UDL, UDH and UD.
func UDField(h tpdu.UserDataHeader, ud []byte, dcs byte, udhi bool) ([]byte, bool) {
	hb, ok := UDH(h)
	if !ok {
		return nil, false
	}
	if len(hb) == 0 && udhi && len(ud) > 0 {
		hb = []byte{0} // an empty header still has its length
	}
	var udl int
	var body []byte
	switch Alpha(dcs) {
	case 0:
		fill := (7 - len(hb)*8%7) % 7
		body = Pack(ud, fill)
		if len(ud) > 0 {
			udl = (len(hb)*8+fill)/7 + len(ud)
		} else {
			udl = len(hb) * 8 / 7
		}
	case 1:
		body = ud
		udl = len(hb) + len(ud)
	case 2:
		if len(ud)%2 != 0 {
			return nil, false
		}
		body = ud
		udl = len(hb) + len(ud)
	default:
		return nil, false
	}
	if udl > 255 {
		return nil, false
	}
	return append(append([]byte{byte(udl)}, hb...), body...), true
}

// UnUDField decodes UDL, UDH and UD which must fill b exactly.
func UnUDField(b []byte, udhi bool, dcs byte) (h tpdu.UserDataHeader, ud []byte, ok bool) {
	if len(b) < 1 {
		return nil, nil, false
	}
	udl := int(b[0])
	if udl == 0 {
		return nil, nil, len(b) == 1
	}
	al := Alpha(dcs)
	if al < 0 {
		return nil, nil, false
	}
	oct := udl
	if al == 0 {
		oct = (udl*7 + 7) / 8
	}
	if len(b) != 1+oct {
		return nil, nil, false
	}
	r := b[1:]
	hl := 0
	if udhi {
		h, hl, ok = UnUDH(r)
		if !ok {
			return nil, nil, false
		}
		r = r[hl:]
	}
	if len(r) == 0 {
		return h, nil, true
	}
	switch al {
	case 0:
		fill := (7 - hl*8%7) % 7
		n := udl - (hl*8+fill)/7
		s := Unpack(r, fill)
		if len(s) > n {
			for _, c := range s[n:] {
				if c != 0 {
					return nil, nil, false
				}
			}
			s = s[:n]
		}
		return h, s, true
	case 2:
		if len(r)%2 != 0 {
			return nil, nil, false
		}
	}
	return h, append([]byte{}, r...), true
}

// Marshal encodes a TPDU.
func Marshal(t *tpdu.TPDU) ([]byte, bool) {
	fo := byte(t.FirstOctet)
	out := []byte{fo}
	mo := t.Direction == tpdu.MO
	okAll := true
	add := func(b []byte, ok bool) {
		out = append(out, b...)
		okAll = okAll && ok
	}
	opt := func() {
		pi := byte(t.PI)
		if pi&1 != 0 {
			out = append(out, t.PID)
		}
		if pi&2 != 0 {
			out = append(out, byte(t.DCS))
		}
		if pi&4 != 0 {
			add(UDField(t.UDH, t.UD, byte(t.DCS), fo&0x40 != 0))
		}
	}
	switch {
	case fo&3 == 0 && !mo: // deliver
		add(Addr(t.OA))
		out = append(out, t.PID, byte(t.DCS))
		add(SCTS(t.SCTS.Time))
		add(UDField(t.UDH, t.UD, byte(t.DCS), fo&0x40 != 0))
	case fo&3 == 0: // deliver report
		if t.FCS != 0 {
			out = append(out, t.FCS)
		}
		out = append(out, byte(t.PI))
		opt()
	case fo&3 == 1 && mo: // submit
		out = append(out, t.MR)
		add(Addr(t.DA))
		out = append(out, t.PID, byte(t.DCS))
		add(VP(&t.VP))
		add(UDField(t.UDH, t.UD, byte(t.DCS), fo&0x40 != 0))
	case fo&3 == 1: // submit report
		if t.FCS != 0 {
			out = append(out, t.FCS)
		}
		out = append(out, byte(t.PI))
		add(SCTS(t.SCTS.Time))
		opt()
	case fo&3 == 2 && mo: // command
		out = append(out, t.MR, t.PID, t.CT, t.MN)
		add(Addr(t.DA))
		add(UDField(t.UDH, t.UD, 0x04, fo&0x40 != 0))
	case fo&3 == 2: // status report
		out = append(out, t.MR)
		add(Addr(t.RA))
		add(SCTS(t.SCTS.Time))
		add(SCTS(t.DT.Time))
		out = append(out, t.ST)
		if t.PI != 0 {
			out = append(out, byte(t.PI))
			opt()
		}
	default:
		return nil, false
	}
	if !okAll {
		return nil, false
	}
	return out, true
}

// Span is the place of a field in the octets.
type Span struct {
	Name       string
	Start, End int
}

// Decoded is the result of Unmarshal.
type Decoded struct {
	T      tpdu.TPDU
	OK     bool
	Field  string // where decoding failed
	Start  int    // where that field starts
	Spans  []Span // fields decoded
	HasUD  bool   // the user data (length) is present
	Fields map[string]bool
}

// Unmarshal decodes a TPDU.
func Unmarshal(b []byte, dir tpdu.Direction) (d Decoded) {
	t := &d.T
	t.Direction = dir
	p := 0
	fail := func(f string) Decoded { d.Field, d.Start = f, p; return d }
	if len(b) < 1 {
		return fail("firstOctet")
	}
	fo := b[0]
	t.FirstOctet = tpdu.FirstOctet(fo)
	mo := dir == tpdu.MO
	p = 1
	octet := func(dst *byte, f string) bool {
		if p >= len(b) {
			fail(f)
			return false
		}
		*dst = b[p]
		d.Spans = append(d.Spans, Span{f, p, p + 1})
		p++
		return true
	}
	addr := func(a *tpdu.Address, f string) bool {
		v, n, ok := UnAddr(b[p:])
		if !ok {
			fail(f)
			return false
		}
		*a = v
		d.Spans = append(d.Spans, Span{f, p, p + n})
		p += n
		return true
	}
	stamp := func(s *tpdu.Timestamp, f string) bool {
		v, ok := UnSCTS(b[p:])
		if !ok {
			fail(f)
			return false
		}
		s.Time = v
		d.Spans = append(d.Spans, Span{f, p, p + 7})
		p += 7
		return true
	}
	ud := func() bool {
		h, u, ok := UnUDField(b[p:], fo&0x40 != 0, byte(t.DCS))
		if !ok {
			fail("ud")
			return false
		}
		t.UDH, t.UD = h, u
		d.HasUD = true
		d.Spans = append(d.Spans, Span{"ud", p, len(b)})
		p = len(b)
		return true
	}
	var pi, dcs byte
	opt := func() bool {
		if pi&1 != 0 && !octet(&t.PID, "pid") {
			return false
		}
		if pi&2 != 0 {
			if !octet(&dcs, "dcs") {
				return false
			}
			t.DCS = tpdu.DCS(dcs)
		}
		if pi&4 != 0 && !ud() {
			return false
		}
		return true
	}
	switch {
	case fo&3 == 0 && !mo:
		if !addr(&t.OA, "oa") || !octet(&t.PID, "pid") || !octet(&dcs, "dcs") {
			return d
		}
		t.DCS = tpdu.DCS(dcs)
		if !stamp(&t.SCTS, "scts") || !ud() {
			return d
		}
	case fo&3 == 0:
		if !octet(&t.FCS, "fcs") || !octet(&pi, "pi") {
			return d
		}
		t.PI = tpdu.PI(pi)
		if !opt() {
			return d
		}
	case fo&3 == 1 && mo:
		if !octet(&t.MR, "mr") || !addr(&t.DA, "da") || !octet(&t.PID, "pid") || !octet(&dcs, "dcs") {
			return d
		}
		t.DCS = tpdu.DCS(dcs)
		v, n, ok := UnVP(b[p:], tpdu.ValidityPeriodFormat(fo>>3&3))
		if !ok {
			return fail("vp")
		}
		t.VP = v
		d.Spans = append(d.Spans, Span{"vp", p, p + n})
		p += n
		if !ud() {
			return d
		}
	case fo&3 == 1:
		if !octet(&t.FCS, "fcs") || !octet(&pi, "pi") {
			return d
		}
		t.PI = tpdu.PI(pi)
		if !stamp(&t.SCTS, "scts") || !opt() {
			return d
		}
	case fo&3 == 2 && mo:
		if !octet(&t.MR, "mr") || !octet(&t.PID, "pid") || !octet(&t.CT, "ct") || !octet(&t.MN, "mn") || !addr(&t.DA, "da") {
			return d
		}
		t.DCS = tpdu.Dcs8BitData
		if !ud() {
			return d
		}
	case fo&3 == 2:
		if !octet(&t.MR, "mr") || !addr(&t.RA, "ra") || !stamp(&t.SCTS, "scts") || !stamp(&t.DT, "dt") || !octet(&t.ST, "st") {
			return d
		}
		if p < len(b) {
			if !octet(&pi, "pi") {
				return d
			}
			t.PI = tpdu.PI(pi)
			if !opt() {
				return d
			}
		}
	default:
		p = 0
		return fail("firstOctet")
	}
	d.OK = true
	return d
}

// DiffTPDU describes the first difference between two TPDUs ("" if none).
// Nil and empty slices are the same; times are compared by instant and offset.
func DiffTPDU(a, b *tpdu.TPDU) string {
	switch {
	case a.Direction != b.Direction:
		return "Direction"
	case a.FirstOctet != b.FirstOctet:
		return "FirstOctet"
	case a.OA != b.OA:
		return "OA"
	case a.FCS != b.FCS:
		return "FCS"
	case a.MR != b.MR:
		return "MR"
	case a.CT != b.CT:
		return "CT"
	case a.MN != b.MN:
		return "MN"
	case a.DA != b.DA:
		return "DA"
	case a.RA != b.RA:
		return "RA"
	case a.PI != b.PI:
		return "PI"
	case !SameTime(a.SCTS.Time, b.SCTS.Time):
		return "SCTS"
	case !SameTime(a.DT.Time, b.DT.Time):
		return "DT"
	case a.ST != b.ST:
		return "ST"
	case a.PID != b.PID:
		return "PID"
	case a.DCS != b.DCS:
		return "DCS"
	case !SameVP(a.VP, b.VP):
		return "VP"
	case !SameUDH(a.UDH, b.UDH):
		return "UDH"
	case string(a.UD) != string(b.UD):
		return "UD"
	}
	return ""
}

// SameTime compares instant and zone offset.
func SameTime(a, b time.Time) bool {
	_, x := a.Zone()
	_, y := b.Zone()
	return a.Equal(b) && x == y
}

// SameVP compares validity periods.
func SameVP(a, b tpdu.ValidityPeriod) bool {
	return a.Format == b.Format && a.Duration == b.Duration && a.EFI == b.EFI && SameTime(a.Time.Time, b.Time.Time)
}

// SameUDH compares headers.
func SameUDH(a, b tpdu.UserDataHeader) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].ID != b[i].ID || string(a[i].Data) != string(b[i].Data) {
			return false
		}
	}
	return true
}
