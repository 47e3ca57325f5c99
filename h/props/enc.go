package props

import (
	"fmt"

	"verif.local/h/ref"

	"github.com/warthog618/sms/encoding/tpdu"
)

// Reference model of encoding and segmentation.

// refChoose chooses the tables for a text: the documented order.
func refChoose(rs []rune, locking, shift []int) (lock, sh int, ok bool) {
	if _, ok := ref.EncText(rs, 0, 0); ok {
		return 0, 0, true
	}
	for _, n := range locking {
		if _, ok := ref.EncText(rs, n, 0); ok {
			return n, 0, true
		}
	}
	for _, n := range shift {
		if _, ok := ref.EncText(rs, 0, n); ok {
			return 0, n, true
		}
	}
	for _, n := range locking {
		for _, m := range shift {
			if n == m {
				if _, ok := ref.EncText(rs, n, n); ok {
					return n, n, true
				}
			}
		}
	}
	return 0, 0, false
}

// refUserData encodes a text.
func refUserData(rs []rune, locking, shift []int) (ud []byte, udh tpdu.UserDataHeader, alpha int) {
	l, s, ok := refChoose(rs, locking, shift)
	if !ok {
		return ref.EncUTF16(rs), nil, 2
	}
	ud, _ = ref.EncText(rs, l, s)
	if l != 0 {
		udh = append(udh, tpdu.InformationElement{ID: 25, Data: []byte{byte(l)}})
	}
	if s != 0 {
		udh = append(udh, tpdu.InformationElement{ID: 24, Data: []byte{byte(s)}})
	}
	return ud, udh, 0
}

// refDCS changes the alphabet of a data coding scheme.
func refDCS(d byte, alpha int) (byte, bool) {
	switch d >> 4 {
	case 8, 9, 10, 11:
		return d, false
	case 12, 13:
		return d, alpha == 0
	case 14:
		return d, alpha == 2
	case 15:
		if alpha > 1 {
			return d, false
		}
		return d&^4 | byte(alpha)<<2, true
	}
	return d&^0x0c | byte(alpha)<<2, true
}

var maxUD = map[tpdu.SmsType]int{tpdu.SmsDeliver: 140, tpdu.SmsSubmit: 140, tpdu.SmsCommand: 146, tpdu.SmsStatusReport: 131, tpdu.SmsDeliverReport: 158, tpdu.SmsSubmitReport: 151}

// refMax is the room for user data: a report without a cause of failure has
// one octet more.
func refMax(t *tpdu.TPDU) int {
	st := t.SmsType()
	m := maxUD[st]
	if isReport(st) && t.FCS == 0 {
		m++
	}
	return m
}

// refRoom is the number of septets or octets that fit beside a header of hl
// octets, length included.
func refRoom(octets, hl, alpha int) int {
	switch alpha {
	case 1:
		return octets - hl
	case 2:
		return (octets - hl) &^ 1
	}
	return octets*8/7 - (hl*8+6)/7
}

// refChars gives the lengths of the characters of user data.
func refChars(ud []byte, alpha int) (l []int) {
	for i := 0; i < len(ud); {
		n := 1
		switch alpha {
		case 0:
			if ud[i] == 0x1b && i+1 < len(ud) {
				n = 2
			}
		case 2:
			n = 2
			if i+4 <= len(ud) && ud[i]&0xfc == 0xd8 && ud[i+2]&0xfc == 0xdc {
				n = 4
			}
			if i+n > len(ud) {
				n = len(ud) - i
			}
		}
		l = append(l, n)
		i += n
	}
	return
}

// refSegment gives the pieces of the user data, nil if refused.
// hl is the header length in octets including its own length (0 if none).
func refSegment(ud []byte, alpha, octets, hl int, wide bool) (parts [][]byte) {
	if len(ud) <= refRoom(octets, hl, alpha) {
		return [][]byte{ud}
	}
	if hl == 0 {
		hl = 1
	}
	room := refRoom(octets, hl+5, alpha)
	if wide {
		room = refRoom(octets, hl+6, alpha)
	}
	p, start := 0, 0
	for _, n := range refChars(ud, alpha) {
		if n > room {
			return nil
		}
		if p+n-start > room {
			parts = append(parts, ud[start:p])
			start = p
			if len(parts) > 255 {
				return nil
			}
		}
		p += n
	}
	parts = append(parts, ud[start:])
	if len(parts) > 255 {
		return nil
	}
	return
}

// refPDUs gives the TPDUs for user data with a template that has its header
// and data coding scheme set.
func refPDUs(tmpl tpdu.TPDU, ud []byte, wide bool, mr, cr func() int) []tpdu.TPDU {
	if len(ud) == 0 {
		return nil
	}
	hl := 0
	hb, ok := ref.UDH(tmpl.UDH)
	if !ok { // no TPDU can have this header
		return nil
	}
	hl = len(hb)
	if hl == 0 && tmpl.FirstOctet&0x40 != 0 {
		hl = 1
	}
	alpha := ref.Alpha(byte(tmpl.DCS))
	if alpha < 0 {
		alpha = 0
	}
	parts := refSegment(ud, alpha, refMax(&tmpl), hl, wide)
	if parts == nil {
		return nil
	}
	out := make([]tpdu.TPDU, len(parts))
	c := 1
	if len(parts) > 1 && cr != nil {
		c = cr()
	}
	for i := range parts {
		t := cloneT(tmpl)
		if mr != nil {
			t.MR = byte(mr())
		}
		t.UD = parts[i]
		if len(parts) > 1 {
			ie := tpdu.InformationElement{ID: 0, Data: []byte{byte(c), byte(len(parts)), byte(i + 1)}}
			if wide {
				ie = tpdu.InformationElement{ID: 8, Data: []byte{byte(c >> 8), byte(c), byte(len(parts)), byte(i + 1)}}
			}
			t.UDH = append(t.UDH, ie)
			t.FirstOctet |= 0x40
		}
		out[i] = t
	}
	return out
}

type encCfg struct {
	tmpl           tpdu.TPDU
	locking, shift []int
}

// refEncode models Encoder.Encode. ok is false if the message is refused.
func refEncode(c encCfg, msg []byte, mr, cr func() int) (out []tpdu.TPDU, ok bool) {
	t := cloneT(c.tmpl)
	ud := msg
	if a := ref.Alpha(byte(t.DCS)); a != 1 && a != 2 {
		var h tpdu.UserDataHeader
		var alpha int
		ud, h, alpha = refUserData([]rune(string(msg)), c.locking, c.shift)
		d, ok := refDCS(byte(t.DCS), alpha)
		if !ok {
			return nil, false
		}
		t.DCS = tpdu.DCS(d)
		if h != nil {
			t.UDH = append(t.UDH, h...)
			t.FirstOctet |= 0x40
		}
	}
	out = refPDUs(t, ud, false, mr, cr)
	return out, out != nil || len(msg) == 0
}

func counter(from int) func() int { return func() int { from++; return from } }

// diffPDUs compares TPDUs with those expected ("" if the same), apart from
// the parameter indicator where the type has none.
func diffPDUs(got, want []tpdu.TPDU) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d TPDUs; want %d", len(got), len(want))
	}
	for i := range got {
		g, w := got[i], want[i]
		if !optional(w.SmsType()) {
			g.PI, w.PI = 0, 0
		}
		if d := ref.DiffTPDU(&g, &w); d != "" {
			return fmt.Sprintf("TPDU %d of %d: %s (got %s; want %s)", i+1, len(got), d, showT(&g), showT(&w))
		}
	}
	return ""
}
