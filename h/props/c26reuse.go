package props

import (
	"fmt"

	"verif.local/h/core"

	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"
)

// c26reuse unmarshals several times into one value, keeping a (shallow) copy
// of it after each, as a caller does who goes on with the value: the copies
// are results handed out, so they stay as they were.
func c26reuse(x *X) {
	n := x.Pick(3, 4)
	type kept struct {
		was string
		now func() string
	}
	var all []kept
	keep := func(what string, b []byte, now func() string) {
		x.Op()
		all = append(all, kept{now(), now})
		x.State(core.HashStr(what, string(b), fmt.Sprint(len(all))))
		for i, k := range all {
			if s := k.now(); s != k.was {
				x.Failf("%s: unmarshalling %x into the used value changed copy %d of it from %s to %s", what, b, i, k.was, s)
			}
		}
	}
	udh := func(u tpdu.UserDataHeader) string {
		s := fmt.Sprint(u == nil)
		for _, ie := range u {
			s += fmt.Sprintf(" %d:%x", ie.ID, ie.Data)
		}
		return s
	}
	switch x.Choose(3) {
	case 0:
		in := [][]byte{{0}, {2, 9, 0}, {3, 0x24, 1, 1}, {3, 0x25, 1, 2}, {5, 0, 3, 1, 2, 3}, {5, 7, 3, 4, 5, 6}, {9, 0, 3, 4, 5, 6, 8, 2, 1, 1}, {9, 1, 1, 1, 2, 1, 2, 3, 1, 3}, {5, 0, 3, 1}, {5, 0, 4, 1, 2, 3}, {6, 1, 1, 1, 9, 9, 9}}
		var u tpdu.UserDataHeader
		for i := 0; i < n; i++ {
			b := in[x.Choose(len(in))]
			u.UnmarshalBinary(append([]byte(nil), b...))
			c := u
			keep("header", b, func() string { return udh(c) })
		}
	case 1:
		in := c29inputs()
		if n > 3 {
			n = 3
		}
		var t tpdu.TPDU
		for i := 0; i < n; i++ {
			if i == 2 && !x.Thorough() {
				break
			}
			p := in[x.Choose(len(in))]
			t.Direction = p.dir
			t.UnmarshalBinary(append([]byte(nil), p.b...))
			c := t
			keep("TPDU", p.b, func() string { return showT(&c) + udh(c.UDH) + fmt.Sprintf("%x", []byte(c.UD)) })
		}
	case 2:
		in := [][]byte{{0}, {3, 0x91, 0x21, 0x43, 7, 7}, {3, 0x91, 0x21, 0x43, 8, 9, 10}, {1, 0x81}, {2, 0xa1, 0xf1, 1}, {3, 0x91, 0x21}, {0, 1, 2, 3}, {0, 4, 5}, {2, 0x91, 0x1f, 9}}
		var p pdumode.PDU
		for i := 0; i < n; i++ {
			b := in[x.Choose(len(in))]
			if x.Bool() {
				p.UnmarshalHexString(fmt.Sprintf("%x", b))
			} else {
				p.UnmarshalBinary(append([]byte(nil), b...))
			}
			c := p
			keep("PDU", b, func() string { return fmt.Sprintf("%+v", c) })
		}
	}
}
