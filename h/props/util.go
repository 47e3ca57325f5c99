// Package props holds the checks of the codec properties: bounded exhaustive
// enumerations of inputs, configurations and call histories, executed on the
// real library and compared with the reference models.
package props

import (
	"bytes"
	"fmt"
	"strings"

	"verif.local/h/core"

	"github.com/warthog618/sms/encoding/tpdu"
)

type X = core.X

func eq(a, b []byte) bool { return bytes.Equal(a, b) }

func hx(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("%x...(%d octets)", b[:400], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func rep(c byte, n int) []byte { return bytes.Repeat([]byte{c}, n) }

// pattern gives n deterministic septets that differ in every bit position.
func pattern(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*37+11) & 0x7f
		if b[i] == 0x1b {
			b[i] = 0x2b
		}
	}
	return b
}

func octets(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*73 + 29)
	}
	return b
}

func digits(n int) string {
	s := make([]byte, n)
	for i := range s {
		s[i] = "1234567890*#abc"[i%15]
	}
	return string(s)
}

// guarded returns b in a buffer with spare capacity that is filled with
// canaries, and a function that tells what was changed ("" if nothing).
func guarded(b []byte, spare int) ([]byte, func() string) {
	buf := make([]byte, len(b)+spare+16)
	for i := range buf {
		buf[i] = 0xC5
	}
	copy(buf[8:], b)
	g := buf[8 : 8+len(b) : 8+len(b)+spare]
	want := append([]byte(nil), buf...)
	return g, func() string {
		if bytes.Equal(buf, want) {
			return ""
		}
		for i := range buf {
			if buf[i] != want[i] {
				where := "in the data"
				if i < 8 {
					where = "before the data"
				} else if i >= 8+len(b) {
					where = "in the spare capacity"
				}
				return fmt.Sprintf("octet %d %s changed from %02x to %02x", i-8, where, want[i], buf[i])
			}
		}
		return ""
	}
}

// cloneT deep copies a TPDU.
func cloneT(t tpdu.TPDU) tpdu.TPDU {
	t.UD = append(tpdu.UserData(nil), t.UD...)
	t.UDH = cloneUDH(t.UDH)
	return t
}

func cloneUDH(h tpdu.UserDataHeader) tpdu.UserDataHeader {
	if h == nil {
		return nil
	}
	o := make(tpdu.UserDataHeader, len(h))
	for i := range h {
		o[i] = tpdu.InformationElement{ID: h[i].ID, Data: append([]byte(nil), h[i].Data...)}
	}
	return o
}

func showT(t *tpdu.TPDU) string {
	var p []string
	p = append(p, fmt.Sprintf("%s fo=%02x", t.SmsType(), byte(t.FirstOctet)))
	if t.OA.Addr != "" || t.OA.TOA != 0 {
		p = append(p, fmt.Sprintf("OA=%02x:%q", t.OA.TOA, t.OA.Addr))
	}
	if t.DA.Addr != "" || t.DA.TOA != 0 {
		p = append(p, fmt.Sprintf("DA=%02x:%q", t.DA.TOA, t.DA.Addr))
	}
	if t.RA.Addr != "" || t.RA.TOA != 0 {
		p = append(p, fmt.Sprintf("RA=%02x:%q", t.RA.TOA, t.RA.Addr))
	}
	p = append(p, fmt.Sprintf("FCS=%02x MR=%02x CT=%02x MN=%02x PI=%02x ST=%02x PID=%02x DCS=%02x", t.FCS, t.MR, t.CT, t.MN, byte(t.PI), t.ST, t.PID, byte(t.DCS)))
	if !t.SCTS.IsZero() {
		p = append(p, "SCTS="+t.SCTS.String())
	}
	if !t.DT.IsZero() {
		p = append(p, "DT="+t.DT.String())
	}
	if t.VP.Format != 0 {
		p = append(p, fmt.Sprintf("VP=%s/%s/%s/%02x", t.VP.Format, t.VP.Duration, t.VP.Time, t.VP.EFI))
	}
	if t.UDH != nil {
		p = append(p, fmt.Sprintf("UDH=%x", t.UDH))
	}
	p = append(p, fmt.Sprintf("UD=%s", hx(t.UD)))
	return strings.Join(p, " ")
}

var tierNames = []string{"quick", "thorough"}
