package props

import (
	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

// What the concurrent checks share with the sequential ones.

// EncIndex finds an encoder of C04 by name.
func EncIndex(name string) int {
	for i := range c04encs {
		if c04encs[i].name == name {
			return i
		}
	}
	panic("no encoder " + name)
}

// CallIndex finds a call of C04 by name.
func CallIndex(name string) int {
	for i := range c04calls {
		if c04calls[i].Name == name {
			return i
		}
	}
	panic("no call " + name)
}

// NCalls is how many calls C04 has.
func NCalls() int { return len(c04calls) }

// EncName and CallName name them.
func EncName(i int) string  { return c04encs[i].name }
func CallName(i int) string { return c04calls[i].Name }

// NewEnc makes an encoder, and what tells whether its template was altered.
func NewEnc(i int) (*sms.Encoder, func() string) { return c04encs[i].make() }

// EncStart gives the counters an encoder starts with.
func EncStart(i int) (mr, cr int) { return c04encs[i].mr, c04encs[i].cr }

// CallArgs gives the arguments of a call.
func CallArgs(k int) ([]byte, []sms.EncoderOption) {
	c := c04calls[k]
	if c.Opts == nil {
		return c.Msg, nil
	}
	return c.Msg, c.Opts()
}

// CallWant gives the expected result of a call.
func CallWant(i, k int, mr, cr func() int) ([]tpdu.TPDU, bool) {
	c, en := c04calls[k], c04encs[i]
	cfg := encCfg{cloneT(en.cfg.tmpl), append([]int{}, en.cfg.locking...), append([]int{}, en.cfg.shift...)}
	if c.Mod != nil {
		c.Mod(&cfg)
	}
	return refEncode(cfg, c.Msg, mr, cr)
}

// WantPDUs is the model of TPDU.Segment.
func WantPDUs(t tpdu.TPDU, ud []byte, wide bool, mr, cr func() int) []tpdu.TPDU {
	return refPDUs(cloneT(t), ud, wide, mr, cr)
}

// DiffPDUs compares results.
func DiffPDUs(got, want []tpdu.TPDU) string { return diffPDUs(got, want) }

// CorpusPDU is a TPDU in binary form.
type CorpusPDU struct {
	Dir  tpdu.Direction
	Type tpdu.SmsType
	B    []byte
}

// Corpus lists TPDUs of all types.
func Corpus() (out []CorpusPDU) {
	for _, p := range corpus() {
		out = append(out, CorpusPDU{p.dir, p.st, p.b})
	}
	return
}

// PeerAddrs lists addresses of which no two are the same peer: digits that
// differ in one place, in length, in leading zeros; names that differ in case
// or spacing; other types and plans of number.
func PeerAddrs() (out []tpdu.Address) {
	seen := map[tpdu.Address]bool{}
	add := func(toa byte, l ...string) {
		for _, s := range l {
			if a := (tpdu.Address{TOA: toa, Addr: s}); !seen[a] {
				seen[a] = true
				out = append(out, a)
			}
		}
	}
	long := "12345678901234567890"
	for i := 0; i <= len(long); i++ {
		add(0x91, long[:i])
	}
	for i := 1; i < len(long); i++ {
		b := []byte(long)
		b[i] = "0123456789"[(int(b[i]-'0')+5)%10]
		add(0x91, string(b))
		add(0x91, long[i:])
	}
	add(0x91, long+long, long+long[:19]+"1", "0"+long, long+"0", long+"00", "0", "00", "000", "01", "001", "10", "100", "12a", "12b", "12c", "12*", "12#", "*12", "#12", "a12", "1a2")
	add(0xd0, "Shop", "shop", "SHOP", "SHoP", "Shop ", " Shop", "S hop", "Shop1", "Shop:1", "1:2", "1", "12", "123", "1234", "Shöp", "Shøp", "Shop@", "@Shop", "", " ", "Example GmbH", "Example Gmbh", "Example GmbI", "exampleGmbH", "-1", "+1", "%s", "a.b", "a_b", "a/b")
	for toa := 0; toa < 256; toa++ {
		if toa != 0x91 {
			if toa>>4&7 == 5 {
				add(byte(toa), "5678")
			} else {
				add(byte(toa), "1234")
			}
		}
	}
	return
}
