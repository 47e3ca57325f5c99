package props

import (
	"sync"
	"time"

	"verif.local/h/ref"

	"github.com/warthog618/sms/encoding/tpdu"
)

// The six TPDU types, by direction and message type.
var smsTypes = []tpdu.SmsType{tpdu.SmsDeliver, tpdu.SmsDeliverReport, tpdu.SmsSubmitReport, tpdu.SmsSubmit, tpdu.SmsStatusReport, tpdu.SmsCommand}

func isReport(st tpdu.SmsType) bool { return st == tpdu.SmsDeliverReport || st == tpdu.SmsSubmitReport }
func optional(st tpdu.SmsType) bool { return isReport(st) || st == tpdu.SmsStatusReport }

// base gives a TPDU of the type with no user data.
func base(st tpdu.SmsType) tpdu.TPDU {
	t := tpdu.TPDU{Direction: st.Direction(), FirstOctet: tpdu.FirstOctet(st.MTI())}
	switch st {
	case tpdu.SmsDeliver:
		t.OA = tAddrs[0]
		t.SCTS.Time = tTimes[0]
	case tpdu.SmsDeliverReport:
		t.FCS = 0x81
	case tpdu.SmsSubmitReport:
		t.FCS = 0x81
		t.SCTS.Time = tTimes[0]
	case tpdu.SmsSubmit:
		t.DA = tAddrs[0]
	case tpdu.SmsStatusReport:
		t.RA = tAddrs[0]
		t.SCTS.Time = tTimes[0]
		t.DT.Time = tTimes[1]
	case tpdu.SmsCommand:
		t.DA = tAddrs[0]
		t.DCS = tpdu.Dcs8BitData
	}
	return t
}

var tAddrs = []tpdu.Address{{TOA: 0x91, Addr: "614098"}, {TOA: 0x91, Addr: "12345678901"}, {TOA: 0xd0, Addr: "Al ice@"}, {TOA: 0x81, Addr: ""}, {TOA: 0xa1, Addr: "*#abc"}, {TOA: 0xd1, Addr: "12345678"}}

func setAddr(t *tpdu.TPDU, st tpdu.SmsType, a tpdu.Address) {
	switch st {
	case tpdu.SmsDeliver:
		t.OA = a
	case tpdu.SmsSubmit, tpdu.SmsCommand:
		t.DA = a
	case tpdu.SmsStatusReport:
		t.RA = a
	}
}

func hasAddr(st tpdu.SmsType) bool { return !isReport(st) }
func hasDCS(st tpdu.SmsType) bool  { return st != tpdu.SmsCommand }

var tTimes = []time.Time{time.Date(2017, 8, 31, 11, 21, 54, 0, time.FixedZone("", 8*3600)), time.Date(1999, 12, 31, 23, 59, 59, 0, time.FixedZone("", -39*900)), time.Date(2000, 2, 29, 0, 0, 0, 0, time.UTC)}

// tVPs are validity periods that survive a round trip exactly.
var tVPs = []tpdu.ValidityPeriod{
	{},
	{Format: tpdu.VpfRelative, Duration: 5 * time.Minute},
	{Format: tpdu.VpfRelative, Duration: 63 * 7 * 24 * time.Hour},
	{Format: tpdu.VpfAbsolute, Time: tpdu.Timestamp{Time: tTimes[1]}},
	{Format: tpdu.VpfEnhanced, EFI: 0x40},
	{Format: tpdu.VpfEnhanced, EFI: 0x01, Duration: 13 * time.Hour},
	{Format: tpdu.VpfEnhanced, EFI: 0x02, Duration: 255 * time.Second},
	{Format: tpdu.VpfEnhanced, EFI: 0xc3, Duration: 12*time.Hour + 34*time.Minute + 56*time.Second},
}

var tUDHs = []tpdu.UserDataHeader{
	nil,
	{{ID: 0, Data: []byte{5, 2, 1}}},
	{{ID: 8, Data: []byte{1, 5, 2, 1}}},
	{{ID: 24, Data: []byte{1}}, {ID: 25, Data: []byte{2}}},
	{{ID: 5, Data: []byte{0x15, 0x8a, 0, 0}}, {ID: 0, Data: []byte{1, 2, 3}}},
	{{ID: 0x70, Data: nil}},
	{{ID: 0x24, Data: octets(11)}},
}

var tDCSs = []byte{0x00, 0x04, 0x08, 0xf1, 0xf5, 0xe0, 0x11, 0xc8}

// udFor gives user data valid for the alphabet.
func udFor(dcs byte, n int) []byte {
	switch ref.Alpha(dcs) {
	case 1:
		return octets(n)
	case 2:
		return octets(n &^ 1)
	}
	return pattern(n)
}

// flagBits are the bits of the first octet that are free for the type.
func flagBits(st tpdu.SmsType) []byte {
	if st == tpdu.SmsSubmit {
		return []byte{0x04, 0x20, 0x80}
	}
	return []byte{0x04, 0x08, 0x10, 0x20, 0x80}
}

// pickFields chooses a TPDU over the product of the fields of the type.
func pickFields(x *X, st tpdu.SmsType) tpdu.TPDU {
	t := base(st)
	for _, b := range flagBits(st) {
		if x.Bool() {
			t.FirstOctet |= tpdu.FirstOctet(b)
		}
	}
	if hasAddr(st) {
		setAddr(&t, st, tAddrs[x.Choose(x.Pick(4, 6))])
	}
	pi := byte(7)
	if optional(st) {
		pi = byte(x.Choose(8))
		t.PI = tpdu.PI(pi)
		if x.Bool() {
			t.PI |= 0x48
		}
	}
	if isReport(st) {
		t.FCS = byte(x.Int(0x81, 0xff, 0x01))
	} else if st != tpdu.SmsDeliver {
		t.MR = byte(x.Int(0, 0xab))
	}
	if st == tpdu.SmsCommand {
		t.CT = byte(x.Int(0, 0xcd))
		t.MN = byte(x.Int(0, 0xef))
	}
	if st == tpdu.SmsStatusReport {
		t.ST = byte(x.Int(0, 0x41))
	}
	if st == tpdu.SmsSubmit {
		t.VP = tVPs[x.Choose(len(tVPs))]
		t.FirstOctet |= tpdu.FirstOctet(t.VP.Format) << 3
	}
	if pi&1 != 0 {
		t.PID = byte(x.Int(0, 0x7f))
	}
	if pi&2 != 0 && hasDCS(st) {
		t.DCS = tpdu.DCS(tDCSs[x.Choose(x.Pick(4, 8))])
	}
	if pi&4 != 0 {
		t.UDH = cloneUDH(tUDHs[x.Choose(x.Pick(4, 7))])
		if t.UDH != nil {
			t.FirstOctet |= tpdu.FoUDHI
		}
		if n := x.Choose(4); n > 0 {
			t.UD = udFor(byte(t.DCS), []int{0, 1, 8, 23}[n])
			if len(t.UD) == 0 {
				t.UD = nil
			}
		}
	}
	return t
}

// pickLengths chooses TPDUs of every user data and header length.
func pickLengths(x *X) tpdu.TPDU {
	st := smsTypes[x.Choose(6)]
	t := base(st)
	if optional(st) {
		t.PI = 7
	}
	if hasDCS(st) {
		t.DCS = tpdu.DCS(x.Int(0, 4, 8))
	}
	hl := 0
	if x.Thorough() {
		hl = x.Choose(259)
	} else if k := x.Choose(32); k < 24 {
		hl = k
	} else {
		hl = []int{127, 128, 138, 139, 140, 254, 255, 256}[k-24]
	}
	n := x.Choose(262)
	switch {
	case hl == 0:
	case hl == 1: // the length octet alone
	case hl < 258:
		t.UDH = tpdu.UserDataHeader{{ID: 0x51, Data: octets(hl - 2)}}
	default:
		t.UDH = tpdu.UserDataHeader{{ID: 0x51, Data: octets(100)}, {ID: 0x52, Data: octets(hl - 104)}}
	}
	if hl > 0 {
		t.FirstOctet |= tpdu.FoUDHI
	}
	if ref.Alpha(byte(t.DCS)) == 2 {
		t.UD = octets(n) // odd lengths too
	} else {
		t.UD = udFor(byte(t.DCS), n)
	}
	return t
}

// pickValues varies every value of one octet field.
func pickValues(x *X) tpdu.TPDU {
	st := smsTypes[x.Choose(6)]
	t := base(st)
	if optional(st) {
		t.PI = 7
	}
	k := x.Choose(9)
	v := byte(x.Choose(256))
	switch k {
	case 0:
		t.MR = v
	case 1:
		t.PID = v
	case 2:
		if hasDCS(st) {
			t.DCS = tpdu.DCS(v)
		}
	case 3:
		t.FCS = v
	case 4:
		t.CT = v
	case 5:
		t.MN = v
	case 6:
		t.ST = v
	case 7:
		if optional(st) {
			t.PI = tpdu.PI(v)
		}
	case 8:
		if st == tpdu.SmsSubmit && v&0x18 != 0 {
			t.VP = tVPs[[]int{0, 5, 1, 3}[v>>3&3]]
		}
		t.FirstOctet = tpdu.FirstOctet(v)&^3 | t.FirstOctet
		if v&0x40 != 0 && (!optional(st) || t.PI&4 != 0) {
			t.UDH = cloneUDH(tUDHs[1])
		}
	}
	// fields the type does not carry stay zero
	if st == tpdu.SmsDeliver || isReport(st) {
		t.MR = 0
	}
	if !isReport(st) {
		t.FCS = 0
	}
	if st != tpdu.SmsCommand {
		t.CT, t.MN = 0, 0
	}
	if st != tpdu.SmsStatusReport {
		t.ST = 0
	}
	pi := byte(7)
	if optional(st) {
		pi = byte(t.PI)
		if pi&1 == 0 {
			t.PID = 0
		}
		if pi&2 == 0 {
			t.DCS = 0
		}
	}
	if pi&4 != 0 && x.Bool() {
		t.UD = udFor(byte(t.DCS), 6)
	}
	return t
}

type pdu struct {
	dir tpdu.Direction
	st  tpdu.SmsType
	b   []byte
}

var corpusOnce sync.Once
var corpusList []pdu

// corpus gives a variety of valid PDUs of every type.
func corpus() []pdu {
	corpusOnce.Do(func() {
		add := func(t tpdu.TPDU, st tpdu.SmsType) {
			b, ok := ref.Marshal(&t)
			if !ok {
				panic("corpus")
			}
			corpusList = append(corpusList, pdu{st.Direction(), st, b})
		}
		for _, st := range smsTypes {
			for i, dcs := range []byte{0, 0, 4, 8} {
				t := base(st)
				if hasDCS(st) {
					t.DCS = tpdu.DCS(dcs)
				}
				if optional(st) {
					t.PI = 7
				}
				t.UD = udFor(byte(t.DCS), 5+i)
				if i == 1 || i == 3 {
					t.UDH = cloneUDH(tUDHs[i])
					t.FirstOctet |= tpdu.FoUDHI
				}
				setAddr(&t, st, tAddrs[i])
				if st == tpdu.SmsSubmit {
					t.VP = tVPs[[]int{0, 1, 3, 7}[i]]
					t.FirstOctet |= tpdu.FirstOctet(t.VP.Format) << 3
				}
				add(t, st)
			}
			t := base(st)
			add(t, st)
			if optional(st) {
				t.PI = 3
				t.PID, t.DCS = 0x11, 4
				add(t, st)
				t.PI = 4
				t.PID, t.DCS = 0, 0
				t.UD = pattern(7)
				add(t, st)
			} else {
				t.UD = udFor(byte(t.DCS), 7) // with a spare septet
				add(t, st)
				t.UDH = cloneUDH(tUDHs[4])
				t.FirstOctet |= tpdu.FoUDHI
				t.UD = nil
				add(t, st)
			}
		}
	})
	return corpusList
}
