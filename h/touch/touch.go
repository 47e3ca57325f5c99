// Package touch reads results of the library.  It is compiled with race
// instrumentation, the rest of the harness is not, so the race detector sees
// accesses by the library and by users of its results only.
package touch

import "github.com/warthog618/sms/encoding/tpdu"

// ID is the arrival number in the user data of a TPDU.
func ID(t *tpdu.TPDU) int {
	if t == nil {
		return 0
	}
	if len(t.UD) != 3 {
		return -1
	}
	return int(t.UD[0])<<8 | int(t.UD[1])
}

// IDs of a list.
func IDs(l []*tpdu.TPDU) []int {
	out := make([]int, len(l))
	for i := range l {
		out[i] = ID(l[i])
	}
	return out
}

// Lists gives the ids in each list.
func Lists(m map[string][]*tpdu.TPDU) [][]int {
	out := make([][]int, 0, len(m))
	for _, l := range m {
		out = append(out, IDs(l))
	}
	return out
}

// TPDUs reads all of some TPDUs, and returns copies.
func TPDUs(l []tpdu.TPDU) []tpdu.TPDU {
	out := make([]tpdu.TPDU, len(l))
	for i := range l {
		t := l[i]
		t.UD = append(tpdu.UserData(nil), t.UD...)
		t.UDH = append(tpdu.UserDataHeader(nil), t.UDH...)
		for j := range t.UDH {
			t.UDH[j].Data = append([]byte(nil), t.UDH[j].Data...)
		}
		out[i] = t
	}
	return out
}

// Bytes reads all of b.
func Bytes(b []byte) []byte { return append([]byte(nil), b...) }

// EncTable reads a table.
func EncTable(m map[rune]byte) (n int, h uint64) {
	for k, v := range m {
		h += mix(uint64(k)<<8 | uint64(v))
		n++
	}
	return
}

// DecTable reads a table.
func DecTable(m map[byte]rune) (n int, h uint64) {
	for k, v := range m {
		h += mix(uint64(v)<<8 | uint64(k))
		n++
	}
	return
}

func mix(x uint64) uint64 {
	x *= 0x9e3779b97f4a7c15
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	return x ^ x>>32
}

// PDU reads a TPDU.
func PDU(t *tpdu.TPDU) []tpdu.TPDU {
	if t == nil {
		return nil
	}
	return TPDUs([]tpdu.TPDU{*t})
}

// Runes reads all of r.
func Runes(r []rune) []rune { return append([]rune(nil), r...) }
