package props

import (
	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms/encoding/tpdu"
)

func init() {
	core.Register("C21",
		core.Sub{Name: "read", Bound: "all 256 data coding schemes: alphabet, class, compression against a table written from TS 23.038", Body: c21read},
		core.Sub{Name: "set", Bound: "all 256 schemes x alphabets and classes, those defined and 22 and 13 undefined values in and beyond a byte, all sequences of 3 (4 thorough) settings", Body: c21set},
	)
}

// c21alpha: -1 reserved group
func c21class(d byte) (tpdu.MessageClass, bool) {
	switch {
	case d>>4 == 15, d>>7 == 0 && d&0x10 != 0:
		return tpdu.MessageClass(d & 3), true
	}
	return tpdu.MClassUnknown, false
}

func c21read(x *X) {
	d := byte(x.Choose(256))
	x.Ops(4)
	x.State(uint64(d) + 1)
	want := ref.Alpha(d)
	a, err := tpdu.DCS(d).Alphabet()
	if want < 0 {
		if err == nil {
			x.Failf("DCS 0x%02x: alphabet %d, no error; the coding group is reserved", d, a)
		}
	} else if err != nil || int(a) != want {
		x.Failf("DCS 0x%02x: alphabet %d, %v; want %d", d, a, err, want)
	}
	t := tpdu.TPDU{DCS: tpdu.DCS(d)}
	if a2, e2 := t.Alphabet(); a2 != a || (e2 == nil) != (err == nil) {
		x.Failf("TPDU.Alphabet with DCS 0x%02x: %d, %v; the DCS says %d, %v", d, a2, e2, a, err)
	}
	wc, has := c21class(d)
	c, err := tpdu.DCS(d).Class()
	if c != wc || has && err != nil {
		x.Failf("DCS 0x%02x: class %d, %v; want %d", d, c, err, wc)
	}
	if want < 0 && err == nil {
		x.Failf("DCS 0x%02x: class without error; the coding group is reserved", d)
	}
	if got, w := tpdu.DCS(d).Compressed(), d&0x80 == 0 && d&0x20 != 0; got != w {
		x.Failf("DCS 0x%02x: compressed %v; want %v", d, got, w)
	}
	x.Logf("DCS 0x%02x: alphabet %v, class %v", d, a, c)
}

// c21alphas: without 3, the reserved coding, which the general group takes and
// reads as the default alphabet, as its tests demand.
var c21alphas = []int{0, 1, 2, -1, -2, -3, -4, 4, 5, 6, 7, 8, 9, 16, 32, 63, 64, 65, 128, 255, 256, 257, 1 << 16, 1 << 32, -1 << 6}

var c21vals = []int{0, 1, 2, 3, -1, -2, 4, 5, 6, 7, 8, 9, 16, 255, 256, 257, 1 << 16}

func c21set(x *X) {
	d := byte(x.Choose(256))
	n := x.Pick(2, 3)
	for i := 0; i <= n; i++ {
		k := x.Choose(1 + len(c21alphas) + len(c21vals))
		if k == 0 {
			return
		}
		k--
		x.Op()
		x.State(core.HashInts(int(d), k))
		if k < len(c21alphas) {
			// setting an alphabet
			a := tpdu.Alphabet(c21alphas[k])
			nd, err := tpdu.DCS(d).WithAlphabet(a)
			x.Logf("0x%02x.WithAlphabet(%d) = 0x%02x, %v", d, a, byte(nd), err)
			if err != nil {
				if byte(nd) != d {
					x.Failf("DCS 0x%02x.WithAlphabet(%d) = 0x%02x with error %v", d, a, byte(nd), err)
				}
				if d&0x80 == 0 && a >= 0 && a <= 2 {
					x.Failf("DCS 0x%02x.WithAlphabet(%d): %v; the general coding group can hold it", d, a, err)
				}
				continue
			}
			if ref.Alpha(byte(nd)) != int(a) {
				x.Failf("DCS 0x%02x.WithAlphabet(%d) = 0x%02x, whose alphabet is %d", d, a, byte(nd), ref.Alpha(byte(nd)))
			}
			if ga, e := nd.Alphabet(); e != nil || ga != a {
				x.Failf("DCS 0x%02x.WithAlphabet(%d) = 0x%02x, which reports %d, %v", d, a, byte(nd), ga, e)
			}
			if byte(nd)&^0x0c != d&^0x0c {
				x.Failf("DCS 0x%02x.WithAlphabet(%d) = 0x%02x: bits outside the alphabet changed", d, a, byte(nd))
			}
			c1, h1 := c21class(d)
			if c2, h2 := c21class(byte(nd)); c1 != c2 || h1 != h2 {
				x.Failf("DCS 0x%02x.WithAlphabet(%d) = 0x%02x changes the class", d, a, byte(nd))
			}
			d = byte(nd)
			continue
		}
		c := c21vals[k-len(c21alphas)]
		nd, err := tpdu.DCS(d).WithClass(tpdu.MessageClass(c))
		x.Logf("0x%02x.WithClass(%d) = 0x%02x, %v", d, c, byte(nd), err)
		if err != nil {
			if byte(nd) != d {
				x.Failf("DCS 0x%02x.WithClass(%d) = 0x%02x with error %v", d, c, byte(nd), err)
			}
			if c >= 0 && c <= 3 && (d&0x80 == 0 || d>>4 == 15) {
				x.Failf("DCS 0x%02x.WithClass(%d): %v; this coding group has classes", d, c, err)
			}
			continue
		}
		wc, has := c21class(byte(nd))
		if !has || int(wc) != c {
			x.Failf("DCS 0x%02x.WithClass(%d) = 0x%02x, whose class is %d", d, c, byte(nd), wc)
		}
		if gc, e := nd.Class(); e != nil || int(gc) != c {
			x.Failf("DCS 0x%02x.WithClass(%d) = 0x%02x, which reports %d, %v", d, c, byte(nd), gc, e)
		}
		if byte(nd)&^0x13 != d&^0x13 {
			x.Failf("DCS 0x%02x.WithClass(%d) = 0x%02x: bits outside the class changed", d, c, byte(nd))
		}
		if ref.Alpha(byte(nd)) != ref.Alpha(d) {
			x.Failf("DCS 0x%02x.WithClass(%d) = 0x%02x changes the alphabet", d, c, byte(nd))
		}
		d = byte(nd)
	}
}
