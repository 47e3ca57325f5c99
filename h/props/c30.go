package props

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms/encoding/tpdu"
)

func init() {
	core.Register("C30",
		core.Sub{Name: "submit", Bound: "7 kinds of text x 24 lengths around 1, 2, 3, 255 and 256 TPDUs x 7 language options x 4 numbers, and invalid numbers: TPDUs printed by smssubmit, counts printed by smscounter", Body: c30submit, Workers: 12},
		core.Sub{Name: "numbers", Bound: "smssubmit to numbers of every length 1..40 and 98..102, 253..257, with and without '+', of 3 kinds of digits: the TPDU has exactly the number, or none is printed", Body: c30numbers, Workers: 12},
		core.Sub{Name: "deliver", Bound: "all argument orders of 7 sets of 3..5 PDUs (one and several parts, incomplete, duplicate, malformed, undecodable, other types) with and without SMSC prefix: output of smsdeliver, and errors exactly when a PDU is refused", Body: c30deliver, Workers: 12},
		core.Sub{Name: "decode", Bound: "the corpus of every TPDU type and field variants x with/without SMSC x upper/lower case: fields printed by smsdecode", Body: c30decode, Workers: 12},
		core.Sub{Name: "decode-values", Bound: "every value of every one-octet field of every type (message reference, identifier, coding scheme, failure cause, command type and number, status, relative and enhanced periods), every number of header elements 0..40 and of data octets 0..140, every address length 0..40 of both kinds: fields printed by smsdecode", Body: c30values, Workers: 12},
		core.Sub{Name: "decode-invalid", Bound: "every prefix, octet removal and single-octet substitution (4 values; all 256 in the first 3 octets thorough) of corpus PDUs, bad hex, wrong arguments: fields printed, or an error exit, never a crash", Body: c30invalid, Workers: 12},
		core.Sub{Name: "charsets", Bound: "the output of charsets: all 128 cells of the locking and shift tables of all 14 languages", Body: c30charsets},
	)
}

type c30out struct {
	code     int
	out, err string
}

// c30exec runs a tool; the tools neither read nor write files.
func c30exec(x *X, tool string, args ...string) c30out {
	dir := os.Getenv("VERIF_BUILD")
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(dir, "bin", tool), args...)
	cmd.Dir = dir
	cmd.Env = []string{"TZ=UTC", "PATH=/usr/bin:/bin", "GOTRACEBACK=single"}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	x.Op()
	r := c30out{0, o.String(), e.String()}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			panic(fmt.Sprintf("cannot run %s: %v", tool, err))
		}
		r.code = ee.ExitCode()
	}
	if ctx.Err() != nil {
		x.Failf("%s %.300q does not end", tool, args)
	}
	if x.V {
		x.Logf("%s %.200q: exit %d, %.300q, %.300q", tool, args, r.code, r.out, r.err)
	}
	if r.code < 0 || r.code == 2 && strings.Contains(r.err, "goroutine ") || strings.Contains(r.err, "panic:") {
		x.Failf("%s %.300q crashes: %.600s", tool, args, r.err)
	}
	return r
}

var c30texts = []struct {
	name string
	make func(n int) []byte
	unit int // units per TPDU, roughly
}{
	{"default", c01rep("The quick @ br$wn\n"), 153},
	{"escapes", c01rep("a€[b"), 102},
	{"turkish", c01rep("şğİ€xç"), 149},
	{"portuguese", c01rep("áãabÂ€"), 100},
	{"emoji", c01rep("😀日😁a"), 38},
	{"urdu", c01rep("hi ت؎"), 100},
	{"bengali", c01rep("কখগ A"), 140},
}

var c30submitRE = regexp.MustCompile(`(?m)^Submit TPDU( \d+)?:\n([0-9a-fA-F]*)$`)

func c30submit(x *X) {
	k := x.Choose(len(c30texts))
	t := c30texts[k]
	lens := []int{1, 2, 7, 30, 69, 70, 71, 134, 135, 140, 152, 153, 154, 155, 159, 160, 161, 305, 306, 307, 308, 400, 460, 0}
	i := x.Choose(len(lens) + 2)
	n := 0
	switch {
	case i < len(lens):
		n = lens[i]
	case i == len(lens):
		n = t.unit * 254
	default:
		n = 255*t.unit + 700
	}
	nli := x.Int(0, 1, 3, 13, 4, 99, -1)
	num := []string{"12345", "+4412345678", "*99#", "123456789012345", "bad number", "+"}[x.Choose(6)]
	if num == "bad number" && n > 200 || num != "12345" && n > 30 && n != 161 && n != 307 {
		return
	}
	msg := t.make(n)
	desc := fmt.Sprintf("%s text of %d to %s, language %d", t.name, n, num, nli)
	x.State(core.HashStr(desc))
	if n > 0 && len(msg) > 100000 {
		return
	}
	c := encCfg{tmpl: tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 1}}
	addr := strings.TrimPrefix(num, "+")
	c.tmpl.DA = tpdu.Address{TOA: 0x91, Addr: addr}
	if nli != 0 {
		c.locking, c.shift = []int{nli}, []int{nli}
	}
	want, ok := refEncode(c, msg, counter(0), counter(0))
	args := []string{"-number", num, "-message", string(msg)}
	cargs := []string{"-message", string(msg)}
	if nli != 0 {
		args = append(args, "-language", fmt.Sprint(nli))
		cargs = append(cargs, "-language", fmt.Sprint(nli))
	}
	if num == "+" {
		args = args[2:] // no number
	}
	r := c30exec(x, "smssubmit", args...)
	ms := c30submitRE.FindAllStringSubmatch(r.out, -1)
	if n == 0 || num == "+" || num == "bad number" || !ok {
		if len(ms) != 0 || strings.Contains(r.out, "TPDU") {
			x.Failf("smssubmit with %s prints TPDUs: %.300s", desc, r.out)
		}
		if r.code == 0 && ok {
			x.Failf("smssubmit with %s succeeds: %q", desc, r.out)
		}
		if strings.TrimSpace(r.err) == "" {
			x.Failf("smssubmit with %s prints no error", desc)
		}
	} else {
		if r.code != 0 {
			x.Failf("smssubmit with %s: exit %d, %.300s", desc, r.code, r.err)
		}
		if len(ms) != len(want) {
			x.Failf("smssubmit with %s prints %d TPDUs; want %d: %.300s", desc, len(ms), len(want), r.out)
		}
		var got []tpdu.TPDU
		for i, m := range ms {
			label := ""
			if len(ms) > 1 {
				label = fmt.Sprintf(" %d", i+1)
			}
			if m[1] != label {
				x.Failf("smssubmit with %s labels TPDU %d %q", desc, i+1, m[1])
			}
			b, err := hex.DecodeString(m[2])
			d := ref.Unmarshal(b, tpdu.MO)
			if err != nil || !d.OK {
				x.Failf("smssubmit with %s prints TPDU %d %s, which is not valid", desc, i+1, m[2])
			}
			got = append(got, d.T)
		}
		if d := diffPDUs(got, want); d != "" {
			x.Failf("smssubmit with %s: %s", desc, d)
		}
		var l []*tpdu.TPDU
		for i := range got {
			l = append(l, &got[i])
		}
		if m, ok := c27decodeRef(l, c27all, c27all); !ok || !eq(m, msg) {
			x.Failf("smssubmit with %s: the TPDUs mean %.300q", desc, m)
		}
	}
	// the counter
	if num != "12345" {
		return
	}
	r = c30exec(x, "smscounter", cargs...)
	if n == 0 || !ok {
		if r.code == 0 || r.out != "" {
			x.Failf("smscounter with %s: exit %d, %q", desc, r.code, r.out)
		}
		return
	}
	// lengths in characters of the encoding
	first := want[0]
	u := 1
	enc := "7BIT"
	if ref.Alpha(byte(first.DCS)) == 2 {
		u, enc = 2, "UCS-2"
	} else {
		for _, p := range want {
			if bytes.IndexByte(p.UD, 0x1b) >= 0 {
				enc = "7BIT_EX"
			}
		}
	}
	hb, _ := ref.UDH(first.UDH)
	room := refRoom(140, len(hb), ref.Alpha(byte(first.DCS))) / u
	last := len(want[len(want)-1].UD) / u
	full := true // every TPDU but the last is full
	for _, p := range want[:len(want)-1] {
		if len(p.UD)/u != room {
			full = false
		}
	}
	exp := map[string]string{"encoding": enc, "messages": fmt.Sprint(len(want)), "last PDU length": fmt.Sprint(last),
		"per_message": fmt.Sprint(room), "remaining": fmt.Sprint(room - last)}
	if full {
		exp["total length"] = fmt.Sprint(room*(len(want)-1) + last)
	}
	got := c30lines(r.out)
	for k, v := range exp {
		if len(got[k]) != 1 || got[k][0] != v {
			x.Failf("smscounter with %s prints %s: %v; want %s", desc, k, got[k], v)
		}
	}
	if r.code != 0 {
		x.Failf("smscounter with %s: exit %d", desc, r.code)
	}
}

// c30lines parses "key: value" lines; lines that start with a space belong to
// the key before.
func c30lines(s string) map[string][]string {
	m := map[string][]string{}
	last := ""
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, " ") {
			m[last] = append(m[last], strings.TrimSpace(l))
			continue
		}
		if i := strings.Index(l, ":"); i >= 0 {
			last = l[:i]
			m[last] = append(m[last], strings.TrimSpace(l[i+1:]))
		}
	}
	return m
}

// c30numbers checks what smssubmit makes of numbers of any length.
func c30numbers(x *X) {
	n := 1 + x.Choose(50)
	switch {
	case n > 45:
		n += 253 - 46
	case n > 40:
		n += 98 - 41
	}
	num := digits(n)
	switch x.Choose(3) {
	case 1:
		num = strings.Repeat("0", n)
	case 2:
		num = ("*#abc" + num)[:n]
	}
	addr := tpdu.Address{TOA: 0x91, Addr: num}
	if x.Bool() {
		num = "+" + num
	}
	x.State(core.HashStr(num))
	r := c30exec(x, "smssubmit", "-number", num, "-message", "hi")
	ms := c30submitRE.FindAllStringSubmatch(r.out, -1)
	if _, ok := ref.Addr(addr); !ok {
		if len(ms) != 0 || r.code == 0 || strings.TrimSpace(r.err) == "" {
			x.Failf("smssubmit to %q: exit %d, %.300q, %.300q; want it refused", num, r.code, r.out, r.err)
		}
		return
	}
	if r.code != 0 || len(ms) != 1 {
		x.Failf("smssubmit to %q: exit %d, %.300q, %.300q; want one TPDU", num, r.code, r.out, r.err)
	}
	b, err := hex.DecodeString(ms[0][2])
	d := ref.Unmarshal(b, tpdu.MO)
	if err != nil || !d.OK || d.T.DA != addr {
		x.Failf("smssubmit to %q prints %s, which is to %q", num, ms[0][2], d.T.DA.Addr)
	}
}

type c30pdu struct {
	b      []byte
	msg    int // message it is a part of; -1 malformed, -2 duplicate of the part before
	part   int
	of     int
	sender string
	text   string
}

func c30deliverSet(k int) []c30pdu {
	mk := func(msg int, from tpdu.Address, sender string, dcs byte, ref16 bool, r int, texts ...string) (l []c30pdu) {
		all := strings.Join(texts, "")
		for i, s := range texts {
			t := base(tpdu.SmsDeliver)
			t.OA = from
			t.DCS = tpdu.DCS(dcs)
			switch dcs {
			case 8:
				t.UD = ref.EncUTF16([]rune(s))
			case 4:
				t.UD = []byte(s)
			default:
				t.UD, _ = ref.EncText([]rune(s), 0, 0)
			}
			if len(texts) > 1 {
				t.UDH = tpdu.UserDataHeader{{ID: 0, Data: []byte{byte(r), byte(len(texts)), byte(i + 1)}}}
				if ref16 {
					t.UDH = tpdu.UserDataHeader{{ID: 8, Data: []byte{1, byte(r), byte(len(texts)), byte(i + 1)}}}
				}
				t.FirstOctet |= 0x40
			}
			b, ok := ref.Marshal(&t)
			if !ok {
				panic("c30")
			}
			l = append(l, c30pdu{b, msg, i + 1, len(texts), sender, all})
		}
		return
	}
	a1 := tpdu.Address{TOA: 0x91, Addr: "12345"}
	a2 := tpdu.Address{TOA: 0xa1, Addr: "555"}
	a3 := tpdu.Address{TOA: 0xd0, Addr: "Bank"}
	var l []c30pdu
	switch k {
	case 0:
		l = append(l, mk(0, a1, "+12345", 0, false, 7, "hello ", "world")...)
		l = append(l, mk(1, a1, "+12345", 0, false, 8, "other ", "one ", "here")...)
	case 1:
		l = append(l, mk(0, a2, "555", 8, true, 7, "日本", "😀!")...)
		l = append(l, mk(1, a3, "Bank", 0, false, 7, "same", "ref")...)
		l = append(l, mk(2, a1, "+12345", 4, false, 0, "single")...)
	case 2: // incomplete
		l = append(l, mk(0, a1, "+12345", 0, false, 7, "a", "b", "c")...)
		l = append(l, mk(1, a3, "Bank", 0, false, 7, "d", "e")[1])
	case 3: // with a malformed one and a duplicate
		l = append(l, mk(0, a1, "+12345", 0, false, 7, "a€", "b")...)
		l = append(l, c30pdu{b: []byte{0, 1, 2}, msg: -1})
		l = append(l, mk(1, a2, "555", 0, false, 7, "x", "y")...)
	case 4:
		l = append(l, mk(0, a1, "+12345", 0, false, 7, "p", "q", "r")...)
		d := l[1]
		d.msg = 0
		l = append(l, d)
		l = append(l, mk(1, a2, "555", 0, false, 7, "single")...)
	case 5: // half a surrogate pair
		l = append(l, mk(0, a1, "+12345", 0, false, 7, "one", "two")...)
		u := mk(1, a2, "555", 8, false, 7, "x")[0]
		t := base(tpdu.SmsDeliver)
		t.OA, t.DCS, t.UD = a2, 8, []byte{0, 65, 0xd8, 0}
		u.b, _ = ref.Marshal(&t)
		u.msg = -3
		l = append(l, u)
	case 6:
		l = append(l, mk(0, a1, "+12345", 0, false, 7, "one", "two")...)
		r := base(tpdu.SmsStatusReport)
		r.PI = 4
		r.UDH = tpdu.UserDataHeader{{ID: 0, Data: []byte{7, 2, 1}}}
		r.FirstOctet |= 0x40
		r.UD = []byte{1}
		b, ok := ref.Marshal(&r)
		if !ok {
			panic("c30")
		}
		l = append(l, c30pdu{b: b, msg: -1})
	}
	return l
}

func c30deliver(x *X) {
	set := x.Choose(7)
	l := c30deliverSet(set)
	pm := x.Bool()
	var args, want []string
	if pm {
		args = append(args, "-p")
	}
	have := map[int]map[int]bool{}
	errs := 0
	left := append([]c30pdu(nil), l...)
	desc := fmt.Sprintf("set %d", set)
	for len(left) > 0 {
		i := x.Choose(len(left))
		p := left[i]
		left = append(left[:i:i], left[i+1:]...)
		desc += fmt.Sprintf(" %d/%d", p.msg, p.part)
		b := p.b
		if pm {
			b = append([]byte{7, 0x91, 0x16, 0x14, 0x22, 0x09, 0x91, 0xf1}, b...)
		}
		args = append(args, hex.EncodeToString(b))
		if p.msg < 0 {
			errs++
			continue
		}
		if have[p.msg] == nil {
			have[p.msg] = map[int]bool{}
		}
		if have[p.msg][p.part] {
			errs++
		}
		have[p.msg][p.part] = true
		if len(have[p.msg]) == p.of {
			want = append(want, p.sender+": "+p.text)
			delete(have, p.msg)
		}
	}
	inc := len(have)
	x.State(core.HashStr(desc, fmt.Sprint(pm)))
	r := c30exec(x, "smsdeliver", args...)
	if r.code != 0 {
		x.Failf("smsdeliver with %s: exit %d: %s", desc, r.code, r.err)
	}
	var got []string
	n := 0
	for _, s := range strings.Split(strings.TrimRight(r.out, "\n"), "\n") {
		switch {
		case strings.HasPrefix(s, "incomplete reassembly:"):
			n++
		case n == 0 && s != "":
			got = append(got, s)
		}
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		x.Failf("smsdeliver with %s prints %q; want %q", desc, got, want)
	}
	if e := strings.TrimSpace(r.err); (e == "") != (errs == 0) {
		x.Failf("smsdeliver with %s: %d PDUs were refused, errors printed: %q", desc, errs, e)
	}
	if n != inc {
		x.Failf("smsdeliver with %s reports %d incomplete messages; want %d: %s", desc, n, inc, r.out)
	}
}

func c30hexdump(lines []string) []byte {
	var o []byte
	for _, l := range lines {
		if i := strings.Index(l, "|"); i >= 0 {
			l = l[:i]
		}
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		for _, h := range f[1:] {
			b, err := hex.DecodeString(h)
			if err != nil {
				return []byte("not hex")
			}
			o = append(o, b...)
		}
	}
	return o
}

func c30num(a tpdu.Address) string {
	if a.TOA&0x70 == 0x10 {
		return "+" + a.Addr
	}
	return a.Addr
}

// c30fields gives the lines expected for a TPDU.
func c30fields(t *tpdu.TPDU) map[string]string {
	st := t.SmsType()
	fo := byte(t.FirstOctet)
	bit := func(b byte) string { return fmt.Sprint(fo&b != 0) }
	tm := func(t time.Time) string { return t.Format("2006-01-02 15:04:05 -0700") }
	m := map[string]string{"TP-UDHI": bit(0x40)}
	if len(t.UDH) > 0 {
		m["TP-UDH"] = ""
	}
	pi := ""
	for i, n := range []string{"PID", "DCS", "UDL"} {
		if byte(t.PI)&(1<<uint(i)) != 0 {
			pi += "|" + n
		}
	}
	dcs := fmt.Sprintf("0x%02x", byte(t.DCS))
	if a := ref.Alpha(byte(t.DCS)); a >= 0 {
		dcs += " " + []string{"7bit", "8bit", "UCS-2"}[a]
	}
	if t.DCS&0x8c == 0x0c {
		dcs = ""
	}
	pid := fmt.Sprintf("0x%02x", t.PID)
	switch st {
	case tpdu.SmsDeliver:
		m["TPDU"] = "SMS-DELIVER"
		m["TP-MTI"] = "0x00 Deliver"
		m["TP-MMS"], m["TP-LP"], m["TP-RP"], m["TP-SRI"] = bit(4), bit(8), bit(0x80), bit(0x20)
		m["TP-OA"] = c30num(t.OA)
		m["TP-PID"], m["TP-DCS"], m["TP-SCTS"] = pid, dcs, tm(t.SCTS.Time)
	case tpdu.SmsSubmit:
		m["TPDU"] = "SMS-SUBMIT"
		m["TP-MTI"] = "0x01 Submit"
		m["TP-RD"], m["TP-RP"], m["TP-SRR"] = bit(4), bit(0x80), bit(0x20)
		vpf := int(fo >> 3 & 3)
		m["TP-VPF"] = fmt.Sprintf("0x%02x %s", vpf, []string{"Not Present", "Enhanced", "Relative", "Absolute"}[vpf])
		m["TP-MR"], m["TP-DA"] = fmt.Sprint(t.MR), c30num(t.DA)
		m["TP-PID"], m["TP-DCS"] = pid, dcs
		switch vpf {
		case 0:
			m["TP-VP"] = "Not Present"
		case 1:
			if t.VP.EFI&7 < 4 {
				m["TP-VP"] = fmt.Sprintf("Enhanced %s - %s", []string{"Not Present", "Relative", "Relative Seconds", "Relative HHMMSS"}[t.VP.EFI&7], t.VP.Duration)
			}
		case 2:
			m["TP-VP"] = "Relative - " + t.VP.Duration.String()
		case 3:
			m["TP-VP"] = "Absolute - " + tm(t.VP.Time.Time)
		}
	case tpdu.SmsCommand:
		m["TPDU"] = "SMS-COMMAND"
		m["TP-MTI"] = "0x02 Command"
		m["TP-SRR"], m["TP-MR"], m["TP-PID"], m["TP-CT"], m["TP-MN"] = bit(0x20), fmt.Sprint(t.MR), pid, fmt.Sprintf("0x%02x", t.CT), fmt.Sprint(t.MN)
		m["TP-DA"] = c30num(t.DA)
		cdl := len(t.UD)
		if fo&0x40 != 0 {
			cdl++
			for _, ie := range t.UDH {
				cdl += 2 + len(ie.Data)
			}
		}
		if len(t.UDH) > 0 || len(t.UD) > 0 || fo&0x40 == 0 { // else a header without elements may be there or not
			m["TP-CDL"] = fmt.Sprint(cdl)
		}
		m["TP-CD"] = ""
	case tpdu.SmsStatusReport:
		m["TPDU"] = "SMS-STATUS-REPORT"
		m["TP-MTI"] = "0x02 Command"
		m["TP-MMS"], m["TP-LP"], m["TP-SRQ"] = bit(4), bit(8), bit(0x20)
		m["TP-MR"], m["TP-RA"], m["TP-ST"] = fmt.Sprint(t.MR), c30num(t.RA), fmt.Sprintf("0x%02x", t.ST)
		m["TP-SCTS"], m["TP-DT"] = tm(t.SCTS.Time), tm(t.DT.Time)
	case tpdu.SmsDeliverReport:
		m["TPDU"] = "SMS-DELIVER-REPORT"
		m["TP-MTI"] = "0x00 Deliver"
		m["TP-FCS"] = fmt.Sprintf("0x%02x", t.FCS)
	case tpdu.SmsSubmitReport:
		m["TPDU"] = "SMS-SUBMIT-REPORT"
		m["TP-MTI"] = "0x01 Submit"
		m["TP-FCS"] = fmt.Sprintf("0x%02x", t.FCS)
		m["TP-SCTS"] = tm(t.SCTS.Time)
	}
	if optional(st) {
		m["TP-PI"] = strings.TrimPrefix(pi, "|")
		if byte(t.PI) == 0 {
			m["TP-PI"] = "0"
		}
		if t.PI&1 != 0 {
			m["TP-PID"] = pid
		}
		if t.PI&2 != 0 {
			m["TP-DCS"] = dcs
		}
	}
	if st != tpdu.SmsCommand {
		m["TP-UD"] = ""
	}
	return m
}

func c30compare(x *X, desc, out string, t *tpdu.TPDU) {
	got := c30lines(out)
	for k, v := range c30fields(t) {
		g, ok := got[k]
		if !ok {
			x.Failf("%s: %s is not printed; want %s\n%s", desc, k, v, out)
		}
		switch k {
		case "TP-UD", "TP-CD":
			if b := c30hexdump(g); !eq(b, t.UD) {
				x.Failf("%s: %s shows %x; want %x", desc, k, b, t.UD)
			}
		case "TP-UDH":
			if len(g) != len(t.UDH) {
				x.Failf("%s: %d header elements printed; want %d", desc, len(g), len(t.UDH))
			}
			for i, ie := range t.UDH {
				if w := fmt.Sprintf("ID: %d  Data: %v", ie.ID, ie.Data); g[i] != w {
					x.Failf("%s: header element %q; want %q", desc, g[i], w)
				}
			}
		case "TP-DCS":
			if g[0] != v && !(v == "" && strings.HasPrefix(g[0], fmt.Sprintf("0x%02x", byte(t.DCS)))) {
				x.Failf("%s: %s: %q; want %q", desc, k, g[0], v)
			}
		default:
			if g[0] != v {
				x.Failf("%s: %s: %q; want %q", desc, k, g[0], v)
			}
		}
	}
	if optional(t.SmsType()) {
		for i, k := range []string{"TP-PID", "TP-DCS"} {
			if _, ok := got[k]; ok && byte(t.PI)&(1<<uint(i)) == 0 {
				x.Failf("%s: %s is printed, but there is none\n%s", desc, k, out)
			}
		}
	}
	if _, ok := got["TP-SCTS"]; ok && t.SmsType() == tpdu.SmsCommand {
		x.Failf("%s: TP-SCTS is printed, but there is none\n%s", desc, out)
	}
	if _, ok := got["TP-UDH"]; ok && len(t.UDH) == 0 {
		x.Failf("%s: a header is printed, but there is none", desc)
	}
}

func c30check(x *X, b []byte, dir tpdu.Direction, pm int, upper bool) {
	args := []string{}
	if dir == tpdu.MO {
		args = append(args, "-o")
	}
	whole := b
	smsc := ""
	if pm > 0 {
		args = append(args, "-p")
		pre := []byte{7, 0x91, 0x16, 0x14, 0x22, 0x09, 0x91, 0xf1}
		smsc = "+61412290191"
		switch pm {
		case 2:
			pre = []byte{0}
			smsc = ""
		case 3:
			pre = []byte{3, 0xa1, 0x21, 0x43}
			smsc = "1234"
		case 4: // another type of number is shown without a +
			pre = []byte{3, 0xd0, 0x21, 0x43}
			smsc = "1234"
		case 5:
			pre = []byte{2, 0xc9, 0xf1}
			smsc = "1"
		case 6: // the type is not limited to known ones
			pre = []byte{12, 0xff, 0x21, 0x43, 0x65, 0x87, 0x09, 0x21, 0x43, 0x65, 0x87, 0x09, 0xf1}
			smsc = "123456789012345678901"
		case 7:
			pre = []byte{1, 0x91}
			smsc = "+"
		}
		whole = append(append([]byte{}, pre...), b...)
	}
	h := hex.EncodeToString(whole)
	if upper {
		h = strings.ToUpper(h)
	}
	args = append(args, h)
	x.State(core.HashStr(args...))
	d := ref.Unmarshal(b, dir)
	r := c30exec(x, "smsdecode", args...)
	desc := fmt.Sprintf("smsdecode %v", args)
	if !d.OK {
		if r.code == 0 || strings.TrimSpace(r.err) == "" {
			x.Failf("%s: exit %d, %q; the TPDU is not valid (%s)", desc, r.code, r.out+r.err, d.Field)
		}
		return
	}
	if r.code != 0 {
		x.Failf("%s: exit %d: %s", desc, r.code, r.err)
	}
	if pm > 0 {
		g := c30lines(r.out)["SMSC"]
		if len(g) != 1 || g[0] != smsc {
			x.Failf("%s: SMSC: %q; want %q", desc, g, smsc)
		}
	}
	c30compare(x, desc, r.out, &d.T)
}

func c30decode(x *X) {
	c := corpus()
	st := smsTypes[x.Choose(6)]
	k := x.Choose(4)
	var b []byte
	switch k {
	case 0:
		p := c[x.Choose(len(c))]
		if x.Bool() {
			c30check(x, p.b, p.dir, x.Choose(8), x.Bool())
			return
		}
		st, b = p.st, p.b
		b = append([]byte{b[0] ^ 4 ^ 0x20}, b[1:]...)
		c30check(x, b, st.Direction(), 0, false)
		return
	case 1: // flags
		t := base(st)
		for _, f := range flagBits(st) {
			if x.Bool() {
				t.FirstOctet |= tpdu.FirstOctet(f)
			}
		}
		if optional(st) {
			t.PI = tpdu.PI(x.Choose(8))
		}
		b, _ = ref.Marshal(&t)
	case 2: // periods, addresses, schemes
		t := base(st)
		if st == tpdu.SmsSubmit {
			t.VP = tVPs[x.Choose(len(tVPs))]
			t.FirstOctet |= tpdu.FirstOctet(t.VP.Format) << 3
		}
		setAddr(&t, st, tAddrs[x.Choose(len(tAddrs))])
		if optional(st) {
			t.PI = 7
		}
		if hasDCS(st) {
			t.DCS = tpdu.DCS(tDCSs[x.Choose(len(tDCSs))])
		}
		t.UD = udFor(byte(t.DCS), x.Int(0, 1, 17, 40))
		b, _ = ref.Marshal(&t)
	case 3: // headers
		t := base(st)
		if optional(st) {
			t.PI = 7
		}
		t.UDH = cloneUDH(tUDHs[x.Choose(len(tUDHs))])
		if t.UDH != nil {
			t.FirstOctet |= 0x40
		}
		t.UD = udFor(byte(t.DCS), x.Int(0, 1, 17, 90))
		t.MR, t.PID, t.CT, t.MN, t.ST, t.FCS = 0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc
		if st == tpdu.SmsDeliver || isReport(st) {
			t.MR = 0
		}
		b, _ = ref.Marshal(&t)
	}
	if b == nil {
		return
	}
	c30check(x, b, st.Direction(), x.Choose(2), false)
}

// c30one is a valid SMS-DELIVER.
var c30one = func() string {
	t := base(tpdu.SmsDeliver)
	t.OA = tpdu.Address{TOA: 0x91, Addr: "12345"}
	t.UD = []byte{0x41, 0x42}
	b, ok := ref.Marshal(&t)
	if !ok {
		panic("c30")
	}
	return hex.EncodeToString(b)
}()

func c30invalid(x *X) {
	c := corpus()
	if x.Bool() {
		a := [][]string{{}, {"zz"}, {"0"}, {""}, {"00", "00"}, {"-p", ""}, {"-p", "07911614220991"}, {"-p", "zz"}, {"-x"}, {"-o", "0g"}, {"-p", "-o", "00"}, {"-p", "ff91"}, {"04 04"}, {"-p", "0391f143010005912143f500000bc8329bfd06dddf723619"}, {c30one, c30one}, {"-p", "00" + c30one, "00"}, {"-p", "03912143" + c30one, ""}, {c30one + "0"}, {"-p", "00" + c30one + "0"}}[x.Choose(19)]
		x.State(core.HashStr(a...))
		r := c30exec(x, "smsdecode", a...)
		if r.code == 0 || r.out != "" {
			x.Failf("smsdecode %q: exit %d, %q", a, r.code, r.out)
		}
		if strings.TrimSpace(r.err) == "" {
			x.Failf("smsdecode %q: no error printed", a)
		}
		for _, tool := range []string{"smsdeliver", "smssubmit", "smscounter"} {
			r := c30exec(x, tool, a...)
			if strings.TrimSpace(r.err) == "" && (tool != "smsdeliver" || len(a) < 2 || !strings.HasSuffix(a[1], c30one)) {
				x.Failf("%s %q: no error printed", tool, a)
			}
			if tool == "smsdeliver" && len(a) > 1 && strings.HasSuffix(a[1], c30one) {
				continue // takes several
			}
			if len(a) == 0 && r.code == 0 {
				x.Failf("%s without arguments: exit 0", tool)
			}
			if r.out != "" {
				x.Failf("%s %q: exit %d, prints %q", tool, a, r.code, r.out)
			}
		}
		return
	}
	// PDUs: thorough all of the corpus, quick every third
	step := x.Pick(3, 1)
	p := c[step*x.Choose((len(c)+step-1)/step)]
	b := append([]byte(nil), p.b...)
	switch x.Choose(3) {
	case 0:
		b = b[:x.Choose(len(b)+1)]
	case 1:
		i := x.Choose(len(b))
		b = append(b[:i:i], b[i+1:]...)
	case 2:
		i := x.Choose(len(b))
		if i < 3 && x.Thorough() {
			b[i] = byte(x.Choose(256))
		} else {
			b[i] = []byte{0, 0xff, b[i] ^ 0x40, b[i] + 1}[x.Choose(4)]
		}
	}
	c30check(x, b, p.dir, 0, false)
}

var c30title = regexp.MustCompile(`(?i)(locking|shift)\b.*\b(\d+)\)`)

func c30charsets(x *X) {
	r := c30exec(x, "charsets")
	if r.code != 0 {
		x.Failf("charsets: exit %d, %.300s", r.code, r.err)
	}
	seen := 0
	var t *ref.Table
	name := ""
	row := 0
	for _, l := range strings.Split(r.out, "\n") {
		if m := c30title.FindStringSubmatch(l); m != nil {
			if t != nil && row != 16 {
				x.Failf("charsets: the table %s has %d rows", name, row)
			}
			n := 0
			fmt.Sscan(m[2], &n)
			if n != seen/2 || strings.EqualFold(m[1], "shift") != (seen%2 == 1) {
				x.Failf("charsets: table %d is titled %q", seen, l)
			}
			t, name, row = ref.LockTable(n), l, 0
			if seen%2 == 1 {
				t = ref.ShiftTable(n)
			}
			seen++
			x.State(uint64(seen))
			continue
		}
		if !strings.HasPrefix(l, "0x_") || t == nil {
			continue
		}
		if pre := fmt.Sprintf("0x_%x: ", row); !strings.HasPrefix(l, pre) || row > 15 {
			x.Failf("charsets: row %d of %s is %q", row, name, l)
		}
		c := []rune(l[6:])
		for i := 0; i < 8; i++ {
			cell := ""
			if len(c) >= 5 {
				cell = strings.TrimSpace(string(c[:5]))
				c = c[5:]
			}
			k := byte(i<<4 | row)
			want := ""
			if v := t[k]; v >= 0 {
				switch {
				case v == '\n':
					want = "LF"
				case v == '\r':
					want = "CR"
				case v == '\f':
					want = "FF"
				case v == ' ':
					want = "SP"
				case v == 0x1b:
					want = "ESC"
				case v == 0x20ac || v < 0x400:
					want = strings.TrimSpace(string(v))
				default:
					want = fmt.Sprintf("%04x", v)
				}
			}
			x.Op()
			if cell != want {
				x.Failf("charsets: code %02x of %s is shown as %q; want %q", k, name, cell, want)
			}
		}
		row++
	}
	if seen != 28 || row != 16 {
		x.Failf("charsets: %d tables, the last of %d rows", seen, row)
	}
}

func c30values(x *X) {
	st := smsTypes[x.Choose(6)]
	t := base(st)
	if optional(st) {
		t.PI = 7
	}
	switch x.Choose(5) {
	case 0:
		v := byte(x.Choose(256))
		switch x.Choose(7) {
		case 0:
			t.PID = v
		case 1:
			if !hasDCS(st) {
				t.CT = v
				break
			}
			t.DCS = tpdu.DCS(v)
			t.UD = udFor(v, 3)
		case 2:
			switch st {
			case tpdu.SmsSubmit, tpdu.SmsCommand, tpdu.SmsStatusReport:
				t.MR = v
			default:
				return
			}
		case 3:
			switch st {
			case tpdu.SmsCommand:
				t.MN = v
			case tpdu.SmsStatusReport:
				t.ST = v
			case tpdu.SmsDeliverReport, tpdu.SmsSubmitReport:
				if v == 0 {
					return
				}
				t.FCS = v
			default:
				return
			}
		case 4: // periods
			if st != tpdu.SmsSubmit {
				return
			}
			t.VP.SetRelative(ref.RelDuration(v))
			t.FirstOctet |= 0x10
		case 5:
			if st != tpdu.SmsSubmit {
				return
			}
			t.VP.SetEnhanced(time.Duration(v)*time.Second, 2)
			t.FirstOctet |= 0x08
		case 6:
			if st != tpdu.SmsSubmit {
				return
			}
			t.VP.SetEnhanced(time.Duration(v)*1409*time.Second, 3)
			t.FirstOctet |= 0x08
		}
	case 1: // elements
		n := x.Choose(41)
		for i := 0; i < n; i++ {
			t.UDH = append(t.UDH, tpdu.InformationElement{ID: byte(0x70 + i), Data: octets(i % 3)})
		}
		t.FirstOctet |= 0x40
		t.UD = octets(3)
		t.DCS = tpdu.Dcs8BitData
	case 2:
		t.DCS = tpdu.Dcs8BitData
		t.UD = octets(x.Choose(141))
	case 3:
		if !hasAddr(st) {
			return
		}
		if x.Bool() {
			setAddr(&t, st, tpdu.Address{TOA: 0x91, Addr: digits(x.Choose(41))})
		} else {
			setAddr(&t, st, tpdu.Address{TOA: 0xd0, Addr: strings.Repeat("Alice@x.Bob-", 4)[:x.Choose(41)]})
		}
	case 4: // one element of every length
		t.UDH = tpdu.UserDataHeader{{ID: 0x24, Data: octets(x.Choose(131))}}
		t.FirstOctet |= 0x40
		t.UD = octets(2)
		t.DCS = tpdu.Dcs8BitData
	}
	b, ok := ref.Marshal(&t)
	if !ok {
		return
	}
	c30check(x, b, st.Direction(), 0, false)
}
