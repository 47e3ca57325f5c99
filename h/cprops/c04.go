package cprops

import (
	"fmt"
	"strings"

	"verif.local/h/core"
	"verif.local/h/props"
	"verif.local/h/sched"
	"verif.local/h/touch"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
)

func init() {
	core.Register("C04",
		schedules("C04", "pairs", "all interleavings with at most 2 (3 thorough) preemptions of 2 threads of 1 call each: every pair of 17 calls on each of 5 encoders, and of 5 calls on one with room for more options (thorough: on each of 9)", c04pairs),
		schedules("C04", "programs", "all interleavings of 2 threads of 2 calls, 3 threads of 1 call (thorough: of 2), with readers of the counters, encoders copied or sharing their counters, and 8/16 bit references straight from the segmentation", c04programs),
	)
	warm["C04"] = func() {
		for i := 0; i < props.NCalls(); i++ {
			m, o := props.CallArgs(i)
			sms.Encode(m, o...)
		}
	}
}

// What a thread does.
type encOp struct {
	enc  int // which of the program's encoders
	call int // which call; -1 reads the counters
	raw  bool
	wide bool
}

type encProgram struct {
	name    string
	encs    []int
	copies  bool // each thread has its own copy of the encoder
	share   bool // all encoders share the counters of the first
	threads [][]encOp
	bound   int
}

type encEvent struct {
	op        encOp
	inv, resp int64
	out       []tpdu.TPDU
	err       error
	mr, cr    int
	thread    string
}

func (p *encProgram) str(o encOp) string {
	s := ""
	if len(p.encs) > 1 {
		s = fmt.Sprintf("e%d.", o.enc+1)
	}
	switch {
	case o.call < 0:
		return s + "read"
	case o.raw && o.wide:
		return s + "segment16"
	case o.raw:
		return s + "segment8"
	}
	return s + props.CallName(o.call)
}

func (p *encProgram) scenario() sched.Scenario {
	var s []string
	for _, t := range p.threads {
		var l []string
		for _, o := range t {
			l = append(l, p.str(o))
		}
		s = append(s, strings.Join(l, ", "))
	}
	p.name = strings.Join(s, " | ")
	for i, e := range p.encs {
		n := props.EncName(e)
		if i > 0 {
			n += " + "
		}
		p.name = n + ": " + p.name
	}
	if p.copies {
		p.name = "copies of " + p.name
	}
	if p.share {
		p.name = "shared counters, " + p.name
	}
	return sched.Scenario{Name: p.name, Bound: p.bound, Make: p.make}
}

// the message and template of calls of the segmentation itself
var rawMsg = func() []byte {
	b := make([]byte, 141)
	for i := range b {
		b[i] = byte(i)
	}
	return b
}()

func rawTmpl() tpdu.TPDU { return tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 1, DCS: 4} }

func (p *encProgram) make() *sched.Inst {
	var encs []*sms.Encoder
	var chks []func() string
	mr0, cr0 := make([]int, len(p.encs)), make([]int, len(p.encs))
	for i, k := range p.encs {
		e, chk := props.NewEnc(k)
		mr0[i], cr0[i] = props.EncStart(k)
		mc, cc := &sms.Counter{}, &sms.Counter{}
		for j := 0; j < mr0[i]; j++ {
			mc.Count()
		}
		for j := 0; j < cr0[i]; j++ {
			cc.Count()
		}
		if mr0[i]+cr0[i] > 0 {
			e.MsgCount, e.ConcatRef = mc, cc
		}
		if p.share && i > 0 {
			e.MsgCount, e.ConcatRef = encs[0].MsgCount, encs[0].ConcatRef
			mr0[i], cr0[i] = mr0[0], cr0[0]
		}
		encs = append(encs, e)
		chks = append(chks, chk)
	}
	// what the callers share: messages and options
	type argsT struct {
		msg  []byte
		opts []sms.EncoderOption
	}
	args := map[int]argsT{}
	for _, t := range p.threads {
		for _, o := range t {
			if o.call >= 0 && !o.raw {
				m, op := props.CallArgs(o.call)
				args[o.call] = argsT{m, op}
			}
		}
	}
	tmpl := rawTmpl()
	logs := make([][]encEvent, len(p.threads))
	in := &sched.Inst{}
	for i, prog := range p.threads {
		i, prog := i, prog
		mine := encs
		if p.copies {
			mine = nil
			for _, e := range encs {
				c := *e
				mine = append(mine, &c)
			}
		}
		as := make([]argsT, len(prog))
		for j, o := range prog {
			as[j] = args[o.call]
		}
		log := make([]encEvent, len(prog))
		in.Threads = append(in.Threads, func(t *sched.Thread) {
			for j, o := range prog {
				ev := encEvent{op: o, thread: t.Name}
				e := mine[o.enc]
				ev.inv, ev.resp = t.Call(func() {
					switch {
					case o.call < 0:
						ev.mr, ev.cr = e.MsgCount.(interface{ Read() int }).Read(), e.ConcatRef.(interface{ Read() int }).Read()
					case o.raw:
						so := []tpdu.SegmentationOption{tpdu.WithMR(e.MsgCount), tpdu.WithConcatRef(e.ConcatRef)}
						if o.wide {
							so = append(so, tpdu.With16BitConcatRef)
						}
						ev.out = touch.TPDUs(tmpl.Segment(rawMsg, so...))
					default:
						ev.out, ev.err = e.Encode(as[j].msg, as[j].opts...)
						ev.out = touch.TPDUs(ev.out)
					}
				})
				log[j] = ev
			}
			logs[i] = log
		})
	}
	var events []*encEvent
	in.History = func() (h []string) {
		for _, e := range events {
			s := fmt.Sprintf("%s: %s [%d,%d]:", e.thread, p.str(e.op), e.inv, e.resp)
			if e.op.call < 0 {
				s += fmt.Sprintf(" %d, %d", e.mr, e.cr)
			} else {
				s += fmt.Sprintf(" %v, references", e.err)
				for j := range e.out {
					s += fmt.Sprintf(" %d", e.out[j].MR)
					if n := len(e.out[j].UDH); n > 0 {
						s += fmt.Sprintf(" (%x)", e.out[j].UDH[n-1].Data)
					}
				}
			}
			h = append(h, s)
		}
		return
	}
	in.Check = func(w *sched.World, o *sched.Outcome) string {
		for _, l := range logs {
			for i := range l {
				events = append(events, &l[i])
			}
		}
		groups := [][]int{}
		for i := range encs {
			if p.share && i > 0 {
				groups[0] = append(groups[0], i)
			} else {
				groups = append(groups, []int{i})
			}
		}
		for _, g := range groups {
			if d := p.judge(encs[g[0]], mr0[g[0]], cr0[g[0]], g, events); d != "" {
				return d
			}
		}
		for _, chk := range chks {
			if d := chk(); d != "" {
				return "the template was altered: " + d
			}
		}
		return ""
	}
	in.Hash = func() uint64 {
		h := uint64(len(events))
		for _, e := range events {
			h = core.Mix(h ^ uint64(e.mr) ^ uint64(e.cr)<<20)
			for j := range e.out {
				h = core.Mix(h + uint64(e.out[j].MR))
				for _, ie := range e.out[j].UDH {
					h = core.Mix(h + core.Hash(ie.Data))
				}
			}
		}
		return h
	}
	return in
}

// judge checks the calls that used the same counters.
func (p *encProgram) judge(e *sms.Encoder, mr0, cr0 int, group []int, events []*encEvent) string {
	type num struct {
		v         int
		inv, resp int64
		what      string
	}
	var mrs, crs []num
	for _, ev := range events {
		mine := false
		for _, g := range group {
			mine = mine || ev.op.enc == g
		}
		if !mine || ev.op.call < 0 {
			continue
		}
		what := fmt.Sprintf("%s: %s", ev.thread, p.str(ev.op))
		// the numbers it was given
		i, cr := 0, -1
		wide := ev.op.raw && ev.op.wide
		mrf := func() int {
			v := 0
			if i < len(ev.out) {
				v = int(ev.out[i].MR)
			}
			i++
			return v
		}
		crf := func() int {
			if len(ev.out) > 0 {
				if h := ev.out[0].UDH; len(h) > 0 {
					d := h[len(h)-1].Data
					switch {
					case wide && len(d) == 4:
						cr = int(d[0])<<8 | int(d[1])
					case !wide && len(d) == 3:
						cr = int(d[0])
					}
				}
			}
			if cr < 0 {
				cr = 0
			}
			return cr
		}
		var want []tpdu.TPDU
		ok := true
		if ev.op.raw {
			want = props.WantPDUs(rawTmpl(), rawMsg, wide, mrf, crf)
		} else {
			want, ok = props.CallWant(p.encs[ev.op.enc], ev.op.call, mrf, crf)
		}
		if ok != (ev.err == nil) || !ok && len(ev.out) != 0 {
			return fmt.Sprintf("%s: %d TPDUs, error %v; want error %v", what, len(ev.out), ev.err, !ok)
		}
		if d := props.DiffPDUs(ev.out, want); d != "" {
			return what + ": " + d
		}
		prev := -1
		for j := range ev.out {
			// in turn, modulo 256
			v := (int(ev.out[j].MR) - mr0 - 1) & 0xff
			if v <= prev {
				return fmt.Sprintf("%s: TPDU %d has message reference %d, after %d", what, j+1, ev.out[j].MR, ev.out[j-1].MR)
			}
			prev = v
			mrs = append(mrs, num{v, ev.inv, ev.resp, what})
		}
		if cr >= 0 {
			crs = append(crs, num{(cr - cr0 - 1) & 0xff, ev.inv, ev.resp, what})
			if wide {
				crs[len(crs)-1].v = (cr - cr0 - 1) & 0xffff
			}
		}
	}
	for k, l := range [][]num{mrs, crs} {
		kind := "message"
		if k == 1 {
			kind = "concatenation"
		}
		used := make([]int, len(l))
		for i, n := range l {
			if n.v >= len(l) {
				return fmt.Sprintf("%s took %s reference number %d of %d", n.what, kind, n.v+1, len(l))
			}
			if used[n.v] != 0 {
				return fmt.Sprintf("%s and %s share %s reference number %d", l[used[n.v]-1].what, n.what, kind, n.v+1)
			}
			used[n.v] = i + 1
		}
		for _, a := range l {
			for _, b := range l {
				if a.resp < b.inv && a.v > b.v {
					return fmt.Sprintf("%s took %s reference number %d before %s took number %d", a.what, kind, a.v+1, b.what, b.v+1)
				}
			}
		}
		final := e.MsgCount.(interface{ Read() int }).Read() - mr0
		if k == 1 {
			final = e.ConcatRef.(interface{ Read() int }).Read() - cr0
		}
		if final != len(l) {
			return fmt.Sprintf("the %s counter advanced by %d, for %d references", kind, final, len(l))
		}
		// readers
		for _, ev := range events {
			if ev.op.call >= 0 || ev.op.enc != group[0] {
				continue
			}
			v := ev.mr - mr0
			if k == 1 {
				v = ev.cr - cr0
			}
			lo, hi := 0, 0
			for _, n := range l {
				if n.resp < ev.inv {
					lo++
				}
				if n.inv < ev.resp {
					hi++
				}
			}
			if v < lo || v > hi {
				return fmt.Sprintf("%s: the %s counter reads %d, when between %d and %d were used", ev.thread, kind, v, lo, hi)
			}
		}
	}
	return ""
}

var c04charset = map[string]bool{"short": true, "turkish": true, "long turkish": true, "portuguese shift": true, "all charsets": true}

func c04pairs(tier int) (out []sched.Scenario) {
	encs := []string{"plain", "header with spare capacity", "two elements, charsets", "counters about to wrap", "8-bit header"}
	if tier > 0 {
		encs = append(encs, "submit", "all fields", "three charset options", "deliver, all charsets")
	}
	// options added by calls to an encoder with room for more
	room := "three charset options"
	if tier == 0 {
		encs = append(encs, room)
	}
	for _, en := range encs {
		e := props.EncIndex(en)
		for i := 0; i < props.NCalls(); i++ {
			for j := i; j < props.NCalls(); j++ {
				if tier == 0 && en == room && !(c04charset[props.CallName(i)] && c04charset[props.CallName(j)]) {
					continue
				}
				p := &encProgram{encs: []int{e}, threads: [][]encOp{{{call: i}}, {{call: j}}}, bound: pick(tier, 2, 3)}
				// where dozens of tables are looked up
				if en == room || strings.Contains(en+props.CallName(i)+props.CallName(j), "charsets") {
					p.bound = 2
				}
				out = append(out, p.scenario())
			}
		}
	}
	return
}

func c04programs(tier int) (out []sched.Scenario) {
	add := func(p *encProgram) {
		s := p.scenario()
		if strings.Contains(s.Name, "all charsets") && s.Bound > 1 {
			s.Bound = 1
		}
		out = append(out, s)
	}
	call := func(n string) encOp {
		switch n {
		case "read":
			return encOp{call: -1}
		case "segment8":
			return encOp{raw: true}
		case "segment16":
			return encOp{raw: true, wide: true}
		}
		return encOp{call: props.CallIndex(n)}
	}
	on := func(e int, o encOp) encOp { o.enc = e; return o }
	spare, wrap, eight := props.EncIndex("header with spare capacity"), props.EncIndex("counters about to wrap"), props.EncIndex("8-bit header")
	// alphabets whose calls use the counters only
	var al []encOp
	for _, n := range []string{"8-bit", "long UCS-2", "segment8", "read"} {
		al = append(al, call(n))
	}
	var two, one [][]encOp
	for _, a := range al {
		one = append(one, []encOp{a})
		for _, b := range al {
			two = append(two, []encOp{a, b})
		}
	}
	for _, e := range []int{wrap, eight} {
		for i, a := range two {
			for _, b := range two[i:] {
				add(&encProgram{encs: []int{e}, threads: [][]encOp{a, b}, bound: pick(tier, 4, -1)})
			}
		}
		for i, a := range one {
			for j, b := range one[i:] {
				for _, c := range one[i+j:] {
					add(&encProgram{encs: []int{e}, threads: [][]encOp{a, b, c}, bound: pick(tier, 3, -1)})
				}
			}
		}
	}
	w := call("segment16")
	for _, n := range []int{2, 3} {
		var ts [][]encOp
		for i := 0; i < n; i++ {
			ts = append(ts, []encOp{w})
		}
		add(&encProgram{encs: []int{wrap}, threads: ts, bound: pick(tier, 4, -1)})
		add(&encProgram{encs: []int{eight}, threads: append(ts, []encOp{call("read")}), bound: pick(tier, 3, 5)})
	}
	add(&encProgram{encs: []int{eight}, threads: [][]encOp{{w, w}, {w, call("read")}}, bound: pick(tier, 4, -1)})
	// several encoders
	for _, a := range []string{"8-bit", "long UCS-2", "segment8"} {
		for _, b := range []string{"8-bit", "long UCS-2"} {
			A, B := call(a), call(b)
			for _, share := range []bool{false, true} {
				add(&encProgram{encs: []int{wrap, eight}, share: share, threads: [][]encOp{{A, on(1, B)}, {on(1, A), B}}, bound: pick(tier, 4, -1)})
				add(&encProgram{encs: []int{wrap, eight}, share: share, threads: [][]encOp{{A}, {on(1, B)}, {on(1, A)}}, bound: pick(tier, 3, -1)})
			}
			add(&encProgram{encs: []int{wrap}, copies: true, threads: [][]encOp{{A, B}, {B, A}}, bound: pick(tier, 4, -1)})
			add(&encProgram{encs: []int{spare}, copies: true, threads: [][]encOp{{A}, {B}, {A}}, bound: pick(tier, 3, -1)})
		}
	}
	// texts
	texts := []string{"long", "turkish", "portuguese shift", "header"}
	if tier > 0 {
		texts = append(texts, "all charsets", "template", "submit to")
	}
	var tw [][]encOp
	for _, a := range texts {
		for _, b := range texts {
			if a != b {
				tw = append(tw, []encOp{call(a), call(b)})
			}
		}
	}
	for _, e := range []int{spare, props.EncIndex("two elements, charsets")} {
		for i, a := range tw {
			for _, b := range tw[i:] {
				add(&encProgram{encs: []int{e}, threads: [][]encOp{a, b}, bound: pick(tier, 1, 2)})
			}
		}
		for i := range texts {
			for j := range texts[i:] {
				for k := range texts[i+j:] {
					a, b, c := texts[i], texts[i+j], texts[i+j+k]
					add(&encProgram{encs: []int{e}, threads: [][]encOp{{call(a)}, {call(b)}, {call(c)}}, bound: pick(tier, 1, 2)})
				}
			}
		}
	}
	return
}
