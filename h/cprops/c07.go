package cprops

import (
	"fmt"
	"strings"

	"verif.local/h/core"
	"verif.local/h/sched"
)

func init() {
	core.Register("C07",
		schedules("C07", "untimed", "all interleavings of all pairs of 2-call programs, and all triples (quadruples thorough) of single calls, over {both parts of a message, part of another, snapshot, close, single}, no timeout", c07untimed),
		schedules("C07", "timed", "all interleavings (2, thorough 3 preemptions; any number of timer firings) of pairs of 2-call programs with a running timeout, 0 or 1 part already received, handler nil / recording / calling Pipes, Collect or Close", c07timed),
		schedules("C07", "crowd", "3 (thorough 4) threads racing to complete a message while its timeout fires, with snapshot and close", c07crowd),
	)
	core.Register("C06",
		schedules("C06", "schedules", "all interleavings (3 preemptions, thorough unbounded) of arrivals with the firing and the callbacks of their timeouts: 1..2 threads of 1..3 calls on messages of 2 and 3 parts", c06sched),
	)
	core.Register("C08",
		schedules("C08", "schedules", "all interleavings (3 preemptions, thorough unbounded; 2 and 3 when the handler calls back) of 1..2 closing threads with arrivals, snapshots and expiring timeouts, closing from the handler included", c08sched),
	)
	core.Register("C05",
		schedules("C05", "schedules", "all interleavings of 2..3 threads delivering the parts of one or two messages, duplicates included, no timeout", c05sched),
	)
}

var (
	cA1 = opC(short("A1", part("1", 1, 2, 1)))
	cA2 = opC(short("A2", part("1", 1, 2, 2)))
	cB1 = opC(short("B1", part("2", 1, 2, 1)))
	cB2 = opC(short("B2", part("2", 1, 2, 2)))
	cT1 = opC(short("T1", part("3", 1, 3, 1)))
	cT2 = opC(short("T2", part("3", 1, 3, 2)))
	cT3 = opC(short("T3", part("3", 1, 3, 3)))
	cS  = opC(short("single", c06segs[5]))
	cM  = opC(short("malformed", part("1", 1, 2, 3)))
)

func short(n string, s seg) seg { s.name = n; return s }

func names(ops []cop) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.name)
	}
	return strings.Join(s, ",")
}

func (p *collProgram) named() *collProgram {
	var s []string
	for _, t := range p.threads {
		s = append(s, names(t))
	}
	p.name = strings.Join(s, " | ")
	if len(p.setup) > 0 {
		p.name = names(p.setup) + " then " + p.name
	}
	if p.timeout {
		p.name += fmt.Sprintf(" (timeout, handler %d %s)", p.handler, names(p.hops))
	}
	return p
}

// progs lists all programs of n calls.
func progs(al []cop, n int) [][]cop {
	if n == 0 {
		return [][]cop{nil}
	}
	var out [][]cop
	for _, p := range progs(al, n-1) {
		for _, o := range al {
			out = append(out, append(append([]cop{}, p...), o))
		}
	}
	return out
}

// combos lists the multisets of k programs.
func combos(ps [][]cop, k int) [][][]cop {
	var out [][][]cop
	var rec func(from int, cur [][]cop)
	rec = func(from int, cur [][]cop) {
		if len(cur) == k {
			out = append(out, append([][]cop{}, cur...))
			return
		}
		for i := from; i < len(ps); i++ {
			rec(i, append(cur, ps[i]))
		}
	}
	rec(0, nil)
	return out
}

func pick(tier, q, t int) int {
	if tier > 0 {
		return t
	}
	return q
}

func c07untimed(tier int) (out []sched.Scenario) {
	al := []cop{cA1, cA2, cB1, opP, opX, cS}
	for _, ts := range combos(progs(al, 2), 2) {
		p := &collProgram{threads: ts, bound: -1}
		out = append(out, p.named().scenario())
	}
	al = []cop{cA1, cA2, cB1, cB2, opP, opX}
	for k := 3; k <= pick(tier, 3, 4); k++ {
		for _, ts := range combos(progs(al, 1), k) {
			p := &collProgram{threads: ts, bound: -1}
			out = append(out, p.named().scenario())
			p = &collProgram{threads: ts, bound: -1, setup: []cop{cA1}}
			out = append(out, p.named().scenario())
		}
	}
	if tier > 0 {
		al = []cop{cA1, cA2, opP, opX}
		for _, ts := range combos(progs(al, 2), 3) {
			p := &collProgram{threads: ts, bound: 3}
			out = append(out, p.named().scenario())
		}
	}
	return
}

var handlerKinds = []struct {
	h    int
	hops []cop
}{
	{0, nil}, {1, nil}, {1, []cop{opP}}, {1, []cop{cA1}}, {1, []cop{cA2, opP}}, {1, []cop{opX}},
}

func c07timed(tier int) (out []sched.Scenario) {
	al := []cop{cA1, cA2, opP, opX}
	two, one := progs(al, 2), progs(al, 1)
	for hi, hk := range handlerKinds {
		for _, setup := range [][]cop{nil, {cA1}, {cB1}} {
			var pairs [][][]cop
			bound := pick(tier, 2, 3)
			switch {
			case hi < 2 && (tier > 0 || setup == nil || setup[0].name == "A1" || hi == 1):
				pairs = combos(two, 2)
			case tier > 0:
				pairs = combos(two, 2)
				bound = 2
			case setup != nil && setup[0].name == "A1":
				for _, a := range two {
					for _, b := range one {
						pairs = append(pairs, [][]cop{a, b})
					}
				}
			}
			for _, ts := range pairs {
				p := &collProgram{threads: ts, bound: bound, timeout: true, handler: hk.h, hops: hk.hops, setup: setup}
				out = append(out, p.named().scenario())
			}
		}
	}
	return
}

func c07crowd(tier int) (out []sched.Scenario) {
	al := []cop{cT1, cT2, cT3, opP, opX}
	for _, hk := range handlerKinds[:pick(tier, 2, 3)] {
		for k := 3; k <= pick(tier, 3, 4); k++ {
			for _, ts := range combos(progs(al, 1), k) {
				for _, setup := range [][]cop{nil, {cT1}} {
					p := &collProgram{threads: ts, bound: pick(tier, 3, 4), timeout: true, handler: hk.h, hops: hk.hops, setup: setup}
					out = append(out, p.named().scenario())
				}
			}
		}
	}
	return
}

func c06sched(tier int) (out []sched.Scenario) {
	al := []cop{cT1, cT2, cT3, opP}
	b := pick(tier, 3, -1)
	for _, hk := range handlerKinds[:2] {
		for _, pr := range progs(al, 3) {
			p := &collProgram{threads: [][]cop{pr}, bound: b, timeout: true, handler: hk.h}
			out = append(out, p.named().scenario())
		}
		for _, setup := range [][]cop{{cT1}, {cT1, cT2}, {cT1, cA1}} {
			for _, ts := range combos(progs([]cop{cT1, cT2, cT3, cA2}, 1), 2) {
				p := &collProgram{threads: ts, bound: b, timeout: true, handler: hk.h, setup: setup}
				out = append(out, p.named().scenario())
			}
		}
		for _, a := range progs([]cop{cT2, cT3, cA1, cA2}, 2) {
			p := &collProgram{threads: [][]cop{a, {cT1}}, bound: pick(tier, 3, 5), timeout: true, handler: hk.h, setup: []cop{cA1}}
			out = append(out, p.named().scenario())
		}
	}
	return
}

func c08sched(tier int) (out []sched.Scenario) {
	al := []cop{cA1, cA2, opP, cS, cM, opX}
	b := pick(tier, 3, -1)
	for hi, hk := range handlerKinds {
		for si, setup := range [][]cop{{cA1}, {cA1, cB1}, {cA1, opX}} {
			b := b
			if hi > 1 {
				b = pick(tier, 2, 3)
				if tier == 0 && si == 1 {
					continue
				}
			}
			for _, a := range progs(al, 2) {
				p := &collProgram{threads: [][]cop{a, {opX}}, bound: b, timeout: true, handler: hk.h, hops: hk.hops, setup: setup}
				out = append(out, p.named().scenario())
			}
			p := &collProgram{threads: [][]cop{{opX, cA1}, {opX, opP}, {cA2}}, bound: pick(tier, 2, 3), timeout: true, handler: hk.h, hops: hk.hops, setup: setup}
			out = append(out, p.named().scenario())
		}
	}
	for _, a := range progs(al, 2) {
		p := &collProgram{threads: [][]cop{a, {opX}}, bound: -1, setup: []cop{cA1}}
		out = append(out, p.named().scenario())
	}
	return
}

func c05sched(tier int) (out []sched.Scenario) {
	al := []cop{cT1, cT2, cT3, cA1, cA2, cS}
	for _, ts := range combos(progs(al, 1), 3) {
		for _, setup := range [][]cop{nil, {cT1}, {cT1, cT3, cA1}} {
			p := &collProgram{threads: ts, bound: -1, setup: setup}
			out = append(out, p.named().scenario())
		}
	}
	for _, ts := range combos(progs([]cop{cT1, cT2, cT3, cA1, cA2}, 2), 2) {
		p := &collProgram{threads: ts, bound: -1}
		out = append(out, p.named().scenario())
	}
	if tier > 0 {
		for _, ts := range combos(progs([]cop{cT1, cT2, cT3}, 2), 3) {
			p := &collProgram{threads: ts, bound: 4}
			out = append(out, p.named().scenario())
		}
	}
	return
}
