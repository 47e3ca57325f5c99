package sched

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Inst is one execution of a scenario.
type Inst struct {
	Threads []func(t *Thread)
	Names   []string
	// Check judges the execution after it ended: what is wrong ("" if nothing).
	Check func(w *World, o *Outcome) string
	// History renders what was observed, after Check.
	History func() []string
	// Hash of the observable history, after Check.
	Hash func() uint64
}

// Scenario is a closed program of a few threads.
type Scenario struct {
	Name  string
	Group string // the sub-check it belongs to
	Prop  string
	Bound int // preemption bound; -1 for none
	// Make sets up one execution (in a world already started).
	Make func() *Inst
}

// Task is a part of a scenario's schedule tree.
type Task struct {
	Scn  int
	Ch   []int32
	N    []int32
	Base int
	// Limit-1 bounds the preemptions further, when positive.
	Limit int
}

// Limited tells whether a limit is below the scenario's own bound.
func (s *Scenario) Limited(limit int) bool { return s.Bound < 0 || limit-1 < s.Bound }

// TaskResult is what exploring a task gave.
type TaskResult struct {
	Task     int
	Execs    int64
	Steps    int64
	MaxPre   int
	Diverged int64
	Hashes   []uint64
	Rest     []Task
	Viol     string
	Sig      string
	Log      []string
	Stack    string
	Choices  []int32
	Sample   []string
}

type explorerState struct {
	ch, n []int32
	pos   int
	div   bool
}

func (e *explorerState) choose(n int) int {
	p := e.pos
	e.pos++
	if p < len(e.ch) {
		if e.n[p] == 0 {
			e.n[p] = int32(n)
		}
		if int(e.n[p]) != n {
			e.div = true
			return n // signals divergence
		}
		return int(e.ch[p])
	}
	e.ch = append(e.ch, 0)
	e.n = append(e.n, int32(n))
	return 0
}

// execOnce runs one schedule.
func execOnce(s *Scenario, e *explorerState) (o Outcome, w *World, in *Inst) {
	e.pos, e.div = 0, false
	RestoreVars()
	w = Start(s.Bound, e.choose)
	in = s.Make()
	for i, f := range in.Threads {
		f := f
		name := fmt.Sprintf("T%d", i+1)
		if i < len(in.Names) {
			name = in.Names[i]
		}
		var t *Thread
		t = w.Thread(name, func() { f(t) })
	}
	o = w.Run()
	return
}

func raceReport() string {
	pre := os.Getenv("VERIF_RACELOG")
	if pre == "" {
		return ""
	}
	fs, _ := filepath.Glob(fmt.Sprintf("%s.%d*", pre, os.Getpid()))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		s := string(b)
		if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
			s = s[i:]
			if len(s) > 3500 {
				s = s[:3500]
			}
			return s
		}
	}
	return ""
}

var execsSinceGC int

// RunTask explores a task for at most the given time, and returns what is left.
func RunTask(scns []Scenario, t Task, slice time.Duration) (r TaskResult) {
	sc := scns[t.Scn]
	s := &sc
	if t.Limit > 0 && s.Limited(t.Limit) {
		s.Bound = t.Limit - 1
	}
	e := &explorerState{ch: t.Ch, n: t.N}
	base := t.Base
	end := time.Now().Add(slice)
	seen := map[uint64]bool{}
	retries := 0
	for {
		o, w, in := execOnce(s, e)
		r.Execs++
		r.Steps += int64(o.Steps)
		if o.Preempts > r.MaxPre {
			r.MaxPre = o.Preempts
		}
		if execsSinceGC++; execsSinceGC > 3000 {
			execsSinceGC = 0
			runtime.GC()
		}
		if o.Err == "diverged" || e.div {
			r.Execs--
			if retries++; retries < 300 {
				continue
			}
			r.Diverged++
			retries = 0
			if e.pos > len(e.ch) {
				e.pos = len(e.ch)
			}
		} else {
			retries = 0
			msg, checked := "", false
			stack := ""
			switch {
			case o.Panic != "":
				msg, stack = o.Panic, o.Stack
			case o.Deadlock != "":
				msg = "deadlock: " + o.Deadlock
			case o.Race:
				msg = "data race"
				stack = raceReport()
			default:
				msg = in.Check(w, &o)
				checked = true
				if in.Hash != nil {
					h := in.Hash()
					if !seen[h] {
						seen[h] = true
						r.Hashes = append(r.Hashes, h)
					}
				}
			}
			hist := func() []string {
				if checked && in.History != nil {
					return append([]string{}, in.History()...)
				}
				return nil
			}
			if msg != "" {
				r.Viol = s.Name + ": " + msg
				r.Log = append(append(hist(), "schedule:"), Describe(o.Trace)...)
				r.Stack = stack
				r.Choices = append([]int32(nil), e.ch[:min(e.pos, len(e.ch))]...)
				same := 0
				for i := 0; i < 3; i++ {
					if m, _, _ := ReplayOnce(s, r.Choices); m != "" {
						same++
					}
				}
				r.Log = append(r.Log, fmt.Sprintf("reproduced %d of 3 times when replayed (a race is reported only once)", same))
				return
			}
			if r.Sample == nil && t.Base == 0 && r.Execs == 3 {
				r.Sample = append(append([]string{s.Name}, hist()...), Describe(o.Trace)...)
			}
		}
		p := min(e.pos, len(e.ch)) - 1
		for ; p >= base; p-- {
			if e.ch[p]+1 < e.n[p] {
				break
			}
		}
		if p < base {
			return
		}
		e.ch[p]++
		e.ch = e.ch[:p+1]
		e.n = e.n[:p+1]
		if time.Now().After(end) {
			// hand back what is left: the deepest part as is, and the
			// remaining alternatives of each level above
			for q := base; q <= p; q++ {
				last := e.ch[q]
				if q < p {
					last++
				}
				if last < e.n[q] {
					nt := Task{Scn: t.Scn, Limit: t.Limit, Ch: append(append([]int32(nil), e.ch[:q]...), last), N: append([]int32(nil), e.n[:q+1]...), Base: q}
					r.Rest = append(r.Rest, nt)
				}
			}
			return
		}
	}
}

// Child serves tasks on stdin.
func Child(scns []Scenario) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	SaveVars()
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 64<<20)
	out := bufio.NewWriter(os.Stdout)
	for in.Scan() {
		var q struct {
			ID    int
			Task  Task
			Slice int
		}
		if err := json.Unmarshal(in.Bytes(), &q); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		r := RunTask(scns, q.Task, time.Duration(q.Slice)*time.Millisecond)
		r.Task = q.ID
		sort.Slice(r.Hashes, func(a, b int) bool { return r.Hashes[a] < r.Hashes[b] })
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

// ReplayOnce runs one schedule and reports it.
func ReplayOnce(s *Scenario, ch []int32) (string, []string, string) {
	e := &explorerState{ch: append([]int32(nil), ch...), n: make([]int32, len(ch))}
	o, w, in := execOnce(s, e)
	tr := Describe(o.Trace)
	switch {
	case o.Panic != "":
		return o.Panic, tr, o.Stack
	case o.Deadlock != "":
		return "deadlock: " + o.Deadlock, tr, ""
	case o.Race:
		return "data race", tr, raceReport()
	}
	msg := in.Check(w, &o)
	if in.History != nil {
		tr = append(in.History(), tr...)
	}
	return msg, tr, ""
}
