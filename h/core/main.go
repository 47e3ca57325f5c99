package core

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Sub is one bounded exploration belonging to a property.
type Sub struct {
	Name string
	// Bound says what is enumerated.
	Bound string
	// ThoroughOnly subs are left out of the quick tier.
	ThoroughOnly bool
	Body         func(*X)
	// Custom explorations do their own enumeration.
	Custom func(*Run) Result
	// Workers limits parallelism (0: all CPUs).
	Workers int
}

// Run is what a custom exploration gets.
type Run struct {
	Prop     string
	Tier     int
	Deadline time.Time
	Set      interface{ AddState(uint64) bool }
	KnownSig func(prop, sig string) bool
}

// AddState records a state and reports whether it is new.
func (s *stateSet) AddState(h uint64) bool { return s.add(h) }

// Property is a set of explorations deciding one property.
type Property struct {
	ID          string
	Subs        []Sub
	Assumptions []string
	// Setup is called once before the explorations in the worker.
	Setup func(tier int)
}

var registry = map[string]*Property{}

// Register adds explorations to a property.
func Register(id string, subs ...Sub) {
	p := registry[id]
	if p == nil {
		p = &Property{ID: id}
		registry[id] = p
	}
	p.Subs = append(p.Subs, subs...)
}

// Assume adds assumptions to a property's evidence.
func Assume(id string, a ...string) {
	Register(id)
	registry[id].Assumptions = append(registry[id].Assumptions, a...)
}

// OnSetup registers a setup function for a property.
func OnSetup(id string, f func(tier int)) {
	Register(id)
	registry[id].Setup = f
}

// VerifDir is where /verif is.
func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type knownEntry struct{ prop, sig, text string }

func loadKnown() []knownEntry {
	var out []knownEntry
	f, err := os.Open(filepath.Join(VerifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// known: property=C10 sig=<sig> <text>
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		fs := strings.Fields(l)
		if len(fs) < 3 || !strings.HasPrefix(fs[1], "property=") || !strings.HasPrefix(fs[2], "sig=") {
			continue
		}
		out = append(out, knownEntry{fs[1][9:], fs[2][4:], strings.Join(fs[3:], " ")})
	}
	return out
}

// Main is the entry point of the check binaries.
//
//	bin PROP TIER        run the check (in a supervised child process)
//	bin -replay FILE     replay a violation verbosely
//	bin -list            list properties
func Main() {
	args := os.Args[1:]
	if len(args) == 1 && args[0] == "-list" {
		for id, p := range registry {
			for _, s := range p.Subs {
				fmt.Printf("%s\t%s\t%s\n", id, s.Name, s.Bound)
			}
		}
		return
	}
	if len(args) == 2 && args[0] == "-replay" {
		os.Exit(replayFile(args[1]))
	}
	if len(args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: PROP quick|thorough")
		os.Exit(3)
	}
	if len(args) >= 3 && args[2] == "-worker" {
		only := ""
		if len(args) > 3 {
			only = args[3]
		}
		os.Exit(work(args[0], args[1], only))
	}
	if registry[args[0]] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", args[0])
		os.Exit(3)
	}
	os.Exit(supervise(args[0], args[1], args[2:]))
}

// supervise runs the worker in a child, and turns a crash of the Go runtime
// (which cannot be recovered: concurrent map access, deadlock, stack overflow)
// into a violation.
func supervise(prop, tier string, rest []string) int {
	start := time.Now()
	exe, _ := os.Executable()
	a := append([]string{prop, tier, "-worker"}, rest...)
	cmd := exec.Command(exe, a...)
	var so, se bytes.Buffer
	cmd.Stdout = &so
	cmd.Stderr = &se
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	limit := 860 * time.Second
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	timer := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok && ee.Exited() {
			code = ee.ExitCode()
		}
	}
	os.Stdout.Write(so.Bytes())
	if code == 0 || code == 1 && strings.Contains(so.String(), "VIOLATION property=") {
		os.Stderr.Write(tail(se.Bytes(), 4000))
		return code
	}
	es := se.String()
	if strings.Contains(es, "fatal error:") && !strings.Contains(es, "out of memory") {
		v := Violation{Prop: prop, Sub: "(whole check)", Tier: tier, Msg: "the Go runtime aborted: " + firstLine(es, "fatal error:"),
			Stack: string(head(se.Bytes(), 20000)), Note: "re-run the check to reproduce"}
		path := writeReplay(v, 0)
		writeEvidence(prop, tier, start, nil, 1, nil, 0, false, registry[prop].Assumptions)
		fmt.Printf("%s\n", v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	os.Stderr.Write(head(se.Bytes(), 8000))
	fmt.Fprintf(os.Stderr, "worker ended with %v\n", err)
	return 3
}

func firstLine(s, pat string) string {
	i := strings.Index(s, pat)
	s = s[i:]
	if j := strings.IndexByte(s, '\n'); j >= 0 {
		s = s[:j]
	}
	return s
}

func tail(b []byte, n int) []byte {
	if len(b) > n {
		return b[len(b)-n:]
	}
	return b
}

func head(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func tierNum(t string) int {
	if t == "thorough" {
		return 1
	}
	return 0
}

// Budget is the wall time given to all explorations of one check.
func Budget(tier int) time.Duration {
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return time.Duration(n) * time.Second
		}
	}
	if tier > 0 {
		return 780 * time.Second
	}
	return 300 * time.Second
}

func work(prop, tier, only string) int {
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
	start := time.Now()
	p := registry[prop]
	if p == nil {
		return 3
	}
	tn := tierNum(tier)
	known := loadKnown()
	isKnown := func(pr, sig string) bool {
		for _, k := range known {
			if k.prop == pr && k.sig == sig {
				return true
			}
		}
		return false
	}
	if p.Setup != nil {
		p.Setup(tn)
	}
	set := newStateSet(24 << 20)
	end := start.Add(Budget(tn))
	var results []Result
	seenKnown := map[string]int64{}
	nviol := 0
	emit := func(v Violation) {
		nviol++
		v.Tier = tier
		path := writeReplay(v, nviol)
		fmt.Printf("-- %s/%s: %s\n", v.Prop, v.Sub, v.Msg)
		for _, l := range v.Log {
			fmt.Printf("     %s\n", l)
		}
		if v.Stack != "" {
			fmt.Printf("     at %s\n", LibFrames(v.Stack))
		}
		if v.Note != "" {
			fmt.Printf("     %s\n", v.Note)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Prop, path)
	}
	finish := func(ex bool) {
		writeEvidence(prop, tier, start, results, nviol, seenKnown, set.count(), set.capped.Load(), p.Assumptions)
	}
	var subs []Sub
	for _, s := range p.Subs {
		if (only == "" || s.Name == only) && (!s.ThoroughOnly || tn > 0) {
			subs = append(subs, s)
		}
	}
	for i, s := range subs {
		// an exploration leaves time for those after it
		deadline := end
		if i < len(subs)-1 {
			deadline = time.Now().Add(time.Until(end) * 7 / 10)
		}
		var r Result
		if s.Custom != nil {
			r = s.Custom(&Run{Prop: prop, Tier: tn, Deadline: deadline, Set: set, KnownSig: isKnown})
		} else {
			w := s.Workers
			if w == 0 {
				w = runtime.NumCPU()
			}
			r = Explore(prop, s.Name, s.Body, tn, w, deadline, set, isKnown, func(v Violation) {
				emit(v)
				finish(false)
				os.Exit(1)
			})
		}
		r.Sub, r.Bound = s.Name, s.Bound
		for k, n := range r.Known {
			seenKnown[k] += n
		}
		results = append(results, r)
		fmt.Fprintf(os.Stderr, "%s/%s: traces=%d ops=%d exhaustive=%v viol=%d %.2fs\n", prop, s.Name, r.Leaves, r.Ops, r.Exhaustive, len(r.Viol), r.Wall)
		for _, v := range r.Viol {
			emit(v)
		}
		if len(r.Viol) > 0 {
			break
		}
	}
	for _, k := range known {
		if k.prop == prop && seenKnown[k.sig] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		}
	}
	finish(true)
	if nviol > 0 {
		return 1
	}
	return 0
}

func writeReplay(v Violation, n int) string {
	dir := filepath.Join(VerifDir(), "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", v.Prop, n))
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func writeEvidence(prop, tier string, start time.Time, rs []Result, nviol int, known map[string]int64, states int64, capped bool, assume []string) {
	type subEv struct {
		Sub        string  `json:"sub"`
		Bound      string  `json:"bound"`
		Executions int64   `json:"executions"`
		Ops        int64   `json:"impl_operations"`
		Exhaustive bool    `json:"exhaustive"`
		Wall       float64 `json:"wall_s"`
	}
	var subs []subEv
	var leaves, ops int64
	ex := len(rs) > 0
	samples := []interface{}{}
	for _, r := range rs {
		subs = append(subs, subEv{r.Sub, r.Bound, r.Leaves, r.Ops, r.Exhaustive, r.Wall})
		leaves += r.Leaves
		ops += r.Ops
		ex = ex && r.Exhaustive
		for i, s := range r.Samples {
			if i < 3 && len(samples) < 40 {
				samples = append(samples, map[string]interface{}{"sub": r.Sub, "trace": s})
			}
		}
	}
	cov := map[string]interface{}{
		"states":                        states,
		"transitions":                   ops,
		"traces_validated_against_impl": leaves,
		"samples":                       samples,
		"exhaustive":                    ex,
		"explorations":                  subs,
		"meaning": "states: distinct canonical states/inputs reached (hash set); transitions: operations of the real implementation executed and compared with the reference model or invariant; " +
			"traces_validated_against_impl: complete executions (leaves of the choice tree), every one run on the real code",
	}
	if capped {
		cov["states_is_lower_bound"] = true
	}
	if len(known) > 0 {
		cov["known_findings_hit"] = known
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if assume == nil {
		assume = []string{}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": assume, "wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(VerifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644)
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 3
	}
	p := registry[v.Prop]
	if p == nil {
		fmt.Println("unknown property", v.Prop)
		return 3
	}
	for _, s := range p.Subs {
		if s.Name != v.Sub || s.Body == nil {
			continue
		}
		if p.Setup != nil {
			p.Setup(tierNum(v.Tier))
		}
		ex := &explorer{prop: v.Prop, sub: v.Sub, body: s.Body, tier: tierNum(v.Tier)}
		f, log, st := ex.replay(v.Choices)
		for _, l := range log {
			fmt.Println(l)
		}
		if f != nil {
			fmt.Println("FAILS:", f.msg)
			if st != "" {
				fmt.Println(st)
			}
			return 1
		}
		fmt.Println("passes")
		return 0
	}
	fmt.Println("no such exploration; re-run the check")
	return 3
}
