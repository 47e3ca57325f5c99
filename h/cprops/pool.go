// Package cprops holds the checks that need the instrumented library: those of
// concurrency and of time.
package cprops

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/h/core"
	"verif.local/h/sched"
)

// X is the explorer's context.
type X = core.X

type maker func(tier int) []sched.Scenario

var makers = map[string][]maker{}

func scenarios(prop string, tier int) []sched.Scenario {
	var out []sched.Scenario
	for _, m := range makers[prop] {
		out = append(out, m(tier)...)
	}
	return out
}

// Scenarios lists the scenarios of a property.
func Scenarios(prop, tier string) []sched.Scenario {
	if tier == "thorough" {
		return scenarios(prop, 1)
	}
	return scenarios(prop, 0)
}

// ChildMain is what the race-enabled binary runs.
func ChildMain(args []string) {
	tier := 0
	if args[1] == "thorough" {
		tier = 1
	}
	Warm(args[0])
	sched.Child(scenarios(args[0], tier))
}

// warm is what brings the process to the state a property's executions start
// from; without it they start from that of a fresh process.
var warm = map[string]func(){}

// Warm does it.
func Warm(prop string) {
	if f := warm[prop]; f != nil {
		f()
	}
}

// schedules makes a sub-check that explores all scenarios of a group.
func schedules(prop, group, bound string, ms ...maker) core.Sub {
	for _, m := range ms {
		m := m
		makers[prop] = append(makers[prop], func(tier int) []sched.Scenario {
			s := m(tier)
			for i := range s {
				s[i].Prop, s[i].Group = prop, group
			}
			return s
		})
	}
	return core.Sub{Name: group, Bound: bound, Custom: func(r *core.Run) core.Result { return runGroup(r, group) }}
}

type child struct {
	cmd  *exec.Cmd
	in   *bufio.Writer
	out  *bufio.Scanner
	err  bytes.Buffer
	task sched.Task
}

func startChild(prop, tier string) (*child, error) {
	c := &child{}
	exe := os.Getenv("VERIF_BUILD") + "/sched"
	c.cmd = exec.Command(exe, "-child", prop, tier)
	rl := os.Getenv("VERIF_BUILD") + "/race"
	c.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 atexit_sleep_ms=0 history_size=3 log_path="+rl, "VERIF_RACELOG="+rl)
	c.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	wi, err := c.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	ro, err := c.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	c.cmd.Stderr = &c.err
	if err := c.cmd.Start(); err != nil {
		return nil, err
	}
	c.in = bufio.NewWriter(wi)
	c.out = bufio.NewScanner(ro)
	c.out.Buffer(make([]byte, 1<<20), 256<<20)
	return c, nil
}

func runGroup(run *core.Run, group string) (res core.Result) {
	start := time.Now()
	tier := "quick"
	if run.Tier > 0 {
		tier = "thorough"
	}
	all := scenarios(run.Prop, run.Tier)
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var queue []sched.Task
	nscn := 0
	for i := range all {
		if all[i].Group == group {
			nscn++
		}
	}
	// all scenarios without preemptions, then with one, then as bounded; each
	// a little at first, so that none waits for a large one
	limits := []int{1, 2, 0}
	var rest []sched.Task
	refill := func() {
		queue, rest = append(queue, rest...), nil
		for len(queue) == 0 && len(limits) > 0 {
			l := limits[0]
			limits = limits[1:]
			for i := len(all) - 1; i >= 0; i-- {
				if all[i].Group == group && (l == 0 || all[i].Limited(l)) {
					queue = append(queue, sched.Task{Scn: i, Limit: l})
				}
			}
		}
	}
	working, stop := 0, false
	res.Exhaustive = true
	var diverged int64
	maxPre := 0
	fail := func(v core.Violation) {
		v.Prop, v.Sub = run.Prop, group
		res.Viol = append(res.Viol, v)
		if len(res.Viol) >= 3 {
			stop = true
		}
	}
	var wg sync.WaitGroup
	workers := runtime.NumCPU()
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			runtime.LockOSThread() // Pdeathsig is about the starting thread
			var c *child
			defer func() {
				if c != nil {
					c.cmd.Process.Kill()
					c.cmd.Wait()
				}
			}()
			id := 0
			for {
				mu.Lock()
				for len(queue) == 0 && len(rest) == 0 && working > 0 && !stop {
					cond.Wait()
				}
				if len(queue) == 0 && !stop {
					refill()
					cond.Broadcast()
				}
				if len(queue) == 0 || stop {
					cond.Broadcast()
					mu.Unlock()
					return
				}
				if time.Now().After(run.Deadline) {
					res.Exhaustive = false
					stop = true
					cond.Broadcast()
					mu.Unlock()
					return
				}
				t := queue[len(queue)-1]
				queue = queue[:len(queue)-1]
				working++
				mu.Unlock()
				slice := 1500
				if len(t.Ch) == 0 {
					slice = 250
				}

				var r sched.TaskResult
				var err error
				if c == nil {
					c, err = startChild(run.Prop, tier)
				}
				if err == nil {
					id++
					b, _ := json.Marshal(map[string]interface{}{"ID": id, "Task": t, "Slice": slice})
					c.in.Write(b)
					c.in.WriteByte('\n')
					c.in.Flush()
					got := make(chan bool, 1)
					go func() { got <- c.out.Scan() }()
					select {
					case ok := <-got:
						if !ok {
							c.cmd.Wait()
							err = fmt.Errorf("the explorer died: %s", core.LibFrames(c.err.String()))
							r.Stack = c.err.String()
						} else {
							err = json.Unmarshal(c.out.Bytes(), &r)
						}
					case <-time.After(120 * time.Second):
						c.cmd.Process.Signal(syscall.SIGQUIT)
						time.Sleep(time.Second)
						c.cmd.Process.Kill()
						<-got
						c.cmd.Wait()
						r.Stack = c.err.String()
						err = fmt.Errorf("an execution does not end")
					}
				}
				mu.Lock()
				working--
				if err != nil {
					es := r.Stack
					if strings.Contains(es, "fatal error:") || strings.Contains(err.Error(), "does not end") {
						msg := err.Error()
						if i := strings.Index(es, "fatal error:"); i >= 0 {
							msg = strings.SplitN(es[i:], "\n", 2)[0]
						}
						if len(es) > 20000 {
							es = es[:20000]
						}
						fail(core.Violation{Msg: all[t.Scn].Name + ": " + msg, Choices: t.Ch, Stack: es})
						stop = true
					} else {
						fmt.Fprintln(os.Stderr, err, r.Stack)
						os.Exit(3)
					}
					c = nil
				} else {
					res.Leaves += r.Execs
					res.Ops += r.Steps
					diverged += r.Diverged
					if r.MaxPre > maxPre {
						maxPre = r.MaxPre
					}
					for _, h := range r.Hashes {
						run.Set.AddState(core.Mix(h ^ uint64(t.Scn)*0x9e3779b97f4a7c15))
					}
					if r.Viol != "" {
						fail(core.Violation{Msg: r.Viol, Choices: r.Choices, Log: r.Log, Stack: r.Stack})
					}
					if t.Base == 0 && len(t.Ch) == 0 {
						rest = append(rest, r.Rest...)
					} else {
						queue = append(queue, r.Rest...)
					}
					if r.Sample != nil && len(res.Samples) < 3 {
						res.Samples = append(res.Samples, r.Sample)
					}
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}(k)
	}
	wg.Wait()
	if stop || diverged > 0 {
		res.Exhaustive = false
	}
	res.Wall = time.Since(start).Seconds()
	fmt.Fprintf(os.Stderr, "%s/%s: %d scenarios, %d schedules, %d steps, at most %d preemptions, %d diverged\n", run.Prop, group, nscn, res.Leaves, res.Ops, maxPre, diverged)
	return res
}

var _ = filepath.Join
