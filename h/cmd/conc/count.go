package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"

	"verif.local/h/cprops"
	"verif.local/h/sched"
)

// -count PROP TIER GROUP [LIMIT]: schedules per scenario, for tuning bounds.
func count(a []string) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	cprops.Warm(a[0])
	sched.SaveVars()
	if f := os.Getenv("PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	scns := cprops.Scenarios(a[0], a[1])
	lim := 1000000
	if len(a) > 3 {
		lim, _ = strconv.Atoi(a[3])
	}
	for i := range scns {
		if !strings.HasPrefix(scns[i].Group, a[2]) || (i*7919+i/100)%100 >= lim {
			continue
		}
		r := sched.RunTask(scns, sched.Task{Scn: i}, 20*time.Second)
		fmt.Println(r.Execs, r.Steps, len(r.Hashes), len(r.Rest), scns[i].Name, r.Viol)
		if r.Viol != "" {
			fmt.Println(strings.Join(r.Log, "\n"), r.Stack)
			os.Exit(1)
		}
	}
}
