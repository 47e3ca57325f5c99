package main

import (
	"fmt"
	"os"

	"verif.local/h/core"
	"verif.local/h/cprops"
	"verif.local/h/sched"
)

func main() {
	if len(os.Args) > 3 && os.Args[1] == "-child" {
		cprops.ChildMain(os.Args[2:])
		return
	}
	if len(os.Args) > 4 && os.Args[1] == "-count" {
		count(os.Args[2:])
		return
	}
	if sched.NumVars() == 0 {
		fmt.Fprintln(os.Stderr, "the library is not instrumented")
		os.Exit(3)
	}
	core.Main()
}
