//go:build !race

package sched

import "unsafe"

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = false

func raceErrors() int              { return 0 }
func raceRelease(p unsafe.Pointer) {}
func raceAcquire(p unsafe.Pointer) {}
