// Package vtime stands in for time: timers and the clock belong to sched.
package vtime

import (
	"time"

	"verif.local/h/sched"
)

var base = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

// Now is the virtual time.
func Now() Time {
	n, ok := sched.Now()
	if !ok {
		return time.Now()
	}
	return base.Add(time.Duration(n))
}

// Since is as in time.
func Since(t Time) Duration { return Now().Sub(t) }

// Until is as in time.
func Until(t Time) Duration { return t.Sub(Now()) }

// Sleep is as in time.
func Sleep(d Duration) {
	if !sched.Sleep(d) {
		time.Sleep(d)
	}
}

// Timer stands in for time.Timer.
type Timer struct {
	C <-chan Time
	t *sched.Timer
	r *time.Timer
}

// AfterFunc is as in time.
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{}
	if t.t = sched.NewTimer(d, f); t.t == nil {
		t.r = time.AfterFunc(d, f)
	}
	return t
}

// NewTimer is as in time.
func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := AfterFunc(d, func() {
		select {
		case c <- base:
		default:
		}
	})
	t.C = c
	return t
}

// After is as in time.
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Stop is as in time.
func (t *Timer) Stop() bool {
	if t.r != nil {
		return t.r.Stop()
	}
	return t.t.Stop()
}

// Reset is as in time.
func (t *Timer) Reset(d Duration) bool {
	if t.r != nil {
		return t.r.Reset(d)
	}
	return t.t.Reset(d)
}

// Ticker stands in for time.Ticker.
type Ticker struct {
	C    <-chan Time
	t    *Timer
	d    Duration
	left int
}

// NewTicker is as in time, but ticks at most 20 times.
func NewTicker(d Duration) *Ticker {
	c := make(chan Time, 1)
	k := &Ticker{C: c, d: d, left: 20}
	k.t = AfterFunc(d, func() {
		select {
		case c <- base:
		default:
		}
		if k.left--; k.left > 0 {
			k.t.Reset(k.d)
		}
	})
	return k
}

// Stop is as in time.
func (k *Ticker) Stop() { k.t.Stop() }

// Reset is as in time.
func (k *Ticker) Reset(d Duration) { k.d = d; k.t.Reset(d) }

// Tick is as in time.
func Tick(d Duration) <-chan Time { return NewTicker(d).C }
