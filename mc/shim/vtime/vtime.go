// Package vtime replaces package time in the instrumented proxy: the clock is virtual during an execution.
package vtime

import (
	real "time"

	"verif/rt"
)

func Now() Time {
	if rt.Active() {
		return real.Unix(0, rt.NowNanos())
	}
	return real.Now()
}
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { rt.Sleep(d) }

func After(d Duration) <-chan Time { return NewTimer(d).C }

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

type Timer struct {
	C <-chan Time
	t *rt.Timer
	r *real.Timer
}

func NewTimer(d Duration) *Timer {
	if !rt.Active() {
		r := real.NewTimer(d)
		return &Timer{C: r.C, r: r}
	}
	t := rt.NewTimer(d, 0, nil)
	return &Timer{C: t.C(), t: t}
}

func AfterFunc(d Duration, f func()) *Timer {
	if !rt.Active() {
		return &Timer{r: real.AfterFunc(d, f)}
	}
	return &Timer{t: rt.NewTimer(d, 0, f)}
}

func (t *Timer) Stop() bool {
	if t.r != nil {
		return t.r.Stop()
	}
	return t.t.Stop()
}

func (t *Timer) Reset(d Duration) bool {
	if t.r != nil {
		return t.r.Reset(d)
	}
	return t.t.Reset(d, 0)
}

type Ticker struct {
	C <-chan Time
	t *rt.Timer
	r *real.Ticker
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if !rt.Active() {
		r := real.NewTicker(d)
		return &Ticker{C: r.C, r: r}
	}
	t := rt.NewTimer(d, d, nil)
	return &Ticker{C: t.C(), t: t}
}

func (t *Ticker) Stop() {
	if t.r != nil {
		t.r.Stop()
		return
	}
	t.t.Stop()
}

func (t *Ticker) Reset(d Duration) {
	if t.r != nil {
		t.r.Reset(d)
		return
	}
	t.t.Reset(d, d)
}
