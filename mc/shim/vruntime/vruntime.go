// Package vruntime replaces package runtime in the instrumented proxy: giving up the processor is a scheduling point.
package vruntime

import (
	"time"

	"verif/rt"
)

// Gosched lets every other goroutine run and, if none can, moves the clock, so that a loop that polls makes progress.
func Gosched() { rt.Sleep(time.Microsecond) }

func NumCPU() int          { return 4 }
func GOMAXPROCS(n int) int { return 4 }
func NumGoroutine() int    { return 16 }
