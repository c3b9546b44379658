//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func raceDisable()                    { runtime.RaceDisable() }
func raceEnable()                     { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer)    { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)    { runtime.RaceRelease(p) }
func raceReleaseMrg(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors returns the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
