//go:build !race

package rt

import "unsafe"

const RaceEnabled = false

func raceDisable()                    {}
func raceEnable()                     {}
func raceAcquire(p unsafe.Pointer)    {}
func raceRelease(p unsafe.Pointer)    {}
func raceReleaseMrg(p unsafe.Pointer) {}

// RaceErrors returns the number of data races reported so far.
func RaceErrors() int { return 0 }
