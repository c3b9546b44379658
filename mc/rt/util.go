package rt

import (
	"reflect"
	"runtime"
)

func goexit() { runtime.Goexit() }

func realLen(ch any) int { return reflect.ValueOf(ch).Len() }
func realCap(ch any) int { return reflect.ValueOf(ch).Cap() }

func raceReleaseMrgPtr(c *Chan) { raceReleaseMrg(chanPtr(c)) }
