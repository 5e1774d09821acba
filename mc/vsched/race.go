//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

func raceOff()                     { runtime.RaceDisable() }
func raceOn()                      { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors is the number of races reported so far in this process.
func RaceErrors() int { return runtime.RaceErrors() }

const RaceEnabled = true
