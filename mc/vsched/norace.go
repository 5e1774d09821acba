//go:build !race

package vsched

import "unsafe"

func raceOff()                     {}
func raceOn()                      {}
func raceAcquire(p unsafe.Pointer) {}
func raceRelease(p unsafe.Pointer) {}
func RaceErrors() int              { return 0 }

const RaceEnabled = false
