//go:build !race

package vsim

import "unsafe"

// RaceBuild tells whether the race detector is linked in.
const RaceBuild = false

func raceOff()                     {}
func raceOn()                      {}
func raceAcquire(p unsafe.Pointer) {}
func raceRelease(p unsafe.Pointer) {}
func RaceErrors() int              { return 0 }
