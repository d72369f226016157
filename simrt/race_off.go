//go:build !race

package simrt

import "unsafe"

// RaceBuild reports whether the race detector is compiled in.
const RaceBuild = false

func raceOff()                          {}
func raceOn()                           {}
func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}

// RaceErrors returns the number of data races reported so far.
func RaceErrors() int { return 0 }
