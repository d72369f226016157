package simrt

import "unsafe"

// RaceOff hides synchronisation from the race detector until RaceOn.
//
//go:noinline
func RaceOff() { raceOff() }

// RaceOn undoes RaceOff.
//
//go:noinline
func RaceOn() { raceOn() }

// Publish makes what the calling task did so far visible to the tasks that
// Consume the same address later: a hand-over by the harness.
//
//go:noinline
func Publish(p unsafe.Pointer) { raceReleaseMerge(p) }

// Consume takes over what was published.
//
//go:noinline
func Consume(p unsafe.Pointer) { raceAcquire(p) }
