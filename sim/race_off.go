//go:build !race

package sim

import "unsafe"

// RaceBuild reports whether the binary carries the race detector.
const RaceBuild = false

func raceAcquire(unsafe.Pointer)      {}
func raceRelease(unsafe.Pointer)      {}
func raceReleaseMerge(unsafe.Pointer) {}
func raceDisable()                    {}
func raceEnable()                     {}

// RaceErrors is the number of data races reported so far in this process.
func RaceErrors() int { return 0 }
