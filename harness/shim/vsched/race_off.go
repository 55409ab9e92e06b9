//go:build !race

package vsched

import "unsafe"

func raceDisable()      {}
func raceEnable()       {}
func raceReleaseMerge() {}
func raceAcquire()      {}

func raceAcquireAt(unsafe.Pointer) {}
func raceReleaseAt(unsafe.Pointer) {}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }

// RaceBuild tells whether the race detector is on.
const RaceBuild = false
