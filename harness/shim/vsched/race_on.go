//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

var joinVar int

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

//go:norace
func raceReleaseMerge() { runtime.RaceReleaseMerge(unsafe.Pointer(&joinVar)) }

//go:norace
func raceAcquire() { runtime.RaceAcquire(unsafe.Pointer(&joinVar)) }

//go:norace
func raceAcquireAt(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func raceReleaseAt(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

// RaceBuild tells whether the race detector is on.
const RaceBuild = true
