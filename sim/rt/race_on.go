//go:build race

package zzsimrt

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether data races are detected.
const RaceBuild = true

// In a race build the hand-over between tasks is hidden from the race detector, so that it sees only
// the synchronisation that the library itself performs.

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

//go:norace
func raceAcquire(b *byte) { runtime.RaceAcquire(unsafe.Pointer(b)) }

//go:norace
func raceRelease(b *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(b)) }

// RaceErrors returns the number of data races found so far in this process.
func RaceErrors() int { return runtime.RaceErrors() }
