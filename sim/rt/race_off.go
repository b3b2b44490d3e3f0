//go:build !race

package zzsimrt

// RaceBuild tells whether data races are detected.
const RaceBuild = false

func raceDisable()        {}
func raceEnable()         {}
func raceAcquire(b *byte) {}
func raceRelease(b *byte) {}

// RaceErrors returns the number of data races found so far in this process.
func RaceErrors() int { return 0 }
