//go:build !race

package rt

import "unsafe"

const RaceBuild = false

func raceDisable()                      {}
func raceEnable()                       {}
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}

// RaceErrors is the number of data races the race detector has reported.
func RaceErrors() int { return 0 }
