//go:build !race

package simrt

import "unsafe"

// RaceBuild says whether the race detector is compiled in.
const RaceBuild = false

func raceDisable() {}
func raceEnable()  {}

// RaceErrors is the number of data races reported so far in this process.
func RaceErrors() int { return 0 }

// Acquire and Release tell the race detector about synchronisation that a shim
// provides without using the real thing.
func Acquire(p unsafe.Pointer) {}
func Release(p unsafe.Pointer) {}
