//go:build !race

package simrt

import "unsafe"

const RaceEnabled = false

func raceDisable() {}
func raceEnable()  {}

// RaceErrors returns the number of data races reported so far.
func RaceErrors() int { return 0 }

func RaceAcquire(unsafe.Pointer)      {}
func RaceReleaseMerge(unsafe.Pointer) {}
