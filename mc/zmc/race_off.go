//go:build !race

package zmc

import "unsafe"

const RaceEnabled = false

func raceAcquire(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}
func raceDisable()                      {}
func raceEnable()                       {}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }
