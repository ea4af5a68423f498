//go:build !race && go1.21

package sim

import "unsafe"

// RaceEnabled tells whether the data race detector is built in
const RaceEnabled = false

func raceDisable()                      {}
func raceEnable()                       {}
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}

// RaceErrors is the number of data races reported so far in this process
func RaceErrors() int { return 0 }
