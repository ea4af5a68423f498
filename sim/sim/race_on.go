//go:build race && go1.21

package sim

import (
	"runtime"
	"unsafe"
)

// RaceEnabled tells whether the data race detector is built in
const RaceEnabled = true

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

// RaceAcquire and friends state a happens-before edge of the simulated program
//
//go:norace
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func RaceRelease(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors is the number of data races reported so far in this process
func RaceErrors() int { return runtime.RaceErrors() }
