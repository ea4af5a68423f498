//go:build go1.21

// Package simruntime is package runtime under the simulated scheduler.
package simruntime

import (
	"github.com/bytesparadise/libasciidoc/verifsim/sim"
	"github.com/bytesparadise/libasciidoc/verifsim/simos"
)

// Gosched lets another task run
func Gosched() { sim.Gosched() }

// NumCPU is that of the simulated machine
func NumCPU() int {
	if f := simos.Installed(); f != nil && f.Machine != 0 {
		return []int{1, 2, 3, 8, 64}[f.Machine%5]
	}
	return 4
}

// GOMAXPROCS is that of the simulated machine
func GOMAXPROCS(n int) int { return NumCPU() }

// NumGoroutine is the number of live tasks
func NumGoroutine() int { return sim.Live() }

// GC does nothing
func GC() {}
