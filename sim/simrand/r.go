//go:build go1.21

// Package simrand is package math/rand with a seed owned by the simulator.
package simrand

import (
	real "math/rand"

	"github.com/bytesparadise/libasciidoc/verifsim/sim"
)

func v() uint64 { return sim.TaskRand() }

// Seed does nothing: the simulator owns the seed
func Seed(s int64) {}

// Int63 draws
func Int63() int64 { return int64(v() >> 1) }

// Uint32 draws
func Uint32() uint32 { return uint32(v() >> 32) }

// Uint64 draws
func Uint64() uint64 { return v() }

// Int31 draws
func Int31() int32 { return int32(v() >> 33) }

// Int draws
func Int() int { return int(v() >> 1) }

// Int63n draws
func Int63n(n int64) int64 { return Int63() % n }

// Int31n draws
func Int31n(n int32) int32 { return Int31() % n }

// Intn draws
func Intn(n int) int { return Int() % n }

// Float64 draws
func Float64() float64 { return float64(v()>>11) / (1 << 53) }

// Float32 draws
func Float32() float32 { return float32(v()>>40) / (1 << 24) }

// Perm draws
func Perm(n int) []int { return real.New(real.NewSource(Int63())).Perm(n) }

// Shuffle shuffles
func Shuffle(n int, swap func(i, j int)) { real.New(real.NewSource(Int63())).Shuffle(n, swap) }

// NormFloat64 draws
func NormFloat64() float64 { return real.New(real.NewSource(Int63())).NormFloat64() }

// ExpFloat64 draws
func ExpFloat64() float64 { return real.New(real.NewSource(Int63())).ExpFloat64() }
