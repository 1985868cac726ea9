// Package simrand2 stands in for math/rand/v2: the simulator's environment generator decides.
package simrand2

import (
	"math/rand/v2"

	"verif.local/sim/simrt"
)

type (
	Rand   = rand.Rand
	Source = rand.Source

	ChaCha8 = rand.ChaCha8
	PCG     = rand.PCG
	Zipf    = rand.Zipf
)

func NewChaCha8(seed [32]byte) *ChaCha8                { return rand.NewChaCha8(seed) }
func NewPCG(a, b uint64) *PCG                          { return rand.NewPCG(a, b) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }
func fresh() *Rand                                     { return rand.New(rand.NewPCG(next(), next())) }
func ExpFloat64() float64                              { return fresh().ExpFloat64() }
func NormFloat64() float64                             { return fresh().NormFloat64() }
func Uint() uint                                       { return uint(next()) }

func N[I interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n I) I {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return I(simrt.EnvRnd(uint64(n)))
}

func New(s Source) *Rand      { return rand.New(s) }
func IntN(n int) int          { return int(simrt.EnvRnd(uint64(n))) }
func Int32N(n int32) int32    { return int32(simrt.EnvRnd(uint64(n))) }
func Int64N(n int64) int64    { return int64(simrt.EnvRnd(uint64(n))) }
func Uint32N(n uint32) uint32 { return uint32(simrt.EnvRnd(uint64(n))) }
func Uint64N(n uint64) uint64 { return simrt.EnvRnd(n) }
func UintN(n uint) uint       { return uint(simrt.EnvRnd(uint64(n))) }
func Int64() int64            { return int64(next() >> 1) }
func Int32() int32            { return int32(next() >> 33) }

func Int() int         { return int(next() >> 1) }
func Uint32() uint32   { return uint32(next()) }
func Uint64() uint64   { return next() }
func Float64() float64 { return float64(next()>>11) / (1 << 53) }
func Float32() float32 { return float32(next()>>40) / (1 << 24) }

func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(simrt.EnvRnd(uint64(i+1))))
	}
}

func next() uint64 { return simrt.EnvRnd(1<<62) << 2 }
