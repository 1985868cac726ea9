// Package simrand stands in for math/rand: the simulator's environment generator decides.
package simrand

import (
	"math/rand"

	"verif.local/sim/simrt"
)

type (
	Rand   = rand.Rand
	Source = rand.Source

	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }
func fresh() *Rand                                     { return rand.New(rand.NewSource(int64(next() >> 1))) }
func ExpFloat64() float64                              { return fresh().ExpFloat64() }
func NormFloat64() float64                             { return fresh().NormFloat64() }
func Read(p []byte) (int, error)                       { return fresh().Read(p) }

func New(s Source) *Rand          { return rand.New(s) }
func NewSource(seed int64) Source { return rand.NewSource(seed) }
func Seed(int64)                  {}
func Intn(n int) int              { return int(simrt.EnvRnd(uint64(n))) }
func Int31n(n int32) int32        { return int32(simrt.EnvRnd(uint64(n))) }
func Int63n(n int64) int64        { return int64(simrt.EnvRnd(uint64(n))) }
func Int63() int64                { return int64(next() >> 1) }
func Int31() int32                { return int32(next() >> 33) }

func Int() int         { return int(next() >> 1) }
func Uint32() uint32   { return uint32(next()) }
func Uint64() uint64   { return next() }
func Float64() float64 { return float64(next()>>11) / (1 << 53) }
func Float32() float32 { return float32(next()>>40) / (1 << 24) }

func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(simrt.EnvRnd(uint64(i+1))))
	}
}

func next() uint64 { return simrt.EnvRnd(1<<62) << 2 }
