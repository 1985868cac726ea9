// Package simmaphash stands in for hash/maphash: its seeds are the same in every
// process, so that a run is repeatable.
package simmaphash

import (
	"fmt"
	"math/bits"
	"verif.local/sim/simrt"
)

// Seed is a maphash.Seed.
type Seed struct{ s uint64 }

func MakeSeed() Seed { return Seed{simrt.EnvRnd(1<<62) | 1} }

func mix(h uint64, b byte) uint64 { return bits.RotateLeft64((h^uint64(b))*0x9e3779b97f4a7c15, 29) }

func fin(h uint64) uint64 {
	h ^= h >> 32
	h *= 0xd6e8feb86659fd93
	h ^= h >> 29
	return h
}

func check(seed Seed) {
	if seed.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
}

func Bytes(seed Seed, b []byte) uint64 {
	check(seed)
	h := seed.s
	for _, c := range b {
		h = mix(h, c)
	}
	return fin(h)
}

func String(seed Seed, s string) uint64 {
	check(seed)
	h := seed.s
	for i := 0; i < len(s); i++ {
		h = mix(h, s[i])
	}
	return fin(h)
}

func Comparable[T comparable](seed Seed, v T) uint64 {
	return String(seed, fmt.Sprintf("%T %#v", v, v))
}

func WriteComparable[T comparable](h *Hash, x T) { h.WriteString(fmt.Sprintf("%T %#v", x, x)) }

// Hash is a maphash.Hash.
type Hash struct {
	_    [0]func()
	seed Seed
	h    uint64
}

func (h *Hash) init() {
	if h.seed.s == 0 {
		h.SetSeed(MakeSeed())
	}
}

func (h *Hash) SetSeed(seed Seed) {
	check(seed)
	h.seed, h.h = seed, seed.s
}

func (h *Hash) Seed() Seed {
	h.init()
	return h.seed
}

func (h *Hash) Reset() {
	h.init()
	h.h = h.seed.s
}

func (h *Hash) Write(b []byte) (int, error) {
	h.init()
	for _, c := range b {
		h.h = mix(h.h, c)
	}
	return len(b), nil
}

func (h *Hash) WriteString(s string) (int, error) { return h.Write([]byte(s)) }
func (h *Hash) WriteByte(b byte) error {
	h.init()
	h.h = mix(h.h, b)
	return nil
}

func (h *Hash) Sum64() uint64 {
	h.init()
	return fin(h.h)
}

func (h *Hash) Sum(b []byte) []byte {
	x := h.Sum64()
	return append(b, byte(x>>56), byte(x>>48), byte(x>>40), byte(x>>32), byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
}
func (h *Hash) Size() int      { return 8 }
func (h *Hash) BlockSize() int { return 128 }
func (h *Hash) Clone() (*Hash, error) {
	h.init()
	c := *h
	return &c, nil
}
