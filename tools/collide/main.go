// Command collide finds class lists that common 32-bit hashes cannot tell apart.
// Its output is sim/trace/collide.txt.
package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/crc64"
	"hash/fnv"
	"math/rand"
	"sort"
	"strings"
)

func murmur(b []byte) uint32 {
	var h uint32
	n := len(b)
	for ; len(b) >= 4; b = b[4:] {
		k := binary.LittleEndian.Uint32(b) * 0xcc9e2d51
		k = (k<<15 | k>>17) * 0x1b873593
		h ^= k
		h = (h<<13|h>>19)*5 + 0xe6546b64
	}
	var k uint32
	for i := len(b) - 1; i >= 0; i-- {
		k = k<<8 | uint32(b[i])
	}
	k *= 0xcc9e2d51
	k = (k<<15 | k>>17) * 0x1b873593
	h ^= k
	h ^= uint32(n)
	h ^= h >> 16
	h *= 0x85ebca6b
	h ^= h >> 13
	h *= 0xc2b2ae35
	return h ^ h>>16
}

var iso, ecma = crc64.MakeTable(crc64.ISO), crc64.MakeTable(crc64.ECMA)

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

func mul(start, m uint64) func([]byte) uint64 {
	return func(b []byte) uint64 {
		h := start
		for _, c := range b {
			h = h*m + uint64(c)
		}
		return h
	}
}

var hashes = map[string]func([]byte) uint64{
	"fnv1-32":      func(b []byte) uint64 { h := fnv.New32(); h.Write(b); return uint64(h.Sum32()) },
	"fnv1a-32":     func(b []byte) uint64 { h := fnv.New32a(); h.Write(b); return uint64(h.Sum32()) },
	"fnv1-64lo":    func(b []byte) uint64 { h := fnv.New64(); h.Write(b); return h.Sum64() & 0xffffffff },
	"fnv1a-64lo":   func(b []byte) uint64 { h := fnv.New64a(); h.Write(b); return h.Sum64() & 0xffffffff },
	"fnv1a-64hi":   func(b []byte) uint64 { h := fnv.New64a(); h.Write(b); return h.Sum64() >> 32 },
	"fnv1a-64fold": func(b []byte) uint64 { h := fnv.New64a(); h.Write(b); s := h.Sum64(); return (s>>32 ^ s) & 0xffffffff },
	"crc32":        func(b []byte) uint64 { return uint64(crc32.ChecksumIEEE(b)) },
	"crc32c":       func(b []byte) uint64 { return uint64(crc32.Checksum(b, castagnoli)) },
	"adler32":      func(b []byte) uint64 { return uint64(adler32.Checksum(b)) },
	"murmur3":      func(b []byte) uint64 { return uint64(murmur(b)) },
	"djb2":         func(b []byte) uint64 { return mul(5381, 33)(b) & 0xffffffff },
	"djb2-64":      mul(5381, 33),
	"djb2a": func(b []byte) uint64 {
		h := uint32(5381)
		for _, c := range b {
			h = h*33 ^ uint32(c)
		}
		return uint64(h)
	},
	"java31":       func(b []byte) uint64 { return mul(0, 31)(b) & 0xffffffff },
	"java31-64":    mul(0, 31),
	"java31-17":    func(b []byte) uint64 { return mul(17, 31)(b) & 0xffffffff },
	"sdbm":         func(b []byte) uint64 { return mul(0, 65599)(b) & 0xffffffff },
	"md5":          func(b []byte) uint64 { s := md5.Sum(b); return uint64(binary.BigEndian.Uint32(s[:])) },
	"crc64iso-lo":  func(b []byte) uint64 { return crc64.Checksum(b, iso) & 0xffffffff },
	"crc64ecma-lo": func(b []byte) uint64 { return crc64.Checksum(b, ecma) & 0xffffffff },
	"jenkins": func(b []byte) uint64 {
		var h uint32
		for _, c := range b {
			h += uint32(c)
			h += h << 10
			h ^= h >> 6
		}
		h += h << 3
		h ^= h >> 11
		h += h << 15
		return uint64(h)
	},
	"sha1":   func(b []byte) uint64 { s := sha1.Sum(b); return uint64(binary.BigEndian.Uint32(s[:])) },
	"sha256": func(b []byte) uint64 { s := sha256.Sum256(b); return uint64(binary.BigEndian.Uint32(s[:])) },
}

func main() {
	var lists []string
	for i := 0; i < 40; i++ {
		for j := 0; j < 40; j++ {
			if i == j {
				continue
			}
			lists = append(lists, fmt.Sprintf("k%d k%d", i, j))
			for u := 0; u < 1000; u++ {
				lists = append(lists, fmt.Sprintf("k%d k%d u%d", i, j, u))
			}
		}
	}
	// Lists of one length, with letters far apart: for the hashes that are too
	// regular to collide on the others, and for those that take the length in.
	var even []string
	rnd := rand.New(rand.NewSource(1))
	const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	for i := 0; i < 1200000; i++ {
		a, b := 10+rnd.Intn(30), 10+rnd.Intn(30)
		if a == b {
			continue
		}
		u := make([]byte, 7)
		for j := range u {
			u[j] = letters[rnd.Intn(len(letters))]
		}
		even = append(even, fmt.Sprintf("k%d k%d u%s", a, b, u))
	}
	var names []string
	for n := range hashes {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		find(n, lists, 5)
	}
	for _, n := range names {
		find(n, even, 3)
	}
}

// find prints lists that the hash n does not tell apart.
func find(n string, lists []string, most int) {
	f := hashes[n]
	seen := make(map[uint64]int32, len(lists))
	found := 0
	for i := range lists {
		k := (i * 7919) % len(lists)
		l := lists[k]
		h := f([]byte(l))
		if j, ok := seen[h]; ok {
			a := lists[j]
			// not one that is found by accident with near lists
			if a != l && (!strings.HasPrefix(a, l[:2]) || found > 2) {
				fmt.Printf("%s\t%s\t%s\n", n, a, l)
				if found++; found == most {
					return
				}
			}
			continue
		}
		seen[h] = int32(k)
	}
}
