// Package simmaphash is hash/maphash with seeds that the simulation draws: a
// hash is as different from machine to machine as the real one, and the same
// whenever a run is repeated.
package simmaphash

import (
	"fmt"

	"github.com/go-latex/latex/vsim"
)

type Seed struct{ s uint64 }

func MakeSeed() Seed { return Seed{vsim.Random() | 1} }

type Hash struct {
	seed  Seed
	begun bool
	h     uint64
}

func (h *Hash) start() {
	if h.begun {
		return
	}
	if h.seed.s == 0 {
		h.seed = MakeSeed()
	}
	h.begun, h.h = true, h.seed.s
}

//go:norace
func add(h uint64, b string) uint64 {
	for i := 0; i < len(b); i++ {
		h = (h ^ uint64(b[i])) * 0x100000001b3
	}
	return h
}

func end(h uint64) uint64 {
	h = (h ^ h>>30) * 0xbf58476d1ce4e5b9
	h = (h ^ h>>27) * 0x94d049bb133111eb
	return h ^ h>>31
}

func (h *Hash) Write(b []byte) (int, error) { return h.WriteString(string(b)) }

func (h *Hash) WriteString(s string) (int, error) {
	h.start()
	h.h = add(h.h, s)
	return len(s), nil
}

func (h *Hash) WriteByte(b byte) error {
	_, err := h.WriteString(string([]byte{b}))
	return err
}

func (h *Hash) Seed() Seed {
	h.start()
	return h.seed
}

func (h *Hash) SetSeed(s Seed) {
	if s.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	h.seed, h.begun = s, false
}

func (h *Hash) Reset() {
	h.start()
	h.h = h.seed.s
}

func (h *Hash) Sum64() uint64 {
	h.start()
	return end(h.h)
}

func (h *Hash) Sum(b []byte) []byte {
	x := h.Sum64()
	for i := 56; i >= 0; i -= 8 {
		b = append(b, byte(x>>i))
	}
	return b
}

func (*Hash) Size() int      { return 8 }
func (*Hash) BlockSize() int { return 128 }

func Bytes(s Seed, b []byte) uint64 { return String(s, string(b)) }

func String(s Seed, x string) uint64 {
	if s.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	return end(add(s.s, x))
}

func Comparable[T comparable](s Seed, v T) uint64 { return String(s, fmt.Sprintf("%#v", v)) }

func WriteComparable[T comparable](h *Hash, v T) { h.WriteString(fmt.Sprintf("%#v", v)) }
