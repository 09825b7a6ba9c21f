// Package sha3 is a stand-in for golang.org/x/crypto/sha3: the legacy
// Keccak-256 hash with its hash.Hash and Read interface.
package sha3

import (
	"encoding/binary"
	"hash"
	"math/bits"
)

var rc = [24]uint64{
	0x0000000000000001, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000, 0x000000000000808B, 0x0000000080000001,
	0x8000000080008081, 0x8000000000008009, 0x000000000000008A, 0x0000000000000088, 0x0000000080008009, 0x000000008000000A,
	0x000000008000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
	0x000000000000800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
}
var rot = [24]int{1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44}
var pil = [24]int{10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1}

//go:norace
func keccakF(a *[25]uint64) {
	var c [5]uint64
	for r := 0; r < 24; r++ {
		for i := 0; i < 5; i++ {
			c[i] = a[i] ^ a[i+5] ^ a[i+10] ^ a[i+15] ^ a[i+20]
		}
		for i := 0; i < 5; i++ {
			t := c[(i+4)%5] ^ bits.RotateLeft64(c[(i+1)%5], 1)
			for j := 0; j < 25; j += 5 {
				a[j+i] ^= t
			}
		}
		t := a[1]
		for i := 0; i < 24; i++ {
			j := pil[i]
			t, a[j] = a[j], bits.RotateLeft64(t, rot[i])
		}
		for j := 0; j < 25; j += 5 {
			for i := 0; i < 5; i++ {
				c[i] = a[j+i]
			}
			for i := 0; i < 5; i++ {
				a[j+i] ^= ^c[(i+1)%5] & c[(i+2)%5]
			}
		}
		a[0] ^= rc[r]
	}
}

const rate = 136

type state struct {
	a    [25]uint64
	buf  [rate]byte
	n    int
	out  bool
	left []byte
}

func (s *state) Reset()         { *s = state{} }
func (s *state) Size() int      { return 32 }
func (s *state) BlockSize() int { return rate }
func (s *state) absorb() {
	for i := 0; i < rate/8; i++ {
		s.a[i] ^= binary.LittleEndian.Uint64(s.buf[i*8:])
	}
	keccakF(&s.a)
	s.n = 0
}
func (s *state) Write(p []byte) (int, error) {
	if s.out {
		panic("sha3: Write after Read")
	}
	n := len(p)
	for len(p) > 0 {
		k := copy(s.buf[s.n:], p)
		s.n += k
		p = p[k:]
		if s.n == rate {
			s.absorb()
		}
	}
	return n, nil
}
func (s *state) Read(p []byte) (int, error) {
	if !s.out {
		for i := s.n; i < rate; i++ {
			s.buf[i] = 0
		}
		s.buf[s.n] ^= 1
		s.buf[rate-1] ^= 0x80
		s.absorb()
		s.out = true
		s.squeeze()
	}
	n := len(p)
	for len(p) > 0 {
		if len(s.left) == 0 {
			keccakF(&s.a)
			s.squeeze()
		}
		k := copy(p, s.left)
		s.left = s.left[k:]
		p = p[k:]
	}
	return n, nil
}
func (s *state) squeeze() {
	b := make([]byte, rate)
	for i := 0; i < rate/8; i++ {
		binary.LittleEndian.PutUint64(b[i*8:], s.a[i])
	}
	s.left = b
}
func (s *state) Sum(in []byte) []byte {
	c := *s
	var h [32]byte
	_, _ = c.Read(h[:])
	return append(in, h[:]...)
}

// ShakeHash mirrors the interface of the replaced library.
type ShakeHash interface {
	hash.Hash
	Read(p []byte) (int, error)
}

func NewLegacyKeccak256() hash.Hash { return &state{} }
