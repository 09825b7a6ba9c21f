// Package rand is a stand-in for pgregory.net/rand, which is not available
// offline: the same interface over a seeded sfc64 generator.
package rand

import (
	"math"
	"math/bits"
	gorand "math/rand/v2"
)

type Rand struct{ a, b, c, w uint64 }

func New(seed ...uint64) *Rand {
	r := &Rand{}
	switch len(seed) {
	case 0:
		r.init(gorand.Uint64(), gorand.Uint64(), gorand.Uint64())
	case 1:
		r.init(seed[0], seed[0], seed[0])
	case 2:
		r.init(seed[0], seed[1], 0)
	default:
		r.init(seed[0], seed[1], seed[2])
	}
	return r
}

func (r *Rand) init(a, b, c uint64) {
	r.a, r.b, r.c, r.w = a, b, c, 1
	for i := 0; i < 12; i++ {
		r.Uint64()
	}
}

func (r *Rand) Seed(seed uint64) { r.init(seed, seed, seed) }

func (r *Rand) Uint64() uint64 {
	out := r.a + r.b + r.w
	r.w++
	r.a, r.b, r.c = r.b^(r.b>>11), r.c+(r.c<<3), bits.RotateLeft64(r.c, 24)+out
	return out
}
func (r *Rand) Uint32() uint32 { return uint32(r.Uint64() >> 32) }
func (r *Rand) Int63() int64   { return int64(r.Uint64() & math.MaxInt64) }
func (r *Rand) Int31() int32   { return int32(r.Uint64() & math.MaxInt32) }
func (r *Rand) Int() int       { return int(r.Uint64() & math.MaxInt64) }
func (r *Rand) Uint64n(n uint64) uint64 {
	if n == 0 {
		return r.Uint64()
	}
	hi, lo := bits.Mul64(r.Uint64(), n)
	if lo < n {
		t := -n % n
		for lo < t {
			hi, lo = bits.Mul64(r.Uint64(), n)
		}
	}
	return hi
}
func (r *Rand) Uint32n(n uint32) uint32 {
	if n == 0 {
		return r.Uint32()
	}
	return uint32(r.Uint64n(uint64(n)))
}
func (r *Rand) Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(r.Uint64n(uint64(n)))
}
func (r *Rand) Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(r.Uint64n(uint64(n)))
}
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(r.Uint64n(uint64(n)))
}
func (r *Rand) Float64() float64 { return float64(r.Uint64()>>11) / (1 << 53) }
func (r *Rand) Float32() float32 { return float32(r.Uint64()>>40) / (1 << 24) }
func (r *Rand) ExpFloat64() float64 {
	return -math.Log(1 - r.Float64())
}
func (r *Rand) NormFloat64() float64 {
	u, v := 1-r.Float64(), r.Float64()
	return math.Sqrt(-2*math.Log(u)) * math.Cos(2*math.Pi*v)
}
func (r *Rand) Read(p []byte) (int, error) {
	var v uint64
	for i := range p {
		if i%8 == 0 {
			v = r.Uint64()
		}
		p[i] = byte(v)
		v >>= 8
	}
	return len(p), nil
}
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}

func Uint64() uint64                     { return gorand.Uint64() }
func Uint32() uint32                     { return gorand.Uint32() }
func Uint64n(n uint64) uint64            { return gorand.Uint64N(n) }
func Int() int                           { return gorand.Int() }
func Intn(n int) int                     { return gorand.IntN(n) }
func Int63() int64                       { return gorand.Int64() }
func Int63n(n int64) int64               { return gorand.Int64N(n) }
func Int31n(n int32) int32               { return gorand.Int32N(n) }
func Float64() float64                   { return gorand.Float64() }
func Perm(n int) []int                   { return gorand.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { gorand.Shuffle(n, swap) }
