// Package uint256 is a stand-in for github.com/holiman/uint256, which is not
// available offline: 256-bit unsigned integers with the same interface.
package uint256

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"math/bits"
	"strings"
)

// Int is represented as four 64-bit words, least significant first.
type Int [4]uint64

func NewInt(v uint64) *Int { return &Int{v} }

func (z *Int) Clear() *Int             { *z = Int{}; return z }
func (z *Int) SetOne() *Int            { *z = Int{1}; return z }
func (z *Int) SetAllOne() *Int         { *z = Int{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}; return z }
func (z *Int) Set(x *Int) *Int         { *z = *x; return z }
func (z *Int) SetUint64(x uint64) *Int { *z = Int{x}; return z }
func (z *Int) Clone() *Int             { c := *z; return &c }
func (z *Int) Uint64() uint64          { return z[0] }
func (z *Int) Uint64WithOverflow() (uint64, bool) {
	return z[0], (z[1] | z[2] | z[3]) != 0
}
func (z *Int) IsUint64() bool { return (z[1] | z[2] | z[3]) == 0 }
func (z *Int) IsZero() bool   { return (z[0] | z[1] | z[2] | z[3]) == 0 }

func (z *Int) Eq(x *Int) bool { return *z == *x }
func (z *Int) Cmp(x *Int) int {
	for i := 3; i >= 0; i-- {
		if z[i] < x[i] {
			return -1
		}
		if z[i] > x[i] {
			return 1
		}
	}
	return 0
}
func (z *Int) Lt(x *Int) bool         { return z.Cmp(x) < 0 }
func (z *Int) Gt(x *Int) bool         { return z.Cmp(x) > 0 }
func (z *Int) LtUint64(n uint64) bool { return z[0] < n && z.IsUint64() }
func (z *Int) GtUint64(n uint64) bool { return z[0] > n || !z.IsUint64() }
func (z *Int) CmpUint64(n uint64) int {
	if !z.IsUint64() || z[0] > n {
		return 1
	}
	if z[0] < n {
		return -1
	}
	return 0
}
func (z *Int) Sign() int {
	if z.IsZero() {
		return 0
	}
	if z[3] < 0x8000000000000000 {
		return 1
	}
	return -1
}
func (z *Int) Slt(x *Int) bool {
	a, b := z.Sign() < 0, x.Sign() < 0
	if a != b {
		return a
	}
	return z.Lt(x)
}
func (z *Int) Sgt(x *Int) bool { return x.Slt(z) }

func (z *Int) AddOverflow(x, y *Int) (*Int, bool) {
	var c uint64
	z[0], c = bits.Add64(x[0], y[0], 0)
	z[1], c = bits.Add64(x[1], y[1], c)
	z[2], c = bits.Add64(x[2], y[2], c)
	z[3], c = bits.Add64(x[3], y[3], c)
	return z, c != 0
}
func (z *Int) Add(x, y *Int) *Int { z.AddOverflow(x, y); return z }
func (z *Int) AddUint64(x *Int, y uint64) *Int {
	return z.Add(x, &Int{y})
}
func (z *Int) Iadd(x *Int) *Int { return z.Add(z, x) }
func (z *Int) SubOverflow(x, y *Int) (*Int, bool) {
	var c uint64
	z[0], c = bits.Sub64(x[0], y[0], 0)
	z[1], c = bits.Sub64(x[1], y[1], c)
	z[2], c = bits.Sub64(x[2], y[2], c)
	z[3], c = bits.Sub64(x[3], y[3], c)
	return z, c != 0
}
func (z *Int) Sub(x, y *Int) *Int { z.SubOverflow(x, y); return z }
func (z *Int) SubUint64(x *Int, y uint64) *Int {
	return z.Sub(x, &Int{y})
}
func (z *Int) Neg(x *Int) *Int { return z.Sub(&Int{}, x) }
func (z *Int) Abs(x *Int) *Int {
	if x.Sign() < 0 {
		return z.Neg(x)
	}
	return z.Set(x)
}

func umul(x, y *Int) (r [8]uint64) {
	for i := 0; i < 4; i++ {
		var carry uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(x[i], y[j])
			var c uint64
			lo, c = bits.Add64(lo, r[i+j], 0)
			hi += c
			lo, c = bits.Add64(lo, carry, 0)
			hi += c
			r[i+j] = lo
			carry = hi
		}
		r[i+4] = carry
	}
	return r
}
func (z *Int) Mul(x, y *Int) *Int {
	r := umul(x, y)
	copy(z[:], r[:4])
	return z
}
func (z *Int) MulOverflow(x, y *Int) (*Int, bool) {
	r := umul(x, y)
	copy(z[:], r[:4])
	return z, (r[4] | r[5] | r[6] | r[7]) != 0
}
func (z *Int) Squared() *Int { return z.Mul(z, z) }

// divmod of up to 8 words by a 256-bit number
func udivrem(u []uint64, d *Int) (q [8]uint64, rem Int) {
	if d.IsUint64() {
		var r uint64
		for i := len(u) - 1; i >= 0; i-- {
			q[i], r = bits.Div64(r, u[i], d[0])
		}
		rem[0] = r
		return
	}
	// Knuth, algorithm D.
	n := 4
	for d[n-1] == 0 {
		n--
	}
	s := uint(bits.LeadingZeros64(d[n-1]))
	var v [4]uint64
	for i := n - 1; i > 0; i-- {
		v[i] = d[i]<<s | func() uint64 {
			if s == 0 {
				return 0
			}
			return d[i-1] >> (64 - s)
		}()
	}
	v[0] = d[0] << s
	m := len(u)
	var un [9]uint64
	if s > 0 {
		un[m] = u[m-1] >> (64 - s)
		for i := m - 1; i > 0; i-- {
			un[i] = u[i]<<s | u[i-1]>>(64-s)
		}
		un[0] = u[0] << s
	} else {
		copy(un[:], u)
	}
	for j := m - n; j >= 0; j-- {
		var qhat, rhat uint64
		var over bool
		if un[j+n] >= v[n-1] {
			qhat = ^uint64(0)
			// rhat = un[j+n]*b + un[j+n-1] - qhat*v[n-1]
			var c uint64
			rhat, c = bits.Add64(un[j+n-1], v[n-1], 0)
			over = c != 0
		} else {
			qhat, rhat = bits.Div64(un[j+n], un[j+n-1], v[n-1])
		}
		for !over {
			hi, lo := bits.Mul64(qhat, v[n-2])
			if hi > rhat || (hi == rhat && lo > un[j+n-2]) {
				qhat--
				var c uint64
				rhat, c = bits.Add64(rhat, v[n-1], 0)
				over = c != 0
			} else {
				break
			}
		}
		var borrow, carry uint64
		for i := 0; i < n; i++ {
			hi, lo := bits.Mul64(qhat, v[i])
			var c uint64
			lo, c = bits.Add64(lo, carry, 0)
			carry = hi + c
			un[i+j], borrow = bits.Sub64(un[i+j], lo, borrow)
		}
		un[j+n], borrow = bits.Sub64(un[j+n], carry, borrow)
		if borrow != 0 {
			qhat--
			var c uint64
			for i := 0; i < n; i++ {
				un[i+j], c = bits.Add64(un[i+j], v[i], c)
			}
			un[j+n] += c
		}
		q[j] = qhat
	}
	for i := 0; i < n; i++ {
		if s > 0 {
			rem[i] = un[i]>>s | un[i+1]<<(64-s)
		} else {
			rem[i] = un[i]
		}
	}
	return
}
func (z *Int) Div(x, y *Int) *Int {
	if y.IsZero() || y.Gt(x) {
		return z.Clear()
	}
	q, _ := udivrem(x[:], y)
	copy(z[:], q[:4])
	return z
}
func (z *Int) Mod(x, y *Int) *Int {
	if y.IsZero() {
		return z.Clear()
	}
	if x.Lt(y) {
		return z.Set(x)
	}
	_, r := udivrem(x[:], y)
	return z.Set(&r)
}
func (z *Int) DivMod(x, y, m *Int) (*Int, *Int) {
	a, b := *x, *y
	z.Div(&a, &b)
	m.Mod(&a, &b)
	return z, m
}
func (z *Int) SDiv(n, d *Int) *Int {
	neg := (n.Sign() < 0) != (d.Sign() < 0)
	var a, b Int
	a.Abs(n)
	b.Abs(d)
	z.Div(&a, &b)
	if neg {
		z.Neg(z)
	}
	return z
}
func (z *Int) SMod(x, y *Int) *Int {
	neg := x.Sign() < 0
	var a, b Int
	a.Abs(x)
	b.Abs(y)
	z.Mod(&a, &b)
	if neg {
		z.Neg(z)
	}
	return z
}
func (z *Int) AddMod(x, y, m *Int) *Int {
	if m.IsZero() {
		return z.Clear()
	}
	var s Int
	_, c := s.AddOverflow(x, y)
	u := []uint64{s[0], s[1], s[2], s[3], 0}
	if c {
		u[4] = 1
	}
	_, r := udivrem(u, m)
	return z.Set(&r)
}
func (z *Int) MulMod(x, y, m *Int) *Int {
	if m.IsZero() {
		return z.Clear()
	}
	p := umul(x, y)
	_, r := udivrem(p[:], m)
	return z.Set(&r)
}
func (z *Int) Exp(base, exponent *Int) *Int {
	res := Int{1}
	b, e := *base, *exponent
	for i := e.BitLen() - 1; i >= 0; i-- {
		res.Mul(&res, &res)
		if e[i/64]>>(uint(i)%64)&1 == 1 {
			res.Mul(&res, &b)
		}
	}
	return z.Set(&res)
}
func (z *Int) ExtendSign(x, byteNum *Int) *Int {
	if byteNum.GtUint64(30) {
		return z.Set(x)
	}
	bit := uint(byteNum.Uint64())*8 + 7
	v := *x
	var mask Int
	mask.SetOne()
	mask.Lsh(&mask, bit)
	mask.SubUint64(&mask, 1)
	if v[bit/64]>>(bit%64)&1 == 1 {
		var inv Int
		inv.Not(&mask)
		return z.Or(&v, &inv)
	}
	return z.And(&v, &mask)
}
func (z *Int) And(x, y *Int) *Int {
	for i := range z {
		z[i] = x[i] & y[i]
	}
	return z
}
func (z *Int) Or(x, y *Int) *Int {
	for i := range z {
		z[i] = x[i] | y[i]
	}
	return z
}
func (z *Int) Xor(x, y *Int) *Int {
	for i := range z {
		z[i] = x[i] ^ y[i]
	}
	return z
}
func (z *Int) Not(x *Int) *Int {
	for i := range z {
		z[i] = ^x[i]
	}
	return z
}

// Byte sets z to the value of the byte at position n of z, 0 being the most
// significant one.
func (z *Int) Byte(n *Int) *Int {
	i, over := n.Uint64WithOverflow()
	if over || i >= 32 {
		return z.Clear()
	}
	b := z.Bytes32()
	return z.SetUint64(uint64(b[i]))
}
func (z *Int) Lsh(x *Int, n uint) *Int {
	if n >= 256 {
		return z.Clear()
	}
	v := *x
	w, s := n/64, n%64
	var r Int
	for i := 3; i >= int(w); i-- {
		r[i] = v[i-int(w)] << s
		if s > 0 && i-int(w)-1 >= 0 {
			r[i] |= v[i-int(w)-1] >> (64 - s)
		}
	}
	return z.Set(&r)
}
func (z *Int) Rsh(x *Int, n uint) *Int {
	if n >= 256 {
		return z.Clear()
	}
	v := *x
	w, s := int(n/64), n%64
	var r Int
	for i := 0; i+w < 4; i++ {
		r[i] = v[i+w] >> s
		if s > 0 && i+w+1 < 4 {
			r[i] |= v[i+w+1] << (64 - s)
		}
	}
	return z.Set(&r)
}
func (z *Int) SRsh(x *Int, n uint) *Int {
	if x.Sign() >= 0 {
		return z.Rsh(x, n)
	}
	if n >= 256 {
		return z.SetAllOne()
	}
	var ones Int
	ones.SetAllOne()
	if n > 0 {
		ones.Lsh(&ones, 256-n)
	} else {
		ones.Clear()
	}
	z.Rsh(x, n)
	return z.Or(z, &ones)
}
func (z *Int) BitLen() int {
	for i := 3; i >= 0; i-- {
		if z[i] != 0 {
			return i*64 + bits.Len64(z[i])
		}
	}
	return 0
}
func (z *Int) ByteLen() int { return (z.BitLen() + 7) / 8 }

func (z *Int) Bytes32() (b [32]byte) {
	binary.BigEndian.PutUint64(b[0:8], z[3])
	binary.BigEndian.PutUint64(b[8:16], z[2])
	binary.BigEndian.PutUint64(b[16:24], z[1])
	binary.BigEndian.PutUint64(b[24:32], z[0])
	return
}
func (z *Int) Bytes20() (b [20]byte) {
	x := z.Bytes32()
	copy(b[:], x[12:])
	return
}
func (z *Int) Bytes() []byte {
	b := z.Bytes32()
	return append([]byte{}, b[32-z.ByteLen():]...)
}
func (z *Int) PaddedBytes(n int) []byte {
	b := make([]byte, n)
	x := z.Bytes32()
	for i := 0; i < n && i < 32; i++ {
		b[n-1-i] = x[31-i]
	}
	return b
}
func (z *Int) WriteToSlice(dest []byte) {
	x := z.Bytes32()
	for i := 0; i < 32 && i < len(dest); i++ {
		dest[len(dest)-1-i] = x[31-i]
	}
}
func (z *Int) PutUint256(dest []byte) {
	_ = dest[31]
	x := z.Bytes32()
	copy(dest, x[:])
}
func (z *Int) WriteToArray32(dest *[32]byte) { *dest = z.Bytes32() }
func (z *Int) WriteToArray20(dest *[20]byte) { *dest = z.Bytes20() }

func (z *Int) SetBytes(buf []byte) *Int {
	if len(buf) > 32 {
		buf = buf[len(buf)-32:]
	}
	var b [32]byte
	copy(b[32-len(buf):], buf)
	return z.SetBytes32(b[:])
}
func (z *Int) SetBytes32(in []byte) *Int {
	_ = in[31]
	z[3] = binary.BigEndian.Uint64(in[0:8])
	z[2] = binary.BigEndian.Uint64(in[8:16])
	z[1] = binary.BigEndian.Uint64(in[16:24])
	z[0] = binary.BigEndian.Uint64(in[24:32])
	return z
}
func (z *Int) SetBytes20(in []byte) *Int { return z.SetBytes(in[:20]) }
func (z *Int) SetBytes16(in []byte) *Int { return z.SetBytes(in[:16]) }
func (z *Int) SetBytes8(in []byte) *Int  { return z.SetBytes(in[:8]) }
func (z *Int) SetBytes4(in []byte) *Int  { return z.SetBytes(in[:4]) }
func (z *Int) SetBytes3(in []byte) *Int  { return z.SetBytes(in[:3]) }
func (z *Int) SetBytes2(in []byte) *Int  { return z.SetBytes(in[:2]) }
func (z *Int) SetBytes1(in []byte) *Int  { return z.SetBytes(in[:1]) }

func (z *Int) ToBig() *big.Int {
	b := z.Bytes32()
	return new(big.Int).SetBytes(b[:])
}
func (z *Int) SetFromBig(b *big.Int) bool {
	m := new(big.Int).Abs(b)
	over := m.BitLen() > 256
	mask := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	m.And(m, mask)
	z.SetBytes(m.Bytes())
	if b.Sign() < 0 {
		z.Neg(z)
	}
	return over
}
func FromBig(b *big.Int) (*Int, bool) {
	z := &Int{}
	o := z.SetFromBig(b)
	return z, o
}
func MustFromBig(b *big.Int) *Int {
	z, o := FromBig(b)
	if o {
		panic("overflow")
	}
	return z
}
func (z *Int) Dec() string    { return z.ToBig().String() }
func (z *Int) Hex() string    { return fmt.Sprintf("0x%x", z.ToBig()) }
func (z *Int) String() string { return z.Dec() }
func (z *Int) SetFromHex(s string) error {
	b, ok := new(big.Int).SetString(strings.TrimPrefix(s, "0x"), 16)
	if !ok || b.BitLen() > 256 {
		return errors.New("invalid hex")
	}
	z.SetFromBig(b)
	return nil
}
func (z *Int) SetFromDecimal(s string) error {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok || b.BitLen() > 256 {
		return errors.New("invalid decimal")
	}
	z.SetFromBig(b)
	return nil
}
func (z *Int) Format(s fmt.State, ch rune) { z.ToBig().Format(s, ch) }
func (z *Int) Float64() float64 {
	f, _ := new(big.Float).SetInt(z.ToBig()).Float64()
	return f
}
