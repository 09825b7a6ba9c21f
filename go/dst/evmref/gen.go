package evmref

import (
	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	"github.com/Fantom-foundation/Tosca/go/tosca"
)

// GenCfg controls the generator of contracts.
type GenCfg struct {
	Rev     tosca.Revision
	Addrs   []tosca.Address
	Budget  int
	Calls   bool
	Hashes  bool
	Storage bool
	Cheap   bool // few instructions, no deep stacks
	Far     int  // one in that many contracts lies beyond the first 2^16 bytes of its code, 0 for none
}

type gen struct {
	r *simrt.R
	g GenCfg
	c []byte
	h int // values left on the stack

	far bool
}

func (g *gen) n(n int) int          { return g.r.N(n) }
func (g *gen) chance(a, b int) bool { return g.r.Chance(a, b) }
func (g *gen) op(ops ...int) {
	for _, o := range ops {
		g.c = append(g.c, byte(o))
	}
}
func (g *gen) push(v U)        { g.pushN(v, 0) }
func (g *gen) push64(v uint64) { g.pushN(U{v}, 0) }
func (g *gen) pushN(v U, force int) {
	if v.IsZero() && force == 0 && g.g.Rev >= tosca.R12_Shanghai && g.chance(2, 3) {
		g.op(0x5f)
		return
	}
	n := max(v.ByteLen(), 1)
	if force > n {
		n = force
	} else if force == 0 && g.chance(1, 15) {
		n = g.r.Range(n, 32)
	}
	g.op(0x5f + n)
	b := v.Bytes32()
	g.c = append(g.c, b[32-n:]...)
}
func (g *gen) u(n int) U          { return U{uint64(g.n(n))} }
func addrU(a tosca.Address) (u U) { u.SetBytes(a[:]); return }
func pow2(k uint) (u U)           { u.Lsh(&U{1}, k); return }

func (g *gen) val() U {
	var z U
	switch g.n(12) {
	case 0, 1, 2:
		return g.u(4)
	case 3:
		return g.u(64)
	case 4:
		return g.u(70000)
	case 5:
		k := g.u(3)
		m := U{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
		return *z.Sub(&m, &k)
	case 6:
		b, p := pow2(255), g.u(2)
		z.Add(&b, &p)
		p = g.u(2)
		return *z.Sub(&z, &p)
	case 7:
		return addrU(g.addr0())
	case 8:
		return U{0, g.r.U64()}
	case 9:
		return U{g.r.U64()}
	case 10:
		return pow2(uint(g.n(256)))
	}
	return U{g.r.U64() << 1, g.r.U64() << 1, g.r.U64() << 1, g.r.U64() << 1}
}
func (g *gen) addr0() tosca.Address { return g.g.Addrs[g.n(len(g.g.Addrs))] }
func (g *gen) off() U {
	x := g.n(100)
	var z U
	m := U{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	switch {
	case x < 45:
		return U{uint64(32 * g.n(5))}
	case x < 85:
		return g.u(160)
	case x < 95:
		return g.u(2500)
	case x < 97:
		return U{0xffffffff + uint64(g.n(3))}
	case x < 99:
		k := g.u(40)
		return *z.Sub(&m, &k)
	}
	return U{-uint64(g.n(40) + 1)}
}
func (g *gen) size() U {
	x := g.n(100)
	var z U
	m := U{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	switch {
	case x < 20:
		return U{}
	case x < 45:
		return U{32}
	case x < 60:
		return U{64}
	case x < 92:
		return g.u(130)
	case x < 97:
		return g.u(1500)
	case x < 98:
		k := g.u(40)
		return *z.Sub(&m, &k)
	case x < 99:
		return U{-uint64(g.n(40) + 1)}
	}
	return U{50000}
}
func (g *gen) addr() U {
	if g.chance(1, 14) {
		return g.val()
	}
	return addrU(g.addr0())
}
func (g *gen) arg(v U) { // a constant, or a value already computed
	if g.h > 0 && g.chance(1, 8) {
		g.op(0x80 + g.n(min(g.h, 16)))
	} else {
		g.push(v)
	}
}
func (g *gen) keep() { // one result is on the stack: make it observable
	g.h++
	x := g.n(10)
	switch {
	case x < 4:
		g.push64(uint64(32 * g.n(6)))
		g.op(0x52)
		g.h--
	case x < 5 && g.g.Storage:
		g.push(g.u(4))
		g.op(0x55)
		g.h--
	case x < 7 || g.h > 12:
		g.op(0x50)
		g.h--
	}
}
func (g *gen) call() {
	k := []int{0xf1, 0xf1, 0xf2, 0xf4, 0xfa}[g.n(5)]
	g.push(g.size())
	g.push(g.off())
	g.push(g.size())
	g.push(g.off())
	if k == 0xf1 || k == 0xf2 {
		v := U{}
		if g.chance(1, 4) {
			v = g.u(5)
			if g.chance(1, 6) {
				v = g.val()
			}
		}
		g.push(v)
	}
	g.push(g.addr())
	x := g.n(8)
	switch {
	case x < 3:
		g.op(0x5a)
	case x < 4:
		g.push(g.val())
	default:
		g.push64(uint64(g.n(60) * g.n(60) * g.n(60)))
	}
	g.op(k)
	g.keep()
	if g.chance(1, 3) {
		g.op(0x3d)
		g.keep()
	}
	if g.chance(1, 3) {
		if g.chance(1, 2) {
			g.op(0x3d)
		} else {
			g.push(g.u(70))
		}
		if g.chance(1, 4) {
			g.push(g.u(40))
		} else {
			g.push64(0)
		}
		g.push(g.off())
		g.op(0x3e)
	}
	g.maybeBail()
}
func (g *gen) bail() { // shows everything at hand and ends, needs little gas
	for i := 0; i < 3 && g.h > 0; i++ {
		g.push64(uint64(32 * i))
		g.op(0x52)
		g.h--
	}
	g.op(0x3d)
	g.push64(96)
	g.op(0x52, 0x5a)
	g.push64(128)
	g.op(0x52)
	g.push64(160)
	g.push64(0)
	if g.chance(1, 5) {
		g.op(0xfd)
	} else {
		g.op(0xf3)
	}
}
func (g *gen) maybeBail() {
	if !g.chance(1, 7) {
		return
	}
	always := g.chance(1, 2)
	at := 0
	if !always { // only when return data is present
		g.push64(0)
		g.op(0x3d, 0x11, 0x15)
		at = g.jumpi()
	}
	h := g.h
	g.bail()
	g.h = h
	if !always {
		g.patch(at)
		g.op(0x5b)
	}
}

// jumpi appends a conditional jump whose destination is patched later.
func (g *gen) jumpi() int {
	if g.far {
		g.op(0x62, 0)
	} else {
		g.op(0x61)
	}
	g.op(0, 0, 0x57)
	return len(g.c) - 3
}
func (g *gen) patch(at int) { g.patchTo(at, len(g.c)) }
func (g *gen) patchTo(at, to int) {
	g.c[at], g.c[at+1] = byte(to>>8), byte(to)
	if g.far {
		g.c[at-1] = byte(to >> 16)
	}
}

// filler moves the rest of the code beyond its first 2^16 bytes or to around
// this limit.
func (g *gen) filler() {
	g.far = true
	n := 1<<16 + g.n(400) - 200
	if g.chance(1, 4) {
		n = g.r.Range(1<<16, 1<<18)
	}
	g.op(0x62, 0, 0, 0, 0x56)
	kind := g.n(4)
	x := g.r.U64() | 1
	for len(g.c) < n {
		switch kind {
		case 0:
			g.c = append(g.c, 0)
		case 1:
			g.c = append(g.c, 0x5b, 0)
		case 2:
			g.c = append(g.c, 0x7f)
			g.c = append(g.c, make([]byte, 32)...)
		default:
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			if g.c = append(g.c, byte(x>>40)); g.c[len(g.c)-1] == 0x58 {
				g.c[len(g.c)-1] = 0
			}
		}
	}
	g.c = append(g.c, make([]byte, 32)...) // whatever was pushed ends here
	g.patchTo(2, len(g.c))
	g.op(0x5b)
}
func (g *gen) create() {
	var init []byte
	switch g.n(7) {
	case 0:
		init = []byte{0x60, byte(g.n(64)), 0x60, 0, 0xf3}
	case 1:
		init = []byte{0x60, byte(g.n(64)), 0x60, 0, 0xfd}
	case 2:
		init = []byte{0x60, 1, 0x60, byte(g.n(4)), 0x55, 0x60, 0x20, 0x60, 0, 0xf3}
	case 3:
		init = []byte{0xfe}
	case 4:
		init = []byte{0x33, 0x60, 0, 0x52, 0x60, 0x20, 0x60, 0, 0xf3}
	case 5:
		init = []byte{0x60, 0xef, 0x60, 0, 0x53, 0x60, 1, 0x60, 0, 0xf3}
	default:
		init = []byte{0}
	}
	var w U
	w.SetBytes(append(append([]byte{}, init...), make([]byte, 32-len(init))...))
	g.pushN(w, 32)
	at := U{uint64(32 * g.n(4))}
	g.push(at)
	g.op(0x52)
	two := g.chance(1, 2)
	if two {
		g.push(g.u(3))
	}
	if g.chance(1, 8) {
		g.push(g.size())
		g.push(g.off())
	} else {
		g.push64(uint64(len(init)))
		g.push(at)
	}
	v := U{}
	if g.chance(1, 4) {
		v = g.u(4)
	}
	g.push(v)
	if two {
		g.op(0xf5)
	} else {
		g.op(0xf0)
	}
	g.keep()
	if g.chance(1, 4) {
		g.op(0x3d)
		g.keep()
	}
	g.maybeBail()
}
func (g *gen) small(n int) U {
	if g.chance(1, 4) {
		return g.val()
	}
	return g.u(n)
}
func (g *gen) snippet(depth int) {
	x := g.n(100)
	if g.g.Hashes && g.chance(1, 2) {
		x = 60
	}
	switch {
	case x < 22:
		bins := []int{1, 2, 3, 4, 5, 6, 7, 0x0a, 0x0b, 0x10, 0x11, 0x12, 0x13, 0x14, 0x16, 0x17, 0x18, 0x1a, 0x1b, 0x1c, 0x1d}
		o := bins[g.n(len(bins))]
		g.arg(g.val())
		g.h++
		if g.chance(1, 3) {
			g.arg(g.u(300))
		} else {
			g.arg(g.val())
		}
		g.h--
		g.op(o)
		g.keep()
	case x < 26:
		g.arg(g.val())
		g.op([]int{0x15, 0x19}[g.n(2)])
		g.keep()
	case x < 29:
		g.push(g.val())
		g.push(g.val())
		g.push(g.val())
		g.op([]int{0x08, 0x09}[g.n(2)])
		g.keep()
	case x < 36:
		env := []int{0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x4a, 0x58, 0x59, 0x5a}
		o := env[g.n(len(env))]
		if g.far && o == 0x58 { // lfvm's documented limit
			o = 0x59
		}
		if (o == 0x48 && g.g.Rev < tosca.R10_London) || (o == 0x4a && g.g.Rev < tosca.R13_Cancun) {
			o = 0x5a
		}
		g.op(o)
		g.keep()
	case x < 40:
		if g.chance(1, 3) {
			g.push(g.val())
		} else {
			g.push64(uint64(g.r.Range(700, 1010)))
		}
		g.op(0x40)
		g.keep()
		if g.g.Rev >= tosca.R13_Cancun {
			g.push(g.u(4))
			g.op(0x49)
			g.keep()
		}
	case x < 46:
		g.arg(g.small(80))
		g.op(0x35)
		g.keep()
	case x < 58:
		k := 5
		if g.g.Rev >= tosca.R13_Cancun {
			k = 6
		}
		switch g.n(k) {
		case 0, 1:
			g.arg(g.val())
			g.h++
			g.push(g.off())
			g.h--
			g.op([]int{0x52, 0x53}[g.n(2)])
		case 2:
			g.push(g.off())
			g.op(0x51)
			g.keep()
		case 3:
			g.push(g.size())
			g.push(g.small(80))
			g.push(g.off())
			g.op([]int{0x37, 0x39}[g.n(2)])
		case 4:
			g.push(g.size())
			g.push(g.small(80))
			g.push(g.off())
			g.push(g.addr())
			g.op(0x3c)
		case 5:
			g.push(g.size())
			g.push(g.off())
			g.push(g.off())
			g.op(0x5e)
		}
	case x < 64:
		if g.chance(1, 2) {
			g.push64([]uint64{32, 64}[g.n(2)])
		} else {
			g.push(g.size())
		}
		if g.chance(1, 2) {
			g.push64(uint64(32 * g.n(3)))
		} else {
			g.push(g.off())
		}
		g.op(0x20)
		g.keep()
	case x < 70:
		g.push(g.addr())
		g.op([]int{0x31, 0x3b, 0x3f}[g.n(3)])
		g.keep()
	case x < 80 && g.g.Storage:
		k := 4
		if g.g.Rev >= tosca.R13_Cancun {
			k = 6
		}
		y := g.n(k)
		switch {
		case y < 2:
			if g.chance(1, 20) {
				g.push(g.val())
			} else {
				g.push(g.u(4))
			}
			g.op(0x54)
			g.keep()
		case y < 4:
			g.push(g.u(3))
			g.push(g.u(4))
			g.op(0x55)
		case y < 5:
			g.push(g.u(4))
			g.op(0x5c)
			g.keep()
		default:
			g.push(g.u(3))
			g.push(g.u(4))
			g.op(0x5d)
		}
	case x < 83:
		n := g.n(5)
		for i := 0; i < n; i++ {
			g.push(g.val())
		}
		g.push(g.size())
		g.push(g.off())
		g.op(0xa0 + n)
	case x < 91 && g.g.Calls:
		if g.chance(1, 5) {
			g.create()
		} else {
			g.call()
		}
	case x < 94 && depth < 2: // if
		if g.chance(1, 2) {
			g.arg(g.u(2))
		} else {
			g.arg(g.val())
		}
		at := g.jumpi()
		h := g.h
		for i := 0; i < 1+g.n(2); i++ {
			g.snippet(depth + 1)
		}
		for g.h > h {
			g.op(0x50)
			g.h--
		}
		g.patch(at)
		if g.chance(1, 40) {
			g.c[at+1]++
		}
		g.op(0x5b)
	case x < 97 && depth < 2: // loop
		g.push64(uint64(g.r.Range(1, 5)))
		g.h++
		top := len(g.c)
		g.op(0x5b)
		h := g.h
		for i := 0; i < 1+g.n(2); i++ {
			g.snippet(depth + 1)
		}
		for g.h > h {
			g.op(0x50)
			g.h--
		}
		if g.h == h {
			g.push64(1)
			g.op(0x90, 0x03, 0x80)
			g.patchTo(g.jumpi(), top)
		}
		g.op(0x50)
		g.h--
	case x < 98:
		if g.h > 1 {
			g.op(0x90 + g.n(min(g.h-1, 16)))
		}
	case x < 99:
		g.op(0x5b)
	default:
		if g.chance(1, 2) {
			if op := g.n(256); !g.far || op != 0x58 {
				g.op(op)
			}
		} else if g.chance(1, 3) {
			g.push(g.val())
			g.op(0x56)
		} else {
			g.push(g.addr())
			if g.g.Storage {
				g.op(0xff)
			} else {
				g.op(0x50)
			}
		}
	}
}

// Contract generates a contract.
func Contract(r *simrt.R, cfg GenCfg) []byte {
	g := &gen{r: r, g: cfg}
	n := r.Range(1, cfg.Budget)
	if cfg.Far > 0 && r.Chance(1, cfg.Far) {
		g.filler()
	}
	if !cfg.Cheap && r.Chance(1, 60) { // climb towards the stack limit
		for k := r.Range(1000, 1030); k > 0; k-- {
			g.op(0x5a)
		}
		for i := 0; i < 8; i++ {
			if g.chance(1, 2) {
				g.op(0x50)
			} else {
				g.op(0x80 + g.n(16))
			}
		}
	}
	for i := 0; i < n; i++ {
		g.snippet(0)
	}
	x := g.n(12)
	switch {
	case x < 7:
		if g.chance(1, 2) {
			g.push64(192)
		} else {
			g.push(g.size())
		}
		if g.chance(1, 4) {
			g.push(g.off())
		} else {
			g.push64(0)
		}
		g.op(0xf3)
	case x < 9:
		g.push(g.u(100))
		g.push(g.u(64))
		g.op(0xfd)
	case x < 10:
		g.op(0x00)
	}
	if g.chance(1, 8) { // a truncated push
		g.op(0x60 + g.n(32))
	}
	return g.c
}
