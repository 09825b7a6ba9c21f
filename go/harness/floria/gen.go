package main

import (
	"math/big"

	"github.com/Fantom-foundation/Tosca/go/dst/evmref"
	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	"github.com/Fantom-foundation/Tosca/go/tosca"
)

type gen struct {
	r       *simrt.R
	focus   string
	modest  bool
	world   *evmref.World
	scripts []script
	rev     tosca.Revision
	n       int // contracts
	body    int // scripts of contracts and of created contracts
	inits   int // first script of creations
	targets []tosca.Address
	eoa     tosca.Address
	deep    bool
	block   int64
}

var (
	rich = tosca.Address{0: 0xe1, 19: 9}
	poor = tosca.Address{0: 0xe0, 19: 2}
)

func newGen(r *simrt.R, focus string) *gen {
	g := &gen{r: r, focus: focus, world: evmref.NewWorld(), rev: tosca.Revision(r.N(int(tosca.R13_Cancun) + 1)), eoa: tosca.Address{0: 0xe0, 19: 1}, block: 100, modest: focus == "conc"}
	if opera && !adapter {
		g.rev = tosca.Revision(r.N(int(tosca.R10_London) + 1))
	}
	g.n = r.Range(1, 4)
	g.body = g.n + r.N(3)
	g.inits = g.body + 1 // one more for the driver
	for i := 0; i < g.n; i++ {
		g.targets = append(g.targets, evmref.Addr(i))
	}
	w := g.world
	g.targets = append(g.targets, evmref.Addr(0), g.eoa, poor, rich, evmref.Driver, evmref.StateContract, tosca.Address{})
	for i := byte(1); i <= 11; i++ {
		g.targets = append(g.targets, tosca.Address{19: i})
	}
	// contracts at addresses resembling those of precompiled contracts
	for _, a := range []tosca.Address{{18: 1, 19: byte(r.Range(1, 10))}, {0: 1, 19: byte(r.Range(1, 10))}, {19: 10}} {
		if r.Chance(1, 3) {
			w.Get(a).Code = codeOf(r.N(g.n), r.N(5))
			g.targets = append(g.targets, a)
		}
	}
	// addresses contracts are going to be created at
	var taken []tosca.Address
	for i := 0; i < g.n; i++ {
		for k := uint64(1); k < 4; k++ {
			taken = append(taken, evmref.ProcAddress(false, evmref.Addr(i), k, tosca.Hash{}, nil))
		}
	}
	for k := uint64(0); k < 6; k++ {
		taken = append(taken, evmref.ProcAddress(false, g.eoa, k, tosca.Hash{}, nil))
	}
	g.targets = append(g.targets, taken[r.N(len(taken))], taken[r.N(len(taken))])

	g.deep = !g.modest && focus == "frames" && r.Chance(1, 80)
	for i := 0; i <= g.body; i++ {
		g.scripts = append(g.scripts, g.script(i == g.body))
	}
	for k := r.Range(1, 3); k > 0; k-- {
		g.scripts = append(g.scripts, g.initScript())
	}
	for i := range g.scripts {
		for k := range g.scripts[i].actions {
			a := &g.scripts[i].actions[k]
			if a.kind == 'n' {
				a.initial = g.initCode()
			}
		}
	}
	for i := 0; i < g.n; i++ {
		c := w.Get(evmref.Addr(i))
		c.Code = codeOf(i, r.N(20))
		c.Nonce = 1
		c.Balance = []tosca.Value{{}, tosca.NewValue(1), tosca.NewValue(20), tosca.NewValue(100000)}[r.N(4)]
		for k := 0; k < 3; k++ {
			if r.Chance(1, 3) {
				w.SetSlot(evmref.Addr(i), word(uint64(k)), word(uint64(r.Range(1, 2))))
			}
		}
		if r.Chance(1, 25) {
			c.Nonce = ^uint64(0) - uint64(r.N(2))
		}
	}
	if !opera {
		w.Get(rich).Balance = tosca.Sub(tosca.Value{}, tosca.NewValue(uint64(r.Range(1, 20))))
	}
	d := w.Get(evmref.Driver)
	if r.Chance(3, 4) {
		d.Code = codeOf(g.body, r.N(10))
		d.Nonce = 1
	}
	d.Balance = tosca.NewValue(uint64(r.N(50)))
	for _, a := range taken {
		switch r.N(14) {
		case 1:
			w.Get(a).Balance = tosca.NewValue(uint64(r.Range(1, 9)))
		case 2:
			w.Get(a).Nonce = 1
		case 3:
			w.Get(a).Code = codeOf(r.N(g.n), 0)
		}
	}
	return g
}

func (g *gen) target() tosca.Address { return g.targets[g.r.N(len(g.targets))] }

// stateInput is a message to the state contract, sometimes a malformed one.
func (g *gen) stateInput() []byte {
	r := g.r
	sels := [][4]byte{evmref.SelSetBalance, evmref.SelIncNonce, evmref.SelCopyCode, evmref.SelSwapCode, evmref.SelSetStorage}
	k := r.N(len(sels))
	in := append([]byte{}, sels[k][:]...)
	arg := func(b [32]byte) { in = append(in, b[:]...) }
	addr := func() {
		var b [32]byte
		a := g.target()
		copy(b[12:], a[:])
		if r.Chance(1, 10) {
			b[r.N(12)] = 1 // upper bytes are ignored
		}
		arg(b)
	}
	addr()
	switch k {
	case 0:
		arg(word(uint64(r.N(100))))
	case 1:
		n := [][32]byte{word(1), word(255), word(256), word(0), {22: 1, 31: 1}, {0: 1}, word(1 << 63), word(uint64(r.N(300)))}
		arg(n[r.N(len(n))])
	case 2, 3:
		addr()
	case 4:
		arg(word(uint64(r.N(3))))
		arg(word(uint64(r.N(3))))
	}
	switch r.N(14) {
	case 1:
		in = in[:r.N(len(in))]
	case 2:
		in = append(in, byte(r.N(256)))
	case 3:
		in[r.N(4)] ^= 1 << r.N(8)
	case 4:
		in = append(in, make([]byte, 32)...)
	}
	return in
}

func (g *gen) input() []byte {
	r := g.r
	if r.Chance(1, 5) {
		return g.stateInput()
	}
	in := make([]byte, []int{0, 1, 4, 32, 33, 64, 100}[r.N(7)])
	for i := range in {
		in[i] = byte(r.N(256))
	}
	if len(in) > 0 && r.Chance(1, 5) {
		in[len(in)-1] = 0xee
	}
	if len(in) > 0 && r.Chance(1, 8) {
		in[0] = byte(0xfe + r.N(2))
	}
	return in
}

func (g *gen) script(driver bool) script {
	r := g.r
	s := script{burn: int64(r.N(3) * r.N(2000)), refund: int64([]int{0, 0, 4800, 15000, 100000}[r.N(5)])}
	if opera && r.Chance(1, 3) {
		s.refund = -int64([]int{4800, 15000, 20000}[r.N(3)])
	}
	n := r.Range(0, 5)
	if g.modest {
		n = r.Range(0, 3)
	}
	for ; n > 0; n-- {
		s.actions = append(s.actions, g.action(driver))
	}
	if g.deep && r.Chance(1, 2) {
		s.actions = append([]action{{kind: 'c', call: []tosca.CallKind{tosca.Call, tosca.Call, tosca.CallCode, tosca.DelegateCall, tosca.StaticCall}[r.N(5)], self: true, share: 4}}, s.actions...)
	}
	s.end = "sssssssrrrfep"[r.N(13)]
	if s.end == 'p' && r.Chance(2, 3) {
		s.end = 's'
	}
	s.out = make([]byte, []int{0, 1, 32, 70}[r.N(4)])
	for i := range s.out {
		s.out[i] = byte(r.N(256))
	}
	return s
}

func (g *gen) action(driver bool) action {
	r := g.r
	kinds := "ccccnnsstlgwgdx"
	if driver || g.focus == "state" && r.Chance(1, 3) {
		kinds = "ccccccgcn"
	}
	a := action{kind: kinds[r.N(len(kinds))], key: r.N(3), val: r.N(4), target: g.target(), share: r.N(5), value: r.N(7), salt: byte(r.N(2))}
	switch a.kind {
	case 'c':
		a.call = []tosca.CallKind{tosca.Call, tosca.Call, tosca.Call, tosca.CallCode, tosca.DelegateCall, tosca.StaticCall}[r.N(6)]
		a.input = g.input()
		a.self = r.Chance(1, 12)
		if r.Chance(2, 3) {
			a.share = r.Range(2, 4)
		}
		if r.Chance(1, 4) {
			a.exact = []int{1, 2, 2, 3}[r.N(4)]
		}
		if driver && r.Chance(2, 3) || g.focus == "state" && r.Chance(1, 4) {
			a.target = evmref.StateContract
			a.input = g.stateInput()
			a.share = 2
			if r.Chance(2, 3) {
				a.value = 0
			}
		}
	case 'n':
		a.call = []tosca.CallKind{tosca.Create, tosca.Create2}[r.N(2)]
		if r.Chance(2, 3) {
			a.share = r.Range(2, 4)
		}
	}
	return a
}

func (g *gen) initScript() script {
	s := g.script(false)
	r := g.r
	switch r.N(10) {
	case 0:
		s.out = nil
	case 1:
		s.out = append([]byte{0xEF}, make([]byte, r.N(10))...)
	case 2:
		s.out = append(codeOf(r.N(g.body), 0), make([]byte, []int{24573, 24574, 30000, 24572}[r.N(4)])...)
	case 3:
		s.out = append(codeOf(r.N(g.body), 0), make([]byte, r.N(3000))...)
	default:
		s.out = codeOf(r.N(g.body), r.N(30))
	}
	if r.Chance(1, 2) {
		s.end = 's'
	}
	return s
}

func (g *gen) initCode() []byte {
	r := g.r
	if r.Chance(1, 10) {
		return nil
	}
	k := r.Range(g.inits, len(g.scripts)-1)
	return codeOf(k, []int{0, 0, 1, 40}[r.N(4)])
}

// transaction generates the next transaction for the world.
func (g *gen) transaction() *job {
	r := g.r
	g.block++
	j := &job{world: g.world.Clone(), scripts: g.scripts, deep: g.deep}
	j.block = tosca.BlockParameters{Revision: g.rev, BlockNumber: g.block, Timestamp: 1_700_000_000 + g.block, GasLimit: 30_000_000, ChainID: word(250), BaseFee: word(uint64(r.N(20))), Coinbase: tosca.Address{1: 0xcb}}
	if adapter {
		j.block.PrevRandao, j.block.BlobBaseFee, j.block.Coinbase = word(uint64(r.N(1000))), word(uint64(r.N(50))), g.target()
		j.block.PrevRandao[0] = byte(r.N(256))
		j.refund = uint64(r.N(3) * r.N(30000))
		for k := r.N(3); k > 0; k-- {
			j.blobs = append(j.blobs, word(uint64(r.N(100))))
		}
	}
	t := &j.tx
	t.Sender = g.eoa
	if r.Chance(1, 8) {
		t.Sender = tosca.Address{} // internal
	}
	if r.Chance(1, 12) {
		t.Sender = []tosca.Address{evmref.Driver, evmref.Addr(0), poor, rich}[r.N(4)]
	}
	odds := 3
	if g.focus == "tx" {
		odds = 2
	}
	if r.Chance(1, 2*odds) {
		t.Input = g.initCode()
		if r.Chance(1, 8) {
			k := []int{49152, 49153, 49151, 60000}[r.N(4)]
			t.Input = append(t.Input, make([]byte, k-len(t.Input))...)
		}
	} else {
		a := evmref.Addr(r.N(g.n))
		if r.Chance(1, 3) {
			a = g.target()
		}
		if g.focus == "state" && r.Chance(2, 3) {
			a = evmref.Driver
			if r.Chance(1, 5) {
				a = evmref.StateContract
			}
		}
		t.Recipient = &a
		t.Input = g.input()
	}
	for i := range t.Input {
		if g.focus == "tx" && r.N(2) == 1 && i < 4 {
			t.Input[i] = 0
		}
	}
	t.GasPrice = []tosca.Value{tosca.NewValue(1), {}, tosca.NewValue(7), tosca.NewValue(1_000_000_007), tosca.NewValue(1, 0, 0), tosca.NewValue(1, 0)}[r.N(6)]
	switch r.N(5) {
	case 0, 1, 2:
		t.GasLimit = tosca.Gas(r.Range(100_000, 2_000_000))
	case 3:
		t.GasLimit = tosca.Gas(r.Range(20_000, 120_000))
	default:
		t.GasLimit = tosca.Gas([]int{0, 21000, 20999, 53000, 21016, 53100, 60000}[r.N(7)])
	}
	if len(t.Input) > 1000 {
		t.GasLimit += tosca.Gas(4 * len(t.Input))
	}
	if g.deep {
		t.GasLimit = 50_000_000
	} else if r.Chance(1, 12) {
		t.GasLimit += 12_000_000 // enough for codes of maximum size
	}
	if r.Chance(1, 2) {
		t.AccessList = []tosca.AccessTuple{}
		for k := r.N(4); k > 0; k-- {
			e := tosca.AccessTuple{Address: g.target()}
			for i := r.N(3); i > 0; i-- {
				e.Keys = append(e.Keys, word(uint64(r.N(3))))
			}
			t.AccessList = append(t.AccessList, e)
		}
	}
	s := j.world.Get(t.Sender)
	if r.Chance(1, 40) && !opera {
		s.Nonce = ^uint64(0) - uint64(r.N(2))
	}
	t.Nonce = s.Nonce
	if r.Chance(1, 14) {
		t.Nonce += uint64(r.Range(1, 2)) * uint64(2*r.N(2)-1)
	}
	if r.Chance(1, 30) {
		// a price at which the costs exceed 256 bits, by little or a lot
		t.GasPrice = tosca.Value{31: 1}
		t.GasPrice[r.N(4)] = 1
	}
	cost := t.GasPrice.Scale(uint64(t.GasLimit))
	if s.Balance == (tosca.Value{}) || r.Chance(1, 3) || s.Balance.Cmp(cost) < 0 && !r.Chance(1, 8) {
		switch r.N(8) {
		case 0:
			s.Balance = cost
		case 1:
			if cost != (tosca.Value{}) {
				s.Balance = tosca.Sub(cost, tosca.NewValue(1))
			}
		default:
			s.Balance = tosca.Add(cost, tosca.NewValue(uint64(r.N(2000))))
		}
	}
	t.Value = amount(r.N(7), s.Balance)
	if r.Chance(1, 2) {
		t.Value = tosca.NewValue(uint64(r.N(2)))
	}
	if opera && t.Recipient == nil {
		// nothing is promised for creations that cannot be paid
		left := new(big.Int).SetBytes(s.Balance[:])
		left.Sub(left, new(big.Int).Mul(new(big.Int).SetBytes(t.GasPrice[:]), big.NewInt(int64(t.GasLimit))))
		if left.Cmp(new(big.Int).SetBytes(t.Value[:])) < 0 {
			t.Value = tosca.Value{}
		}
	}
	return j
}
