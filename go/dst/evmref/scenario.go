package evmref

import (
	"bytes"
	"fmt"

	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	"github.com/Fantom-foundation/Tosca/go/tosca"
)

// Scenario is a world and a transaction to run in it.
type Scenario struct {
	World *World
	Ctx   TxCtx
	Top   Msg
	Fate  uint64
	Mask  uint64
	Addrs []tosca.Address
	Huge  bool // gas that cannot be used up
}

// NearHashes draws a position for Machine.Near.
func NearHashes(r *simrt.R) int {
	if !r.Chance(1, 4) {
		return 0
	}
	return []int{25, 1, 9, 17}[r.N(4)]
}

// ScenarioCfg controls the generator of scenarios.
type ScenarioCfg struct {
	Contracts int
	Budget    int
	Calls     bool
	Hashes    bool
	Storage   bool
	Cheap     bool
	Faults    bool
	Static    bool // mostly static contexts
	MaxGas    int64
	Huge      uint64 // some executions that need at most that many instructions get gas up to 2^60
	MaxRev    tosca.Revision
	Far       int             // one in that many contracts lies beyond the first 2^16 bytes of its code
	Extra     []tosca.Address // further targets of calls
}

func word(v uint64) (w [32]byte) {
	for i := 0; i < 8; i++ {
		w[31-i] = byte(v >> (8 * i))
	}
	return
}

// Addr is the i-th contract address.
func Addr(i int) tosca.Address { return tosca.Address{0: 0xc0, 18: byte(i >> 8), 19: byte(i)} }

// NewScenario generates a scenario.
func NewScenario(r *simrt.R, c ScenarioCfg) *Scenario {
	s := &Scenario{World: NewWorld()}
	rev := tosca.Revision(r.N(int(tosca.R13_Cancun) + 1))
	n := r.Range(1, c.Contracts)
	for i := 0; i < n; i++ {
		s.Addrs = append(s.Addrs, Addr(i))
	}
	eoa := tosca.Address{0: 0xe0, 19: 1}
	none := tosca.Address{0: 0xe0, 19: 2}
	s.Addrs = append(append(s.Addrs, eoa, none), c.Extra...)
	cfg := GenCfg{Rev: rev, Addrs: s.Addrs, Budget: c.Budget, Calls: c.Calls, Hashes: c.Hashes, Storage: c.Storage, Cheap: c.Cheap, Far: c.Far}
	w := s.World
	w.Get(eoa).Balance = word(uint64(1000 + r.N(1000)))
	w.Get(eoa).Nonce = 3
	for i := 0; i < n; i++ {
		a := w.Get(s.Addrs[i])
		a.Code = Contract(r, cfg)
		a.Nonce = 1
		if r.Chance(1, 2) {
			a.Balance = word(uint64(r.N(10)))
		}
		for k := 0; k < 4; k++ {
			if r.Chance(1, 3) {
				w.SetSlot(s.Addrs[i], word(uint64(k)), word(uint64(r.Range(1, 2))))
			}
			if r.Chance(1, 4) {
				w.WarmSlot(s.Addrs[i], word(uint64(k)))
			}
		}
		if r.Chance(1, 4) {
			w.Warm(s.Addrs[i])
		}
	}
	b := &s.Ctx.Block
	b.Revision = rev
	b.BlockNumber = 1000
	b.Timestamp = 1700000000
	b.GasLimit = 30000000
	b.ChainID = word(250)
	b.Coinbase = tosca.Address{0: 0xcb}
	b.PrevRandao = word(0x1234567)
	b.BaseFee = word(11)
	b.BlobBaseFee = word(3)
	s.Ctx.Tx = tosca.TransactionParameters{Origin: eoa, GasPrice: word(7)}
	for k := r.N(3); k > 0; k-- {
		s.Ctx.Tx.BlobHashes = append(s.Ctx.Tx.BlobHashes, word(uint64(0xb10b+k)))
	}
	m := &s.Top
	m.Kind = tosca.Call
	m.Recipient = s.Addrs[r.N(n)]
	m.CodeAddr = m.Recipient
	m.Sender = eoa
	x := r.N(10)
	switch {
	case x < 4:
		m.Gas = int64(r.Range(50_000, 600_000))
	case x < 7:
		m.Gas = int64(r.Range(500, 50_000))
	case x < 8:
		m.Gas = int64(r.N(1000))
	default:
		m.Gas = int64(r.Range(600_000, 5_000_000))
	}
	if c.MaxGas > 0 && m.Gas > c.MaxGas {
		m.Gas = c.MaxGas
	}
	if r.Chance(1, 4) {
		m.Value = word(uint64(r.N(5)))
	}
	m.Input = make([]byte, []int{0, 4, 32, 68, 100}[r.N(5)])
	for i := range m.Input {
		m.Input[i] = byte(r.N(256))
	}
	num := 1
	if c.Static {
		num = 6
	}
	if r.Chance(num, 10) {
		m.Static = true
		m.Kind = tosca.StaticCall
		m.Value = tosca.Value{}
	} else if r.Chance(1, 20) {
		m.Kind = tosca.Create
		m.Input = Contract(r, cfg)
		m.Recipient, m.CodeAddr = tosca.Address{}, tosca.Address{}
	}
	if c.Faults && r.Chance(1, 2) {
		s.Fate = r.U64() | 1
		s.Mask = r.U64()<<1 | 1
	}
	if c.Huge > 0 && r.Chance(1, 6) {
		was := m.Gas
		m.Gas = 1<<r.Range(31, 60) + int64(r.Range(-1000, 60_000))
		if s.ends(c.Huge) {
			s.Huge = true
		} else {
			m.Gas = was
		}
	}
	return s
}

// ends tells whether the scenario ends within the given number of instructions
// for other reasons than its gas.
func (s *Scenario) ends(limit uint64) (res bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(tooLong); !ok {
				panic(x)
			}
			res = false
		}
	}()
	e := &Env{W: s.World.Clone(), Ctx: s.Ctx, FateSeed: s.Fate, FateMask: s.Mask, Exec: Interpret, Limit: limit}
	m := s.Top
	e.Top(&m)
	return true
}

// Run executes the scenario and returns what can be observed, and the host.
func (s *Scenario) Run(r *simrt.R, exec func(*Env, *Msg, []byte, *tosca.Hash) Res, yield func()) (*Observed, *Env) {
	e := &Env{W: s.World.Clone(), Ctx: s.Ctx, FateSeed: s.Fate, FateMask: s.Mask, Exec: exec, Yield: yield, R: r}
	m := s.Top
	o := &Observed{}
	o.Res = e.Top(&m)
	o.Trace = e.Trace
	o.W = e.W
	return o, e
}

// Reference executes the scenario on the reference interpreter.
func (s *Scenario) Reference() (*Observed, *Env) { return s.Run(nil, Interpret, nil) }

// Machine runs frames on an interpreter of the repository.
type Machine struct {
	Vm tosca.Interpreter
	// NoHash leaves out the code hash in some frames.
	NoHash uint64
	// Near, if not zero, makes the hashes of codes agree in all but the eight
	// bytes at Near-1.
	Near   int
	frames uint64
	// Broken is the first breach of the contract of the interface.
	Broken  string
	outs    [][]byte
	copies  [][]byte
	RunErrs int
}

// Parameters are the parameters of a frame.
func Parameters(e *Env, m *Msg, code []byte, hash *tosca.Hash) tosca.Parameters {
	return tosca.Parameters{
		BlockParameters: e.Ctx.Block, TransactionParameters: e.Ctx.Tx, Context: e, Kind: m.Kind, Static: m.Static, Depth: m.Depth,
		Gas: tosca.Gas(m.Gas), Recipient: m.Recipient, Sender: m.Sender, Input: m.Input, Value: m.Value, CodeHash: hash, Code: code}
}

// Exec runs one frame.
func (v *Machine) Exec(e *Env, m *Msg, code []byte, hash *tosca.Hash) Res {
	v.frames++
	if v.NoHash>>(v.frames%64)&1 == 1 {
		hash = nil
	}
	if v.Near > 0 && hash != nil {
		h := tosca.Hash{0: 0x5e, 15: 0xed, 31: 1}
		copy(h[v.Near-1:], hash[:8])
		hash = &h
	}
	p := Parameters(e, m, code, hash)
	codeCopy, inputCopy := bytes.Clone(code), bytes.Clone(m.Input)
	var hashCopy tosca.Hash
	if hash != nil {
		hashCopy = *hash
	}
	res, err := v.Vm.Run(p)
	if !bytes.Equal(code, codeCopy) {
		v.broken("the code of a frame was modified")
	}
	if !bytes.Equal(m.Input, inputCopy) {
		v.broken("the input of a frame was modified")
	}
	if hash != nil && *hash != hashCopy {
		v.broken("the code hash of a frame was modified")
	}
	if err != nil {
		v.RunErrs++
		return Res{St: Failure, Err: err}
	}
	if int64(res.GasLeft) < 0 || int64(res.GasLeft) > m.Gas+e.extraGas() {
		v.broken(fmt.Sprintf("a frame with %d gas returned %d", m.Gas, res.GasLeft))
	}
	if len(v.outs) < 64 && len(res.Output) > 0 {
		v.outs = append(v.outs, res.Output)
		v.copies = append(v.copies, bytes.Clone(res.Output))
	}
	if res.Success {
		return Res{St: Success, GasLeft: int64(res.GasLeft), Refund: int64(res.GasRefund), Out: res.Output}
	}
	return Res{St: Revert, GasLeft: int64(res.GasLeft), Refund: int64(res.GasRefund), Out: res.Output}
}

// extraGas bounds the stipends a frame can have got back.
func (e *Env) extraGas() int64 { return int64(e.calls) * 2300 }

func (v *Machine) broken(s string) {
	if v.Broken == "" {
		v.Broken = s
	}
}

// CheckOutputs tells whether results given out earlier are still the same.
func (v *Machine) CheckOutputs() string {
	for i := range v.outs {
		if !bytes.Equal(v.outs[i], v.copies[i]) {
			return fmt.Sprintf("the output of an earlier execution changed from %s to %s", short(v.copies[i]), short(v.outs[i]))
		}
	}
	return v.Broken
}
