// Package evmref is an executable reference for the protocol between an
// interpreter and its host: the simulated host and world, a reference
// interpreter, the comparison of observations, and a generator of contracts.
package evmref

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"golang.org/x/crypto/sha3"
)

// Status is the outcome of a frame.
type Status int

const (
	Success Status = iota
	Revert
	Failure
)

func (s Status) String() string { return []string{"success", "revert", "failure"}[s] }

// Keccak is independent of the code under test.
func Keccak(b []byte) (r [32]byte) {
	h := sha3.NewLegacyKeccak256()
	h.Write(b)
	copy(r[:], h.Sum(nil))
	return
}

// Account is an account of the simulated world.
type Account struct {
	Balance    tosca.Value
	Nonce      uint64
	Code       []byte
	St, Orig   map[tosca.Key]tosca.Word
	Destructed bool
	// New: created in the transaction
	New bool
}

type slot struct {
	a tosca.Address
	k tosca.Key
}

// World is the simulated world state.
type World struct {
	Acc   map[tosca.Address]*Account
	Trans map[slot]tosca.Word
	WarmA map[tosca.Address]bool
	WarmS map[slot]bool
	Logs  []tosca.Log
}

// NewWorld creates an empty world.
func NewWorld() *World {
	return &World{Acc: map[tosca.Address]*Account{}, Trans: map[slot]tosca.Word{}, WarmA: map[tosca.Address]bool{}, WarmS: map[slot]bool{}}
}

// Get returns an account, creating it when needed.
func (w *World) Get(a tosca.Address) *Account {
	c := w.Acc[a]
	if c == nil {
		c = &Account{St: map[tosca.Key]tosca.Word{}, Orig: map[tosca.Key]tosca.Word{}}
		w.Acc[a] = c
	}
	return c
}

// SetSlot sets a slot before the transaction.
func (w *World) SetSlot(a tosca.Address, k tosca.Key, v tosca.Word) {
	c := w.Get(a)
	c.St[k] = v
	c.Orig[k] = v
}

// Warm marks an account and a slot as already accessed.
func (w *World) Warm(a tosca.Address) { w.WarmA[a] = true }

// WarmSlot marks a slot as already accessed.
func (w *World) WarmSlot(a tosca.Address, k tosca.Key) { w.WarmS[slot{a, k}] = true }

// Clone copies the world.
func (w *World) Clone() *World {
	n := NewWorld()
	for a, c := range w.Acc {
		d := *c
		d.St = map[tosca.Key]tosca.Word{}
		for k, v := range c.St {
			d.St[k] = v
		}
		d.Orig = c.Orig
		n.Acc[a] = &d
	}
	for k, v := range w.Trans {
		n.Trans[k] = v
	}
	for k := range w.WarmA {
		n.WarmA[k] = true
	}
	for k := range w.WarmS {
		n.WarmS[k] = true
	}
	n.Logs = append([]tosca.Log{}, w.Logs...)
	return n
}

func (c *Account) blank() bool {
	return c.Balance == (tosca.Value{}) && c.Nonce == 0 && len(c.Code) == 0 && len(c.St) == 0 && !c.Destructed
}

// DiffWorld describes the first difference of two worlds.
func DiffWorld(a, b *World) string {
	check := func(x, y *World, what string) string {
		for k, c := range x.Acc {
			d := y.Acc[k]
			if d == nil {
				if c.blank() {
					continue
				}
				return fmt.Sprintf("account %x is %s", k, what)
			}
			if c.Balance != d.Balance || c.Nonce != d.Nonce || !bytes.Equal(c.Code, d.Code) || c.Destructed != d.Destructed {
				return fmt.Sprintf("account %x differs: balance %x/%x nonce %d/%d code %x/%x destructed %t/%t", k, c.Balance, d.Balance, c.Nonce, d.Nonce, c.Code, d.Code, c.Destructed, d.Destructed)
			}
			for s, v := range c.St {
				if d.St[s] != v {
					return fmt.Sprintf("storage %x of %x is %x/%x", s, k, v, d.St[s])
				}
			}
			for s, v := range d.St {
				if c.St[s] != v {
					return fmt.Sprintf("storage %x of %x is %x/%x", s, k, c.St[s], v)
				}
			}
		}
		return ""
	}
	if s := check(a, b, "missing"); s != "" {
		return s
	}
	if s := check(b, a, "unexpected"); s != "" {
		return s
	}
	if len(a.Trans) != len(b.Trans) {
		return "transient storage differs"
	}
	for k, v := range a.Trans {
		if b.Trans[k] != v {
			return "transient storage differs"
		}
	}
	return ""
}

// Effect is one interaction with the host that others can observe.
type Effect struct {
	Kind  string
	Depth int
	A     tosca.Address
	B     tosca.Address
	C     tosca.Address
	W     [][32]byte
	N     []int64
	Data  []byte
}

func (e *Effect) equal(o *Effect) bool {
	if e.Kind != o.Kind || e.Depth != o.Depth || e.A != o.A || e.B != o.B || e.C != o.C || len(e.W) != len(o.W) || len(e.N) != len(o.N) || !bytes.Equal(e.Data, o.Data) {
		return false
	}
	for i := range e.W {
		if e.W[i] != o.W[i] {
			return false
		}
	}
	for i := range e.N {
		if e.N[i] != o.N[i] {
			return false
		}
	}
	return true
}

func short(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%x...(%d)", b[:80], len(b))
	}
	return fmt.Sprintf("%x(%d)", b, len(b))
}

func trim(b []byte) string {
	for len(b) > 1 && b[0] == 0 {
		b = b[1:]
	}
	return fmt.Sprintf("%x", b)
}

func (e *Effect) String() string {
	s := fmt.Sprintf("%s@%d %s %s %s", e.Kind, e.Depth, trim(e.A[:]), trim(e.B[:]), trim(e.C[:]))
	for _, w := range e.W {
		s += " " + trim(w[:])
	}
	return s + fmt.Sprintf(" %v %s", e.N, short(e.Data))
}

// Msg is a message: the parameters of a frame.
type Msg struct {
	Kind      tosca.CallKind
	Static    bool
	Depth     int
	Gas       int64
	Recipient tosca.Address
	Sender    tosca.Address
	CodeAddr  tosca.Address
	Value     tosca.Value
	Salt      tosca.Hash
	Input     []byte
}

// Res is the outcome of a frame.
type Res struct {
	St      Status
	GasLeft int64
	Refund  int64
	Out     []byte
	Created tosca.Address
	Err     error
}

// TxCtx is the context of a transaction.
type TxCtx struct {
	Block tosca.BlockParameters
	Tx    tosca.TransactionParameters
}

type frame struct {
	static bool
	self   tosca.Address
	first  int
}

// Env is the simulated host: one transaction against one world.
type Env struct {
	W        *World
	Ctx      TxCtx
	FateSeed uint64 // 0: no injected callee behaviour
	FateMask uint64
	Trace    []Effect
	Breach   string
	Exec     func(e *Env, m *Msg, code []byte, hash *tosca.Hash) Res
	Yield    func()
	R        *simrt.R

	// Proc makes the host process messages like a processor of transactions.
	Proc bool
	// OnCall sees the outcome of messages in that mode.
	OnCall func(m *Msg, r *Res)
	// OriginOnly: the state contract protects the balance and the nonce of the
	// origin of the transaction only, and is reached by plain calls only.
	OriginOnly bool
	// NoState: there is no state contract.
	NoState bool
	// Geth: self-destruction as in Ethereum. Contracts are their own
	// beneficiaries for nothing, and from Cancun on only new ones are destroyed.
	Geth bool
	// Minted: balances were set by the state contract.
	Minted     bool
	StateCalls int

	calls  int
	frames []frame
	snaps  []*World

	Limit        uint64 // of instructions, if any
	Instructions uint64
	Executed     [256]uint64
	Nested       int
	StaticFrames int
	// Keep lists the instructions of the reference interpreter.
	Keep  bool
	Instr []InstrRec
}

// InstrRec is an instruction about to be executed.
type InstrRec struct {
	Depth int
	Pc    int
	Op    byte
	Gas   int64
	Empty bool
	Top   [32]byte
	Stack int
	// Implicit: the stop behind the end of the code
	Implicit bool
}

func (e *Env) hook() {
	if e.Yield != nil {
		e.Yield()
	}
}

// Context is the context of the transaction.
func (e *Env) Context() *TxCtx { return &e.Ctx }

func (e *Env) rev() tosca.Revision { return e.Ctx.Block.Revision }

func (e *Env) breach(format string, args ...any) {
	if e.Breach == "" {
		e.Breach = fmt.Sprintf(format, args...)
	}
}

func (e *Env) mustNotBeStatic(what string) {
	if n := len(e.frames); n > 0 && e.frames[n-1].static {
		e.breach("%s requested by a frame running in a static context (depth %d)", what, n-1)
	}
}

func (e *Env) depth() int { return len(e.frames) - 1 }

// Present tells whether an account exists.
func (e *Env) Present(a tosca.Address) bool {
	c := e.W.Acc[a]
	return c != nil && (c.Balance != tosca.Value{} || c.Nonce != 0 || len(c.Code) > 0)
}

func (e *Env) AccountExists(a tosca.Address) bool { e.hook(); return e.Present(a) }
func (e *Env) GetBalance(a tosca.Address) tosca.Value {
	e.hook()
	if c := e.W.Acc[a]; c != nil {
		return c.Balance
	}
	return tosca.Value{}
}
func (e *Env) SetBalance(a tosca.Address, v tosca.Value) {
	e.hook()
	if c := e.W.Acc[a]; v != (tosca.Value{}) && c == nil || c != nil && c.Balance != v {
		e.mustNotBeStatic("a change of an account")
	}
	e.W.Get(a).Balance = v
	e.Trace = append(e.Trace, Effect{Kind: "set-balance", Depth: e.depth(), A: a, W: [][32]byte{v}})
}
func (e *Env) GetNonce(a tosca.Address) uint64 {
	e.hook()
	if c := e.W.Acc[a]; c != nil {
		return c.Nonce
	}
	return 0
}
func (e *Env) SetNonce(a tosca.Address, n uint64) {
	e.hook()
	if c := e.W.Acc[a]; n != 0 && c == nil || c != nil && c.Nonce != n {
		e.mustNotBeStatic("a change of an account")
	}
	e.W.Get(a).Nonce = n
	e.Trace = append(e.Trace, Effect{Kind: "set-nonce", Depth: e.depth(), A: a, N: []int64{int64(n)}})
}
func (e *Env) codeOf(a tosca.Address) []byte {
	if c := e.W.Acc[a]; c != nil {
		return c.Code
	}
	return nil
}
func (e *Env) GetCode(a tosca.Address) tosca.Code {
	e.hook()
	return tosca.Code(bytes.Clone(e.codeOf(a)))
}
func (e *Env) GetCodeSize(a tosca.Address) int { e.hook(); return len(e.codeOf(a)) }
func (e *Env) GetCodeHash(a tosca.Address) tosca.Hash {
	e.hook()
	if !e.Present(a) {
		return tosca.Hash{}
	}
	return Keccak(e.codeOf(a))
}
func (e *Env) SetCode(a tosca.Address, c tosca.Code) {
	e.hook()
	e.mustNotBeStatic("a change of an account")
	e.W.Get(a).Code = bytes.Clone(c)
	e.Trace = append(e.Trace, Effect{Kind: "set-code", Depth: e.depth(), A: a, Data: bytes.Clone(c)})
}
func (e *Env) GetStorage(a tosca.Address, k tosca.Key) tosca.Word {
	e.hook()
	if c := e.W.Acc[a]; c != nil {
		return c.St[k]
	}
	return tosca.Word{}
}
func (e *Env) GetCommittedStorage(a tosca.Address, k tosca.Key) tosca.Word {
	e.hook()
	if c := e.W.Acc[a]; c != nil {
		return c.Orig[k]
	}
	return tosca.Word{}
}

// StorageStatus is the classification of a storage update.
func StorageStatus(org, cur, v tosca.Word) tosca.StorageStatus {
	z := tosca.Word{}
	switch {
	case cur == v:
		return tosca.StorageAssigned
	case org == cur && org == z:
		return tosca.StorageAdded
	case org == cur && v == z:
		return tosca.StorageDeleted
	case org == cur:
		return tosca.StorageModified
	case org != z && cur == z && org != v:
		return tosca.StorageDeletedAdded
	case org != z && cur != z && v == z:
		return tosca.StorageModifiedDeleted
	case org != z && cur == z && org == v:
		return tosca.StorageDeletedRestored
	case org == z && cur != z && v == z:
		return tosca.StorageAddedDeleted
	case org != z && cur != z && org == v:
		return tosca.StorageModifiedRestored
	}
	return tosca.StorageAssigned
}

func (e *Env) SetStorage(a tosca.Address, k tosca.Key, v tosca.Word) tosca.StorageStatus {
	e.hook()
	e.mustNotBeStatic("a storage write")
	c := e.W.Get(a)
	s := StorageStatus(c.Orig[k], c.St[k], v)
	if v == (tosca.Word{}) {
		delete(c.St, k)
	} else {
		c.St[k] = v
	}
	e.Trace = append(e.Trace, Effect{Kind: "store", Depth: e.depth(), A: a, W: [][32]byte{k, v}, N: []int64{int64(s)}})
	return s
}
func (e *Env) GetTransientStorage(a tosca.Address, k tosca.Key) tosca.Word {
	e.hook()
	return e.W.Trans[slot{a, k}]
}
func (e *Env) SetTransientStorage(a tosca.Address, k tosca.Key, v tosca.Word) {
	e.hook()
	e.mustNotBeStatic("a transient storage write")
	if v == (tosca.Word{}) {
		delete(e.W.Trans, slot{a, k})
	} else {
		e.W.Trans[slot{a, k}] = v
	}
	e.Trace = append(e.Trace, Effect{Kind: "transient", Depth: e.depth(), A: a, W: [][32]byte{k, v}})
}
func (e *Env) AccessAccount(a tosca.Address) tosca.AccessStatus {
	e.hook()
	was := e.W.WarmA[a]
	e.W.WarmA[a] = true
	return tosca.AccessStatus(was)
}
func (e *Env) AccessStorage(a tosca.Address, k tosca.Key) tosca.AccessStatus {
	e.hook()
	was := e.W.WarmS[slot{a, k}]
	e.W.WarmS[slot{a, k}] = true
	return tosca.AccessStatus(was)
}
func (e *Env) IsAddressInAccessList(a tosca.Address) bool { e.hook(); return e.W.WarmA[a] }
func (e *Env) IsSlotInAccessList(a tosca.Address, k tosca.Key) (bool, bool) {
	e.hook()
	return e.W.WarmA[a], e.W.WarmS[slot{a, k}]
}
func (e *Env) HasSelfDestructed(a tosca.Address) bool {
	e.hook()
	c := e.W.Acc[a]
	return c != nil && c.Destructed
}
func (e *Env) EmitLog(l tosca.Log) {
	e.hook()
	e.mustNotBeStatic("a log")
	eff := Effect{Kind: "log", Depth: e.depth(), A: l.Address, Data: bytes.Clone(l.Data)}
	for _, t := range l.Topics {
		eff.W = append(eff.W, t)
	}
	e.Trace = append(e.Trace, eff)
	// the host keeps what it was given
	e.W.Logs = append(e.W.Logs, l)
}
func (e *Env) GetLogs() []tosca.Log { return e.W.Logs }
func (e *Env) SelfDestruct(a, ben tosca.Address) bool {
	e.hook()
	e.mustNotBeStatic("a self-destruct")
	e.Trace = append(e.Trace, Effect{Kind: "destruct", Depth: e.depth(), A: a, B: ben})
	c := e.W.Get(a)
	if e.Geth {
		return e.gethSelfDestruct(a, ben)
	}
	first := !c.Destructed
	c.Destructed = true
	b := c.Balance
	if a != ben {
		d := e.W.Get(ben)
		d.Balance = tosca.Add(d.Balance, b)
		if d.Balance.Cmp(b) < 0 {
			e.Minted = true // more than there is in any world
		}
		c.Balance = tosca.Value{}
	}
	return first
}

func (e *Env) gethSelfDestruct(a, ben tosca.Address) bool {
	first := !e.W.Get(a).Destructed
	b := e.W.Get(a).Balance
	gone := e.rev() < tosca.R13_Cancun || e.W.Get(a).New
	if a != ben {
		e.W.Get(a).Balance = tosca.Value{}
		e.W.Get(ben).Balance = tosca.Add(e.W.Get(ben).Balance, b)
	}
	if gone {
		if a == ben && b != (tosca.Value{}) {
			e.Minted = true // the opposite
		}
		e.W.Get(a).Balance = tosca.Value{}
		e.W.Get(a).Destructed = true
	}
	return first
}

// Destroy marks an account as destroyed, with all it owns.
func (e *Env) Destroy(a tosca.Address) {
	e.hook()
	e.mustNotBeStatic("a self-destruct")
	e.W.Get(a).Destructed = true
	e.W.Get(a).Balance = tosca.Value{}
	e.Minted = true
}

func (e *Env) GetBlockHash(n int64) tosca.Hash {
	e.hook()
	h := tosca.Hash{0: 0x6a, 1: 0x09}
	for i := 0; i < 8; i++ {
		h[31-i] = byte(n >> (8 * i))
	}
	return h
}
func (e *Env) CreateSnapshot() tosca.Snapshot {
	e.hook()
	e.snaps = append(e.snaps, e.W.Clone())
	return tosca.Snapshot(len(e.snaps) - 1)
}
func (e *Env) RestoreSnapshot(s tosca.Snapshot) {
	e.hook()
	if int(s) < 0 || int(s) >= len(e.snaps) {
		e.breach("snapshot %d restored, there are %d", int(s), len(e.snaps))
		return
	}
	e.W = e.snaps[int(s)].Clone()
	e.snaps = e.snaps[:int(s)]
}

var errHost = errors.New("simulated host failure")

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *rng) n(n int) int          { return int(r.next() % uint64(n)) }
func (r *rng) chance(a, b int) bool { return r.n(b) < a }
func (r *rng) rangeOf(a, b int) int { return a + r.n(b-a+1) }

// Call processes a nested message: it is what interpreters see of the host.
func (e *Env) Call(kind tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error) {
	e.hook()
	static := false
	depth := 0
	if n := len(e.frames); n > 0 {
		static = e.frames[n-1].static
		depth = len(e.frames)
	}
	create := kind == tosca.Create || kind == tosca.Create2
	if static && !e.Proc {
		if create {
			e.mustNotBeStatic("a contract creation")
		}
		if kind == tosca.Call && p.Value != (tosca.Value{}) {
			e.mustNotBeStatic("a value transfer")
		}
		if kind == tosca.Call {
			// the kind of call is all that tells the host about the restriction
			e.mustNotBeStatic("a call that does not keep the restriction")
		}
	}
	m := &Msg{Kind: kind, Static: static || kind == tosca.StaticCall, Depth: depth, Gas: int64(p.Gas), Recipient: p.Recipient, Sender: p.Sender, CodeAddr: p.CodeAddress,
		Value: p.Value, Salt: p.Salt, Input: bytes.Clone(p.Input)}
	// parameters without a meaning for the kind of call are not compared
	if static && kind == tosca.Call && !e.Proc {
		m.Kind = tosca.StaticCall
	}
	if m.Kind == tosca.StaticCall {
		m.Value = tosca.Value{}
	}
	if create {
		m.Recipient, m.CodeAddr = tosca.Address{}, tosca.Address{}
	} else if kind == tosca.Call || kind == tosca.StaticCall {
		m.CodeAddr = p.Recipient
	}
	if kind != tosca.Create2 {
		m.Salt = tosca.Hash{}
	}
	r := e.CallMsg(m)
	res := tosca.CallResult{Success: r.St == Success, Output: r.Out, GasLeft: tosca.Gas(r.GasLeft), GasRefund: tosca.Gas(r.Refund), CreatedAddress: r.Created}
	return res, r.Err
}

func mixh(a, b uint64) uint64 {
	r := rng{a*0x2545F4914F6CDD1D + b}
	return r.next()
}

func (e *Env) fault(kind string) {
	if e.R != nil {
		e.R.Count("fault:"+kind, 1)
	}
}

// CallMsg processes a nested message.
func (e *Env) CallMsg(m *Msg) Res {
	create := m.Kind == tosca.Create || m.Kind == tosca.Create2
	e.Trace = append(e.Trace, Effect{Kind: "call", Depth: e.depth(), A: m.Recipient, B: m.Sender, C: m.CodeAddr, W: [][32]byte{m.Value, m.Salt}, N: []int64{int64(m.Kind), m.Gas}, Data: m.Input})
	idx := e.calls
	e.calls++
	e.Nested++
	var r Res
	done := false
	if e.FateSeed != 0 && (idx >= 64 || e.FateMask>>uint(idx)&1 == 1) {
		f := &rng{mixh(e.FateSeed, uint64(idx))}
		if f.chance(2, 5) {
			done = true
			switch f.n(5) {
			case 0:
				r = Res{St: Failure}
				e.fault("callee-fails")
			case 1:
				r = Res{St: Failure, GasLeft: m.Gas}
				e.fault("callee-refused")
			case 2:
				r = Res{St: Failure, Err: errHost}
				e.fault("host-error")
			default:
				r.St = Success
				if f.chance(2, 5) {
					r.St = Revert
				}
				g := []int64{0, m.Gas, m.Gas / 2, int64(f.next() % uint64(m.Gas+1))}
				r.GasLeft = g[f.n(4)]
				if r.St == Success && f.chance(1, 3) {
					r.Refund = int64(f.rangeOf(-5000, 20000))
				}
				n := []int{0, 1, 32, 33, f.n(200), 64}[f.n(6)]
				if f.n(40) == 0 {
					n = 4000
				}
				r.Out = make([]byte, n)
				for i := range r.Out {
					r.Out[i] = byte(f.next())
				}
				if create && r.St == Success {
					for i := range r.Created {
						r.Created[i] = byte(f.next())
					}
					if f.chance(1, 2) {
						r.Out = nil
					}
				}
				if r.St == Success && !m.Static && !create && f.chance(1, 2) {
					c := e.W.Get(m.Sender)
					k := tosca.Key{31: byte(f.n(4))}
					e.W.WarmS[slot{m.Sender, k}] = true
					if f.chance(1, 2) {
						c.St[k] = tosca.Word{31: byte(f.rangeOf(1, 3))}
					} else {
						delete(c.St, k)
					}
					e.fault("callee-reenters")
				}
				if r.St == Success {
					e.fault("callee-arbitrary")
				} else {
					e.fault("callee-reverts")
				}
			}
		}
	}
	if !done {
		r = e.enter(m)
	}
	e.Trace = append(e.Trace, Effect{Kind: "call-result", Depth: e.depth(), N: []int64{int64(r.St), r.GasLeft, r.Refund}, Data: bytes.Clone(r.Out)})
	return r
}

func createAddress(m *Msg, nonce uint64) tosca.Address {
	b := append([]byte{}, m.Sender[:]...)
	if m.Kind == tosca.Create {
		for i := 0; i < 8; i++ {
			b = append(b, byte(nonce>>(8*i)))
		}
	} else {
		h := Keccak(m.Input)
		b = append(append(append(b, m.Salt[:]...), h[:]...), 0xff)
	}
	h := Keccak(b)
	return tosca.Address(h[12:])
}

func (e *Env) enter(m *Msg) Res {
	if e.Proc {
		return e.process(m)
	}
	if m.Depth > 1024 {
		return Res{St: Failure, GasLeft: m.Gas}
	}
	create := m.Kind == tosca.Create || m.Kind == tosca.Create2
	moves := m.Kind == tosca.Call || create
	zero := tosca.Value{}
	if (moves || m.Kind == tosca.CallCode) && m.Value != zero {
		c := e.W.Acc[m.Sender]
		if c == nil || c.Balance.Cmp(m.Value) < 0 {
			return Res{St: Failure, GasLeft: m.Gas}
		}
	}
	mm := *m
	if create {
		c := e.W.Get(m.Sender)
		mm.Recipient = createAddress(m, c.Nonce)
		mm.CodeAddr = mm.Recipient
		c.Nonce++
		e.W.WarmA[mm.Recipient] = true
		if d := e.W.Acc[mm.Recipient]; d != nil && (d.Nonce != 0 || len(d.Code) > 0) {
			return Res{St: Failure}
		}
	}
	snap := e.W.Clone()
	nsnaps := len(e.snaps)
	if moves && m.Value != zero {
		s, d := e.W.Get(m.Sender), e.W.Get(mm.Recipient)
		s.Balance = tosca.Sub(s.Balance, m.Value)
		d.Balance = tosca.Add(d.Balance, m.Value)
	}
	var code []byte
	var hash *tosca.Hash
	if create {
		e.W.Get(mm.Recipient).Nonce = 1
		code = mm.Input
		mm.Input = nil
	} else {
		code = e.codeOf(m.CodeAddr)
		h := tosca.Hash(Keccak(code))
		hash = &h
	}
	var r Res
	if len(code) == 0 {
		r = Res{St: Success, GasLeft: m.Gas}
	} else {
		if mm.Static {
			e.StaticFrames++
		}
		e.frames = append(e.frames, frame{mm.Static, mm.Recipient, len(e.Trace)})
		r = e.Exec(e, &mm, code, hash)
		// a revert without gas and output is reported like a failure
		if r.St == Revert && r.GasLeft == 0 && len(r.Out) == 0 {
			r.St = Failure
		}
		top := e.frames[len(e.frames)-1]
		// A failing frame may or may not have announced its last, unpaid write.
		if r.St == Failure {
			for len(e.Trace) > top.first && (e.Trace[len(e.Trace)-1].Kind == "store" || e.Trace[len(e.Trace)-1].Kind == "destruct") {
				e.Trace = e.Trace[:len(e.Trace)-1]
			}
		}
		e.frames = e.frames[:len(e.frames)-1]
	}
	if create && r.St == Success {
		cost := int64(len(r.Out)) * 200
		if len(r.Out) > 24576 || r.GasLeft < cost || (e.rev() >= tosca.R10_London && len(r.Out) > 0 && r.Out[0] == 0xEF) {
			r = Res{St: Failure}
		} else {
			r.GasLeft -= cost
			e.W.Get(mm.Recipient).Code = bytes.Clone(r.Out)
			r.Created = mm.Recipient
			r.Out = nil
		}
	}
	if r.St != Success {
		e.W = snap
		e.snaps = e.snaps[:nsnaps]
	}
	if r.St == Failure {
		r.GasLeft = 0
		r.Out = nil
	}
	return r
}

// Top runs the outermost message of a transaction.
func (e *Env) Top(m *Msg) Res {
	e.W.WarmA[m.Sender] = true
	e.W.WarmA[m.Recipient] = true
	return e.enter(m)
}

// Observed is what a client of an interpreter can observe of a transaction.
type Observed struct {
	Res   Res
	Trace []Effect
	W     *World
}

// Diff describes the first difference, or is empty.
func Diff(want, got *Observed) string {
	for i := 0; i < max(len(want.Trace), len(got.Trace)); i++ {
		if i >= len(want.Trace) {
			return fmt.Sprintf("unexpected host interaction #%d %v", i, &got.Trace[i])
		}
		if i >= len(got.Trace) {
			return fmt.Sprintf("missing host interaction #%d %v", i, &want.Trace[i])
		}
		if !want.Trace[i].equal(&got.Trace[i]) {
			return fmt.Sprintf("host interaction #%d is %v, expected %v", i, &got.Trace[i], &want.Trace[i])
		}
	}
	a, b := want.Res, got.Res
	if a.St != b.St {
		return fmt.Sprintf("outcome %v, expected %v", b.St, a.St)
	}
	if a.GasLeft != b.GasLeft {
		return fmt.Sprintf("gas left %d, expected %d", b.GasLeft, a.GasLeft)
	}
	if a.Refund != b.Refund {
		return fmt.Sprintf("refund %d, expected %d", b.Refund, a.Refund)
	}
	if !bytes.Equal(a.Out, b.Out) {
		return fmt.Sprintf("output %s, expected %s", short(b.Out), short(a.Out))
	}
	if (a.Err == nil) != (b.Err == nil) {
		return fmt.Sprintf("error %v, expected %v", b.Err, a.Err)
	}
	if d := DiffWorld(want.W, got.W); d != "" {
		return "the resulting world differs (expected/actual): " + d
	}
	return ""
}
