package evmref

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/Fantom-foundation/Tosca/go/tosca"
)

// The reference of a processor of transactions: what a transaction and its
// nested messages do to the world beyond the interpretation of code.

// Addresses of the network's own contracts.
var (
	Driver        = tosca.Address{0xd1, 0x00, 0xa0, 0x1e}
	StateContract = tosca.Address{0xd1, 0x00, 0xec}
)

// Selector is the selector of a method.
func Selector(sig string) (s [4]byte) {
	h := Keccak([]byte(sig))
	copy(s[:], h[:])
	return
}

var (
	SelSetBalance = Selector("setBalance(address,uint256)")
	SelCopyCode   = Selector("copyCode(address,address)")
	SelSwapCode   = Selector("swapCode(address,address)")
	SelSetStorage = Selector("setStorage(address,bytes32,bytes32)")
	SelIncNonce   = Selector("incNonce(address,uint256)")
)

// ProcAddress is the address of a created contract.
func ProcAddress(create2 bool, sender tosca.Address, nonce uint64, salt tosca.Hash, init []byte) tosca.Address {
	if create2 {
		h := Keccak(init)
		r := Keccak(append(append(append([]byte{0xff}, sender[:]...), salt[:]...), h[:]...))
		return tosca.Address(r[12:])
	}
	n := new(big.Int).SetUint64(nonce).Bytes()
	enc := append([]byte{0x94}, sender[:]...)
	if len(n) == 1 && n[0] < 0x80 {
		enc = append(enc, n[0])
	} else {
		enc = append(append(enc, 0x80+byte(len(n))), n...)
	}
	r := Keccak(append([]byte{0xc0 + byte(len(enc))}, enc...))
	return tosca.Address(r[12:])
}

// Precompiled tells whether an address is a precompiled contract, and what
// the stand-in for it does.
func Precompiled(rev tosca.Revision, a tosca.Address) bool {
	last := byte(9)
	if rev >= tosca.R13_Cancun {
		last = 10
	}
	return a == (tosca.Address{19: a[19]}) && a[19] >= 1 && a[19] <= last
}

func precompile(rev tosca.Revision, id byte, in []byte, gas int64) Res {
	set := uint64(0)
	switch {
	case rev >= tosca.R13_Cancun:
		set = 2
	case rev >= tosca.R09_Berlin:
		set = 1
	}
	if id == 5 && len(in) > 0 && in[0] >= 0xfe {
		return Res{St: Failure} // costs more than any amount of gas
	}
	words := uint64(len(in)+31) / 32
	cost := int64(100*uint64(id) + 7*set + (3+uint64(id)+set)*words)
	if gas < cost || (id >= 6 && len(in) > 0 && in[len(in)-1] == 0xee) {
		return Res{St: Failure}
	}
	if id == 1 && len(in) == 0 {
		return Res{St: Success, GasLeft: gas - cost}
	}
	out := []byte{0x9c, id, byte(set)}
	for i := len(in) - 1; i >= 0 && len(out) < 43; i-- {
		out = append(out, in[i]+id)
	}
	return Res{St: Success, GasLeft: gas - cost, Out: out}
}

// CostOf is what a call of a precompiled or the state contract costs.
func CostOf(rev tosca.Revision, a tosca.Address, in []byte, codeSize func(tosca.Address) int) (int64, bool) {
	if Precompiled(rev, a) {
		const plenty = 1 << 40
		r := precompile(rev, a[19], nil, plenty)
		if len(in) > 0 {
			r = precompile(rev, a[19], append(bytes.Clone(in[:len(in)-1]), 0), plenty)
		}
		return plenty - r.GasLeft, r.St == Success
	}
	if a != StateContract || len(in) < 4 {
		return 0, false
	}
	size := func(i int) int64 {
		if len(in) < 4+32*(i+1) {
			return 0
		}
		return int64(codeSize(tosca.Address(in[4+32*i+12 : 4+32*i+32])))
	}
	switch [4]byte(in) {
	case SelSetBalance, SelIncNonce:
		return 9000, true
	case SelCopyCode:
		return 32000 + 203*size(1), true
	case SelSwapCode:
		return 64000 + (203*size(0)+203*size(1))/2, true
	case SelSetStorage:
		return 20000, true
	}
	return 0, false
}

func (e *Env) stateContract(m *Msg) Res {
	fail := Res{St: Failure}
	if m.Static || m.Sender != Driver || len(m.Input) < 4 {
		return fail
	}
	arg := m.Input[4:]
	addr := func(i int) tosca.Address { return tosca.Address(arg[32*i+12 : 32*i+32]) }
	args, gas := 2, int64(0)
	var sel [4]byte
	copy(sel[:], m.Input)
	switch sel {
	case SelSetBalance, SelIncNonce:
		gas = 9000
	case SelCopyCode:
		gas = 32000
	case SelSwapCode:
		gas = 64000
	case SelSetStorage:
		gas, args = 20000, 3
	default:
		return fail
	}
	if m.Gas < gas || len(arg) != 32*args {
		return fail
	}
	left := m.Gas - gas
	e.StateCalls++
	switch sel {
	case SelSetBalance:
		if addr(0) == m.Sender && !e.OriginOnly || addr(0) == e.Ctx.Tx.Origin {
			return fail
		}
		e.W.Get(addr(0)).Balance = tosca.Value(arg[32:64])
		e.Minted = true
	case SelIncNonce:
		n := new(big.Int).SetBytes(arg[32:64])
		if addr(0) == m.Sender && !e.OriginOnly || addr(0) == e.Ctx.Tx.Origin || n.Sign() == 0 || n.BitLen() > 8 {
			return fail
		}
		e.W.Get(addr(0)).Nonce += n.Uint64()
	case SelCopyCode:
		code := bytes.Clone(e.codeOf(addr(1)))
		left -= int64(len(code)) * 203
		if left < 0 {
			return fail
		}
		e.W.Get(addr(0)).Code = code
	case SelSwapCode:
		a, b := bytes.Clone(e.codeOf(addr(0))), bytes.Clone(e.codeOf(addr(1)))
		left -= (int64(len(a))*203 + int64(len(b))*203) / 2
		if left < 0 {
			return fail
		}
		e.W.Get(addr(0)).Code = b
		e.W.Get(addr(1)).Code = a
	case SelSetStorage:
		c := e.W.Get(addr(0))
		k, v := tosca.Key(arg[32:64]), tosca.Word(arg[64:96])
		delete(c.St, k)
		if v != (tosca.Word{}) {
			c.St[k] = v
		}
	}
	return Res{St: Success, GasLeft: left}
}

func (e *Env) process(m *Msg) Res {
	r := e.process1(m)
	if e.OnCall != nil {
		e.OnCall(m, &r)
	}
	return r
}

func (e *Env) process1(m *Msg) Res {
	refused := Res{St: Failure, GasLeft: m.Gas}
	if m.Depth > 1024 {
		return refused
	}
	create := m.Kind == tosca.Create || m.Kind == tosca.Create2
	zero := tosca.Value{}
	mm := *m
	if create {
		c := e.W.Get(m.Sender)
		n := c.Nonce
		if n+1 == 0 {
			return refused
		}
		c.Nonce = n + 1
		mm.Recipient = ProcAddress(m.Kind == tosca.Create2, m.Sender, n, m.Salt, m.Input)
		mm.CodeAddr = mm.Recipient
		if e.rev() >= tosca.R09_Berlin {
			e.W.WarmA[mm.Recipient] = true
		}
		if d := e.W.Acc[mm.Recipient]; d != nil && (d.Nonce != 0 || len(d.Code) > 0) {
			return Res{St: Failure}
		}
	}
	// A failing message leaves no trace in the world.
	before := e.W.Clone()
	nsnaps := len(e.snaps)
	undo := func() {
		e.W = before
		e.snaps = e.snaps[:nsnaps]
	}
	if (m.Kind == tosca.Call || m.Kind == tosca.CallCode || create) && m.Value != zero {
		v := new(big.Int).SetBytes(m.Value[:])
		have := e.balance(m.Sender)
		if have.Cmp(v) < 0 {
			return refused
		}
		if m.Kind != tosca.CallCode && m.Sender != mm.Recipient {
			sum := new(big.Int).Add(e.balance(mm.Recipient), v)
			if sum.BitLen() > 256 {
				return refused
			}
			have.Sub(have, v).FillBytes(e.W.Get(m.Sender).Balance[:])
			sum.FillBytes(e.W.Get(mm.Recipient).Balance[:])
		}
	}
	var r Res
	var code []byte
	var hash *tosca.Hash
	switch {
	case create:
		e.W.Get(mm.Recipient).Nonce = 1
		e.W.Get(mm.Recipient).New = true
		code = mm.Input
		mm.Input = nil
	default:
		code = bytes.Clone(e.codeOf(mm.CodeAddr))
		h := tosca.Hash(Keccak(code))
		hash = &h
	}
	switch {
	case !create && mm.Recipient == StateContract && !e.NoState && (!e.OriginOnly || mm.Kind == tosca.Call && !mm.Static):
		r = e.stateContract(&mm)
	case !create && Precompiled(e.rev(), mm.CodeAddr):
		r = precompile(e.rev(), mm.CodeAddr[19], mm.Input, mm.Gas)
	case len(code) == 0:
		r = Res{St: Success, GasLeft: m.Gas}
	default:
		if mm.Static {
			e.StaticFrames++
		}
		e.Push(mm.Static, mm.Recipient)
		r = e.Exec(e, &mm, code, hash)
		e.Pop()
	}
	if r.Err != nil {
		undo()
		return Res{St: Failure, Err: r.Err}
	}
	if create && r.St == Success {
		cost := int64(len(r.Out)) * 200
		if len(r.Out) > 24576 || r.GasLeft < cost || (e.rev() >= tosca.R10_London && len(r.Out) > 0 && r.Out[0] == 0xEF) {
			r = Res{St: Failure}
		} else {
			r.GasLeft -= cost
			e.W.Get(mm.Recipient).Code = bytes.Clone(r.Out)
			r.Created = mm.Recipient
		}
	}
	if r.St != Success {
		undo()
		r.Refund = 0
	}
	return r
}

// Enter processes a message.
func (e *Env) Enter(m *Msg) Res { return e.enter(m) }

// Push tells the host that a frame starts, Pop that it ends.
func (e *Env) Push(static bool, self tosca.Address) {
	e.frames = append(e.frames, frame{static, self, len(e.Trace)})
}

// Pop ends the frame started last.
func (e *Env) Pop() { e.frames = e.frames[:len(e.frames)-1] }

func (e *Env) balance(a tosca.Address) *big.Int {
	if c := e.W.Acc[a]; c != nil {
		return new(big.Int).SetBytes(c.Balance[:])
	}
	return new(big.Int)
}

// TxOutcome is what the sender of a transaction is told.
type TxOutcome struct {
	Receipt tosca.Receipt
	Err     error
	// Rejected: the transaction is not part of the history.
	Rejected bool
	Why      string
	// Left tells how much gas the outermost message gave back.
	Left int64
}

// Process applies a transaction to the world of the host.
func (e *Env) Process(tx tosca.Transaction) TxOutcome {
	none := func(why string) TxOutcome { return TxOutcome{Rejected: true, Why: why} }
	sender := e.W.Acc[tx.Sender]
	if sender == nil {
		sender = &Account{}
	}
	if sender.Nonce != tx.Nonce {
		return none("nonce")
	}
	if sender.Nonce+1 == 0 {
		return none("nonce-overflow")
	}
	if len(sender.Code) > 0 {
		return none("sender-is-contract")
	}
	if tx.Recipient == nil && e.rev() >= tosca.R12_Shanghai && len(tx.Input) > 49152 {
		return none("init-code-size")
	}
	price := new(big.Int).SetBytes(tx.GasPrice[:])
	cost := new(big.Int).Mul(price, big.NewInt(int64(tx.GasLimit)))
	if e.balance(tx.Sender).Cmp(cost) < 0 {
		return none("balance")
	}
	pay := func(amount *big.Int) {
		b := e.balance(tx.Sender)
		b.Add(b, amount)
		if b.BitLen() > 256 {
			b.SetBit(b, 256, 0)
			e.Minted = true // more than there is in any world
		}
		b.FillBytes(e.W.Get(tx.Sender).Balance[:])
	}
	pay(new(big.Int).Neg(cost))
	all := TxOutcome{Receipt: tosca.Receipt{GasUsed: tx.GasLimit}}

	gas := int64(tx.GasLimit) - 21000
	if tx.Recipient == nil {
		gas -= 32000
	}
	for _, b := range tx.Input {
		if b == 0 {
			gas -= 4
		} else {
			gas -= 16
		}
	}
	for _, t := range tx.AccessList {
		gas -= 2400 + 1900*int64(len(t.Keys))
	}
	if gas < 0 {
		all.Why = "intrinsic-gas"
		return all
	}
	if e.rev() >= tosca.R09_Berlin && tx.AccessList != nil {
		e.W.Warm(tx.Sender)
		if tx.Recipient != nil {
			e.W.Warm(*tx.Recipient)
		}
		for i := byte(1); i <= 10; i++ {
			if a := (tosca.Address{19: i}); Precompiled(e.rev(), a) {
				e.W.Warm(a)
			}
		}
		for _, t := range tx.AccessList {
			e.W.Warm(t.Address)
			for _, k := range t.Keys {
				e.W.WarmSlot(t.Address, k)
			}
		}
	}
	m := &Msg{Kind: tosca.Create, Gas: gas, Sender: tx.Sender, Value: tx.Value, Input: tx.Input}
	if tx.Recipient != nil {
		m.Kind, m.Recipient, m.CodeAddr = tosca.Call, *tx.Recipient, *tx.Recipient
		e.W.Get(tx.Sender).Nonce++
	}
	r := e.enter(m)
	if r.Err != nil {
		all.Err = r.Err
		all.Why = "interpreter-error"
		return all
	}
	left := r.GasLeft
	if tx.Sender != (tosca.Address{}) {
		left -= left / 10
	}
	if r.St == Success {
		limit := (int64(tx.GasLimit) - left) / 5
		if e.rev() < tosca.R10_London {
			limit = (int64(tx.GasLimit) - left) / 2
		}
		left += min(limit, r.Refund)
	}
	pay(new(big.Int).Mul(price, big.NewInt(left)))
	res := TxOutcome{Left: r.GasLeft, Why: "applied", Receipt: tosca.Receipt{Success: r.St == Success, GasUsed: tx.GasLimit - tosca.Gas(left), Output: r.Out, Logs: e.W.Logs}}
	if tx.Recipient == nil && res.Receipt.Success {
		a := r.Created
		res.Receipt.ContractAddress = &a
	}
	if !res.Receipt.Success {
		res.Why = "failed"
	}
	return res
}

// Depth is the number of frames.
func (e *Env) Depth() int { return len(e.frames) }

// DiffAccess compares what was accessed, and the logs.
func DiffAccess(a, b *World) string {
	for k := range a.WarmA {
		if !b.WarmA[k] {
			return fmt.Sprintf("address %x is not warm", k)
		}
	}
	for k := range b.WarmA {
		if !a.WarmA[k] {
			return fmt.Sprintf("address %x is warm", k)
		}
	}
	for k := range a.WarmS {
		if !b.WarmS[k] {
			return fmt.Sprintf("slot %x is not warm", k)
		}
	}
	for k := range b.WarmS {
		if !a.WarmS[k] {
			return fmt.Sprintf("slot %x is warm", k)
		}
	}
	return DiffLogs(a.Logs, b.Logs)
}

// DiffLogs compares lists of logs.
func DiffLogs(a, b []tosca.Log) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d logs, expected %d", len(b), len(a))
	}
	for i := range a {
		same := a[i].Address == b[i].Address && bytes.Equal(a[i].Data, b[i].Data) && len(a[i].Topics) == len(b[i].Topics)
		for j := 0; same && j < len(a[i].Topics); j++ {
			same = a[i].Topics[j] == b[i].Topics[j]
		}
		if !same {
			return fmt.Sprintf("log %d is %v, expected %v", i, b[i], a[i])
		}
	}
	return ""
}
