package evmref

import (
	"bytes"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/holiman/uint256"
)

// U is a 256-bit word.
type U = uint256.Int

type halt struct{ st Status }

type interp struct {
	e      Face
	env_   *Env // nil behind another interface
	rev    tosca.Revision
	ctx    *TxCtx
	m      *Msg
	code   []byte
	gas    int64
	refund int64
	s      []U
	mem    []byte
	ret    []byte
	out    []byte
	dest   []bool
	pc     int
}

// Interpret is the reference interpreter.
func Interpret(e *Env, m *Msg, code []byte, _ *tosca.Hash) Res { return InterpretOn(e, m, code) }

// Face is the host as an interpreter sees it.
type Face interface {
	Context() *TxCtx
	Present(tosca.Address) bool
	GetBalance(tosca.Address) tosca.Value
	GetCode(tosca.Address) tosca.Code
	GetCodeSize(tosca.Address) int
	GetCodeHash(tosca.Address) tosca.Hash
	GetStorage(tosca.Address, tosca.Key) tosca.Word
	SetStorage(tosca.Address, tosca.Key, tosca.Word) tosca.StorageStatus
	GetTransientStorage(tosca.Address, tosca.Key) tosca.Word
	SetTransientStorage(tosca.Address, tosca.Key, tosca.Word)
	AccessAccount(tosca.Address) tosca.AccessStatus
	AccessStorage(tosca.Address, tosca.Key) tosca.AccessStatus
	GetBlockHash(int64) tosca.Hash
	EmitLog(tosca.Log)
	SelfDestruct(a, beneficiary tosca.Address) bool
	CallMsg(*Msg) Res
}

// StepState is the state of an interrupted frame.
type StepState struct {
	Gas, Refund   int64
	Pc            uint64
	Stack         [][32]byte // the top is last
	Mem, Ret, Out []byte
	Status        StepStatus
}

// StepStatus tells how far a frame got.
type StepStatus int

const (
	StepRunning StepStatus = iota
	StepStopped
	StepReturned
	StepReverted
	StepFailed
)

// StepOn runs n instructions of a frame.
func StepOn(e Face, m *Msg, code []byte, s *StepState, n int) {
	i := newInterp(e, m, code)
	i.gas, i.refund, i.pc, i.mem, i.ret = s.Gas, s.Refund, int(s.Pc), bytes.Clone(s.Mem), s.Ret
	for _, v := range s.Stack {
		i.pushBytes(v[:])
	}
	for ; n > 0 && s.Status == StepRunning; n-- {
		st, ended := i.one()
		if ended {
			switch {
			case st == Failure:
				s.Status = StepFailed
			case st == Revert:
				s.Status = StepReverted
			case i.returned():
				s.Status = StepReturned
			default:
				s.Status = StepStopped
			}
		}
	}
	s.Gas, s.Refund, s.Pc, s.Mem, s.Ret, s.Out = i.gas, i.refund, uint64(i.pc), i.mem, i.ret, i.out
	s.Stack = nil
	for _, v := range i.s {
		s.Stack = append(s.Stack, v.Bytes32())
	}
}

func (i *interp) returned() bool { return i.pc < len(i.code) && i.code[i.pc] == 0xf3 }

func (i *interp) one() (st Status, ended bool) {
	defer func() {
		if x := recover(); x != nil {
			h, ok := x.(halt)
			if !ok {
				panic(x)
			}
			st, ended = h.st, true
		}
	}()
	op := 0
	if i.pc < len(i.code) {
		op = int(i.code[i.pc])
	}
	i.step(op)
	i.pc++
	return
}

// InterpretOn runs a frame on any host.
func InterpretOn(e Face, m *Msg, code []byte) Res {
	return newInterp(e, m, code).frame()
}

func newInterp(e Face, m *Msg, code []byte) *interp {
	i := &interp{e: e, m: m, code: code, gas: m.Gas, dest: make([]bool, len(code)), ctx: e.Context()}
	i.env_, _ = e.(*Env)
	i.rev = i.ctx.Block.Revision
	for k := 0; k < len(code); k++ {
		if code[k] >= 0x60 && code[k] <= 0x7f {
			k += int(code[k]) - 0x5f
		} else if code[k] == 0x5b {
			i.dest[k] = true
		}
	}
	return i
}

func (i *interp) frame() Res {
	st := i.run()
	if st == Failure {
		return Res{St: Failure}
	}
	r := Res{St: st, GasLeft: i.gas, Out: i.out}
	if st == Success {
		r.Refund = i.refund
	}
	return r
}

func (i *interp) run() (st Status) {
	defer func() {
		if x := recover(); x != nil {
			h, ok := x.(halt)
			if !ok {
				panic(x)
			}
			st = h.st
		}
	}()
	for ; ; i.pc++ {
		op := 0
		if i.pc < len(i.code) {
			op = int(i.code[i.pc])
		}
		if i.env_ != nil {
			i.env_.Instructions++
			if i.env_.Limit > 0 && i.env_.Instructions > i.env_.Limit {
				panic(tooLong{})
			}
			i.env_.Executed[op]++
		}
		if i.env_ != nil && i.env_.Keep {
			r := InstrRec{Depth: i.m.Depth, Pc: i.pc, Op: byte(op), Gas: i.gas, Empty: len(i.s) == 0, Stack: len(i.s), Implicit: i.pc >= len(i.code)}
			if len(i.s) > 0 {
				r.Top = i.s[len(i.s)-1].Bytes32()
			}
			i.env_.Instr = append(i.env_.Instr, r)
		}
		i.step(op)
	}
}

// tooLong ends executions that need more than they are allowed to.
type tooLong struct{}

func (i *interp) fail() { panic(halt{Failure}) }
func (i *interp) use(g int64) {
	if g > i.gas {
		i.fail()
	}
	i.gas -= g
}
func (i *interp) need(pops, pushes int) {
	if len(i.s) < pops || len(i.s)-pops+pushes > 1024 {
		i.fail()
	}
}
func (i *interp) pop() U {
	v := i.s[len(i.s)-1]
	i.s = i.s[:len(i.s)-1]
	return v
}
func (i *interp) push(v U)        { i.s = append(i.s, v) }
func (i *interp) push64(v uint64) { i.s = append(i.s, U{v}) }
func (i *interp) pushBool(b bool) {
	if b {
		i.push64(1)
	} else {
		i.push64(0)
	}
}
func (i *interp) pushBytes(b []byte) {
	var v U
	v.SetBytes(b)
	i.push(v)
}
func (i *interp) notStatic() {
	if i.m.Static {
		i.fail()
	}
}
func words(n uint64) int64 { return int64((n + 31) / 32) }
func memfee(w int64) int64 { return w*w/512 + 3*w }
func (i *interp) reach(off, size U) uint64 {
	if size.IsZero() {
		return 0
	}
	if off.BitLen() > 40 || size.BitLen() > 40 {
		i.fail()
	}
	end := off[0] + size[0]
	// Interpreters may pay for and provide one of several areas before they
	// find out that another one is not affordable.
	if i.env_ != nil && i.env_.Limit > 0 && end > 1<<20 && memfee(min(words(end), 1<<30))-memfee(int64(len(i.mem)/32)) <= i.gas {
		panic(tooLong{})
	}
	return end
}
func (i *interp) expansion(end uint64) int64 {
	if end <= uint64(len(i.mem)) {
		return 0
	}
	w := words(end)
	if w > 1<<30 {
		i.fail()
	}
	return memfee(w) - memfee(int64(len(i.mem)/32))
}
func (i *interp) grow(end uint64) {
	if end > uint64(len(i.mem)) {
		n := make([]byte, words(end)*32)
		copy(n, i.mem)
		i.mem = n
	}
}
func (i *interp) touch(off, size U) {
	end := i.reach(off, size)
	i.use(i.expansion(end))
	i.grow(end)
}
func (i *interp) view(off, size U) []byte {
	if size.IsZero() {
		return nil
	}
	return bytes.Clone(i.mem[off[0] : off[0]+size[0]])
}
func (i *interp) copyIn(src []byte, mo, so, n U) {
	for k := uint64(0); k < n[0]; k++ {
		b := byte(0)
		if so.IsUint64() && so[0] < uint64(len(src)) && so[0]+k < uint64(len(src)) {
			b = src[so[0]+k]
		}
		i.mem[mo[0]+k] = b
	}
}
func (i *interp) berlin() bool { return i.rev >= tosca.R09_Berlin }
func (i *interp) accountCost(a tosca.Address) int64 {
	if !i.berlin() {
		return 700
	}
	if i.e.AccessAccount(a) == tosca.WarmAccess {
		return 100
	}
	return 2600
}
func value(v tosca.Value) (u U) { u.SetBytes(v[:]); return }

func (i *interp) sstore() {
	i.notStatic()
	if i.gas <= 2300 {
		i.fail()
	}
	ku, vu := i.pop(), i.pop()
	k, v := tosca.Key(ku.Bytes32()), tosca.Word(vu.Bytes32())
	self := i.m.Recipient
	zero := tosca.Word{}
	if i.env_ == nil {
		i.sstoreByStatus(self, k, v)
		return
	}
	cur, org := i.e.GetStorage(self, k), i.env_.GetCommittedStorage(self, k)
	berlin := i.berlin()
	warm := true
	if berlin {
		warm = i.e.AccessStorage(self, k) == tosca.WarmAccess
	}
	sload, clear := int64(800), int64(15000)
	if berlin {
		sload = 100
	}
	if i.rev >= tosca.R10_London {
		clear = 4800
	}
	c := sload
	if v != cur && cur == org {
		switch {
		case org == zero:
			c = 20000
		case berlin:
			c = 2900
		default:
			c = 5000
		}
	}
	if !warm {
		c += 2100
	}
	i.use(c)
	if v != cur {
		if cur == org {
			if org != zero && v == zero {
				i.refund += clear
			}
		} else {
			if org != zero {
				if cur == zero {
					i.refund -= clear
				}
				if v == zero {
					i.refund += clear
				}
			}
			if v == org { // the write is undone
				if org == zero {
					i.refund += 20000 - sload
				} else if !berlin {
					i.refund += 5000 - 800
				} else {
					i.refund += 5000 - 2100 - 100
				}
			}
		}
	}
	i.e.SetStorage(self, k, v)
}

// Hosts that do not give out original values classify updates instead.
func (i *interp) sstoreByStatus(self tosca.Address, k tosca.Key, v tosca.Word) {
	sload, clear, reset, warm := int64(800), int64(15000), int64(5000), true
	if i.berlin() {
		sload, reset = 100, 2900
		warm = i.e.AccessStorage(self, k) == tosca.WarmAccess
	}
	if i.rev >= tosca.R10_London {
		clear = 4800
	}
	cost, refund := sload, int64(0)
	switch i.e.SetStorage(self, k, v) {
	case tosca.StorageAssigned:
	case tosca.StorageAdded:
		cost = 20000
	case tosca.StorageDeleted:
		cost, refund = reset, clear
	case tosca.StorageModified:
		cost = reset
	case tosca.StorageDeletedAdded:
		refund = -clear
	case tosca.StorageModifiedDeleted:
		refund = clear
	case tosca.StorageDeletedRestored:
		refund = reset - sload - clear
	case tosca.StorageAddedDeleted:
		refund = 20000 - sload
	case tosca.StorageModifiedRestored:
		refund = reset - sload
	}
	if !warm {
		cost += 2100
	}
	i.use(cost)
	i.refund += refund
}

func (i *interp) create(op int) {
	i.notStatic()
	n := 3
	if op == 0xf5 {
		n = 4
	}
	i.need(n, 1)
	i.use(32000)
	v, off, size := i.pop(), i.pop(), i.pop()
	var salt U
	if op == 0xf5 {
		salt = i.pop()
	}
	i.touch(off, size)
	if i.rev >= tosca.R12_Shanghai {
		if size.GtUint64(2 * 24576) {
			i.fail()
		}
		i.use(2 * words(size[0]))
	}
	if op == 0xf5 {
		i.use(6 * words(size[0]))
	}
	i.ret = nil
	if !v.IsZero() {
		b := value(i.e.GetBalance(i.m.Recipient))
		if b.Lt(&v) {
			i.push64(0)
			return
		}
	}
	m := &Msg{Kind: tosca.Create, Depth: i.m.Depth + 1, Gas: i.gas - i.gas/64, Sender: i.m.Recipient, Value: v.Bytes32(), Input: i.view(off, size)}
	if op == 0xf5 {
		m.Kind = tosca.Create2
		m.Salt = salt.Bytes32()
	}
	r := i.e.CallMsg(m)
	i.gas += r.GasLeft - m.Gas
	i.refund += r.Refund
	if r.St == Success {
		i.pushBytes(r.Created[:])
	} else {
		i.push64(0)
	}
	if r.St == Revert {
		i.ret = r.Out
	}
}

func (i *interp) call(op int) {
	hasValue := op == 0xf1 || op == 0xf2
	n := 6
	if hasValue {
		n = 7
	}
	i.need(n, 1)
	g, toU := i.pop(), i.pop()
	to := tosca.Address(toU.Bytes20())
	var v U
	if hasValue {
		v = i.pop()
	}
	io, is, oo, os := i.pop(), i.pop(), i.pop(), i.pop()
	end := max(i.reach(io, is), i.reach(oo, os))
	i.use(i.expansion(end))
	if op == 0xf1 && !v.IsZero() {
		i.notStatic()
	}
	i.use(i.accountCost(to))
	if !v.IsZero() {
		i.use(9000)
	}
	if op == 0xf1 && !v.IsZero() && !i.e.Present(to) {
		i.use(25000)
	}
	i.grow(end)
	i.ret = nil
	most := i.gas - i.gas/64
	gas := most
	if g.IsUint64() && g[0] <= uint64(most) {
		gas = int64(g[0])
	}
	i.use(gas)
	if !v.IsZero() {
		gas += 2300
	}
	m := &Msg{Depth: i.m.Depth + 1, Gas: gas, Static: i.m.Static, CodeAddr: to, Recipient: i.m.Recipient, Sender: i.m.Recipient, Value: v.Bytes32(), Input: i.view(io, is)}
	switch op {
	case 0xf1, 0xfa:
		m.Kind, m.Recipient = tosca.Call, to
		if op == 0xfa || i.m.Static {
			m.Kind, m.Static, m.Value = tosca.StaticCall, true, tosca.Value{}
		}
	case 0xf2:
		m.Kind = tosca.CallCode
	case 0xf4:
		m.Kind, m.Sender, m.Value = tosca.DelegateCall, i.m.Sender, i.m.Value
	}
	if !v.IsZero() {
		b := value(i.e.GetBalance(i.m.Recipient))
		if b.Lt(&v) {
			i.gas += gas
			i.push64(0)
			return
		}
	}
	r := i.e.CallMsg(m)
	i.gas += r.GasLeft
	i.refund += r.Refund
	i.ret = r.Out
	for k := uint64(0); k < min(os[0], uint64(len(i.ret))) && !os.IsZero(); k++ {
		i.mem[oo[0]+k] = i.ret[k]
	}
	i.pushBool(r.St == Success)
}

func (i *interp) only(r tosca.Revision) {
	if i.rev < r {
		i.fail()
	}
}
func (i *interp) bin(g int64) (a, b U) {
	i.need(2, 1)
	i.use(g)
	a, b = i.pop(), i.pop()
	return
}
func (i *interp) un(g int64) U {
	i.need(1, 1)
	i.use(g)
	return i.pop()
}
func (i *interp) env() {
	i.need(0, 1)
	i.use(2)
}

func (i *interp) step(op int) {
	e, m := i.e, i.m
	var z U
	switch {
	case op == 0x5f:
		i.only(tosca.R12_Shanghai)
		i.env()
		i.push64(0)
		return
	case op >= 0x60 && op <= 0x7f:
		i.need(0, 1)
		i.use(3)
		n := op - 0x5f
		b := make([]byte, n)
		if i.pc+1 < len(i.code) {
			copy(b, i.code[i.pc+1:])
		}
		i.pushBytes(b)
		i.pc += n
		return
	case op >= 0x80 && op <= 0x8f:
		n := op - 0x7f
		i.need(n, n+1)
		i.use(3)
		i.push(i.s[len(i.s)-n])
		return
	case op >= 0x90 && op <= 0x9f:
		n := op - 0x8f
		i.need(n+1, n+1)
		i.use(3)
		k := len(i.s) - 1
		i.s[k], i.s[k-n] = i.s[k-n], i.s[k]
		return
	case op >= 0xa0 && op <= 0xa4:
		n := op - 0xa0
		i.notStatic()
		i.need(n+2, 0)
		i.use(375 * int64(n+1))
		off, size := i.pop(), i.pop()
		l := tosca.Log{Address: m.Recipient}
		for k := 0; k < n; k++ {
			t := i.pop()
			l.Topics = append(l.Topics, t.Bytes32())
		}
		i.touch(off, size)
		i.use(8 * int64(size[0]))
		l.Data = i.view(off, size)
		e.EmitLog(l)
		return
	}
	switch op {
	case 0x00:
		panic(halt{Success})
	case 0x01:
		a, b := i.bin(3)
		i.push(*z.Add(&a, &b))
	case 0x02:
		a, b := i.bin(5)
		i.push(*z.Mul(&a, &b))
	case 0x03:
		a, b := i.bin(3)
		i.push(*z.Sub(&a, &b))
	case 0x04:
		a, b := i.bin(5)
		i.push(*z.Div(&a, &b))
	case 0x05:
		a, b := i.bin(5)
		i.push(*z.SDiv(&a, &b))
	case 0x06:
		a, b := i.bin(5)
		i.push(*z.Mod(&a, &b))
	case 0x07:
		a, b := i.bin(5)
		i.push(*z.SMod(&a, &b))
	case 0x08, 0x09:
		i.need(3, 1)
		i.use(8)
		a, b, n := i.pop(), i.pop(), i.pop()
		if op == 0x08 {
			z.AddMod(&a, &b, &n)
		} else {
			z.MulMod(&a, &b, &n)
		}
		i.push(z)
	case 0x0a:
		a, b := i.bin(10)
		i.use(50 * int64(b.ByteLen()))
		i.push(*z.Exp(&a, &b))
	case 0x0b:
		k, x := i.bin(5)
		i.push(*z.ExtendSign(&x, &k))
	case 0x10:
		a, b := i.bin(3)
		i.pushBool(a.Lt(&b))
	case 0x11:
		a, b := i.bin(3)
		i.pushBool(a.Gt(&b))
	case 0x12:
		a, b := i.bin(3)
		i.pushBool(a.Slt(&b))
	case 0x13:
		a, b := i.bin(3)
		i.pushBool(a.Sgt(&b))
	case 0x14:
		a, b := i.bin(3)
		i.pushBool(a == b)
	case 0x15:
		a := i.un(3)
		i.pushBool(a.IsZero())
	case 0x16:
		a, b := i.bin(3)
		i.push(*z.And(&a, &b))
	case 0x17:
		a, b := i.bin(3)
		i.push(*z.Or(&a, &b))
	case 0x18:
		a, b := i.bin(3)
		i.push(*z.Xor(&a, &b))
	case 0x19:
		a := i.un(3)
		i.push(*z.Not(&a))
	case 0x1a:
		k, x := i.bin(3)
		if k.LtUint64(32) {
			b := x.Bytes32()
			i.push64(uint64(b[k[0]]))
		} else {
			i.push64(0)
		}
	case 0x1b, 0x1c:
		n, x := i.bin(3)
		if n.LtUint64(256) {
			if op == 0x1b {
				z.Lsh(&x, uint(n[0]))
			} else {
				z.Rsh(&x, uint(n[0]))
			}
		}
		i.push(z)
	case 0x1d:
		n, x := i.bin(3)
		s := uint(255)
		if n.LtUint64(256) {
			s = uint(n[0])
		}
		i.push(*z.SRsh(&x, s))
	case 0x20:
		i.need(2, 1)
		i.use(30)
		off, size := i.pop(), i.pop()
		i.touch(off, size)
		i.use(6 * words(size[0]))
		h := Keccak(i.view(off, size))
		i.pushBytes(h[:])
	case 0x30:
		i.env()
		i.pushBytes(m.Recipient[:])
	case 0x31:
		i.need(1, 1)
		a := i.popAddr()
		i.use(i.accountCost(a))
		b := e.GetBalance(a)
		i.pushBytes(b[:])
	case 0x32:
		i.env()
		i.pushBytes(i.ctx.Tx.Origin[:])
	case 0x33:
		i.env()
		i.pushBytes(m.Sender[:])
	case 0x34:
		i.env()
		i.pushBytes(m.Value[:])
	case 0x35:
		o := i.un(3)
		var b [32]byte
		if o.IsUint64() && o[0] < uint64(len(m.Input)) {
			copy(b[:], m.Input[o[0]:])
		}
		i.pushBytes(b[:])
	case 0x36:
		i.env()
		i.push64(uint64(len(m.Input)))
	case 0x37, 0x39:
		i.need(3, 0)
		i.use(3)
		mo, so, n := i.pop(), i.pop(), i.pop()
		i.touch(mo, n)
		i.use(3 * words(n[0]))
		src := m.Input
		if op == 0x39 {
			src = i.code
		}
		i.copyIn(src, mo, so, n)
	case 0x38:
		i.env()
		i.push64(uint64(len(i.code)))
	case 0x3a:
		i.env()
		i.pushBytes(i.ctx.Tx.GasPrice[:])
	case 0x3b:
		i.need(1, 1)
		a := i.popAddr()
		i.use(i.accountCost(a))
		i.push64(uint64(e.GetCodeSize(a)))
	case 0x3c:
		i.need(4, 0)
		a := i.popAddr()
		mo, so, n := i.pop(), i.pop(), i.pop()
		i.touch(mo, n)
		i.use(i.accountCost(a))
		i.use(3 * words(n[0]))
		i.copyIn(e.GetCode(a), mo, so, n)
	case 0x3d:
		i.env()
		i.push64(uint64(len(i.ret)))
	case 0x3e:
		i.need(3, 0)
		i.use(3)
		mo, so, n := i.pop(), i.pop(), i.pop()
		l := uint64(len(i.ret))
		if so.GtUint64(l) || n.GtUint64(l-so[0]) {
			i.fail()
		}
		i.touch(mo, n)
		i.use(3 * words(n[0]))
		i.copyIn(i.ret, mo, so, n)
	case 0x3f:
		i.need(1, 1)
		a := i.popAddr()
		i.use(i.accountCost(a))
		h := e.GetCodeHash(a)
		i.pushBytes(h[:])
	case 0x40:
		n := i.un(20)
		cur := uint64(i.ctx.Block.BlockNumber)
		if n.LtUint64(cur) && n[0]+256 >= cur {
			h := e.GetBlockHash(int64(n[0]))
			i.pushBytes(h[:])
		} else {
			i.push64(0)
		}
	case 0x41:
		i.env()
		i.pushBytes(i.ctx.Block.Coinbase[:])
	case 0x42:
		i.env()
		i.push64(uint64(i.ctx.Block.Timestamp))
	case 0x43:
		i.env()
		i.push64(uint64(i.ctx.Block.BlockNumber))
	case 0x44:
		i.env()
		i.pushBytes(i.ctx.Block.PrevRandao[:])
	case 0x45:
		i.env()
		i.push64(uint64(i.ctx.Block.GasLimit))
	case 0x46:
		i.env()
		i.pushBytes(i.ctx.Block.ChainID[:])
	case 0x47:
		i.need(0, 1)
		i.use(5)
		b := e.GetBalance(m.Recipient)
		i.pushBytes(b[:])
	case 0x48:
		i.only(tosca.R10_London)
		i.env()
		i.pushBytes(i.ctx.Block.BaseFee[:])
	case 0x49:
		i.only(tosca.R13_Cancun)
		k := i.un(3)
		if k.LtUint64(uint64(len(i.ctx.Tx.BlobHashes))) {
			h := i.ctx.Tx.BlobHashes[k[0]]
			i.pushBytes(h[:])
		} else {
			i.push64(0)
		}
	case 0x4a:
		i.only(tosca.R13_Cancun)
		i.env()
		i.pushBytes(i.ctx.Block.BlobBaseFee[:])
	case 0x50:
		i.need(1, 0)
		i.use(2)
		i.pop()
	case 0x51:
		o := i.un(3)
		i.touch(o, U{32})
		i.pushBytes(i.mem[o[0] : o[0]+32])
	case 0x52:
		i.need(2, 0)
		i.use(3)
		o, x := i.pop(), i.pop()
		i.touch(o, U{32})
		b := x.Bytes32()
		copy(i.mem[o[0]:], b[:])
	case 0x53:
		i.need(2, 0)
		i.use(3)
		o, x := i.pop(), i.pop()
		i.touch(o, U{1})
		i.mem[o[0]] = byte(x[0])
	case 0x54:
		i.need(1, 1)
		ku := i.pop()
		k := tosca.Key(ku.Bytes32())
		if !i.berlin() {
			i.use(800)
		} else if e.AccessStorage(m.Recipient, k) == tosca.WarmAccess {
			i.use(100)
		} else {
			i.use(2100)
		}
		v := e.GetStorage(m.Recipient, k)
		i.pushBytes(v[:])
	case 0x55:
		i.notStatic()
		i.need(2, 0)
		i.sstore()
	case 0x56, 0x57:
		if op == 0x56 {
			i.need(1, 0)
			i.use(8)
		} else {
			i.need(2, 0)
			i.use(10)
		}
		to := i.pop()
		if op == 0x57 {
			if c := i.pop(); c.IsZero() {
				return
			}
		}
		if !to.LtUint64(uint64(len(i.code))) || !i.dest[to[0]] {
			i.fail()
		}
		i.pc = int(to[0]) - 1
	case 0x58:
		i.env()
		i.push64(uint64(i.pc))
	case 0x59:
		i.env()
		i.push64(uint64(len(i.mem)))
	case 0x5a:
		i.env()
		i.push64(uint64(i.gas))
	case 0x5b:
		i.use(1)
	case 0x5c:
		i.only(tosca.R13_Cancun)
		k := i.un(100)
		v := e.GetTransientStorage(m.Recipient, k.Bytes32())
		i.pushBytes(v[:])
	case 0x5d:
		i.only(tosca.R13_Cancun)
		i.notStatic()
		i.need(2, 0)
		i.use(100)
		k, v := i.pop(), i.pop()
		e.SetTransientStorage(m.Recipient, k.Bytes32(), v.Bytes32())
	case 0x5e:
		i.only(tosca.R13_Cancun)
		i.need(3, 0)
		i.use(3)
		d, o, n := i.pop(), i.pop(), i.pop()
		end := max(i.reach(d, n), i.reach(o, n))
		i.use(i.expansion(end))
		i.grow(end)
		i.use(3 * words(n[0]))
		if !n.IsZero() {
			copy(i.mem[d[0]:d[0]+n[0]], i.view(o, n))
		}
	case 0xf0, 0xf5:
		i.create(op)
	case 0xf1, 0xf2, 0xf4, 0xfa:
		i.call(op)
	case 0xf3, 0xfd:
		i.need(2, 0)
		o, n := i.pop(), i.pop()
		i.touch(o, n)
		i.out = i.view(o, n)
		if op == 0xf3 {
			panic(halt{Success})
		}
		panic(halt{Revert})
	case 0xff:
		i.notStatic()
		i.need(1, 0)
		i.use(5000)
		ben := i.popAddr()
		if e.GetBalance(m.Recipient) != (tosca.Value{}) && !e.Present(ben) {
			i.use(25000)
		}
		if i.berlin() && e.AccessAccount(ben) == tosca.ColdAccess {
			i.use(2600)
		}
		if e.SelfDestruct(m.Recipient, ben) && i.rev < tosca.R10_London {
			i.refund += 24000
		}
		panic(halt{Success})
	default:
		i.fail()
	}
}

func (i *interp) popAddr() tosca.Address {
	u := i.pop()
	return u.Bytes20()
}
