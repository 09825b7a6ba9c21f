package main

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/Fantom-foundation/Tosca/go/dst/evmref"
	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	"github.com/Fantom-foundation/Tosca/go/tosca"
)

// A script is the behaviour of a contract: code starts with a marker and the
// number of the script. Both the processor under test and the reference run
// contracts with the same scripted interpreter.
type script struct {
	actions []action
	end     byte // 's' success, 'r' revert, 'f' failure, 'e' interpreter error, 'p' interpreter panic
	out     []byte
	burn    int64
	refund  int64
}

type action struct {
	kind    byte // 's' store, 't' transient, 'l' log, 'd' selfdestruct, 'c' call, 'n' create, 'w' access, 'g' look, 'x' anything else the context offers
	call    tosca.CallKind
	target  tosca.Address
	self    bool
	key     int
	val     int
	share   int // quarters of the gas given to callees
	exact   int // if not zero, what the callee costs, one less or one more is given
	value   int
	input   []byte
	initial []byte
	salt    byte
}

const marker = 0xA0

func codeOf(id int, pad int) []byte {
	c := make([]byte, 3+pad)
	c[0], c[1], c[2] = marker, byte(id>>8), byte(id)
	for i := 3; i < len(c); i++ {
		c[i] = byte(i * id)
	}
	return c
}

func scriptID(code []byte) int {
	if len(code) < 3 || code[0] != marker {
		return -1
	}
	return int(code[1])<<8 | int(code[2])
}

var errInterpreter = errors.New("injected: interpreter failure")

type panicked struct{}

// maxFrames bounds the frames of a transaction; maxDeep those of one that
// recurses to the limit.
const maxFrames = 40

// runner is the scripted interpreter of one execution: it keeps what contracts
// were given and got back. Processor and reference have one each.
type runner struct {
	scripts []script
	env     *evmref.Env
	log     []string
	frames  int
	deep    bool
	spy     bool // maintain the host's idea of the current frame
	r       *simrt.R
	yield   func()
	quiet   bool
	ends    [256]uint64
	nesting int
	maxNest int
	block   *tosca.BlockParameters
	tx      *tosca.TransactionParameters
}

func (v *runner) logf(format string, args ...any) {
	if len(v.log) < 6000 {
		v.log = append(v.log, fmt.Sprintf(format, args...))
	}
}

func word(v uint64) (w [32]byte) {
	for i := 0; i < 8; i++ {
		w[31-i] = byte(v >> (8 * i))
	}
	return
}

func small(b []byte) string {
	if len(b) > 100 {
		h := evmref.Keccak(b)
		return fmt.Sprintf("%x..%x(%d)", b[:8], h[:4], len(b))
	}
	return fmt.Sprintf("%x(%d)", b, len(b))
}

// Run implements tosca.Interpreter.
func (v *runner) Run(p tosca.Parameters) (res tosca.Result, err error) {
	if len(p.Code) == 0 {
		return tosca.Result{Success: true, GasLeft: p.Gas}, nil
	}
	v.nesting++
	defer func() { v.nesting-- }()
	v.maxNest = max(v.maxNest, v.nesting)
	if v.yield != nil {
		v.yield()
	}
	if v.spy {
		b := *v.block
		if opera && !adapter {
			// Opera has no randomness, and does not tell who made the block
			b.Coinbase, b.PrevRandao = p.Coinbase, p.PrevRandao
		}
		if p.BlockParameters != b {
			v.logf("wrong block parameters %+v", p.BlockParameters)
		}
		if p.Origin != v.tx.Origin || p.GasPrice != v.tx.GasPrice {
			v.logf("wrong transaction parameters %+v", p.TransactionParameters)
		}
		if p.CodeHash != nil && *p.CodeHash != evmref.Keccak(p.Code) {
			v.logf("wrong code hash %v", *p.CodeHash)
		}
		v.env.Push(p.Static, p.Recipient)
		depth := v.env.Depth()
		defer func() {
			for v.env.Depth() >= depth {
				v.env.Pop()
			}
		}()
	}
	v.frames++
	if v.deep || v.frames < 200 {
		kind := p.Kind
		if opera {
			kind = 0 // not passed on
		}
		v.logf("frame depth %d kind %d static %t gas %d recipient %v sender %v value %v input %s code %s", p.Depth, kind, p.Static, p.Gas, p.Recipient, p.Sender, p.Value, small(p.Input), small(p.Code))
	}
	id := scriptID(p.Code)
	if id < 0 || id >= len(v.scripts) {
		return tosca.Result{Success: true, GasLeft: p.Gas, Output: []byte{byte(len(p.Code))}}, nil
	}
	s := &v.scripts[id]
	gas := p.Gas
	c := p.Context
	fail := tosca.Result{}
	refund := tosca.Gas(s.refund)
	for i := range s.actions {
		a := &s.actions[i]
		if gas < 100 {
			v.ends['o']++
			return fail, nil
		}
		gas -= 100
		if v.yield != nil {
			v.yield()
		}
		if p.Static && (a.kind == 's' || a.kind == 't' || a.kind == 'l' || a.kind == 'd' || a.kind == 'n' || a.kind == 'x') {
			continue
		}
		target := a.target
		if a.self {
			target = p.Recipient
		}
		switch a.kind {
		case 's':
			was := c.GetStorage(p.Recipient, word(uint64(a.key)))
			st := c.SetStorage(p.Recipient, word(uint64(a.key)), word(uint64(a.val)))
			v.logf("  store %d was %v: %d", a.key, was, st)
		case 't':
			v.logf("  transient %v", c.GetTransientStorage(p.Recipient, word(uint64(a.key))))
			c.SetTransientStorage(p.Recipient, word(uint64(a.key)), word(uint64(a.val)))
		case 'l':
			c.EmitLog(tosca.Log{Address: p.Recipient, Topics: []tosca.Hash{word(uint64(v.frames)), word(uint64(a.val))}, Data: []byte{byte(i), byte(a.val)}})
		case 'd':
			first := c.SelfDestruct(p.Recipient, target)
			if adapter && p.Revision >= tosca.R13_Cancun {
				first = true // without a meaning
			}
			v.logf("  destruct for %v: %t", target, first)
		case 'w':
			v.logf("  access %v: %t %t", target, c.AccessAccount(target), c.AccessStorage(target, word(uint64(a.key))))
		case 'g':
			v.logf("  look at %v: exists %t balance %v nonce %d code %s hash %v warm %t storage %v transient %v", target, c.AccountExists(target), c.GetBalance(target), c.GetNonce(target),
				small(c.GetCode(target)), c.GetCodeHash(target), c.IsAddressInAccessList(target), c.GetStorage(target, word(uint64(a.key))), c.GetTransientStorage(target, word(uint64(a.key))))
			if a.val%2 == 0 {
				aw, sw := c.IsSlotInAccessList(target, word(uint64(a.key)))
				v.logf("  and at: code size %d committed %v slot %t %t destructed %t hash of block %v", c.GetCodeSize(target), c.GetCommittedStorage(target, word(uint64(a.key))), aw, sw,
					c.HasSelfDestructed(target), c.GetBlockHash(p.BlockNumber-1-int64(a.val)))
			}
		case 'x':
			snapshot := c.CreateSnapshot()
			switch a.value % 4 {
			case 0:
				c.SetStorage(p.Recipient, word(uint64(a.key)), word(uint64(a.val)))
			case 1:
				mine, other := c.GetBalance(p.Recipient), c.GetBalance(target)
				c.SetBalance(p.Recipient, other)
				c.SetBalance(target, mine)
			case 2:
				c.SetNonce(target, c.GetNonce(target)+uint64(a.val))
			case 3:
				c.SetCode(target, codeOf(a.val, a.key))
			}
			v.logf("  made storage %v balance %v nonce %d code %s", c.GetStorage(p.Recipient, word(uint64(a.key))), c.GetBalance(target), c.GetNonce(target), small(c.GetCode(target)))
			if a.salt != 0 {
				c.RestoreSnapshot(snapshot)
				v.logf("  and back to storage %v balance %v nonce %d code %s", c.GetStorage(p.Recipient, word(uint64(a.key))), c.GetBalance(target), c.GetNonce(target), small(c.GetCode(target)))
			}
		case 'c', 'n':
			limit := maxFrames
			if v.deep {
				limit = 1200
			}
			if v.frames >= limit || a.kind == 'n' && v.frames > 100 && v.nesting < 1010 {
				continue // many accounts make snapshots expensive
			}
			given := gas / 4 * tosca.Gas(a.share)
			q := tosca.CallParameters{Sender: p.Recipient, Recipient: target, CodeAddress: target, Gas: given, Input: bytes.Clone(a.input)}
			kind := a.call
			have := c.GetBalance(p.Recipient)
			q.Value = amount(a.value, have)
			switch kind {
			case tosca.Call:
				if p.Static {
					q.Value = tosca.Value{}
				}
			case tosca.CallCode:
				q.Recipient = p.Recipient
				if p.Static {
					q.Value = tosca.Value{}
				}
			case tosca.DelegateCall:
				q.Sender, q.Recipient, q.Value = p.Sender, p.Recipient, p.Value
			case tosca.StaticCall:
				q.Value = tosca.Value{}
			default:
				q.Recipient, q.CodeAddress = tosca.Address{}, tosca.Address{}
				q.Input = bytes.Clone(a.initial)
				q.Salt = tosca.Hash{31: a.salt}
				if q.Value.Cmp(have) > 0 {
					continue // interpreters do not request what they know to fail
				}
			}
			if a.exact != 0 && kind != tosca.Create && kind != tosca.Create2 {
				if cost, ok := evmref.CostOf(p.Revision, q.CodeAddress, q.Input, c.GetCodeSize); ok {
					if cost += int64(a.exact - 2); cost >= 0 && cost <= int64(gas) {
						given = tosca.Gas(cost)
						q.Gas = given
					}
				}
			}
			if opera && !adapter && q.CodeAddress == evmref.StateContract && (p.Static || kind == tosca.StaticCall) {
				continue // nothing is promised
			}
			gas -= given
			r, err := c.Call(kind, q)
			if err != nil && opera {
				r, err = tosca.CallResult{}, nil
			}
			if err != nil {
				v.logf("  result of %d to %v: error", kind, q.CodeAddress)
				if a.val%2 == 0 {
					// the interpreter gives up as well
					v.ends['E']++
					return tosca.Result{}, err
				}
				continue
			}
			created := tosca.Address{}
			out := r.Output
			if kind == tosca.Create || kind == tosca.Create2 {
				if r.Success {
					created, out = r.CreatedAddress, nil
				}
			}
			ref := r.GasRefund
			if !r.Success {
				ref = 0
			}
			if opera {
				// part of the result or booked by the processor
				refund += ref
				ref = 0
			}
			v.logf("  result of %d to %v: success %t gas %d refund %d output %s created %v", kind, q.CodeAddress, r.Success, r.GasLeft, ref, small(out), created)
			gas += r.GasLeft
		}
	}
	if gas < tosca.Gas(s.burn) {
		v.ends['o']++
		return fail, nil
	}
	gas -= tosca.Gas(s.burn)
	v.ends[s.end]++
	switch s.end {
	case 'r':
		return tosca.Result{GasLeft: gas, Output: bytes.Clone(s.out)}, nil
	case 'f':
		return fail, nil
	case 'e':
		return tosca.Result{Success: true, GasLeft: gas, Output: bytes.Clone(s.out)}, errInterpreter
	case 'p':
		panic(panicked{})
	}
	return tosca.Result{Success: true, GasLeft: gas, GasRefund: refund, Output: bytes.Clone(s.out)}, nil
}

// amount is a value to transfer.
func amount(kind int, have tosca.Value) tosca.Value {
	switch kind {
	case 0, 1:
		return tosca.Value{}
	case 2:
		return tosca.NewValue(1)
	case 3:
		return tosca.NewValue(7)
	case 4:
		return have
	case 5:
		return tosca.Add(have, tosca.NewValue(1))
	}
	return tosca.NewValue(1000)
}

// Exec lets the reference run its frames.
func (v *runner) Exec(e *evmref.Env, m *evmref.Msg, code []byte, hash *tosca.Hash) evmref.Res {
	p := evmref.Parameters(e, m, code, hash)
	res, err := v.Run(p)
	r := evmref.Res{St: evmref.Success, GasLeft: int64(res.GasLeft), Refund: int64(res.GasRefund), Out: res.Output, Err: err}
	if !res.Success || err != nil {
		r.St = evmref.Revert
	}
	return r
}
