package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/Fantom-foundation/Tosca/go/dst/evmref"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/ethereum/evmc/v11/bindings/go/evmc"
)

// A machine is what a library provides: the reference interpreter behind the
// host interface of EVMC.
type machine struct {
	lib string
	opt map[string]string
}

func init() {
	evmc.Open = func(lib string) (evmc.Machine, error) { return &machine{lib: lib, opt: map[string]string{}}, nil }
}

var (
	watch     func(*machine, evmc.ExecuteParameters)
	fail      func(string, ...any)
	count     func(string)
	frameSeed uint64
)

func (m *machine) options() string {
	var l []string
	for k, v := range m.opt {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	s := ""
	for _, o := range l {
		s += o
	}
	return s
}

func (m *machine) SetOption(n, v string) error { m.opt[n] = v; return nil }
func (m *machine) Destroy()                    {}

// status codes of failing contracts that evmzero and evmrs report
var contractFails = []int{1, 3, 4, 5, 6, 7, 8, 9, 10, 11}

// fate decides with which status code a machine ends a frame other than by
// the frame's own.
func fate(gas int64, depth int, recipient, input []byte, code int) int {
	if frameSeed == 0 {
		return 0
	}
	h := frameSeed
	mix := func(x uint64) {
		h = (h ^ x) * 0x9e3779b97f4a7c15
		h ^= h >> 29
	}
	mix(uint64(gas))
	mix(uint64(depth))
	for _, b := range recipient {
		mix(uint64(b))
	}
	for _, b := range input {
		mix(uint64(b))
	}
	mix(uint64(code))
	mix(1)
	switch h % 10 {
	case 0, 1:
		return contractFails[h/10%uint64(len(contractFails))]
	case 2:
		return -1 - int(h/10%3)
	}
	return 0
}

var revisions = map[evmc.Revision]tosca.Revision{evmc.Istanbul: tosca.R07_Istanbul + 1, evmc.Berlin: tosca.R09_Berlin + 1, evmc.London: tosca.R10_London + 1,
	evmc.Paris: tosca.R11_Paris + 1, evmc.Shanghai: tosca.R12_Shanghai + 1, evmc.Cancun: tosca.R13_Cancun + 1}

func revision(r evmc.Revision) tosca.Revision {
	v, ok := revisions[r]
	if !ok {
		fail("revision %d of the machine is not a revision of the client", r)
	}
	return v - 1
}

func (m *machine) Execute(p evmc.ExecuteParameters) (evmc.Result, error) {
	if watch != nil {
		watch(m, p)
	}
	msg := &evmref.Msg{Kind: tosca.Call, Static: p.Static, Depth: p.Depth, Gas: p.Gas, Recipient: tosca.Address(p.Recipient), Sender: tosca.Address(p.Sender),
		CodeAddr: tosca.Address(p.Recipient), Value: tosca.Value(p.Value), Input: p.Input}
	f := newFace(p.Context, p.Revision)
	r := evmref.InterpretOn(f, msg, p.Code)
	out := evmc.Result{Output: bytes.Clone(r.Out), GasLeft: r.GasLeft, GasRefund: r.Refund}
	if s := fate(p.Gas, p.Depth, p.Recipient[:], p.Input, len(p.Code)); s != 0 {
		count(fmt.Sprintf("fault:machine-status-%d", s))
		// nothing else is valid then
		return evmc.Result{Output: []byte{1, 2, 3}, GasLeft: p.Gas / 2, GasRefund: 77}, evmc.Error(s)
	}
	switch r.St {
	case evmref.Success:
		return out, nil
	case evmref.Revert:
		return out, evmc.Revert
	}
	return evmc.Result{GasLeft: 0}, evmc.Error(contractFails[(int(p.Gas)+len(p.Code))%len(contractFails)])
}

var garbage func(evmc.StepParameters) (evmc.StepResult, error)

func (m *machine) StepN(p evmc.StepParameters) (evmc.StepResult, error) {
	if garbage != nil {
		return garbage(p)
	}
	msg := &evmref.Msg{Kind: tosca.Call, Static: p.Static, Depth: p.Depth, Gas: p.Gas, Recipient: tosca.Address(p.Recipient), Sender: tosca.Address(p.Sender),
		CodeAddr: tosca.Address(p.Recipient), Value: tosca.Value(p.Value), Input: p.Input}
	s := &evmref.StepState{Gas: p.Gas, Refund: p.GasRefund, Pc: p.Pc, Mem: bytes.Clone(p.Memory), Ret: bytes.Clone(p.LastCallResult), Status: evmref.StepStatus(p.StepStatusCode)}
	if len(p.Stack)%32 != 0 {
		fail("a stack of %d bytes", len(p.Stack))
	}
	for i := 0; i < len(p.Stack); i += 32 {
		s.Stack = append(s.Stack, [32]byte(p.Stack[i:i+32]))
	}
	evmref.StepOn(newFace(p.Context, p.Revision), msg, p.Code, s, p.NumSteps)
	r := evmc.StepResult{StepStatusCode: evmc.StepStatus(s.Status), Revision: p.Revision, Pc: s.Pc, GasLeft: s.Gas, GasRefund: s.Refund, Memory: s.Mem, LastCallReturnData: s.Ret}
	if s.Status == evmref.StepReturned || s.Status == evmref.StepReverted {
		r.Output = bytes.Clone(s.Out)
	}
	for _, v := range s.Stack {
		r.Stack = append(r.Stack, v[:]...)
	}
	return r, nil
}

// A face is the host as the machine sees it.
type face struct {
	h   evmc.HostContext
	ctx *evmref.TxCtx
}

func newFace(h evmc.HostContext, rev evmc.Revision) *face {
	t := h.GetTxContext()
	c := &evmref.TxCtx{}
	b := &c.Block
	b.Revision = revision(rev)
	b.BlockNumber, b.Timestamp, b.GasLimit = t.Number, t.Timestamp, tosca.Gas(t.GasLimit)
	if clients != nil {
		b.BlockNumber &= 1<<32 - 1
	}
	b.Coinbase, b.ChainID, b.PrevRandao = tosca.Address(t.Coinbase), tosca.Word(t.ChainID), tosca.Hash(t.PrevRandao)
	b.BaseFee, b.BlobBaseFee = tosca.Value(t.BaseFee), tosca.Value(t.BlobBaseFee)
	c.Tx.Origin, c.Tx.GasPrice = tosca.Address(t.Origin), tosca.Value(t.GasPrice)
	for _, x := range t.BlobHashes {
		c.Tx.BlobHashes = append(c.Tx.BlobHashes, tosca.Hash(x))
	}
	return &face{h: h, ctx: c}
}

type (
	ea = evmc.Address
	eh = evmc.Hash
)

func (f *face) Context() *evmref.TxCtx                 { return f.ctx }
func (f *face) Present(a tosca.Address) bool           { return f.h.AccountExists(ea(a)) }
func (f *face) GetBalance(a tosca.Address) tosca.Value { return tosca.Value(f.h.GetBalance(ea(a))) }
func (f *face) GetCode(a tosca.Address) tosca.Code     { return f.h.GetCode(ea(a)) }
func (f *face) GetCodeSize(a tosca.Address) int        { return f.h.GetCodeSize(ea(a)) }
func (f *face) GetCodeHash(a tosca.Address) tosca.Hash { return tosca.Hash(f.h.GetCodeHash(ea(a))) }
func (f *face) GetBlockHash(n int64) tosca.Hash        { return tosca.Hash(f.h.GetBlockHash(n)) }
func (f *face) SelfDestruct(a, b tosca.Address) bool   { return f.h.Selfdestruct(ea(a), ea(b)) }
func (f *face) GetStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return tosca.Word(f.h.GetStorage(ea(a), eh(k)))
}
func (f *face) GetTransientStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return tosca.Word(f.h.GetTransientStorage(ea(a), eh(k)))
}
func (f *face) SetTransientStorage(a tosca.Address, k tosca.Key, v tosca.Word) {
	f.h.SetTransientStorage(ea(a), eh(k), eh(v))
}

func (f *face) SetStorage(a tosca.Address, k tosca.Key, v tosca.Word) tosca.StorageStatus {
	switch s := f.h.SetStorage(ea(a), eh(k), eh(v)); s {
	case evmc.StorageAssigned:
		return tosca.StorageAssigned
	case evmc.StorageAdded:
		return tosca.StorageAdded
	case evmc.StorageDeleted:
		return tosca.StorageDeleted
	case evmc.StorageModified:
		return tosca.StorageModified
	case evmc.StorageDeletedAdded:
		return tosca.StorageDeletedAdded
	case evmc.StorageModifiedDeleted:
		return tosca.StorageModifiedDeleted
	case evmc.StorageDeletedRestored:
		return tosca.StorageDeletedRestored
	case evmc.StorageAddedDeleted:
		return tosca.StorageAddedDeleted
	case evmc.StorageModifiedRestored:
		return tosca.StorageModifiedRestored
	default:
		fail("storage status %d", s)
	}
	return 0
}

func warmth(s evmc.AccessStatus) tosca.AccessStatus {
	if s == evmc.WarmAccess {
		return tosca.WarmAccess
	}
	return tosca.ColdAccess
}

func (f *face) AccessAccount(a tosca.Address) tosca.AccessStatus {
	return warmth(f.h.AccessAccount(ea(a)))
}
func (f *face) AccessStorage(a tosca.Address, k tosca.Key) tosca.AccessStatus {
	return warmth(f.h.AccessStorage(ea(a), eh(k)))
}

// Logs are copied into Go's memory by the bindings.
func (f *face) EmitLog(l tosca.Log) {
	topics := make([]eh, 0, len(l.Topics))
	for _, t := range l.Topics {
		topics = append(topics, eh(t))
	}
	f.h.EmitLog(ea(l.Address), topics, bytes.Clone(l.Data))
}

// The input of a message is the machine's memory, which changes afterwards.
func (f *face) CallMsg(m *evmref.Msg) evmref.Res {
	kind, static := evmc.Call, m.Static
	to, code := ea(m.Recipient), ea(m.CodeAddr)
	switch m.Kind {
	case tosca.CallCode:
		kind = evmc.CallCode
	case tosca.DelegateCall:
		kind = evmc.DelegateCall
	case tosca.Create:
		kind = evmc.Create
	case tosca.Create2:
		kind = evmc.Create2
	}
	in := bytes.Clone(m.Input)
	out, gas, refund, created, err := f.h.Call(kind, to, ea(m.Sender), eh(m.Value), in, m.Gas, m.Depth, static, eh(m.Salt), code)
	for i := range in {
		in[i] ^= 0xa5
	}
	r := evmref.Res{St: evmref.Success, GasLeft: gas, Refund: refund, Out: bytes.Clone(out), Created: tosca.Address(created)}
	switch err {
	case nil:
	case evmc.Revert:
		r.St = evmref.Revert
	default:
		r = evmref.Res{St: evmref.Failure}
	}
	return r
}
