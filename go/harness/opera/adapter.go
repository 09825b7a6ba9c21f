package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/Fantom-foundation/Tosca/go/dst/evmref"
	"github.com/Fantom-foundation/Tosca/go/geth_adapter"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/stateless"
	"github.com/ethereum/go-ethereum/core/tracing"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/params"
	"github.com/ethereum/go-ethereum/trie/utils"
	"github.com/holiman/uint256"
)

// bareAdapter makes the adapter the system under test: messages are processed
// by go-ethereum's machine on a database of its kind.
func bareAdapter() {
	adapter = true
	other = func(i tosca.Interpreter) tosca.Processor { return &bare{geth_adapter.NewGethInterpreterFactory(i)} }
	process = bareProcess
}

type bare struct{ factory vm.InterpreterFactory }

func (b *bare) Run(block tosca.BlockParameters, tx tosca.Transaction, context tosca.TransactionContext) (tosca.Receipt, error) {
	h := context.(hidden)
	env := h.TransactionContext.(*evmref.Env)
	db := &database{env: env, refund: h.job.refund}
	zero, n := uint64(0), new(big.Int)
	config := &params.ChainConfig{ChainID: new(big.Int).SetBytes(block.ChainID[:]), HomesteadBlock: n, EIP150Block: n, EIP155Block: n, EIP158Block: n, ByzantiumBlock: n,
		ConstantinopleBlock: n, PetersburgBlock: n, IstanbulBlock: n, MuirGlacierBlock: n}
	if block.Revision >= tosca.R09_Berlin {
		config.BerlinBlock = n
	}
	if block.Revision >= tosca.R10_London {
		config.LondonBlock = n
	}
	if block.Revision >= tosca.R12_Shanghai {
		config.ShanghaiTime = &zero
	}
	if block.Revision >= tosca.R13_Cancun {
		config.CancunTime = &zero
	}
	bc := vm.BlockContext{
		CanTransfer: func(db vm.StateDB, a common.Address, v *uint256.Int) bool { return db.GetBalance(a).Cmp(v) >= 0 },
		Transfer: func(db vm.StateDB, a, b common.Address, v *uint256.Int) {
			db.SubBalance(a, v, tracing.BalanceChangeTransfer)
			db.AddBalance(b, v, tracing.BalanceChangeTransfer)
		},
		GetHash:     func(n uint64) common.Hash { return common.Hash(context.GetBlockHash(int64(n))) },
		Coinbase:    common.Address(block.Coinbase),
		GasLimit:    uint64(block.GasLimit),
		BlockNumber: big.NewInt(block.BlockNumber),
		Time:        uint64(block.Timestamp),
		Difficulty:  new(big.Int),
		BaseFee:     new(big.Int).SetBytes(block.BaseFee[:]),
		BlobBaseFee: new(big.Int).SetBytes(block.BlobBaseFee[:]),
	}
	if block.Revision >= tosca.R11_Paris {
		random := common.Hash(block.PrevRandao)
		bc.Random = &random
		config.MergeNetsplitBlock = n
	} else {
		bc.Difficulty.SetBytes(block.PrevRandao[:])
	}
	tc := vm.TxContext{Origin: common.Address(tx.Sender), GasPrice: new(big.Int).SetBytes(tx.GasPrice[:])}
	for _, b := range h.job.blobs {
		tc.BlobHashes = append(tc.BlobHashes, common.Hash(b))
	}
	evm := vm.NewEVM(bc, tc, db, config, vm.Config{Interpreter: b.factory})
	var out []byte
	var left uint64
	var err error
	var created *tosca.Address
	if tx.Recipient != nil {
		out, left, err = evm.Call(vm.AccountRef(tx.Sender), common.Address(*tx.Recipient), tx.Input, uint64(tx.GasLimit), tx.Value.ToUint256())
	} else {
		var a common.Address
		out, a, left, err = evm.Create(vm.AccountRef(tx.Sender), tx.Input, uint64(tx.GasLimit), tx.Value.ToUint256())
		created = (*tosca.Address)(&a)
	}
	if d := evm.GetDepth(); d != 0 {
		return tosca.Receipt{}, fmt.Errorf("the machine is left at depth %d", d)
	}
	r := tosca.Receipt{Success: err == nil, Output: out, GasUsed: tx.GasLimit - tosca.Gas(left), BlobGasUsed: tosca.Gas(db.refund)}
	if err == nil {
		r.ContractAddress = created
		r.Logs = env.GetLogs()
	}
	return r, nil
}

// bareProcess is what has to happen. The gas to be refunded in the end is
// reported as blob gas.
func bareProcess(j *job, e *evmref.Env, tx tosca.Transaction) evmref.TxOutcome {
	m := &evmref.Msg{Kind: tosca.Create, Gas: int64(tx.GasLimit), Sender: tx.Sender, Value: tx.Value, Input: tx.Input}
	if tx.Recipient != nil {
		m.Kind, m.Recipient, m.CodeAddr = tosca.Call, *tx.Recipient, *tx.Recipient
	}
	if tx.Recipient == nil && bytes.Compare(balanceOf(e, tx.Sender), tx.Value[:]) < 0 {
		// not even the nonce is touched
		return evmref.TxOutcome{Why: "failed", Receipt: tosca.Receipt{BlobGasUsed: tosca.Gas(j.refund)}}
	}
	r := e.Enter(m)
	o := evmref.TxOutcome{Left: r.GasLeft, Why: "failed", Receipt: tosca.Receipt{GasUsed: tx.GasLimit - tosca.Gas(r.GasLeft), Output: r.Out, BlobGasUsed: tosca.Gas(j.refund)}}
	switch {
	case r.Err != nil:
		o.Why = "interpreter-error"
	case r.St == evmref.Success:
		o.Why = "applied"
		o.Receipt.Success, o.Receipt.Logs = true, e.W.Logs
		o.Receipt.BlobGasUsed = max(0, o.Receipt.BlobGasUsed+tosca.Gas(r.Refund))
		if tx.Recipient == nil {
			a := r.Created
			o.Receipt.ContractAddress = &a
		}
	}
	return o
}

func balanceOf(e *evmref.Env, a tosca.Address) []byte {
	b := e.GetBalance(a)
	return b[:]
}

// database is the simulated world as go-ethereum sees it.
type database struct {
	env     *evmref.Env
	refund  uint64
	refunds []uint64
}

func (d *database) CreateAccount(common.Address) {}
func (d *database) CreateContract(a common.Address) {
	d.env.W.Get(tosca.Address(a)).New = true
}
func (d *database) SubBalance(a common.Address, v *uint256.Int, _ tracing.BalanceChangeReason) {
	d.env.SetBalance(tosca.Address(a), tosca.ValueFromUint256(new(uint256.Int).Sub(d.GetBalance(a), v)))
}
func (d *database) AddBalance(a common.Address, v *uint256.Int, _ tracing.BalanceChangeReason) {
	d.env.SetBalance(tosca.Address(a), tosca.ValueFromUint256(new(uint256.Int).Add(d.GetBalance(a), v)))
}
func (d *database) GetBalance(a common.Address) *uint256.Int {
	v := d.env.GetBalance(tosca.Address(a))
	return v.ToUint256()
}
func (d *database) GetNonce(a common.Address) uint64    { return d.env.GetNonce(tosca.Address(a)) }
func (d *database) SetNonce(a common.Address, n uint64) { d.env.SetNonce(tosca.Address(a), n) }
func (d *database) GetCodeHash(a common.Address) common.Hash {
	return common.Hash(d.env.GetCodeHash(tosca.Address(a)))
}
func (d *database) GetCode(a common.Address) []byte               { return d.env.GetCode(tosca.Address(a)) }
func (d *database) SetCode(a common.Address, c []byte)            { d.env.SetCode(tosca.Address(a), c) }
func (d *database) GetCodeSize(a common.Address) int              { return d.env.GetCodeSize(tosca.Address(a)) }
func (d *database) AddRefund(n uint64)                            { d.refund += n }
func (d *database) GetRefund() uint64                             { return d.refund }
func (d *database) Exist(a common.Address) bool                   { return d.env.AccountExists(tosca.Address(a)) }
func (d *database) Empty(a common.Address) bool                   { return !d.Exist(a) }
func (d *database) AddPreimage(common.Hash, []byte)               {}
func (d *database) Witness() *stateless.Witness                   { return nil }
func (d *database) PointCache() *utils.PointCache                 { return nil }
func (d *database) GetStorageRoot(common.Address) (h common.Hash) { return }
func (d *database) SubRefund(n uint64) {
	if n > d.refund {
		panic(fmt.Sprintf("refund counter below zero (gas: %d > refund: %d)", n, d.refund))
	}
	d.refund -= n
}
func (d *database) GetCommittedState(a common.Address, k common.Hash) common.Hash {
	return common.Hash(d.env.GetCommittedStorage(tosca.Address(a), tosca.Key(k)))
}
func (d *database) GetState(a common.Address, k common.Hash) common.Hash {
	return common.Hash(d.env.GetStorage(tosca.Address(a), tosca.Key(k)))
}
func (d *database) SetState(a common.Address, k, v common.Hash) {
	d.env.SetStorage(tosca.Address(a), tosca.Key(k), tosca.Word(v))
}
func (d *database) GetTransientState(a common.Address, k common.Hash) common.Hash {
	return common.Hash(d.env.GetTransientStorage(tosca.Address(a), tosca.Key(k)))
}
func (d *database) SetTransientState(a common.Address, k, v common.Hash) {
	d.env.SetTransientStorage(tosca.Address(a), tosca.Key(k), tosca.Word(v))
}
func (d *database) SelfDestruct(a common.Address) { d.env.Destroy(tosca.Address(a)) }
func (d *database) HasSelfDestructed(a common.Address) bool {
	return d.env.HasSelfDestructed(tosca.Address(a))
}
func (d *database) Selfdestruct6780(a common.Address) {
	if c := d.env.W.Acc[tosca.Address(a)]; c != nil && c.New {
		d.SelfDestruct(a)
	}
}
func (d *database) AddressInAccessList(a common.Address) bool {
	return d.env.IsAddressInAccessList(tosca.Address(a))
}
func (d *database) SlotInAccessList(a common.Address, k common.Hash) (bool, bool) {
	return d.env.IsSlotInAccessList(tosca.Address(a), tosca.Key(k))
}
func (d *database) AddAddressToAccessList(a common.Address) { d.env.AccessAccount(tosca.Address(a)) }
func (d *database) AddSlotToAccessList(a common.Address, k common.Hash) {
	d.env.AccessStorage(tosca.Address(a), tosca.Key(k))
}
func (d *database) Prepare(params.Rules, common.Address, common.Address, *common.Address, []common.Address, types.AccessList) {
}
func (d *database) Snapshot() int {
	id := int(d.env.CreateSnapshot())
	d.refunds = append(d.refunds[:id], d.refund)
	return id
}
func (d *database) RevertToSnapshot(id int) {
	d.env.RestoreSnapshot(tosca.Snapshot(id))
	d.refund = d.refunds[id]
}
func (d *database) AddLog(l *types.Log) {
	g := tosca.Log{Address: tosca.Address(l.Address), Data: l.Data}
	for _, t := range l.Topics {
		g.Topics = append(g.Topics, tosca.Hash(t))
	}
	d.env.EmitLog(g)
}
