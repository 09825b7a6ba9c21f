// Simulation of the Opera processor: transactions with scripted and real
// interpreters behind the adapter to go-ethereum's processing of messages,
// compared with an independent reference of a processor.
package main

import (
	"math/big"

	"github.com/Fantom-foundation/Tosca/go/dst/evmref"
	"github.com/Fantom-foundation/Tosca/go/dst/simos"
	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	"github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"
	_ "github.com/Fantom-foundation/Tosca/go/processor/opera"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	lru "github.com/hashicorp/golang-lru/v2"
)

var _ = lfvm.Config{}

func main() {
	opera = true
	name = "opera"
	simrt.Main(simrt.Harness{Name: "opera", Run: run, Cap: 30_000_000, CacheSizes: []int{2, 8, 64}})
}

func run(r *simrt.R) {
	simos.Reset()
	lru.Capacity = func(n int) int { return n }
	lru.Between = simrt.Y
	adapter, other, process = false, nil, operaProcess
	switch r.Variant {
	case "adapter":
		bareAdapter()
		sequence(r, "frames")
	case "adapterevm":
		bareAdapter()
		withEvm(r)
	case "tx", "frames", "state":
		sequence(r, r.Variant)
	case "evm":
		withEvm(r)
	case "conc":
		conc(r)
	default:
		r.Fail("usage", "unknown variant %q", r.Variant)
	}
}

// operaProcess is what a transaction does under Opera's rules.
func operaProcess(_ *job, e *evmref.Env, tx tosca.Transaction) evmref.TxOutcome {
	rejected := func(why string) evmref.TxOutcome { return evmref.TxOutcome{Rejected: true, Why: why} }
	sender := e.W.Acc[tx.Sender]
	if sender == nil {
		sender = &evmref.Account{}
	}
	switch {
	case sender.Nonce != tx.Nonce:
		return rejected("nonce")
	case len(sender.Code) > 0:
		return rejected("sender-is-contract")
	}
	price := new(big.Int).SetBytes(tx.GasPrice[:])
	cost := new(big.Int).Mul(price, big.NewInt(int64(tx.GasLimit)))
	if new(big.Int).SetBytes(sender.Balance[:]).Cmp(cost) < 0 {
		return rejected("balance")
	}
	pay := func(amount *big.Int) {
		a := e.W.Get(tx.Sender)
		b := new(big.Int).SetBytes(a.Balance[:])
		b.Add(b, amount)
		if b.BitLen() > 256 {
			b.SetBit(b, 256, 0)
			e.Minted = true
		}
		b.FillBytes(a.Balance[:])
	}
	pay(new(big.Int).Neg(cost))

	gas := int64(tx.GasLimit) - 21000
	if tx.Recipient == nil {
		gas -= 32000
	}
	for _, b := range tx.Input {
		gas -= 4
		if b != 0 {
			gas -= 12
		}
	}
	for _, t := range tx.AccessList {
		gas -= 2400 + 1900*int64(len(t.Keys))
	}
	if gas < 0 {
		return evmref.TxOutcome{Why: "intrinsic-gas", Receipt: tosca.Receipt{GasUsed: tx.GasLimit}}
	}
	if e.Ctx.Block.Revision >= tosca.R09_Berlin {
		e.W.Warm(tx.Sender)
		if tx.Recipient != nil {
			e.W.Warm(*tx.Recipient)
		}
		for i := byte(1); i <= 9; i++ {
			e.W.Warm(tosca.Address{19: i})
		}
		for _, t := range tx.AccessList {
			e.W.Warm(t.Address)
			for _, k := range t.Keys {
				e.W.WarmSlot(t.Address, k)
			}
		}
	}
	m := &evmref.Msg{Kind: tosca.Create, Gas: gas, Sender: tx.Sender, Value: tx.Value, Input: tx.Input}
	if tx.Recipient != nil {
		m.Kind, m.Recipient, m.CodeAddr = tosca.Call, *tx.Recipient, *tx.Recipient
		e.W.Get(tx.Sender).Nonce++
	}
	r := e.Enter(m)
	left := r.GasLeft
	if tx.Sender != (tosca.Address{}) {
		left -= left / 10 // a tenth of what remains is charged as well
	}
	success := r.St == evmref.Success && r.Err == nil
	if success {
		limit := (int64(tx.GasLimit) - left) / 5
		if e.Ctx.Block.Revision < tosca.R10_London {
			limit = (int64(tx.GasLimit) - left) / 2
		}
		left += max(0, min(limit, r.Refund))
	}
	pay(new(big.Int).Mul(price, big.NewInt(left)))
	o := evmref.TxOutcome{Left: r.GasLeft, Why: "applied", Receipt: tosca.Receipt{Success: success, GasUsed: tx.GasLimit - tosca.Gas(left), Output: r.Out, Logs: e.W.Logs}}
	if tx.Recipient == nil && success {
		a := r.Created
		o.Receipt.ContractAddress = &a
	}
	switch {
	case r.Err != nil:
		o.Why = "interpreter-error"
	case !success:
		o.Why = "failed"
	}
	return o
}
