package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/Fantom-foundation/Tosca/go/dst/evmref"
	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	"github.com/Fantom-foundation/Tosca/go/tosca"
)

// opera: the processor and its reference are those of Opera.
var opera bool

// adapter: there is no processor but the adapter to go-ethereum alone.
var adapter bool

// keep lists instructions in verbose replays.
var keep bool

// process is the reference of the processor.
var process = func(_ *job, e *evmref.Env, tx tosca.Transaction) evmref.TxOutcome { return e.Process(tx) }

// users of a processor exchange the interpreter behind it
type switchboard struct{ current tosca.Interpreter }

func (s *switchboard) Run(p tosca.Parameters) (tosca.Result, error) { return s.current.Run(p) }

// A job is a transaction in a world.
type job struct {
	world   *evmref.World
	block   tosca.BlockParameters
	tx      tosca.Transaction
	blobs   []tosca.Hash
	refund  uint64 // collected by others before
	scripts []script
	deep    bool
	panics  bool
	exec    func(*evmref.Env, *evmref.Msg, []byte, *tosca.Hash) evmref.Res
	want    evmref.TxOutcome
	ref     *evmref.Env
	reflog  []string
	refrun  *runner
}

func (j *job) context(w *evmref.World) *evmref.Env {
	return &evmref.Env{W: w.Clone(), Proc: true, OriginOnly: opera, NoState: adapter, Geth: adapter, Ctx: evmref.TxCtx{Block: j.block, Tx: tosca.TransactionParameters{Origin: j.tx.Sender, GasPrice: j.tx.GasPrice, BlobHashes: append([]tosca.Hash{}, j.blobs...)}}}
}

// reference computes what has to happen.
func (j *job) reference() {
	j.ref = j.context(j.world)
	j.ref.Keep = keep
	j.ref.Exec = evmref.Interpret
	if j.scripts != nil {
		j.refrun = &runner{scripts: j.scripts, env: j.ref, deep: j.deep}
		j.ref.Exec = j.refrun.Exec
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(panicked); !ok {
					panic(e)
				}
				j.panics = true
				j.want.Why = "panic"
			}
		}()
		j.want = process(j, j.ref, cloneTx(j.tx))
	}()
	if j.refrun != nil {
		j.reflog = j.refrun.log
	}
}

func cloneTx(t tosca.Transaction) tosca.Transaction {
	t.Input = bytes.Clone(t.Input)
	if t.Recipient != nil {
		a := *t.Recipient
		t.Recipient = &a
	}
	if t.AccessList != nil {
		l := make([]tosca.AccessTuple, len(t.AccessList))
		for i, e := range t.AccessList {
			l[i] = tosca.AccessTuple{Address: e.Address, Keys: append([]tosca.Key{}, e.Keys...)}
		}
		t.AccessList = l
	}
	return t
}

func sameTx(a, b tosca.Transaction) bool {
	if a.Sender != b.Sender || a.Nonce != b.Nonce || a.Value != b.Value || a.GasLimit != b.GasLimit || a.GasPrice != b.GasPrice || !bytes.Equal(a.Input, b.Input) {
		return false
	}
	if (a.Recipient == nil) != (b.Recipient == nil) || (a.Recipient != nil && *a.Recipient != *b.Recipient) {
		return false
	}
	return fmt.Sprint(a.AccessList) == fmt.Sprint(b.AccessList)
}

func show(t tosca.Transaction) string {
	to := "creation"
	if t.Recipient != nil {
		to = fmt.Sprintf("to %v", *t.Recipient)
	}
	return fmt.Sprintf("from %v %s nonce %d value %v gas %d price %v input %s access list %v", t.Sender, to, t.Nonce, t.Value, t.GasLimit, t.GasPrice, small(t.Input), t.AccessList)
}

func total(w *evmref.World) *big.Int {
	t := new(big.Int)
	for _, a := range w.Acc {
		t.Add(t, new(big.Int).SetBytes(a.Balance[:]))
	}
	return t
}

// compare judges an execution by the processor.
func (j *job) compare(got tosca.Receipt, err error, env *evmref.Env, log []string) (class, text string) {
	w, g := j.want, got
	for i := 0; i < max(len(j.reflog), len(log)); i++ {
		a, b := "nothing", "nothing"
		if i < len(j.reflog) {
			a = j.reflog[i]
		}
		if i < len(log) {
			b = log[i]
		}
		if a != b {
			return "nested", fmt.Sprintf("what contracts see differs at #%d:\nexpected %s\nactual   %s", i, a, b)
		}
	}
	if env.Breach != "" {
		return "static-breach", env.Breach
	}
	if w.Rejected {
		if err == nil && (g.Success || g.GasUsed != 0 || g.ContractAddress != nil || len(g.Output) > 0 || len(g.Logs) > 0) {
			return "receipt", fmt.Sprintf("rejected transaction (%s) has receipt %+v", w.Why, g)
		}
		if d := evmref.DiffWorld(j.world, env.W) + evmref.DiffAccess(j.world, env.W); d != "" {
			return "rejected", fmt.Sprintf("rejected transaction (%s) changed the world: %s", w.Why, d)
		}
		return "", ""
	}
	x := w.Receipt
	if opera && w.Why == "intrinsic-gas" {
		if err == nil || g.Success || g.GasUsed != j.tx.GasLimit || len(g.Logs) > 0 {
			return "receipt", fmt.Sprintf("a transaction that does not pay for itself has receipt %+v and error %v", g, err)
		}
		if evmref.DiffWorld(j.world, env.W) != "" {
			if d := evmref.DiffWorld(j.ref.W, env.W); d != "" {
				return "world", "a transaction that does not pay for itself did more than to pay: " + d
			}
		}
		if d := evmref.DiffAccess(j.world, env.W); d != "" {
			return "access", "a transaction that does not pay for itself: " + d
		}
		return "", ""
	}
	if (w.Err == nil) != (err == nil) {
		return "receipt", fmt.Sprintf("error %v, expected %v (%s)", err, w.Err, w.Why)
	}
	if g.Success != x.Success {
		return "receipt", fmt.Sprintf("success %t, expected %t (%s)", g.Success, x.Success, w.Why)
	}
	if g.GasUsed != x.GasUsed {
		return "receipt", fmt.Sprintf("gas used %d, expected %d of %d (%s)", g.GasUsed, x.GasUsed, j.tx.GasLimit, w.Why)
	}
	if g.BlobGasUsed != x.BlobGasUsed {
		return "refund", fmt.Sprintf("%d gas to be refunded, expected %d (%s)", g.BlobGasUsed, x.BlobGasUsed, w.Why)
	}
	if g.Success || w.Left > 0 {
		if !bytes.Equal(g.Output, x.Output) {
			return "receipt", fmt.Sprintf("output %s, expected %s (%s)", small(g.Output), small(x.Output), w.Why)
		}
	}
	switch {
	case j.tx.Recipient != nil && g.ContractAddress != nil:
		return "receipt", fmt.Sprintf("a call created contract %v", *g.ContractAddress)
	case x.ContractAddress != nil && (g.ContractAddress == nil || *g.ContractAddress != *x.ContractAddress):
		return "receipt", fmt.Sprintf("created contract %v, expected %v", g.ContractAddress, *x.ContractAddress)
	}
	if d := evmref.DiffLogs(x.Logs, g.Logs); d != "" {
		return "receipt", "receipt: " + d
	}
	if d := evmref.DiffWorld(j.ref.W, env.W); d != "" {
		return "world", "the resulting world differs (expected/actual): " + d + " (" + w.Why + ")"
	}
	if d := evmref.DiffAccess(j.ref.W, env.W); d != "" {
		return "access", "what was accessed differs: " + d + " (" + w.Why + ")"
	}
	if !j.ref.Minted && !env.Minted && !adapter {
		paid := new(big.Int).Mul(new(big.Int).SetBytes(j.tx.GasPrice[:]), big.NewInt(int64(g.GasUsed)))
		if lost := new(big.Int).Sub(total(j.world), total(env.W)); lost.Cmp(paid) != 0 {
			return "conservation", fmt.Sprintf("%v left the accounts, the fee is %v", lost, paid)
		}
	}
	return "", ""
}

// apply runs a job on the processor. The interpreter is reached through the
// switchboard.
func (j *job) apply(r *simrt.R, p tosca.Processor, sw *switchboard, yield func(), lf tosca.Interpreter) *evmref.Env {
	env := j.context(j.world)
	env.Yield = yield
	var log *runner
	if j.scripts != nil {
		log = &runner{scripts: j.scripts, env: env, deep: j.deep, spy: true, yield: yield, block: &j.block, tx: &env.Ctx.Tx}
		sw.current = log
	} else {
		sw.current = &watched{env: env, vm: lf}
	}
	tx := cloneTx(j.tx)
	var got tosca.Receipt
	var err error
	crashed := false
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(panicked); !ok {
					panic(e)
				}
				crashed = true
			}
		}()
		got, err = p.Run(j.block, tx, hidden{env, j})
	}()
	if j.panics {
		// nothing is promised but that others are not affected
		if !crashed && err == nil && got.Success {
			r.Fail("panic-hidden", "the interpreter panicked, the transaction succeeded: %s", show(j.tx))
		}
		r.Count("fault:interpreter-panic", 1)
		return env
	}
	if crashed {
		r.Fail("nested", "the interpreter panicked in a frame that should not exist: %s", show(j.tx))
	}
	var lines []string
	if log != nil {
		lines = log.log
	}
	if r.Verbose {
		r.Logf("transaction %s", show(j.tx))
		for _, l := range lines {
			r.Logf("%s", l)
		}
		for _, x := range j.ref.Instr {
			r.Logf("expected: depth %d pc %d op %x gas %d", x.Depth, x.Pc, x.Op, x.Gas)
		}
		for _, x := range j.ref.Trace {
			r.Logf("expected: %v", &x)
		}
		for _, x := range env.Trace {
			r.Logf("actual: %v", &x)
		}
		r.Logf("receipt %+v %v", got, err)
	}
	if class, text := j.compare(got, err, env, lines); text != "" {
		r.Fail(class, "revision %d, transaction %s: %s", j.block.Revision, show(j.tx), text)
	}
	if !sameTx(tx, j.tx) {
		r.Fail("transaction-modified", "the processor modified the transaction to %s", show(tx))
	}
	return env
}

// hidden hides that the host could process messages itself.
type hidden struct {
	tosca.TransactionContext
	job *job
}

// watched is a real interpreter whose frames are known to the host.
type watched struct {
	env *evmref.Env
	vm  tosca.Interpreter
}

func (v *watched) Run(p tosca.Parameters) (tosca.Result, error) {
	v.env.Push(p.Static, p.Recipient)
	defer v.env.Pop()
	return v.vm.Run(p)
}

func (j *job) account(r *simrt.R) {
	r.Count("probe:tx-"+j.want.Why, 1)
	r.Event(uint64(j.want.Receipt.GasUsed))
	r.EventString(j.want.Why)
	if j.refrun != nil {
		r.Count("probe:frames", uint64(j.refrun.frames))
		if j.refrun.maxNest > 1024 {
			r.Count("probe:depth-limit-reached", 1)
		}
		for c, name := range map[byte]string{'r': "callee-reverts", 'f': "callee-fails", 'e': "interpreter-error", 'o': "callee-out-of-gas", 'E': "interpreter-passes-error-on"} {
			if n := j.refrun.ends[c]; n > 0 {
				r.Count("fault:"+name, n)
			}
		}
		for _, l := range j.reflog {
			r.EventString(l)
		}
		if j.refrun.frames > 1 {
			r.NonTrivial()
		}
	} else if j.ref.Instructions > 3 {
		r.NonTrivial()
	}
	r.Count("probe:state-contract-calls", uint64(j.ref.StateCalls))
}

func describe(j *job) string {
	n := 0
	if j.refrun != nil {
		n = j.refrun.frames
	}
	return fmt.Sprintf("%s, %d frames, gas used %d of %d, revision %d", j.want.Why, n, j.want.Receipt.GasUsed, j.tx.GasLimit, j.block.Revision)
}

// nextWorld is the world in which the next transaction starts.
func nextWorld(w *evmref.World) *evmref.World {
	n := evmref.NewWorld()
	for a, c := range w.Acc {
		d := n.Get(a)
		d.Balance, d.Nonce, d.Code = c.Balance, c.Nonce, c.Code
		for k, v := range c.St {
			n.SetSlot(a, k, v)
		}
	}
	return n
}

func evmJob(r *simrt.R, budget int) *job {
	extra := []tosca.Address{{19: 2}, {19: 4}, {19: 6}, {19: 10}, evmref.StateContract, evmref.Driver}
	s := evmref.NewScenario(r, evmref.ScenarioCfg{Contracts: 3, Budget: budget, Calls: true, Storage: true, Extra: extra})
	j := &job{world: nextWorld(s.World), block: s.Ctx.Block}
	if opera && !adapter {
		// Opera runs with the rules of London at most, and does without some parameters
		j.block.Revision = min(j.block.Revision, tosca.R10_London)
		j.block.Coinbase, j.block.PrevRandao, j.block.BlobBaseFee = tosca.Address{}, word(1), tosca.Value{}
	}
	j.tx = tosca.Transaction{Sender: s.Top.Sender, Nonce: 3, Value: s.Top.Value, Input: s.Top.Input, GasPrice: s.Ctx.Tx.GasPrice}
	j.tx.GasLimit = tosca.Gas(s.Top.Gas) + 55_000 + 16*tosca.Gas(len(j.tx.Input))
	if s.Top.Kind != tosca.Create {
		a := s.Top.Recipient
		j.tx.Recipient = &a
	}
	if r.Chance(1, 2) {
		j.tx.AccessList = []tosca.AccessTuple{}
		for k := r.N(3); k > 0; k-- {
			t := tosca.AccessTuple{Address: s.Addrs[r.N(len(s.Addrs))]}
			for i := r.N(3); i > 0; i-- {
				t.Keys = append(t.Keys, word(uint64(r.N(4))))
			}
			j.tx.AccessList = append(j.tx.AccessList, t)
			j.tx.GasLimit += 2400 + 1900*3
		}
	}
	sender := j.world.Get(j.tx.Sender)
	sender.Balance = tosca.Add(sender.Balance, j.tx.GasPrice.Scale(uint64(j.tx.GasLimit)))
	return j
}

// perClient routes frames to the interpreter of the client they belong to:
// clients work with chains of their own.
type perClient struct {
	own [32]tosca.Interpreter
}

//go:norace
func (s *perClient) bind(chain tosca.Word, i tosca.Interpreter) { s.own[chain[0]] = i }

//go:norace
func (s *perClient) of(chain tosca.Word) tosca.Interpreter { return s.own[chain[0]] }

func (s *perClient) Run(p tosca.Parameters) (tosca.Result, error) { return s.of(p.ChainID).Run(p) }

//go:norace
func enter(n *int, r *simrt.R) {
	*n++
	if *n > 1 {
		r.NonTrivial()
	}
}

//go:norace
func leave(n *int) { *n-- }
