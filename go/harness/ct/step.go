package main

import (
	"github.com/Fantom-foundation/Tosca/go/ct"
	"github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/spc"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/dst/evmref"
	"github.com/Fantom-foundation/Tosca/go/dst/simos"
	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"pgregory.net/rand"
)

// running builds the state at the start of a contract.
func running(r *simrt.R) *st.State {
	var addrs []tosca.Address
	for i := 0; i < 4; i++ {
		addrs = append(addrs, tosca.Address{19: byte(i + 20)})
	}
	rev := tosca.Revision(r.N(6))
	code := evmref.Contract(r, evmref.GenCfg{Rev: rev, Addrs: addrs, Budget: 14, Calls: r.Chance(1, 2), Storage: true, Hashes: r.Chance(1, 4)})
	s := st.NewState(st.NewCode(code))
	s.Revision = rev
	s.ReadOnly = r.Chance(1, 8)
	s.Gas = tosca.Gas([]int{200, 3000, 30000, 100000, 400000}[r.N(5)] + r.N(300))
	s.Stack = st.NewStack()
	s.CallContext.AccountAddress = addrs[r.N(4)]
	s.CallContext.CallerAddress = addrs[r.N(4)]
	s.CallContext.Value = common.NewU256(uint64(r.N(2)))
	s.BlockContext.BlockNumber = uint64(r.Range(1, 400))
	s.TransactionContext.OriginAddress = addrs[r.N(4)]
	rnd := rand.New(r.U64())
	s.RecentBlockHashes = common.NewRandomImmutableHashArray(rnd)
	s.CallData = common.RandomBytes(rnd, 70)
	for i, a := range addrs {
		if r.Chance(1, 2) {
			s.Accounts.SetBalance(a, common.NewU256(uint64(r.N(1000))))
		}
		if r.Chance(1, 3) {
			s.Accounts.MarkWarm(a)
		}
		if r.Chance(1, 2) {
			s.Storage.SetOriginal(common.NewU256(uint64(i)), common.NewU256(uint64(i+1)))
			s.Storage.SetCurrent(common.NewU256(uint64(i)), common.NewU256(uint64(r.N(2)*(i+1))))
		}
		if r.Chance(1, 3) {
			s.Storage.MarkWarm(common.NewU256(uint64(i)))
		}
	}
	for i := r.N(4); i > 0; i-- {
		s.CallJournal.Future = append(s.CallJournal.Future, st.FutureCall{Success: r.Chance(2, 3), Output: common.RandomBytes(rnd, 80),
			GasCosts: tosca.Gas(r.N(30000)), GasRefund: tosca.Gas(r.N(3) * 100), CreatedAccount: addrs[r.N(4)]})
	}
	return s
}

// track executes a state one instruction at a time; each one is compared with
// the specification.
func track(r *simrt.R, vm ct.Evm, s *st.State, limit int) []*st.State {
	res := []*st.State{s}
	for len(res) <= limit && s.Status == st.Running {
		next, err := vm.StepN(s.Clone(), 1)
		if err != nil {
			r.Fail("step", "a step failed in %v: %v", brief(s), err)
		}
		if s.Code.IsCode(int(s.Pc)) {
			if rules := spc.Spec.GetRulesFor(s); len(rules) > 0 {
				want := s.Clone()
				rules[0].Effect.Apply(want)
				if !next.Eq(want) {
					r.Fail("specification", "step %d, %v: the result differs from rule %s (have, want): %v", len(res)-1, brief(s), rules[0].Name, next.Diff(want))
				}
				r.Count("probe:specified-steps", 1)
			} else {
				r.Count("probe:unspecified-steps", 1)
			}
		}
		s = next
		res = append(res, s)
	}
	return res
}

// piecewise executes the state in pieces of several instructions, with
// restarts from files in between.
func piecewise(r *simrt.R, vm ct.Evm, all []*st.State, plan []int, restart []bool, file string) {
	s := all[0].Clone()
	at := 0
	for i, n := range plan {
		if s.Status != st.Running || at+n >= len(all) {
			break
		}
		if restart[i] {
			if err := st.ExportStateJSON(s, file); err != nil {
				r.Fail("export", "%v", err)
			}
			t, err := st.ImportStateJSON(file)
			if err != nil {
				r.Fail("import", "%v", err)
			}
			s = t
			if n%2 == 0 {
				vm = newStepTarget()
			}
			r.Count("fault:restart", 1)
		}
		next, err := vm.StepN(s, n)
		if err != nil {
			r.Fail("step", "%d steps failed: %v", n, err)
		}
		at += n
		if at >= len(all) {
			at = len(all) - 1
		}
		s = next
		if !s.Eq(all[at]) || !all[at].Eq(s) {
			r.Fail("pieces", "%d instructions in pieces %v (restarts %v) lead to another state than one by one (have, want): %v", at, plan[:i+1], restart[:i+1], s.Diff(all[at]))
		}
		r.Count("probe:pieces", 1)
	}
}

func plan(r *simrt.R) (p []int, q []bool) {
	for i := r.Range(2, 12); i > 0; i-- {
		p = append(p, []int{0, 1, 2, 3, 7, 20, 100, 4000}[r.N(8)])
		q = append(q, r.Chance(1, 3))
	}
	return
}

// related returns the state with a code that is almost the same.
func related(r *simrt.R, s *st.State) *st.State {
	c := s.Code.Copy()
	if len(c) < 2 {
		return s.Clone()
	}
	at := r.N(len(c))
	if r.Chance(1, 2) {
		at = len(c) - 1 - r.N(min(len(c), 40))
	}
	switch r.N(5) {
	case 0: // shifted from there on
		c = append(c[:at:at], append([]byte{0x5b}, c[at:]...)...)
	case 1:
		c = append(c[:at:at], c[at+1:]...)
	case 2: // moved
		x := c[at]
		copy(c[at:], c[at+1:])
		c[len(c)-1] = x
	case 3:
		c[at] ^= byte(1 << r.N(8))
	default:
		k := r.N(len(c))
		c[at], c[k] = c[k], c[at]
	}
	t := s.Clone()
	t.Code = st.NewCode(c)
	return t
}

// steps: interrupted execution on the conformance-test target.
func steps(r *simrt.R) {
	vm := newStepTarget()
	s := running(r)
	if r.Chance(1, 3) {
		for i := r.Range(1, 3); i > 0; i-- {
			track(r, vm, related(r, s), 60)
			r.Count("probe:related-codes", 1)
		}
	}
	all := track(r, vm, s, 400)
	last := all[len(all)-1]
	for k := 0; k < 2; k++ {
		p, q := plan(r)
		piecewise(r, vm, all, p, q, "/work/piece.json")
	}
	if last.Status != st.Running {
		l := look(r, last)
		x, err := vm.StepN(last.Clone(), r.N(3))
		if err != nil || look(r, x) != l {
			r.Fail("terminal", "a step on a terminated state has an effect (%v): %s", err, firstDiff(l, look(r, x)))
		}
		whole, err := vm.StepN(s.Clone(), 1<<20)
		if err != nil || !whole.Eq(last) {
			r.Fail("pieces", "running to the end leads to another state than single steps (%v): %v", err, whole.Diff(last))
		}
	}
	r.Event(uint64(len(all)))
	r.EventString(last.Status.String())
	r.Event(uint64(last.Gas))
	if len(all) > 3 {
		r.NonTrivial()
	}
	r.Note("%d instructions, %v", len(all)-1, brief(last))
}

// stepsShared: several goroutines use one target, as the driver does.
func stepsShared(r *simrt.R) {
	alone := newStepTarget()
	vm := newStepTarget()
	n := r.Range(2, 4)
	var alls [][]*st.State
	for i := r.Range(1, 2); i > 0; i-- {
		alls = append(alls, track(r, alone, running(r), 60))
	}
	type job struct {
		which int
		p     []int
		q     []bool
	}
	jobs := make([][]job, n)
	for i := range jobs {
		for k := r.Range(1, 2); k > 0; k-- {
			p, q := plan(r)
			jobs[i] = append(jobs[i], job{r.N(len(alls)), p, make([]bool, len(q))})
		}
	}
	r.Threads(n, func(i int) {
		for _, j := range jobs[i] {
			piecewise(r, vm, alls[j.which], j.p, j.q, "")
		}
	})
	_ = simos.Files
	r.NonTrivial()
	r.Note("%d goroutines step %d states", n, len(alls))
}
