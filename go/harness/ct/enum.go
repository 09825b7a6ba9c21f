package main

import (
	"errors"
	"fmt"
	"runtime"
	"time"

	"github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/gen"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/spc"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"pgregory.net/rand"
)

// testRule is the condition of a synthetic rule: n test values, of which some
// are unsatisfiable, do not fit the rule, or cannot be judged.
type testRule struct {
	base  tosca.Gas
	kinds []byte // per value: o(k), u(nsatisfiable), m(isfit), e(rror in check), g(enerator error)
	stack int
}

func (c *testRule) at(g tosca.Gas) byte {
	if i := int(g - c.base); i >= 0 && i < len(c.kinds) {
		return c.kinds[i]
	}
	return '?'
}

func (c *testRule) Check(s *st.State) (bool, error) {
	switch c.at(s.Gas) {
	case 'm', '?':
		return false, nil
	case 'e':
		return true, errors.New("not decidable")
	}
	return true, nil
}

func (c *testRule) Restrict(*gen.StateGenerator) {}

func (c *testRule) GetTestValues() []rlz.TestValue {
	res := []rlz.TestValue{}
	for i, k := range c.kinds {
		k := k
		res = append(res, rlz.NewTestValue(rlz.Property("case"), rlz.Gas().Domain(), c.base+tosca.Gas(i), func(g *gen.StateGenerator, v tosca.Gas) {
			g.SetGas(v)
			g.SetStatus(st.Running)
			g.SetStackSize(c.stack)
			switch k {
			case 'u':
				g.SetStatus(st.Stopped) // conflicting
			case 'g':
				g.BindPc(gen.Variable("nowhere"))
			}
		}))
	}
	return res
}

func (c *testRule) String() string { return fmt.Sprintf("synthetic rule %d", c.base) }

type few struct{ n int }

var fewSamples = []common.U256{common.NewU256(0), common.NewU256(7, 0), common.NewU256(1, 2, 3, 4)}

func (f few) Samples() []common.U256 { return fewSamples[:f.n] }

// expectation is a state that has to be delivered.
type expectation struct {
	state *st.State
	count int
}

// ledger is the harness's record of an enumeration.  It must not synchronise
// the goroutines of the code under test.
type ledger struct {
	r        *simrt.R
	exp      []*expectation // ordered by gas
	jobs     int
	calls    int
	active   int
	peak     int
	aborted  bool
	abortAt  int
	returned bool
	prints   int
	last     int64
	lastT    time.Duration
	overlaps bool
}

//go:norace
func (l *ledger) enter() int {
	if l.returned {
		l.r.Fail("call-after-return", "a state was consumed after ForEachState returned")
	}
	l.calls++
	l.active++
	if l.active > l.peak {
		l.peak = l.active
	}
	if l.active > 1 {
		l.overlaps = true
	}
	return l.calls
}

//go:norace
func (l *ledger) leave(abort bool) {
	l.active--
	if abort && !l.aborted {
		l.aborted = true
		l.abortAt = l.calls
	}
}

//go:norace
func (l *ledger) took(e *expectation) { e.count++ }

//go:norace
func (l *ledger) report(t time.Duration, n int64) {
	if l.returned {
		l.r.Fail("call-after-return", "progress was reported after ForEachState returned")
	}
	if n < l.last || t < l.lastT {
		l.r.Fail("progress", "progress went from %d after %v to %d after %v", l.last, l.lastT, n, t)
	}
	if n > int64(l.calls+l.jobs) {
		l.r.Fail("progress", "%d states reported, %d were consumed", n, l.calls)
	}
	l.prints++
	l.last, l.lastT = n, t
}

// find returns the expectation a delivered state stands for.
func (l *ledger) find(s *st.State) *expectation {
	lo, hi := 0, len(l.exp)
	for lo < hi {
		m := (lo + hi) / 2
		if l.exp[m].state.Gas < s.Gas {
			lo = m + 1
		} else {
			hi = m
		}
	}
	for ; lo < len(l.exp) && l.exp[lo].state.Gas == s.Gas; lo++ {
		if l.exp[lo].state.Eq(s) {
			return l.exp[lo]
		}
	}
	return nil
}

func enum(r *simrt.R) {
	full := r.Chance(1, 3)
	seed := r.U64()
	faulty := r.Chance(1, 3)
	var rules []rlz.Rule
	total, generatorErrors := 0, 0
	l := &ledger{r: r, last: -1}
	for i, n := 0, r.Range(0, 7); i < n; i++ {
		c := &testRule{base: tosca.Gas(1000 * (i + 1)), stack: r.N(3)}
		for k := r.Range(1, 6); k > 0; k-- {
			kind := "ooooooumme"[r.N(10)]
			if faulty && r.Chance(1, 12) {
				kind = 'g'
			}
			c.kinds = append(c.kinds, kind)
		}
		rule := rlz.Rule{Name: fmt.Sprint("rule", i), Condition: c}
		per := 1
		for p := r.N(3); p > 0; p-- {
			f := few{r.Range(0, 3)}
			rule.Parameter = append(rule.Parameter, f)
			if len(rule.Parameter) <= c.stack {
				per *= 1 + f.n
			}
		}
		for _, k := range c.kinds {
			if k == 'g' {
				generatorErrors++
				break
			}
			if k == 'o' || full && k != 'u' {
				total += per
			}
		}
		_ = rule.EnumerateTestCases(rand.New(seed), func(s *st.State) rlz.ConsumerResult {
			if full || c.at(s.Gas) == 'o' {
				l.exp = append(l.exp, &expectation{state: s.Clone()})
			}
			return rlz.ConsumeContinue
		})
		rules = append(rules, rule)
	}
	if len(l.exp) != total {
		r.Fail("enumeration", "%d states were enumerated from the rules, %d are defined by them", len(l.exp), total)
	}

	jobs := []int{1, 1, 2, 2, 3, 4, 5, 8}[r.N(8)]
	l.jobs = jobs
	abortNum := 0
	if r.Chance(1, 4) {
		abortNum = r.Range(1, 12)
	}
	slow := r.Chance(1, 3)
	before := runtime.NumGoroutine()
	var res error
	r.Threads(1, func(int) {
		res = spc.ForEachState(rules, func(s *st.State) rlz.ConsumerResult {
			n := l.enter()
			e := l.find(s)
			if e == nil {
				r.Fail("unknown-state", "a state was delivered that no rule defines: gas %d, stack size %d", s.Gas, s.Stack.Size())
			}
			l.took(e)
			for k := r.N(4); k > 0; k-- {
				simrt.Y()
			}
			if slow && r.Chance(1, 4) {
				r.Count("fault:slow-consumer", 1)
				time.Sleep(time.Duration(r.Range(1, 9000)) * time.Millisecond)
			}
			if !e.state.Eq(s) {
				r.Fail("state-changed", "the state being consumed changed: %v", e.state.Diff(s))
			}
			if r.Chance(1, 2) { // states belong to their consumer
				scribble(r, s)
			}
			abort := abortNum > 0 && n >= abortNum && r.Chance(1, 2)
			if abort {
				r.Count("fault:abort", 1)
			}
			l.leave(abort)
			return rlz.ConsumerResult(!abort)
		}, func(t time.Duration, rate float64, n int64) { l.report(t, n) }, jobs, seed, full)
		l.finish()
	})
	settle()
	if n := runtime.NumGoroutine(); n > before {
		r.Fail("goroutine-leak", "%d goroutines are left behind", n-before)
	}
	for _, e := range l.exp {
		if e.count > 1 {
			r.Fail("duplicate", "the state with gas %d was delivered %d times", e.state.Gas, e.count)
		}
		if e.count == 0 && !l.aborted && res == nil {
			r.Fail("lost", "the state with gas %d was not delivered", e.state.Gas)
		}
	}
	if l.aborted {
		if limit := l.abortAt + 10*jobs + 2*jobs; l.calls > limit {
			r.Fail("abort", "%d states were consumed after the abort, at most %d can have been in flight", l.calls-l.abortAt, 12*jobs)
		}
	}
	if res != nil && !errors.Is(res, gen.ErrUnboundVariable) {
		r.Fail("error", "unexpected error %v", res)
	}
	if res == nil && generatorErrors > 0 && !l.aborted {
		r.Fail("error", "the failure of a generator was not reported")
	}
	if res != nil && generatorErrors == 0 {
		r.Fail("error", "error %v without a failing generator", res)
	}
	if res != nil {
		r.Count("fault:generator-error", 1)
	}
	if l.peak > jobs {
		r.Fail("jobs", "%d states were processed at a time by %d jobs", l.peak, jobs)
	}
	if l.prints == 0 || l.last != int64(l.calls) {
		r.Fail("progress", "the last progress report counted %d states, %d were consumed (%d reports)", l.last, l.calls, l.prints)
	}
	if l.overlaps || l.aborted || res != nil {
		r.NonTrivial()
	}
	r.Count("probe:states", uint64(l.calls))
	r.Count("probe:reports", uint64(l.prints))
	r.Event(uint64(l.calls))
	r.Note("%d rules, %d states, %d jobs, %d consumed, at most %d at a time, aborted %v, error %v", len(rules), len(l.exp), jobs, l.calls, l.peak, l.aborted, res)
}

//go:norace
func (l *ledger) finish() {
	if l.active != 0 {
		l.r.Fail("call-after-return", "ForEachState returned while %d states were being consumed", l.active)
	}
	l.returned = true
}

// settle lets goroutines that have nothing left to do end.
func settle() {
	for i := 0; i < 50; i++ {
		time.Sleep(time.Second)
		simrt.Y()
	}
}

// scribble changes all parts of a state.
func scribble(r *simrt.R, s *st.State) {
	s.Pc, s.Status = 77, st.Failed
	for i := 0; i < s.Stack.Size(); i++ {
		s.Stack.Set(i, common.NewU256(99))
	}
	s.Stack.Push(common.NewU256(98))
	s.Memory.Write([]byte{1, 2, 3}, 0)
	s.Memory.Append([]byte{1, 2, 3, 4})
	s.Storage.SetCurrent(common.NewU256(3), common.NewU256(4))
	s.Storage.MarkWarm(common.NewU256(3))
	s.TransientStorage.Set(common.NewU256(3), common.NewU256(4))
	s.Accounts.SetBalance(tosca.Address{1}, common.NewU256(3))
	s.Accounts.MarkWarm(tosca.Address{1})
	s.Logs.AddLog([]byte{1}, common.NewU256(5))
	s.CallJournal.Past = append(s.CallJournal.Past, st.PastCall{Gas: 5})
	if len(s.CallJournal.Future) > 0 {
		s.CallJournal.Future[0].Success = !s.CallJournal.Future[0].Success
	}
	s.SelfDestructedJournal = append(s.SelfDestructedJournal, st.SelfDestructEntry{})
	if len(s.TransactionContext.BlobHashes) > 0 {
		s.TransactionContext.BlobHashes[0] = tosca.Hash{9}
	}
}
