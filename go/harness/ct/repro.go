package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/gen"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/spc"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"
	"pgregory.net/rand"
)

// sortedRules are the rules of the specification in a fixed order.
func sortedRules() []rlz.Rule {
	if ruleList == nil {
		type named struct {
			rule rlz.Rule
			key  string
		}
		var list []named
		for _, x := range spc.Spec.GetRules() {
			list = append(list, named{x, x.Name + " " + x.Condition.String()})
		}
		sort.SliceStable(list, func(i, j int) bool { return list[i].key < list[j].key })
		for _, x := range list {
			info := x.rule.GetTestCaseEnumerationInfo()
			ruleList = append(ruleList, x.rule)
			ruleCases = append(ruleCases, info.TotalNumberOfCases())
		}
	}
	return ruleList
}

var (
	ruleList  []rlz.Rule
	ruleCases []int
)

// someRule picks a rule with a limited number of cases.
func someRule(r *simrt.R, limit int) rlz.Rule {
	rules := sortedRules()
	for {
		i := r.N(len(rules))
		if ruleCases[i] <= limit || limit < 8 {
			return rules[i]
		}
		limit += limit / 4
	}
}

// atom is a random elementary condition over the first four stack elements.
func atom(r *simrt.R) rlz.Condition {
	p := rlz.Param(r.N(4))
	addr := rlz.ToAddress(p)
	switch r.N(24) {
	case 0:
		return rlz.AccountIsEmpty(p)
	case 1, 2, 3:
		return rlz.AccountIsNotEmpty(p)
	case 4:
		return rlz.IsAddressWarm(p)
	case 5:
		return rlz.IsAddressCold(p)
	case 6:
		return rlz.Ge(rlz.Balance(addr), common.NewU256(uint64(r.N(3)), uint64(r.N(1000))))
	case 7:
		return rlz.Le(rlz.Balance(addr), common.NewU256(uint64(r.N(3)), uint64(r.N(1000))))
	case 8:
		return rlz.IsStorageWarm(p)
	case 9:
		return rlz.IsStorageCold(p)
	case 10, 11:
		return rlz.BindTransientStorageToNonZero(p)
	case 12, 13:
		return rlz.BindTransientStorageToZero(p)
	case 14:
		return rlz.InRange256FromCurrentBlock(p)
	case 15:
		return rlz.OutOfRange256FromCurrentBlock(p)
	case 16:
		return rlz.HasBlobHash(p)
	case 17:
		return rlz.HasNoBlobHash(p)
	case 18:
		return rlz.StorageConfiguration(tosca.StorageStatus(r.N(9)), p, rlz.Param(r.N(4)))
	case 19:
		return rlz.IsCode(p)
	case 20:
		return rlz.IsData(p)
	case 21:
		return rlz.Eq(rlz.Op(p), []vm.OpCode{vm.ADD, vm.JUMPDEST, vm.PUSH3}[r.N(3)])
	case 22:
		return []rlz.Condition{rlz.HasSelfDestructed(), rlz.HasNotSelfDestructed()}[r.N(2)]
	default:
		return rlz.RevisionBounds(tosca.Revision(r.N(3)), tosca.Revision(3+r.N(3)))
	}
}

// composed is a rule with several constraints.
func composed(r *simrt.R) rlz.Rule {
	cs := []rlz.Condition{rlz.Eq(rlz.Status(), st.Running), rlz.Ge(rlz.StackSize(), 4)}
	for n := r.Range(1, 4); n > 0; n-- {
		cs = append(cs, atom(r))
	}
	return rlz.Rule{Name: "composed", Condition: rlz.And(cs...), Effect: rlz.NoEffect()}
}

var errEnough = errors.New("enough")

// cases enumerates the first test cases of a rule.
func cases(rule rlz.Rule, seed uint64, limit int) ([]*st.State, error) {
	var res []*st.State
	err := rule.EnumerateTestCases(rand.New(seed), func(s *st.State) rlz.ConsumerResult {
		res = append(res, s.Clone())
		if len(res) >= limit {
			return rlz.ConsumeAbort
		}
		return rlz.ConsumeContinue
	})
	return res, err
}

// repro: what a seed stands for must depend on nothing else.
func repro(r *simrt.R) {
	seed := r.U64()
	var rule rlz.Rule
	if r.Chance(1, 2) {
		rule = someRule(r, 60)
	} else {
		rule = composed(r)
	}
	info := rule.GetTestCaseEnumerationInfo()
	if r.Chance(1, 2) && info.TotalNumberOfCases() < 3000 {
		reproCases(r, rule, seed)
	} else {
		reproStates(r, rule, seed)
	}
	if rule.Name == "composed" {
		r.Count("probe:composed-rules", 1)
	}
}

func reproCases(r *simrt.R, rule rlz.Rule, seed uint64) {
	limit := r.Range(5, 60)
	want, err := cases(rule, seed, limit)
	for i := 0; i < 2; i++ {
		got, err2 := cases(rule, seed, limit)
		if (err == nil) != (err2 == nil) || len(got) != len(want) {
			r.Fail("not-reproducible", "rule %s: the same seed gave %d test cases (error %v) and then %d (error %v)", rule.Name, len(want), err, len(got), err2)
		}
		for k := range got {
			if d := differ(want[k], got[k]); d != "" {
				r.Fail("not-reproducible", "rule %s (%v), test case %d: %s", rule.Name, rule.Condition, k, d)
			}
		}
	}
	if len(want) > 1 {
		r.NonTrivial()
	}
	r.Count("probe:cases", uint64(len(want)))
	r.Event(uint64(len(want)))
	if len(want) > 0 {
		r.Event(uint64(want[len(want)-1].Gas))
	}
	r.Note("rule %s (%v): %d cases", rule.Name, rule.Condition, len(want))
}

// reproStates: a sequence of states generated from one generator.
func reproStates(r *simrt.R, rule rlz.Rule, seed uint64) {
	n := r.Range(1, 8)
	gens := func() ([]*st.State, []error) {
		g := gen.NewStateGenerator()
		rule.Condition.Restrict(g)
		rnd := rand.New(seed)
		var s []*st.State
		var e []error
		for i := 0; i < n; i++ {
			x, err := g.Generate(rnd)
			s, e = append(s, x), append(e, err)
		}
		return s, e
	}
	want, wantErr := gens()
	for i := 0; i < 2; i++ {
		got, gotErr := gens()
		for k := range got {
			if (wantErr[k] == nil) != (gotErr[k] == nil) {
				r.Fail("not-reproducible", "rule %s (%v), state %d: error %v and then %v", rule.Name, rule.Condition, k, wantErr[k], gotErr[k])
			}
			if wantErr[k] == nil {
				if d := differ(want[k], got[k]); d != "" {
					r.Fail("not-reproducible", "rule %s (%v), state %d: %s", rule.Name, rule.Condition, k, d)
				}
			}
		}
	}
	for k, s := range want {
		if wantErr[k] != nil {
			if !errors.Is(wantErr[k], gen.ErrUnsatisfiable) {
				r.Fail("generator", "rule %s (%v): %v", rule.Name, rule.Condition, wantErr[k])
			}
			r.Count("probe:unsatisfiable", 1)
			continue
		}
		r.NonTrivial()
		if ok, err := rule.Condition.Check(s); err != nil || !ok {
			r.Fail("unsatisfying", "rule %s (%v): the generated state %d does not satisfy it (%v, %v)", rule.Name, rule.Condition, k, ok, err)
		}
	}
	r.Note("rule %s (%v): %d states", rule.Name, rule.Condition, n)
}

func differ(a, b *st.State) string {
	if d := a.Diff(b); len(d) > 0 || !a.Eq(b) {
		return "the same seed gave different states: " + strings.Join(d, "; ")
	}
	if !reflect.DeepEqual(a, b) {
		return fmt.Sprintf("the same seed gave states that differ inside")
	}
	return ""
}
