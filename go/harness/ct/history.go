package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/gen"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"
	"pgregory.net/rand"
)

// constraint is one restriction of a generator, applied through the
// generator's own interface or as a condition (which can then be checked).
type constraint struct {
	name  string
	apply func(*gen.StateGenerator)
	cond  rlz.Condition
}

// constrained is a generator with the restrictions it has.
type constrained struct {
	g    *gen.StateGenerator
	list []constraint
}

func (c *constrained) names() string {
	var s []string
	for _, x := range c.list {
		s = append(s, x.name)
	}
	return strings.Join(s, ", ")
}

// history: what a generator produces depends on its restrictions and the seed
// only, not on what was done with it, its copies or other generators before.
func history(r *simrt.R) {
	live := []*constrained{{g: gen.NewStateGenerator()}}
	satisfied := 0
	topic = r.N(len(topics))
	for steps := r.Range(4, 24); steps > 0; steps-- {
		c := live[r.N(len(live))]
		switch r.N(8) {
		case 0:
			if len(live) < 5 {
				live = append(live, &constrained{c.g.Clone(), append([]constraint(nil), c.list...)})
				r.Note("copy of {%s}", c.names())
				r.Count("op:clone", 1)
			}
		case 1:
			d := live[r.N(len(live))]
			c.g.Restore(d.g)
			c.list = append([]constraint(nil), d.list...)
			r.Note("restored to {%s}", c.names())
			r.Count("op:restore", 1)
		case 2:
			_ = c.g.String()
			r.Note("printed {%s}", c.names())
			r.Count("op:print", 1)
		case 3, 4:
			if produce(r, c) {
				satisfied++
			}
		default:
			for k := r.Range(1, 3); k > 0; k-- {
				x := someConstraint(r)
				x.apply(c.g)
				c.list = append(c.list, x)
				r.Note("restricted: %s", x.name)
			}
		}
	}
	for _, c := range live {
		if produce(r, c) {
			satisfied++
		}
	}
	if len(live) > 1 && satisfied > 0 {
		r.NonTrivial()
	}
}

// produce generates from c and from a fresh generator with its restrictions.
func produce(r *simrt.R, c *constrained) bool {
	seed := r.U64()
	fresh := gen.NewStateGenerator()
	for _, x := range c.list {
		x.apply(fresh)
	}
	got, gotErr := c.g.Generate(rand.New(seed))
	want, wantErr := fresh.Generate(rand.New(seed))
	r.Note("generated from {%s}: %v", c.names(), gotErr)
	r.Count("op:generate", 1)
	if (gotErr == nil) != (wantErr == nil) {
		r.Fail("history", "a generator restricted to {%s}: %v; a fresh one: %v", c.names(), gotErr, wantErr)
	}
	if gotErr != nil {
		if !errors.Is(gotErr, gen.ErrUnsatisfiable) && !errors.Is(gotErr, gen.ErrUnboundVariable) {
			r.Fail("generator", "a generator restricted to {%s}: %v", c.names(), gotErr)
		}
		r.Count("probe:unsatisfiable", 1)
		return false
	}
	if d := differ(want, got); d != "" {
		r.Fail("history", "a generator restricted to {%s} and a fresh one: %s", c.names(), d)
	}
	for _, x := range c.list {
		if x.cond == nil {
			continue
		}
		if ok, err := x.cond.Check(got); err != nil || !ok {
			r.Fail("unsatisfying", "{%s}: the generated state does not satisfy %s (%v, %v)", c.names(), x.name, ok, err)
		}
	}
	r.Event(uint64(got.Gas))
	return true
}

var topic int

var topics = [][]int{
	nil,
	{6, 6, 25, 26, 27, 28, 29, 30, 36, 38, 39, 39, 41, 42, 43},
	{6, 6, 3, 20, 20, 21, 22, 44, 45, 46},
	{6, 6, 3, 23, 24, 47, 48},
	{6, 14, 15, 16, 17, 18, 19, 10, 38, 40, 40, 49, 50, 51},
	{6, 6, 31, 32, 33, 34, 35, 52, 53, 54},
	{0, 3, 6, 10, 11, 13, 19, 36},
}

func someConstraint(r *simrt.R) constraint {
	is := func(c rlz.Condition) constraint {
		return constraint{c.String(), func(g *gen.StateGenerator) { c.Restrict(g) }, c}
	}
	set := func(apply func(*gen.StateGenerator), format string, args ...any) constraint {
		return constraint{fmt.Sprintf(format, args...), apply, nil}
	}
	v := gen.Variable(fmt.Sprintf("v%d", r.N(4)))
	if r.Chance(1, 3) {
		v = rlz.Param(r.N(4)).GetVariable()
	}
	pos := r.N(6)
	var p rlz.BindableExpression[common.U256] = rlz.Param(r.N(4))
	if r.Chance(1, 4) {
		p = rlz.Constant(common.NewU256(uint64(r.N(40))))
	}
	small := common.NewU256(uint64(r.N(4)))
	gas := tosca.Gas(r.N(2000))
	offset := int64(r.N(300)) - 20
	// Runs are about a few kinds of constraints, such that these meet.
	kind := r.N(55)
	if t := topics[topic]; t != nil && !r.Chance(1, 8) {
		kind = t[r.N(len(t))]
	}
	switch kind {
	case 0, 1, 2:
		return set(func(g *gen.StateGenerator) { g.SetStackValue(pos, small) }, "stack[%d]=%v", pos, small)
	case 3, 4, 5:
		return set(func(g *gen.StateGenerator) { g.BindStackValue(pos, v) }, "stack[%d]=%v", pos, v)
	case 6:
		return set(func(g *gen.StateGenerator) { g.BindValue(v, small) }, "%v=%v", v, small)
	case 7:
		return is(rlz.Ge(rlz.Gas(), gas))
	case 8:
		return is(rlz.Le(rlz.Gas(), 1000+gas))
	case 9:
		return set(func(g *gen.StateGenerator) { g.AddGasRefundLowerBound(gas) }, "refund>=%d", gas)
	case 10:
		return is(rlz.Ge(rlz.StackSize(), r.N(20)))
	case 11:
		return is(rlz.Le(rlz.StackSize(), 10+r.N(20)))
	case 12:
		return is(rlz.Eq(rlz.Status(), st.StatusCode(r.N(int(st.NumStatusCodes)))))
	case 13:
		return is(rlz.Eq(rlz.ReadOnly(), r.Chance(1, 2)))
	case 14:
		op := vm.OpCode(r.N(256))
		return set(func(g *gen.StateGenerator) { g.SetCodeOperation(pos*5, op) }, "code[%d]=%v", pos*5, op)
	case 15, 16:
		op := vm.OpCode(r.N(256))
		return set(func(g *gen.StateGenerator) { g.AddCodeOperation(v, op) }, "code[%v]=%v", v, op)
	case 17:
		return set(func(g *gen.StateGenerator) { g.AddIsCode(v) }, "isCode[%v]", v)
	case 18:
		return set(func(g *gen.StateGenerator) { g.AddIsData(v) }, "isData[%v]", v)
	case 19:
		return set(func(g *gen.StateGenerator) { g.BindPc(v) }, "pc=%v", v)
	case 20:
		status, w := tosca.StorageStatus(r.N(9)), gen.Variable(fmt.Sprintf("w%d", r.N(3)))
		return set(func(g *gen.StateGenerator) { g.BindStorageConfiguration(status, v, w) }, "storage[%v]=%v,%v", v, status, w)
	case 21:
		return set(func(g *gen.StateGenerator) { g.BindIsStorageWarm(v) }, "storage warm %v", v)
	case 22:
		return set(func(g *gen.StateGenerator) { g.BindIsStorageCold(v) }, "storage cold %v", v)
	case 23:
		return set(func(g *gen.StateGenerator) { g.BindTransientStorageToNonZero(v) }, "transient[%v]!=0", v)
	case 24:
		return set(func(g *gen.StateGenerator) { g.BindTransientStorageToZero(v) }, "transient[%v]=0", v)
	case 25:
		return set(func(g *gen.StateGenerator) { g.BindToAddressOfEmptyAccount(v) }, "empty account %v", v)
	case 26:
		return set(func(g *gen.StateGenerator) { g.BindToAddressOfNonEmptyAccount(v) }, "account %v", v)
	case 27:
		return set(func(g *gen.StateGenerator) { g.AddBalanceLowerBound(v, small) }, "balance %v>=%v", v, small)
	case 28:
		return set(func(g *gen.StateGenerator) { g.AddBalanceUpperBound(v, small) }, "balance %v<=%v", v, small)
	case 29:
		return set(func(g *gen.StateGenerator) { g.BindToWarmAddress(v) }, "address warm %v", v)
	case 30:
		return set(func(g *gen.StateGenerator) { g.BindToColdAddress(v) }, "address cold %v", v)
	case 31:
		return set(func(g *gen.StateGenerator) { g.RestrictVariableToOneOfTheLast256Blocks(v) }, "recent block %v", v)
	case 32:
		return set(func(g *gen.StateGenerator) { g.RestrictVariableToNoneOfTheLast256Blocks(v) }, "other block %v", v)
	case 33:
		return set(func(g *gen.StateGenerator) { g.SetBlockNumberOffsetValue(v, offset) }, "block %v at %d", v, offset)
	case 34:
		return set(func(g *gen.StateGenerator) { g.IsPresentBlobHashIndex(v) }, "blob hash %v", v)
	case 35:
		return set(func(g *gen.StateGenerator) { g.IsAbsentBlobHashIndex(v) }, "no blob hash %v", v)
	case 36:
		return set(func(g *gen.StateGenerator) { g.BindToSelfAddress(v) }, "self address %v", v)
	case 38:
		return is(rlz.Eq(rlz.Param(r.N(4)), small))
	case 39:
		self := rlz.Balance(rlz.SelfAddress())
		return is([]rlz.Condition{rlz.Ge(self, small), rlz.Le(self, small), rlz.Eq(rlz.SelfAddress(), tosca.Address{19: byte(pos)})}[r.N(3)])
	case 40:
		return is([]rlz.Condition{rlz.Eq(rlz.Pc(), small), rlz.Eq(rlz.Op(rlz.Pc()), vm.STOP), rlz.Lt(rlz.Gas(), 1+gas), rlz.Gt(rlz.Gas(), gas), rlz.Gt(rlz.StackSize(), pos), rlz.Lt(rlz.StackSize(), 1+pos)}[r.N(6)])
	case 41:
		return is(rlz.AccountIsEmpty(p))
	case 42:
		return is(rlz.AccountIsNotEmpty(p))
	case 43:
		return is([]rlz.Condition{rlz.IsAddressWarm(p), rlz.IsAddressCold(p)}[r.N(2)])
	case 44, 45:
		return is(rlz.StorageConfiguration(tosca.StorageStatus(r.N(9)), p, rlz.Param(r.N(4))))
	case 46:
		return is([]rlz.Condition{rlz.IsStorageWarm(p), rlz.IsStorageCold(p)}[r.N(2)])
	case 47:
		return is(rlz.BindTransientStorageToNonZero(p))
	case 48:
		return is(rlz.BindTransientStorageToZero(p))
	case 49:
		return is([]rlz.Condition{rlz.IsCode(p), rlz.IsData(p)}[r.N(2)])
	case 50:
		return is(rlz.Eq(rlz.Op(p), []vm.OpCode{vm.ADD, vm.JUMPDEST, vm.PUSH3, vm.PUSH32}[r.N(4)]))
	case 51:
		return is([]rlz.Condition{rlz.IsCode(rlz.Pc()), rlz.IsData(rlz.Pc()), rlz.Eq(rlz.Op(rlz.Pc()), vm.PUSH1)}[r.N(3)])
	case 52:
		return is([]rlz.Condition{rlz.HasBlobHash(p), rlz.HasNoBlobHash(p)}[r.N(2)])
	case 53:
		return is([]rlz.Condition{rlz.InRange256FromCurrentBlock(p), rlz.OutOfRange256FromCurrentBlock(p)}[r.N(2)])
	case 54:
		lo := r.N(6)
		return is(rlz.RevisionBounds(tosca.Revision(lo), tosca.Revision(lo+r.N(6-lo))))
	default:
		return is(atom(r))
	}
}
