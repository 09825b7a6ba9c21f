package main

import (
	"bytes"
	"fmt"

	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/ethereum/evmc/v11/bindings/go/evmc"
)

// arbitrary: a machine that answers a step with anything.
func arbitrary(r *simrt.R) {
	vm := newStepTarget()
	for k := r.Range(1, 4); k > 0; k-- {
		s := freshState(r, r.U64())
		if r.Chance(3, 4) {
			s.Status = st.Running
		}
		if s.Revision > tosca.R13_Cancun {
			s.Revision = tosca.Revision(r.N(int(tosca.R13_Cancun) + 1))
		}
		if r.Chance(1, 10) {
			s.Revision = tosca.R13_Cancun + tosca.Revision(r.Range(1, 3))
		}
		steps := []int{0, 1, 2, 1000}[r.N(4)]
		before := s.Clone()
		asked := 0
		var res evmc.StepResult
		garbage = func(p evmc.StepParameters) (evmc.StepResult, error) {
			asked++
			given(r, before, p, steps)
			res = answer(r)
			if r.Chance(1, 10) {
				r.Count("fault:machine-fails", 1)
				return evmc.StepResult{}, evmc.Error(-1)
			}
			return res, nil
		}
		got, err := vm.StepN(s, steps)
		bad := len(res.Stack)%32 != 0 || res.StepStatusCode > evmc.Failed
		switch {
		case before.Revision > tosca.R13_Cancun:
			if err == nil || asked > 0 {
				r.Fail("step", "revision %v: error %v, machine asked %d times", before.Revision, err, asked)
			}
			continue
		case before.Status != st.Running:
			if err != nil || asked > 0 || !got.Eq(before) {
				r.Fail("terminal", "a step of a state that is %v: error %v, machine asked %d times", before.Status, err, asked)
			}
			continue
		case asked != 1:
			r.Fail("step", "%d steps: the machine was asked %d times", steps, asked)
		}
		r.NonTrivial()
		if err != nil {
			if !bad && err != evmc.Error(-1) {
				r.Fail("step", "error %v", err)
			}
			r.Count("probe:errors", 1)
			continue
		}
		if bad {
			r.Fail("step", "a result with status %d and %d bytes of stack was accepted", res.StepStatusCode, len(res.Stack))
		}
		want := map[evmc.StepStatus]st.StatusCode{evmc.Running: st.Running, evmc.Stopped: st.Stopped, evmc.Returned: st.Stopped, evmc.Reverted: st.Reverted, evmc.Failed: st.Failed}[res.StepStatusCode]
		wrong := func(what string, have, want any) {
			r.Fail("step", "after a step to status %d, the %s is %v instead of %v", res.StepStatusCode, what, have, want)
		}
		stack := ""
		for i := got.Stack.Size() - 1; i >= 0; i-- {
			b := got.Stack.Get(i).Bytes32be()
			stack += fmt.Sprintf("%x", b)
		}
		switch {
		case got.Status != want:
			wrong("status", got.Status, want)
		case want != st.Failed && uint64(got.Pc) != res.Pc:
			wrong("position", got.Pc, res.Pc)
		case want != st.Failed && int64(got.Gas) != res.GasLeft:
			wrong("gas", got.Gas, res.GasLeft)
		case want != st.Failed && int64(got.GasRefund) != res.GasRefund:
			wrong("refund", got.GasRefund, res.GasRefund)
		case want == st.Running && !bytes.Equal(got.Memory.Read(0, uint64(got.Memory.Size())), res.Memory):
			wrong("memory", got.Memory, res.Memory)
		case want == st.Running && stack != fmt.Sprintf("%x", res.Stack):
			wrong("stack", stack, fmt.Sprintf("%x", res.Stack))
		case want == st.Running && !bytes.Equal(got.LastCallReturnData.ToBytes(), res.LastCallReturnData):
			wrong("data of the last call", got.LastCallReturnData, res.LastCallReturnData)
		case (res.StepStatusCode == evmc.Returned || res.StepStatusCode == evmc.Reverted) && !bytes.Equal(got.ReturnData.ToBytes(), res.Output):
			wrong("returned data", got.ReturnData, res.Output)
		case got.Revision != before.Revision || got.ReadOnly != before.ReadOnly || got.Code.String() != before.Code.String() || got.CallData.String() != before.CallData.String():
			wrong("rest of the state", "changed", "unchanged")
		}
	}
	r.Note("%d files", 0)
}

// given: what the machine must be told about the state.
func given(r *simrt.R, s *st.State, p evmc.StepParameters, steps int) {
	bad := func(what string, have, want any) {
		r.Fail("parameters", "the machine is given the %s %v instead of %v", what, have, want)
	}
	var stack []byte
	for i := s.Stack.Size() - 1; i >= 0; i-- {
		b := s.Stack.Get(i).Bytes32be()
		stack = append(stack, b[:]...)
	}
	switch {
	case revision(p.Revision) != s.Revision:
		bad("revision", p.Revision, s.Revision)
	case p.Static != s.ReadOnly:
		bad("static flag", p.Static, s.ReadOnly)
	case p.Gas != int64(s.Gas):
		bad("gas", p.Gas, s.Gas)
	case p.GasRefund != int64(s.GasRefund):
		bad("refund", p.GasRefund, s.GasRefund)
	case tosca.Address(p.Recipient) != s.CallContext.AccountAddress:
		bad("recipient", p.Recipient, s.CallContext.AccountAddress)
	case tosca.Address(p.Sender) != s.CallContext.CallerAddress:
		bad("sender", p.Sender, s.CallContext.CallerAddress)
	case p.Value != s.CallContext.Value.Bytes32be():
		bad("value", p.Value, s.CallContext.Value)
	case !bytes.Equal(p.Input, s.CallData.ToBytes()):
		bad("input", p.Input, s.CallData)
	case !bytes.Equal(p.LastCallResult, s.LastCallReturnData.ToBytes()):
		bad("data of the last call", p.LastCallResult, s.LastCallReturnData)
	case !bytes.Equal(p.Code, s.Code.Copy()):
		bad("code", p.Code, s.Code)
	case p.CodeHash != nil && tosca.Hash(*p.CodeHash) != s.Code.Hash():
		bad("code hash", p.CodeHash, s.Code.Hash())
	case p.StepStatusCode != evmc.Running:
		bad("status", p.StepStatusCode, evmc.Running)
	case p.Pc != uint64(s.Pc):
		bad("position", p.Pc, s.Pc)
	case !bytes.Equal(p.Stack, stack):
		bad("stack", fmt.Sprintf("%x", p.Stack), fmt.Sprintf("%x", stack))
	case !bytes.Equal(p.Memory, s.Memory.Read(0, uint64(s.Memory.Size()))):
		bad("memory", p.Memory, s.Memory)
	case p.NumSteps != steps:
		bad("number of steps", p.NumSteps, steps)
	}
}

func answer(r *simrt.R) evmc.StepResult {
	data := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.N(256))
		}
		return b
	}
	a := evmc.StepResult{StepStatusCode: evmc.StepStatus(r.N(5)), Pc: uint64(r.N(1 << 16)), GasLeft: int64(r.U64() >> uint(r.Range(1, 60))), GasRefund: int64(r.Range(-5000, 50000)),
		Output: data(r.N(70)), Stack: data(32 * r.N(6)), Memory: data(32 * r.N(4)), LastCallReturnData: data(r.N(70))}
	if r.Chance(1, 30) {
		a.Stack = data(32*r.N(3) + r.Range(1, 31))
	}
	if r.Chance(1, 30) {
		a.StepStatusCode = evmc.StepStatus(r.Range(5, 9))
	}
	if r.Chance(1, 20) {
		a.Stack = data(32 * 1024)
	}
	return a
}
