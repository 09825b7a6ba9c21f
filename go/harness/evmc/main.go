// Simulation of the bridge to EVMC machines: the machines behind it are
// simulated, and see the world only through the bridge.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"regexp"
	"strings"

	"github.com/Fantom-foundation/Tosca/go/ct"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/dst/evmref"
	"github.com/Fantom-foundation/Tosca/go/dst/simc"
	"github.com/Fantom-foundation/Tosca/go/dst/simos"
	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	_ "github.com/Fantom-foundation/Tosca/go/interpreter/evmone"
	"github.com/Fantom-foundation/Tosca/go/interpreter/evmrs"
	"github.com/Fantom-foundation/Tosca/go/interpreter/evmzero"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/ethereum/evmc/v11/bindings/go/evmc"
)

func main() {
	warm()
	simrt.Main(simrt.Harness{Name: "evmc", Run: run, Cap: 30_000_000, CacheSizes: []int{2, 8, 64}})
}

func warm() {
	simos.Reset()
	r := &simrt.R{Seed: 1}
	_ = json.Unmarshal([]byte(`{"a":[1,"x",null,{"b":true}]}`), new(any))
	_, _ = json.Marshal(map[string]any{"a": []any{1.5, "x", nil}})
	_ = regexp.MustCompile("a.*(b|c)+^$").MatchString("abc")
	for i := uint64(0); i < 24; i++ {
		s := freshState(r, i)
		t := freshState(r, i+1)
		_ = st.ExportStateJSON(s, "/work/x")
		u, err := st.ImportStateJSON("/work/x")
		if err != nil {
			panic(err)
		}
		_, _, _ = u.Diff(t), u.Eq(t), u.String()
	}
}

// which implementation's conformance-test target is stepped in this run
var evmrsTarget bool

func newStepTarget() ct.Evm {
	if evmrsTarget {
		return evmrs.NewConformanceTestingTarget()
	}
	return evmzero.NewConformanceTestingTarget()
}

func run(r *simrt.R) {
	simos.Reset()
	simc.Profile = func(string, any) {}
	frameSeed = 0
	watch, clients = nil, nil
	count = func(s string) { r.Count(s, 1) }
	garbage = nil
	fail = func(format string, args ...any) { r.Fail("parameters", format, args...) }
	switch r.Variant {
	case "proto":
		proto(r)
	case "config":
		config(r)
	case "conc":
		conc(r)
	case "step", "steprace":
		evmrsTarget = r.Chance(1, 2)
		if r.Variant == "steprace" {
			stepsShared(r)
		} else if r.Chance(1, 3) {
			arbitrary(r)
		} else {
			steps(r)
		}
	default:
		r.Fail("usage", "unknown variant %q", r.Variant)
	}
}

// A configuration is a name in the registry and what must be behind it.
type configuration struct {
	name, lib, option, value string
	profiling                bool
}

var configurations = []configuration{
	{"evmzero", "libevmzero.so", "", "", false},
	{"evmzero-logging", "libevmzero.so", "logging", "true", false},
	{"evmzero-no-analysis-cache", "libevmzero.so", "analysis_cache", "false", false},
	{"evmzero-no-sha3-cache", "libevmzero.so", "sha3_cache", "false", false},
	{"evmzero-profiling", "libevmzero.so", "profiling", "true", true},
	{"evmzero-profiling-external", "libevmzero.so", "profiling_external", "true", true},
	{"evmrs", "libevmrs.so", "", "", false},
	{"evmrs-logging", "libevmrs.so", "logging", "true", false},
	{"evmone", "libevmone.so", "", "", false},
	{"evmone-basic", "libevmone.so", "", "", false},
	{"evmone-advanced", "libevmone.so", "advanced", "on", false},
}

func pick(r *simrt.R) (configuration, tosca.Interpreter) {
	c := configurations[r.N(len(configurations))]
	vm, err := tosca.NewInterpreter(c.name)
	if err != nil {
		r.Fail("no-interpreter", "interpreter %q: %v", c.name, err)
	}
	r.Count("probe:config-"+c.name, 1)
	return c, vm
}

// reference runs frames on the reference interpreter, with the same fates of
// machines.
func reference(e *evmref.Env, m *evmref.Msg, code []byte, hash *tosca.Hash) evmref.Res {
	res := evmref.Interpret(e, m, code, hash)
	switch s := fate(m.Gas, m.Depth, m.Recipient[:], m.Input, len(code)); {
	case s > 0:
		return evmref.Res{St: evmref.Failure}
	case s < 0:
		return evmref.Res{St: evmref.Failure, Err: errMachine}
	}
	return res
}

var errMachine = errors.New("injected: the machine fails")

// recorder keeps the parameters of the frames that are being executed.
type recorder struct {
	vm tosca.Interpreter
	in []tosca.Parameters
}

func (v *recorder) Run(p tosca.Parameters) (tosca.Result, error) {
	v.in = append(v.in, p)
	n := len(v.in)
	res, err := v.vm.Run(p)
	v.in = v.in[:n-1]
	return res, err
}

func hashes(h []tosca.Hash) string { return fmt.Sprintf("%x", h) }

// proto: transactions through the bridge, compared with the machine's
// interpreter working on the world directly.
func proto(r *simrt.R) {
	c, vm := pick(r)
	rec := &recorder{vm: vm}
	m := &evmref.Machine{Vm: rec, NoHash: r.U64()}
	watch = func(v *machine, p evmc.ExecuteParameters) {
		w := rec.in[len(rec.in)-1]
		t := p.Context.GetTxContext()
		bad := func(what string, have, want any) {
			r.Fail("parameters", "%s: the machine is given %s %v instead of %v", c.name, what, have, want)
		}
		switch {
		case p.Kind != evmc.Call:
			bad("call kind", p.Kind, evmc.Call)
		case p.Static != w.Static:
			bad("static flag", p.Static, w.Static)
		case p.Depth != w.Depth:
			bad("depth", p.Depth, w.Depth)
		case p.Gas != int64(w.Gas):
			bad("gas", p.Gas, w.Gas)
		case tosca.Address(p.Recipient) != w.Recipient:
			bad("recipient", p.Recipient, w.Recipient)
		case tosca.Address(p.Sender) != w.Sender:
			bad("sender", p.Sender, w.Sender)
		case !bytes.Equal(p.Input, w.Input):
			bad("input", p.Input, w.Input)
		case tosca.Value(p.Value) != w.Value:
			bad("value", p.Value, w.Value)
		case (p.CodeHash == nil) != (w.CodeHash == nil) || (p.CodeHash != nil && tosca.Hash(*p.CodeHash) != *w.CodeHash):
			bad("code hash", p.CodeHash, w.CodeHash)
		case !bytes.Equal(p.Code, w.Code):
			bad("code", p.Code, w.Code)
		case revisions[p.Revision] != w.Revision+1:
			bad("revision", p.Revision, w.Revision)
		case tosca.Value(t.GasPrice) != w.GasPrice, tosca.Address(t.Origin) != w.Origin, tosca.Address(t.Coinbase) != w.Coinbase, t.Number != w.BlockNumber,
			t.Timestamp != w.Timestamp, t.GasLimit != int64(w.GasLimit), tosca.Hash(t.PrevRandao) != w.PrevRandao, tosca.Word(t.ChainID) != w.ChainID,
			tosca.Value(t.BaseFee) != w.BaseFee, tosca.Value(t.BlobBaseFee) != w.BlobBaseFee, fmt.Sprintf("%x", t.BlobHashes) != hashes(w.BlobHashes):
			bad("context", t, w.BlockParameters)
		}
	}
	if r.Chance(1, 2) {
		frameSeed = r.U64() | 1
	}
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		s := scenario(r, evmref.ScenarioCfg{Contracts: 4, Budget: 22, Calls: true, Storage: true, Faults: true, Huge: 10_000})
		want, ref := s.Run(nil, reference, nil)
		got, env := s.Run(r, m.Exec, nil)
		digest(r, got)
		r.Logf("%s: %s", c.name, summary(want, ref))
		if r.Verbose {
			for j := range got.Trace {
				r.Logf("  %v", &got.Trace[j])
			}
		}
		if env.Breach != "" {
			r.Fail("static-breach", "%s: %s", c.name, env.Breach)
		}
		if d := evmref.Diff(want, got); d != "" {
			if got.Res.Err != nil {
				d += fmt.Sprintf(" (error %v)", got.Res.Err)
			}
			r.Fail("divergence", "%s, revision %d: %s", c.name, s.Ctx.Block.Revision, d)
		}
		if d := m.CheckOutputs(); d != "" {
			r.Fail("interface", "%s: %s", c.name, d)
		}
		if ref.Instructions > 3 {
			r.NonTrivial()
		}
		r.Count("probe:messages", uint64(ref.Nested))
		if r.NoteWanted() {
			r.Note("%s: %s", c.name, summary(want, ref))
		}
	}
}

// config: each name stands for its own machine in its own configuration.
func config(r *simrt.R) {
	nt := r.Range(1, 4)
	type op struct {
		c    configuration
		name string
		kind int
		rev  tosca.Revision
		id   int64
		dump bool
		s    *evmref.Scenario
		want *evmref.Observed
	}
	plan := make([][]op, nt)
	total := 0
	clients = []string{""}
	var asked, expected [32]int // dumps and resets of each configuration's profile
	for i := range plan {
		for k := r.Range(2, 7); k > 0; k-- {
			o := op{c: configurations[r.N(len(configurations))], kind: r.N(4), rev: tosca.R13_Cancun + tosca.Revision(r.Range(1, 3))}
			if o.kind < 2 {
				o.kind = 0
				o.s = evmref.NewScenario(r, evmref.ScenarioCfg{Contracts: 2, Budget: 4, Calls: true, Storage: true, Cheap: true, MaxGas: 40_000})
				o.want, _ = o.s.Run(nil, reference, nil)
			}
			o.name = o.c.name
			if r.Chance(1, 4) {
				o.name = strings.ToUpper(o.name)
			}
			if o.kind == 0 {
				// the block number tells the machines who is using them
				o.id = int64(len(clients))
				clients = append(clients, o.c.name)
			}
			if o.kind == 3 && o.c.profiling {
				o.dump = r.Chance(1, 2)
				expected[slot(o.c.option, o.dump)]++
			}
			plan[i] = append(plan[i], o)
			total++
		}
	}
	watch = func(v *machine, p evmc.ExecuteParameters) {
		c := byName(clients[p.Context.GetTxContext().Number>>32])
		if c.option == "" && v.options() != "" || c.option != "" && v.options() != c.option+"="+c.value || v.lib != c.lib {
			r.Fail("configuration", "%q runs on %s with the options %q", c.name, v.lib, v.options())
		}
	}
	simc.Profile = func(what string, m any) {
		v, _ := m.(*machine)
		if v == nil || v.lib != "libevmzero.so" || v.options() != "profiling=true" && v.options() != "profiling_external=true" {
			r.Fail("configuration", "the profile of a machine that has none (%v) is asked to %s", v, what)
		}
		bump(&asked, slot(strings.TrimSuffix(v.options(), "=true"), what == "dump"))
	}
	running := 0
	r.Threads(nt, func(i int) {
		for _, o := range plan[i] {
			vm, err := tosca.NewInterpreter(o.name)
			if err != nil {
				r.Fail("configuration", "interpreter %q: %v", o.name, err)
			}
			r.Count("probe:config-"+o.c.name, 1)
			enter(&running, r)
			switch o.kind {
			case 0:
				rec := &evmref.Machine{Vm: tagged{vm, o.id}}
				got, _ := o.s.Run(nil, rec.Exec, simrt.Y)
				if d := evmref.Diff(o.want, got); d != "" {
					r.Fail("divergence", "%s: %s", o.name, d)
				}
				digest(r, got)
			case 2:
				_, err := vm.Run(tosca.Parameters{BlockParameters: tosca.BlockParameters{Revision: o.rev, BlockNumber: -1}, Gas: 100, Code: tosca.Code{0}})
				var unsupported *tosca.ErrUnsupportedRevision
				if !errors.As(err, &unsupported) || unsupported.Revision != o.rev {
					r.Fail("configuration", "%q, revision %d: error %v", o.name, o.rev, err)
				}
			case 3:
				p, ok := vm.(tosca.ProfilingInterpreter)
				if ok != o.c.profiling {
					r.Fail("configuration", "%q has a profile: %v", o.name, ok)
				}
				if !ok {
					break
				}
				if o.dump {
					p.DumpProfile()
				} else {
					p.ResetProfile()
				}
				r.Count("probe:profiles", 1)
			}
			leave(&running)
		}
	})
	if asked != expected {
		r.Fail("configuration", "the profiles were dumped and reset %v times instead of %v (per configuration)", asked, expected)
	}
	if total > 3 {
		r.NonTrivial()
	}
	r.Note("%d clients, %d operations", nt, total)
}

var clients []string

func slot(option string, dump bool) int {
	i := len(option) % 16 * 2 // the two options differ in length
	if dump {
		i++
	}
	return i
}

//go:norace
func bump(a *[32]int, i int) { a[i]++ }

func byName(n string) configuration {
	for _, c := range configurations {
		if c.name == n {
			return c
		}
	}
	panic(n)
}

// tagged marks the frames of a client in a part of the block number that the
// machine strips off again.
type tagged struct {
	vm tosca.Interpreter
	id int64
}

func (t tagged) Run(p tosca.Parameters) (tosca.Result, error) {
	p.BlockNumber = p.BlockNumber&(1<<32-1) | t.id<<32
	return t.vm.Run(p)
}

// scenario gives the context of transactions values that differ in every part.
func scenario(r *simrt.R, c evmref.ScenarioCfg) *evmref.Scenario {
	s := evmref.NewScenario(r, c)
	if r.Chance(1, 2) {
		b, t := &s.Ctx.Block, &s.Ctx.Tx
		for _, w := range []*[32]byte{(*[32]byte)(&b.ChainID), (*[32]byte)(&b.PrevRandao), (*[32]byte)(&b.BaseFee), (*[32]byte)(&b.BlobBaseFee), (*[32]byte)(&t.GasPrice)} {
			for i := range w {
				w[i] = byte(r.N(256))
			}
		}
		b.BlockNumber = int64(r.U64() >> uint(r.Range(1, 40)))
		b.Timestamp = int64(r.U64() >> uint(r.Range(1, 40)))
		b.GasLimit = tosca.Gas(r.U64() >> uint(r.Range(1, 40)))
		for i := range b.Coinbase {
			b.Coinbase[i] = byte(r.N(256))
		}
	}
	return s
}

func summary(o *evmref.Observed, e *evmref.Env) string {
	return fmt.Sprintf("%v, %d instructions, %d host effects, %d messages, gas left %d", o.Res.St, e.Instructions, len(o.Trace), e.Nested, o.Res.GasLeft)
}

func digest(r *simrt.R, o *evmref.Observed) {
	r.Event(uint64(o.Res.St))
	r.Event(uint64(o.Res.GasLeft))
	r.EventBytes(o.Res.Out)
	for i := range o.Trace {
		r.EventString(o.Trace[i].Kind)
	}
}

// conc: several clients of one interpreter, in nested frames too.
func conc(r *simrt.R) {
	c, vm := pick(r)
	if r.Chance(1, 3) {
		frameSeed = r.U64() | 1
	}
	nt := r.Range(2, 4)
	cfg := evmref.ScenarioCfg{Contracts: 3, Budget: 8, Calls: true, Storage: true, Faults: true, Cheap: true, MaxGas: 80_000, Huge: 1000}
	type job struct {
		s    *evmref.Scenario
		want *evmref.Observed
		ref  *evmref.Env
	}
	var all []job
	for i := r.Range(nt, 5); i > 0; i-- {
		s := scenario(r, cfg)
		want, ref := s.Run(nil, reference, nil)
		all = append(all, job{s, want, ref})
	}
	plan := make([][]int, nt)
	for i := range plan {
		for k := r.Range(1, 2); k > 0; k-- {
			plan[i] = append(plan[i], r.N(len(all)))
		}
	}
	running := 0
	r.Threads(nt, func(i int) {
		m := &evmref.Machine{Vm: vm}
		for _, k := range plan[i] {
			j := all[k]
			enter(&running, r)
			got, env := j.s.Run(r, m.Exec, simrt.Y)
			leave(&running)
			if d := evmref.Diff(j.want, got); d != "" {
				r.Fail("interference", "%s, client %d of %d: %s", c.name, i, nt, d)
			}
			if env.Breach != "" {
				r.Fail("static-breach", "%s: %s", c.name, env.Breach)
			}
			digest(r, got)
			if d := m.CheckOutputs(); d != "" {
				r.Fail("interface", "%s: %s", c.name, d)
			}
		}
	})
	r.Note("%s, %d clients, %d transactions, first: %s", c.name, nt, len(all), summary(all[0].want, all[0].ref))
}

//go:norace
func enter(n *int, r *simrt.R) {
	*n++
	if *n > 1 {
		r.NonTrivial()
	}
}

//go:norace
func leave(n *int) { *n-- }
