// Simulation of the lfvm interpreter: protocol against the reference,
// concurrent use of one instance, and its observers.
package main

import (
	"fmt"

	"github.com/Fantom-foundation/Tosca/go/dst/evmref"
	"github.com/Fantom-foundation/Tosca/go/dst/simos"
	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	"github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	lru "github.com/hashicorp/golang-lru/v2"
)

func newVm(r *simrt.R, name string) tosca.Interpreter {
	vm, err := tosca.NewInterpreter(name, nil)
	if err != nil {
		r.Fail("no-interpreter", "interpreter %q: %v", name, err)
	}
	return vm
}

func experimental(r *simrt.R) {
	if err := lfvm.RegisterExperimentalInterpreterConfigurations(); err != nil {
		r.Fail("no-interpreter", "registration of the configurations: %v", err)
	}
}

func main() {
	simrt.Main(simrt.Harness{Name: "lfvm", Run: run, Cap: 30_000_000, CacheSizes: []int{2, 2, 3, 8, 64, 1024}})
}

func run(r *simrt.R) {
	simos.Reset()
	if size := []int{0, 1, 2, 4}[r.N(4)]; size > 0 {
		lru.Capacity = func(int) int { return size }
	} else {
		lru.Capacity = func(n int) int { return n }
	}
	lru.Between = simrt.Y
	switch r.Variant {
	case "proto":
		proto(r, evmref.ScenarioCfg{Contracts: 4, Budget: 22, Calls: true, Storage: true, Faults: true, Huge: 10_000, Far: 300})
	case "static":
		proto(r, evmref.ScenarioCfg{Contracts: 4, Budget: 22, Calls: true, Storage: true, Faults: true, Static: true, Huge: 10_000})
	case "conc":
		conc(r)
	case "hash":
		hash(r)
	case "stats":
		stats(r)
	case "log":
		logging(r)
	default:
		r.Fail("usage", "unknown variant %q", r.Variant)
	}
}

func summary(o *evmref.Observed, e *evmref.Env) string {
	return fmt.Sprintf("%v, %d instructions, %d host effects, %d messages, %d static frames, gas left %d", o.Res.St, e.Instructions, len(o.Trace), e.Nested, e.StaticFrames, o.Res.GasLeft)
}

func digest(r *simrt.R, o *evmref.Observed) {
	r.Event(uint64(o.Res.St))
	r.Event(uint64(o.Res.GasLeft))
	r.EventBytes(o.Res.Out)
	for i := range o.Trace {
		r.EventString(o.Trace[i].Kind)
	}
}

// proto compares executions with the reference, several on one instance.
func proto(r *simrt.R, cfg evmref.ScenarioCfg) {
	names := []string{"lfvm", "lfvm", "lfvm", "lfvm-no-sha-cache", "lfvm-no-code-cache", "lfvm-si"}
	name := names[r.N(len(names))]
	if name != "lfvm" {
		experimental(r)
	}
	m := &evmref.Machine{Vm: newVm(r, name), NoHash: r.U64(), Near: evmref.NearHashes(r)}
	if r.Chance(2, 3) {
		m.NoHash = 0
	}
	r.Count("probe:config-"+name, 1)
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		s := evmref.NewScenario(r, cfg)
		if s.Huge {
			r.Count("probe:transactions-with-huge-gas", 1)
		}
		want, ref := s.Reference()
		got, env := s.Run(r, m.Exec, nil)
		digest(r, got)
		r.Logf("%s: %s", name, summary(want, ref))
		if r.Verbose {
			for a, c := range s.World.Acc {
				r.Logf("code of %x: %x", a, c.Code)
			}
			for j := range got.Trace {
				r.Logf("  %v", &got.Trace[j])
			}
		}
		if env.Breach != "" {
			r.Fail("static-breach", "%s: %s", name, env.Breach)
		}
		if d := evmref.Diff(want, got); d != "" {
			if got.Res.Err != nil {
				d += fmt.Sprintf(" (error %v)", got.Res.Err)
			}
			r.Fail("divergence", "%s, revision %d: %s", name, s.Ctx.Block.Revision, d)
		}
		if d := m.CheckOutputs(); d != "" {
			r.Fail("interface", "%s: %s", name, d)
		}
		if ref.Instructions > 3 && (!cfg.Static || ref.StaticFrames > 0) {
			r.NonTrivial()
		}
		r.Count("probe:messages", uint64(ref.Nested))
		r.Count("probe:instructions", ref.Instructions)
		if ref.StaticFrames > 0 {
			r.Count("probe:static-frames", uint64(ref.StaticFrames))
		}
		if r.NoteWanted() {
			r.Note("%s: %s", name, summary(want, ref))
		}
	}
}

type job struct {
	s    *evmref.Scenario
	want *evmref.Observed
	ref  *evmref.Env
}

func jobs(r *simrt.R, n int, cfg evmref.ScenarioCfg) []job {
	var res []job
	for i := 0; i < n; i++ {
		s := evmref.NewScenario(r, cfg)
		want, ref := s.Reference()
		res = append(res, job{s, want, ref})
	}
	return res
}

// conc runs transactions of several clients on one instance.
func conc(r *simrt.R) {
	name := "lfvm"
	if r.Chance(1, 4) {
		experimental(r)
		name = []string{"lfvm-si", "lfvm-no-code-cache", "lfvm-no-sha-cache", "lfvm-stats"}[r.N(4)]
	}
	vm := newVm(r, name)
	nt := r.Range(2, 4)
	near := evmref.NearHashes(r)
	cfg := evmref.ScenarioCfg{Contracts: 2, Budget: 7, Calls: true, Storage: true, Faults: true, Cheap: true, Hashes: r.Chance(1, 2), MaxGas: 60_000, Huge: 1000}
	all := jobs(r, r.Range(nt, 5), cfg)
	// clients run private copies of a few shared transactions, so that they meet in the caches
	plan := make([][]int, nt)
	for i := range plan {
		for k := r.Range(1, 2); k > 0; k-- {
			plan[i] = append(plan[i], r.N(len(all)))
		}
	}
	machines := make([]*evmref.Machine, nt)
	running := 0
	r.Threads(nt, func(i int) {
		m := &evmref.Machine{Vm: vm, Near: near}
		machines[i] = m
		for _, k := range plan[i] {
			j := all[k]
			enter(&running, r)
			got, env := j.s.Run(r, m.Exec, simrt.Y)
			leave(&running)
			if d := evmref.Diff(j.want, got); d != "" {
				r.Fail("interference", "%s, client %d of %d: %s", name, i, nt, d)
			}
			if env.Breach != "" {
				r.Fail("static-breach", "%s: %s", name, env.Breach)
			}
			digest(r, got)
			if d := m.CheckOutputs(); d != "" {
				r.Fail("interface", "%s: %s", name, d)
			}
		}
	})
	for _, m := range machines {
		if d := m.CheckOutputs(); d != "" {
			r.Fail("interface", "%s: %s", name, d)
		}
	}
	r.Count("probe:config-"+name, 1)
	r.Note("%s, %d clients, %d transactions, first: %s", name, nt, len(all), summary(all[0].want, all[0].ref))
}

// The harness's own bookkeeping must not synchronise clients.
//
//go:norace
func enter(n *int, r *simrt.R) {
	*n++
	if *n > 1 {
		r.NonTrivial()
	}
}

//go:norace
func leave(n *int) { *n-- }
