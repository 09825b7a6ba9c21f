package main

import (
	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	"github.com/Fantom-foundation/Tosca/go/tosca"
)

// name is the name of the processor under test.
var name string

// other makes the processor under test.
var other func(tosca.Interpreter) tosca.Processor

func newProcessor(r *simrt.R, i tosca.Interpreter) tosca.Processor {
	if other != nil {
		return other(i)
	}
	p := tosca.GetProcessor(name, i)
	if p == nil {
		r.Fail("no-processor", "%s is not registered", name)
	}
	return p
}

// sequence runs a history of transactions on one processor.
func sequence(r *simrt.R, focus string) {
	g := newGen(r, focus)
	sw := &switchboard{}
	p := newProcessor(r, sw)
	for k := r.Range(1, 3); k > 0; k-- {
		j := g.transaction()
		j.reference()
		j.account(r)
		env := j.apply(r, p, sw, nil, nil)
		if j.panics {
			continue
		}
		g.world = nextWorld(env.W)
		if j.want.Rejected {
			r.NonTrivial()
			r.Count("fault:invalid-transaction", 1)
		}
		if r.NoteWanted() {
			r.Note("%s", describe(j))
		}
	}
}

// withEvm runs generated contracts on the real interpreter.
func withEvm(r *simrt.R) {
	vm, err := tosca.NewInterpreter("lfvm")
	if err != nil {
		r.Fail("no-interpreter", "lfvm: %v", err)
	}
	sw := &switchboard{}
	p := newProcessor(r, sw)
	for k := r.Range(1, 3); k > 0; k-- {
		keep = r.Verbose
		j := evmJob(r, 14)
		j.reference()
		j.account(r)
		j.apply(r, p, sw, nil, vm)
		if r.NoteWanted() {
			r.Note("%s, %d instructions", describe(j), j.ref.Instructions)
		}
	}
}

// conc runs transactions of several clients on one processor.
func conc(r *simrt.R) {
	vm, err := tosca.NewInterpreter("lfvm")
	if err != nil {
		r.Fail("no-interpreter", "lfvm: %v", err)
	}
	n := r.Range(2, 4)
	plans := make([][]*job, n)
	id := byte(1)
	for i := range plans {
		g := newGen(r, "conc")
		for k := r.Range(1, 2); k > 0; k-- {
			var j *job
			if r.Chance(1, 4) {
				j = evmJob(r, 5)
			} else {
				j = g.transaction()
			}
			j.block.ChainID[0] = id
			j.reference()
			if j.ref.Instructions > 3000 {
				continue
			}
			id++
			plans[i] = append(plans[i], j)
		}
	}
	shared := &perClient{}
	p := newProcessor(r, shared)
	running := 0
	r.Threads(n, func(i int) {
		for _, j := range plans[i] {
			enter(&running, r)
			own := &switchboard{}
			shared.bind(j.block.ChainID, own)
			j.apply(r, p, own, simrt.Y, vm)
			leave(&running)
		}
	})
	for _, l := range plans {
		for _, j := range l {
			j.account(r)
		}
	}
	if r.NoteWanted() && len(plans[0]) > 0 {
		r.Note("%d clients, first: %s", n, describe(plans[0][0]))
	}
}
