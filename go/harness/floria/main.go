// Simulation of the floria processor: transactions with scripted and real
// interpreters, failing callees, and several users of one processor, compared
// with an independent reference of a processor.
package main

import (
	"github.com/Fantom-foundation/Tosca/go/dst/simos"
	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	"github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"
	_ "github.com/Fantom-foundation/Tosca/go/processor/floria"
	lru "github.com/hashicorp/golang-lru/v2"
)

var _ = lfvm.Config{}

func main() {
	name = "floria"
	simrt.Main(simrt.Harness{Name: "floria", Run: run, Cap: 30_000_000, CacheSizes: []int{2, 8, 64}})
}

func run(r *simrt.R) {
	simos.Reset()
	lru.Capacity = func(n int) int { return n }
	lru.Between = simrt.Y
	switch r.Variant {
	case "tx", "frames", "state":
		sequence(r, r.Variant)
	case "evm":
		withEvm(r)
	case "conc":
		conc(r)
	default:
		r.Fail("usage", "unknown variant %q", r.Variant)
	}
}
