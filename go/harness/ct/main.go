// Simulation of the conformance-test framework: enumeration of test states by
// a team of goroutines, the commands of the driver against faulty
// implementations and disks, and the state model.
package main

import (
	"encoding/json"
	"regexp"

	"github.com/Fantom-foundation/Tosca/go/ct"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/dst/simos"
	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	"github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"
	lru "github.com/hashicorp/golang-lru/v2"
)

func newStepTarget() ct.Evm { return lfvm.NewConformanceTestingTarget() }

func main() {
	sortedRules()
	warm()
	simrt.Main(simrt.Harness{Name: "ct", Run: run, Cap: 30_000_000, CacheSizes: []int{2, 8, 64}})
}

// warm fills the caches of the standard library (types encoding/json has seen
// and the like), so that the first run finds what the later ones find.
func warm() {
	simos.Reset()
	r := &simrt.R{Seed: 1}
	_ = json.Unmarshal([]byte(`{"a":[1,"x",null,{"b":true}]}`), new(any))
	_, _ = json.Marshal(map[string]any{"a": []any{1.5, "x", nil}})
	_ = regexp.MustCompile("a.*(b|c)+^$").MatchString("abc")
	for i := uint64(0); i < 24; i++ {
		s := freshState(r, i)
		t := freshState(r, i+1)
		_ = st.ExportStateJSON(s, "/work/x")
		u, err := st.ImportStateJSON("/work/x")
		if err != nil {
			panic(err)
		}
		_, _, _ = u.Diff(t), u.Eq(t), u.String()
	}
}

func run(r *simrt.R) {
	simos.Reset()
	lru.Capacity = func(n int) int { return n }
	lru.Between = simrt.Y
	switch r.Variant {
	case "run":
		drvRun(r)
	case "stats":
		drvStats(r)
	case "test":
		drvTest(r)
	case "probe":
		drvProbe(r)
	case "regressions":
		drvRegressions(r)
	case "state":
		states(r)
	case "shared":
		shared(r)
	case "step":
		steps(r)
	case "steprace":
		stepsShared(r)
	case "history":
		history(r)
	case "repro":
		repro(r)
	case "enum":
		enum(r)
	default:
		r.Fail("usage", "unknown variant %q", r.Variant)
	}
}
