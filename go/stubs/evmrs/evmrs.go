// Package evmrs takes the place of an EVM implementation that cannot be built
// offline: its conformance target does what the simulation decides.
package evmrs

import (
	"github.com/Fantom-foundation/Tosca/go/ct"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
)

// Step is the behaviour of the target.
var Step func(state *st.State, n int) (*st.State, error)

type target struct{}

func (target) StepN(state *st.State, n int) (*st.State, error) { return Step(state, n) }

func NewConformanceTestingTarget() ct.Evm { return target{} }
