// Package vm stands in for go-ethereum's precompiled contracts. What the
// contracts compute is made up; what matters to their callers is not: each has
// its own costs, which depend on the input and on the revision, may exceed any
// amount of gas, and some refuse some inputs.
package vm

import (
	"errors"
	"math"

	"github.com/ethereum/go-ethereum/common"
)

type PrecompiledContract interface {
	RequiredGas(input []byte) uint64
	Run(input []byte) ([]byte, error)
}

var ErrInvalidInput = errors.New("invalid input")

type contract struct {
	id      byte
	set     byte
	base    uint64
	perWord uint64
}

// RequiredGas is huge for inputs starting with 0xff of contract 5 and with
// 0xfe (a little less than 2^63).
func (c *contract) RequiredGas(input []byte) uint64 {
	if c.id == 5 && len(input) > 0 && input[0] == 0xff {
		return math.MaxUint64
	}
	if c.id == 5 && len(input) > 0 && input[0] == 0xfe {
		return 1<<63 + 5
	}
	return c.base + c.perWord*uint64((len(input)+31)/32)
}

// Run refuses inputs ending in 0xee, for contracts that can refuse.
func (c *contract) Run(input []byte) ([]byte, error) {
	n := len(input)
	if c.id >= 6 && n > 0 && input[n-1] == 0xee {
		return []byte{0xba, 0xd0}, ErrInvalidInput
	}
	if c.id == 1 && n == 0 {
		return nil, nil
	}
	out := []byte{0x9c, c.id, c.set}
	for i := 0; i < n && i < 40; i++ {
		out = append(out, input[n-1-i]+c.id)
	}
	return out, nil
}

func contracts(set byte, n int) map[common.Address]PrecompiledContract {
	m := map[common.Address]PrecompiledContract{}
	for i := 1; i <= n; i++ {
		m[common.Address{19: byte(i)}] = &contract{byte(i), set, uint64(100*i + 7*int(set)), uint64(3 + i + int(set))}
	}
	return m
}

var (
	PrecompiledContractsIstanbul = contracts(0, 9)
	PrecompiledContractsBerlin   = contracts(1, 9)
	PrecompiledContractsCancun   = contracts(2, 10)
)
