// Package simc stands for what the repository reaches through cgo.
package simc

// Status codes of evmc.h.
const (
	EVMC_SUCCESS                      = 0
	EVMC_FAILURE                      = 1
	EVMC_REVERT                       = 2
	EVMC_OUT_OF_GAS                   = 3
	EVMC_INVALID_INSTRUCTION          = 4
	EVMC_UNDEFINED_INSTRUCTION        = 5
	EVMC_STACK_OVERFLOW               = 6
	EVMC_STACK_UNDERFLOW              = 7
	EVMC_BAD_JUMP_DESTINATION         = 8
	EVMC_INVALID_MEMORY_ACCESS        = 9
	EVMC_CALL_DEPTH_EXCEEDED          = 10
	EVMC_STATIC_MODE_VIOLATION        = 11
	EVMC_PRECOMPILE_FAILURE           = 12
	EVMC_CONTRACT_VALIDATION_FAILURE  = 13
	EVMC_ARGUMENT_OUT_OF_RANGE        = 14
	EVMC_WASM_UNREACHABLE_INSTRUCTION = 15
	EVMC_WASM_TRAP                    = 16
	EVMC_INSUFFICIENT_BALANCE         = 17
	EVMC_INTERNAL_ERROR               = -1
	EVMC_REJECTED                     = -2
	EVMC_OUT_OF_MEMORY                = -3
)

// Profile receives the calls to the profiler of evmzero.
var Profile func(what string, machine any)

// Evmzero_dump_profile prints the profile.
func Evmzero_dump_profile(m any) { Profile("dump", m) }

// Evmzero_reset_profiler forgets it.
func Evmzero_reset_profiler(m any) { Profile("reset", m) }
