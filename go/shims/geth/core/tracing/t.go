// Package tracing stands in for the reasons of balance changes.
package tracing

type BalanceChangeReason byte

const (
	BalanceChangeUnspecified        BalanceChangeReason = 0
	BalanceChangeTransfer           BalanceChangeReason = 10
	BalanceChangeTouchAccount       BalanceChangeReason = 11
	BalanceIncreaseSelfdestruct     BalanceChangeReason = 12
	BalanceDecreaseSelfdestruct     BalanceChangeReason = 13
	BalanceDecreaseSelfdestructBurn BalanceChangeReason = 14
)
