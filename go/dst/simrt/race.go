//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

var raceMark byte

// what a client did happens before what its waiter does next; clients are not ordered by this
func clientEnds()   { runtime.RaceReleaseMerge(unsafe.Pointer(&raceMark)) }
func clientsEnded() { runtime.RaceAcquire(unsafe.Pointer(&raceMark)) }
