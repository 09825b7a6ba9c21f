//go:build !race

package simrt

func clientEnds()   {}
func clientsEnded() {}
