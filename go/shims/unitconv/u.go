package unitconv

import "fmt"

type Mode int

const (
	SI Mode = iota + 1
	IEC
	Base1024
)

func FormatPrefix(val float64, m Mode, n int) string { return fmt.Sprintf("%.*f", max(n, 0), val) }
