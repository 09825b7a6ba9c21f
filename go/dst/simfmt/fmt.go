// Package simfmt is package fmt with a simulated standard output.
package simfmt

import (
	"fmt"
	"io"

	"github.com/Fantom-foundation/Tosca/go/dst/simos"
)

type (
	Stringer   = fmt.Stringer
	GoStringer = fmt.GoStringer
	Formatter  = fmt.Formatter
	State      = fmt.State
	Scanner    = fmt.Scanner
	ScanState  = fmt.ScanState
)

func Sprintf(format string, a ...any) string               { return fmt.Sprintf(format, a...) }
func Sprint(a ...any) string                               { return fmt.Sprint(a...) }
func Sprintln(a ...any) string                             { return fmt.Sprintln(a...) }
func Errorf(format string, a ...any) error                 { return fmt.Errorf(format, a...) }
func Append(b []byte, a ...any) []byte                     { return fmt.Append(b, a...) }
func Appendf(b []byte, f string, a ...any) []byte          { return fmt.Appendf(b, f, a...) }
func Appendln(b []byte, a ...any) []byte                   { return fmt.Appendln(b, a...) }
func Fprintf(w io.Writer, f string, a ...any) (int, error) { return fmt.Fprintf(w, f, a...) }
func Fprint(w io.Writer, a ...any) (int, error)            { return fmt.Fprint(w, a...) }
func Fprintln(w io.Writer, a ...any) (int, error)          { return fmt.Fprintln(w, a...) }
func Printf(format string, a ...any) (int, error)          { return fmt.Fprintf(simos.Stdout, format, a...) }
func Print(a ...any) (int, error)                          { return fmt.Fprint(simos.Stdout, a...) }
func Println(a ...any) (int, error)                        { return fmt.Fprintln(simos.Stdout, a...) }
func Sscanf(s, format string, a ...any) (int, error)       { return fmt.Sscanf(s, format, a...) }
func Sscan(s string, a ...any) (int, error)                { return fmt.Sscan(s, a...) }
func Sscanln(s string, a ...any) (int, error)              { return fmt.Sscanln(s, a...) }
func Fscanf(r io.Reader, f string, a ...any) (int, error)  { return fmt.Fscanf(r, f, a...) }
func Fscan(r io.Reader, a ...any) (int, error)             { return fmt.Fscan(r, a...) }
func Fscanln(r io.Reader, a ...any) (int, error)           { return fmt.Fscanln(r, a...) }
func FormatString(s State, v rune) string                  { return fmt.FormatString(s, v) }
