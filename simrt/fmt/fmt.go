// Package fmt stands in for the standard package in instrumented code. The
// standard package recycles buffers through a pool, which would order
// otherwise unordered tasks in the eyes of the race detector, so those edges
// are hidden.
package fmt

import (
	"fmt"
	"io"

	"verif/simrt"
)

// Interfaces.
type (
	Formatter  = fmt.Formatter
	GoStringer = fmt.GoStringer
	ScanState  = fmt.ScanState
	Scanner    = fmt.Scanner
	State      = fmt.State
	Stringer   = fmt.Stringer
)

// The functions of package fmt.

func Append(b []byte, a ...any) []byte {
	simrt.RaceOff()
	defer simrt.RaceOn()
	return fmt.Append(b, a...)
}
func Appendf(b []byte, format string, a ...any) []byte {
	simrt.RaceOff()
	defer simrt.RaceOn()
	return fmt.Appendf(b, format, a...)
}
func Appendln(b []byte, a ...any) []byte {
	simrt.RaceOff()
	defer simrt.RaceOn()
	return fmt.Appendln(b, a...)
}
func Errorf(format string, a ...any) error {
	simrt.RaceOff()
	defer simrt.RaceOn()
	return fmt.Errorf(format, a...)
}
func FormatString(s State, v rune) string { return fmt.FormatString(s, v) }
func Fprint(w io.Writer, a ...any) (int, error) {
	simrt.RaceOff()
	defer simrt.RaceOn()
	return fmt.Fprint(w, a...)
}
func Fprintf(w io.Writer, format string, a ...any) (int, error) {
	simrt.RaceOff()
	defer simrt.RaceOn()
	return fmt.Fprintf(w, format, a...)
}
func Fprintln(w io.Writer, a ...any) (int, error) {
	simrt.RaceOff()
	defer simrt.RaceOn()
	return fmt.Fprintln(w, a...)
}
func Fscan(r io.Reader, a ...any) (int, error)                 { return fmt.Fscan(r, a...) }
func Fscanf(r io.Reader, format string, a ...any) (int, error) { return fmt.Fscanf(r, format, a...) }
func Fscanln(r io.Reader, a ...any) (int, error)               { return fmt.Fscanln(r, a...) }
func Print(a ...any) (int, error)                              { return fmt.Print(a...) }
func Printf(format string, a ...any) (int, error)              { return fmt.Printf(format, a...) }
func Println(a ...any) (int, error)                            { return fmt.Println(a...) }
func Scan(a ...any) (int, error)                               { return fmt.Scan(a...) }
func Scanf(format string, a ...any) (int, error)               { return fmt.Scanf(format, a...) }
func Scanln(a ...any) (int, error)                             { return fmt.Scanln(a...) }
func Sprint(a ...any) string {
	simrt.RaceOff()
	defer simrt.RaceOn()
	return fmt.Sprint(a...)
}
func Sprintf(format string, a ...any) string {
	simrt.RaceOff()
	defer simrt.RaceOn()
	return fmt.Sprintf(format, a...)
}
func Sprintln(a ...any) string {
	simrt.RaceOff()
	defer simrt.RaceOn()
	return fmt.Sprintln(a...)
}
func Sscan(str string, a ...any) (int, error) {
	simrt.RaceOff()
	defer simrt.RaceOn()
	return fmt.Sscan(str, a...)
}
func Sscanf(str string, format string, a ...any) (int, error) {
	simrt.RaceOff()
	defer simrt.RaceOn()
	return fmt.Sscanf(str, format, a...)
}
func Sscanln(str string, a ...any) (int, error) {
	simrt.RaceOff()
	defer simrt.RaceOn()
	return fmt.Sscanln(str, a...)
}
