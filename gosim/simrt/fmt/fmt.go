// Package fmt: the printing of the standard package onto the simulated standard streams.
package fmt

import (
	rf "fmt"
	"io"

	os "github.com/grayscale-lang/grayscale/simrt/os"
)

type (
	Stringer   = rf.Stringer
	GoStringer = rf.GoStringer
	Formatter  = rf.Formatter
	State      = rf.State
	Scanner    = rf.Scanner
	ScanState  = rf.ScanState
)

func Printf(f string, a ...any) (int, error)               { return rf.Fprintf(os.Stdout, f, a...) }
func Println(a ...any) (int, error)                        { return rf.Fprintln(os.Stdout, a...) }
func Print(a ...any) (int, error)                          { return rf.Fprint(os.Stdout, a...) }
func Fprintf(w io.Writer, f string, a ...any) (int, error) { return rf.Fprintf(w, f, a...) }
func Fprintln(w io.Writer, a ...any) (int, error)          { return rf.Fprintln(w, a...) }
func Fprint(w io.Writer, a ...any) (int, error)            { return rf.Fprint(w, a...) }
func Sprintf(f string, a ...any) string                    { return rf.Sprintf(f, a...) }
func Sprintln(a ...any) string                             { return rf.Sprintln(a...) }
func Sprint(a ...any) string                               { return rf.Sprint(a...) }
func Errorf(f string, a ...any) error                      { return rf.Errorf(f, a...) }
func Appendf(b []byte, f string, a ...any) []byte          { return rf.Appendf(b, f, a...) }
func Append(b []byte, a ...any) []byte                     { return rf.Append(b, a...) }
func Appendln(b []byte, a ...any) []byte                   { return rf.Appendln(b, a...) }
func Sscanf(s, f string, a ...any) (int, error)            { return rf.Sscanf(s, f, a...) }
func Sscan(s string, a ...any) (int, error)                { return rf.Sscan(s, a...) }
func Sscanln(s string, a ...any) (int, error)              { return rf.Sscanln(s, a...) }
func Fscanf(r io.Reader, f string, a ...any) (int, error)  { return rf.Fscanf(r, f, a...) }
func Fscan(r io.Reader, a ...any) (int, error)             { return rf.Fscan(r, a...) }
func Fscanln(r io.Reader, a ...any) (int, error)           { return rf.Fscanln(r, a...) }
func Scan(a ...any) (int, error)                           { return rf.Fscan(os.Stdin, a...) }
func Scanln(a ...any) (int, error)                         { return rf.Fscanln(os.Stdin, a...) }
func Scanf(f string, a ...any) (int, error)                { return rf.Fscanf(os.Stdin, f, a...) }
func FormatString(s State, v rune) string                  { return rf.FormatString(s, v) }
