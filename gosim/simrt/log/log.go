package log

import (
	"fmt"
	"io"

	os "github.com/grayscale-lang/grayscale/simrt/os"
)

const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

type Logger struct {
	w io.Writer
	p string
}

func New(w io.Writer, p string, f int) *Logger { return &Logger{w, p} }

var std = &Logger{w: os.Stderr}

func nl(s string) string {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	return s
}
func (l *Logger) Printf(f string, a ...any) { fmt.Fprint(l.w, l.p+nl(fmt.Sprintf(f, a...))) }
func (l *Logger) Println(a ...any)          { fmt.Fprint(l.w, l.p+fmt.Sprintln(a...)) }
func (l *Logger) Print(a ...any)            { fmt.Fprint(l.w, l.p+nl(fmt.Sprint(a...))) }
func (l *Logger) Fatalf(f string, a ...any) { l.Printf(f, a...); os.Exit(1) }
func (l *Logger) Fatal(a ...any)            { l.Print(a...); os.Exit(1) }
func Printf(f string, a ...any)             { std.Printf(f, a...) }
func Println(a ...any)                      { std.Println(a...) }
func Print(a ...any)                        { std.Print(a...) }
func Fatalf(f string, a ...any)             { std.Fatalf(f, a...) }
func Fatal(a ...any)                        { std.Fatal(a...) }
func Fatalln(a ...any)                      { std.Println(a...); os.Exit(1) }
func SetFlags(int)                          {}
func SetPrefix(p string)                    { std.p = p }
func SetOutput(w io.Writer)                 { std.w = w }

func (l *Logger) Fatalln(a ...any)          { l.Println(a...); os.Exit(1) }
func (l *Logger) Panicf(f string, a ...any) { l.Printf(f, a...); panic(fmt.Sprintf(f, a...)) }
func (l *Logger) Panic(a ...any)            { l.Print(a...); panic(fmt.Sprint(a...)) }
func (l *Logger) SetFlags(int)              {}
func (l *Logger) SetPrefix(p string)        { l.p = p }
func (l *Logger) Prefix() string            { return l.p }
func (l *Logger) SetOutput(w io.Writer)     { l.w = w }
func (l *Logger) Writer() io.Writer         { return l.w }
func Panicf(f string, a ...any)             { std.Panicf(f, a...) }
func Panic(a ...any)                        { std.Panic(a...) }
func Default() *Logger                      { return std }
func Flags() int                            { return 0 }
func Prefix() string                        { return std.p }
func Writer() io.Writer                     { return std.w }
