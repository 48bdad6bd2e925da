// Package log stands in for the real one.
package log

import (
	"fmt"
	"io"

	"github.com/zeldovich/go-rpcgen/zz_verif/f/os"
)

const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

func SetFlags(int)                      {}
func SetPrefix(string)                  {}
func Print(a ...interface{})            {}
func Printf(f string, a ...interface{}) {}
func Println(a ...interface{})          {}
func Fatal(a ...interface{})            { os.Exit(1) }
func Fatalf(f string, a ...interface{}) { os.Exit(1) }
func Fatalln(a ...interface{})          { os.Exit(1) }
func Panic(a ...interface{})            { panic(fmt.Sprint(a...)) }
func Panicf(f string, a ...interface{}) { panic(fmt.Sprintf(f, a...)) }
func Panicln(a ...interface{})          { panic(fmt.Sprintln(a...)) }

type Logger struct{}

func New(io.Writer, string, int) *Logger          { return &Logger{} }
func Default() *Logger                            { return &Logger{} }
func SetOutput(io.Writer)                         {}
func (*Logger) Print(a ...interface{})            {}
func (*Logger) Printf(f string, a ...interface{}) {}
func (*Logger) Println(a ...interface{})          {}
func (*Logger) Fatal(a ...interface{})            { os.Exit(1) }
func (*Logger) Fatalf(f string, a ...interface{}) { os.Exit(1) }
func (*Logger) Fatalln(a ...interface{})          { os.Exit(1) }
