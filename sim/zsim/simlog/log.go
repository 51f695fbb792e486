// Package simlog stands in for package log: messages go to the event log.
package simlog

import (
	"fmt"
	"io"
	"log"

	"github.com/rmera/boo/zsim/simrt"
)

type Logger = log.Logger

const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

// Lines counts the messages logged since it was last reset.
var Lines int

func out(s string) { Lines++; simrt.Logf("log: %s", s) }

func Println(v ...any)                         { out(fmt.Sprintln(v...)) }
func Printf(f string, v ...any)                { out(fmt.Sprintf(f, v...)) }
func Print(v ...any)                           { out(fmt.Sprint(v...)) }
func Fatal(v ...any)                           { panic("log.Fatal: " + fmt.Sprint(v...)) }
func Fatalf(f string, v ...any)                { panic("log.Fatal: " + fmt.Sprintf(f, v...)) }
func Fatalln(v ...any)                         { panic("log.Fatal: " + fmt.Sprintln(v...)) }
func Panic(v ...any)                           { panic(fmt.Sprint(v...)) }
func Panicf(f string, v ...any)                { panic(fmt.Sprintf(f, v...)) }
func Panicln(v ...any)                         { panic(fmt.Sprintln(v...)) }
func SetOutput(io.Writer)                      {}
func SetFlags(int)                             {}
func SetPrefix(string)                         {}
func Flags() int                               { return 0 }
func Prefix() string                           { return "" }
func Writer() io.Writer                        { return io.Discard }
func Default() *Logger                         { return log.New(io.Discard, "", 0) }
func New(w io.Writer, p string, f int) *Logger { return log.New(io.Discard, p, f) }
