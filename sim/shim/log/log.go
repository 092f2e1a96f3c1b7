//go:build go1.25

// Package log is the log package with a silent standard logger and a simulated exit.
package log

import (
	"fmt"
	"io"
	real "log"

	"powsim/shim/os"
)

// Logger wraps log.Logger so that Fatal ends the simulated process.
type Logger struct{ *real.Logger }

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{real.New(w, prefix, flag)} }

var std = New(io.Discard, "", 0)

func Default() *Logger                              { return std }
func (l *Logger) Fatal(v ...interface{})            { l.Output(2, fmt.Sprint(v...)); os.Exit(1) }
func (l *Logger) Fatalf(f string, v ...interface{}) { l.Output(2, fmt.Sprintf(f, v...)); os.Exit(1) }
func (l *Logger) Fatalln(v ...interface{})          { l.Output(2, fmt.Sprintln(v...)); os.Exit(1) }

func Print(v ...interface{})            { std.Print(v...) }
func Printf(f string, v ...interface{}) { std.Printf(f, v...) }
func Println(v ...interface{})          { std.Println(v...) }
func Fatal(v ...interface{})            { std.Fatal(v...) }
func Fatalf(f string, v ...interface{}) { std.Fatalf(f, v...) }
func Fatalln(v ...interface{})          { std.Fatalln(v...) }
func Panic(v ...interface{})            { std.Panic(v...) }
func Panicf(f string, v ...interface{}) { std.Panicf(f, v...) }
func Panicln(v ...interface{})          { std.Panicln(v...) }
func SetOutput(w io.Writer)             { std.SetOutput(w) }
func SetFlags(f int)                    { std.SetFlags(f) }
func Flags() int                        { return std.Flags() }
func SetPrefix(p string)                { std.SetPrefix(p) }
func Prefix() string                    { return std.Prefix() }
func Writer() io.Writer                 { return std.Writer() }
func Output(d int, s string) error      { return std.Output(d+1, s) }
