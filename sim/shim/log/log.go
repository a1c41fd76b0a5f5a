// Package log writes to the simulated standard error.
package log

import (
	"fmt"
	"io"
	"log"

	"alda.sim/rt"
	"alda.sim/shim/os"
)

type w struct{}

func (w) Write(b []byte) (int, error) { return (*os.SimStderr()).Write(b) }

var l = log.New(w{}, "", 0)

func Print(a ...interface{})            { l.Print(a...) }
func Println(a ...interface{})          { l.Println(a...) }
func Printf(f string, a ...interface{}) { l.Printf(f, a...) }
func Fatal(a ...interface{})            { l.Print(a...); rt.Exit(1) }
func Fatalln(a ...interface{})          { l.Println(a...); rt.Exit(1) }
func Fatalf(f string, a ...interface{}) { l.Printf(f, a...); rt.Exit(1) }
func Panic(a ...interface{})            { panic(fmt.Sprint(a...)) }
func Panicf(f string, a ...interface{}) { panic(fmt.Sprintf(f, a...)) }
func Panicln(a ...interface{})          { panic(fmt.Sprintln(a...)) }
func SetFlags(int)                      {}
func SetPrefix(p string)                { l.SetPrefix(p) }
func SetOutput(o io.Writer)             { l.SetOutput(o) }
func Default() *log.Logger              { return l }
