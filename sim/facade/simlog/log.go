// Package simlog stands in for package log: the standard logger writes to the standard error of the simulated process,
// and what ends the process ends the simulated one.
package simlog

import (
	std "log"

	"simkit/facade/simos"
	"simkit/world"
)

type stderr struct{}

func (stderr) Write(p []byte) (int, error) { return world.StdFile(2).Write(p) }

func lg() *std.Logger { return std.New(stderr{}, ``, 0) }

// Default is the standard logger.
func Default() *std.Logger { return lg() }

func Print(v ...interface{})            { lg().Print(v...) }
func Printf(f string, v ...interface{}) { lg().Printf(f, v...) }
func Println(v ...interface{})          { lg().Println(v...) }

func Fatal(v ...interface{}) {
	lg().Print(v...)
	simos.Exit(1)
}

func Fatalf(f string, v ...interface{}) {
	lg().Printf(f, v...)
	simos.Exit(1)
}

func Fatalln(v ...interface{}) {
	lg().Println(v...)
	simos.Exit(1)
}

func Panic(v ...interface{})            { lg().Panic(v...) }
func Panicf(f string, v ...interface{}) { lg().Panicf(f, v...) }
func Panicln(v ...interface{})          { lg().Panicln(v...) }
