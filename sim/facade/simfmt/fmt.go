// Package simfmt stands in for package fmt: what is printed goes to the standard output of the simulated process.
package simfmt

import (
	std "fmt"

	"simkit/world"
)

func Print(a ...interface{}) (n int, err error) { return std.Fprint(world.StdFile(1), a...) }

func Println(a ...interface{}) (n int, err error) { return std.Fprintln(world.StdFile(1), a...) }

func Printf(f string, a ...interface{}) (n int, err error) {
	return std.Fprintf(world.StdFile(1), f, a...)
}
