// Command simcheck decides one property by seeded simulation.
//
//	simcheck check PROPERTY quick|thorough
//	simcheck replay FILE
//	simcheck run PROPERTY SEED [trace]
//	simcheck determinism PROPERTY N
package main

import (
	"fmt"
	"os"
	"strconv"

	"simkit/orch"
)

func main() {
	a := os.Args[1:]
	if len(a) < 2 {
		fmt.Fprintln(os.Stderr, `usage: simcheck check PROPERTY quick|thorough | replay FILE | run PROPERTY SEED [trace] | determinism PROPERTY N`)
		os.Exit(2)
	}
	o, err := orch.New()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := 2
	switch a[0] {
	case `check`:
		tier := `quick`
		if len(a) > 2 {
			tier = a[2]
		}
		code = o.Check(a[1], tier)
	case `replay`:
		code = o.Replay(a[1])
	case `run`:
		seed, _ := strconv.ParseUint(a[2], 10, 64)
		code = o.One(a[1], seed, len(a) > 3)
	case `determinism`:
		n, _ := strconv.Atoi(a[2])
		code = o.Determinism(a[1], n)
	}
	o.Close()
	os.Exit(code)
}
