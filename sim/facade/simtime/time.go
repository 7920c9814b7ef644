// Package simtime stands in for package time. The clock itself is the bubble's.
package simtime

import (
	std "time"

	"simkit/simrt"
)

func Sleep(d Duration) { simrt.Sleep(d) }

func AfterFunc(d Duration, f func()) *Timer {
	return std.AfterFunc(d, func() { simrt.Adopt(`timer`, f) })
}
