// Package simcontext stands in for package context.
package simcontext

import (
	std "context"

	"simkit/simrt"
)

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	return std.AfterFunc(ctx, func() { simrt.Adopt(`context.AfterFunc`, f) })
}
