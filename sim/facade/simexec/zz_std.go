// Code generated by genfacade; DO NOT EDIT.

package simexec

import std "os/exec"

var ErrDot = std.ErrDot
var ErrNotFound = std.ErrNotFound
var ErrWaitDelay = std.ErrWaitDelay

type Error = std.Error
