// Code generated by genfacade; DO NOT EDIT.

package simcontext

import std "context"

var Background = std.Background

type CancelCauseFunc = std.CancelCauseFunc
type CancelFunc = std.CancelFunc

var Canceled = std.Canceled
var Cause = std.Cause

type Context = std.Context

var DeadlineExceeded = std.DeadlineExceeded
var TODO = std.TODO
var WithCancel = std.WithCancel
var WithCancelCause = std.WithCancelCause
var WithDeadline = std.WithDeadline
var WithDeadlineCause = std.WithDeadlineCause
var WithTimeout = std.WithTimeout
var WithTimeoutCause = std.WithTimeoutCause
var WithValue = std.WithValue
var WithoutCancel = std.WithoutCancel
