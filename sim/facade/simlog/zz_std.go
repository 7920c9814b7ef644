// Code generated by genfacade; DO NOT EDIT.

package simlog

import std "log"

var Flags = std.Flags

const LUTC = std.LUTC
const Ldate = std.Ldate
const Llongfile = std.Llongfile
const Lmicroseconds = std.Lmicroseconds
const Lmsgprefix = std.Lmsgprefix

type Logger = std.Logger

const Lshortfile = std.Lshortfile
const LstdFlags = std.LstdFlags
const Ltime = std.Ltime

var New = std.New
var Output = std.Output
var Prefix = std.Prefix
var SetFlags = std.SetFlags
var SetOutput = std.SetOutput
var SetPrefix = std.SetPrefix
var Writer = std.Writer
