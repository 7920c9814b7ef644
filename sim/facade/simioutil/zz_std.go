// Code generated by genfacade; DO NOT EDIT.

package simioutil

import std "io/ioutil"

var Discard = std.Discard
var NopCloser = std.NopCloser
var ReadAll = std.ReadAll
