// Code generated by cmd/genalias; DO NOT EDIT.

package vrand

import std "math/rand"

var ExpFloat64 = std.ExpFloat64
var NewZipf = std.NewZipf
var NormFloat64 = std.NormFloat64
var Read = std.Read

type Zipf = std.Zipf
