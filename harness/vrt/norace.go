//go:build !race

package vrt

import "unsafe"

const RaceOn = false

func RaceOff()                     {}
func RaceBack()                    {}
func RaceAcquire(p unsafe.Pointer) {}
func RaceRelease(p unsafe.Pointer) {}
