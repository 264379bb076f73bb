//go:build race

package vrt

import (
	"runtime"
	"unsafe"
)

const RaceOn = true

func RaceOff()                     { runtime.RaceDisable() }
func RaceBack()                    { runtime.RaceEnable() }
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
