package vrt

import "unsafe"

func getg() uintptr

var goidOff uintptr

// The offset of the goroutine id inside the runtime's g is found by looking
// for the id that runtime.Stack reports, in several goroutines.
func init() {
	var cand []uintptr
	for i := 0; i < 8; i++ {
		ch := make(chan []uintptr)
		go func() {
			id, g := slowGoid(), getg()
			var r []uintptr
			for o := uintptr(0); o < 400; o += 8 {
				if *(*int64)(unsafe.Pointer(g + o)) == id {
					r = append(r, o)
				}
			}
			ch <- r
		}()
		r := <-ch
		if i == 0 {
			cand = r
			continue
		}
		var k []uintptr
		for _, a := range cand {
			for _, b := range r {
				if a == b {
					k = append(k, a)
				}
			}
		}
		cand = k
	}
	if len(cand) == 1 {
		goidOff = cand[0]
	}
}

//go:nocheckptr
func goid() int64 {
	if goidOff == 0 {
		return slowGoid()
	}
	return *(*int64)(unsafe.Pointer(getg() + goidOff))
}
