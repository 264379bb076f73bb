package vh

import (
	"hash/fnv"
	"math"
	"reflect"
	"strings"
	"time"
	"unsafe"
)

func hashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

type hasher struct {
	h   uint64
	now time.Time
	ptr map[unsafe.Pointer]uint64
	pay map[string]uint64
	n   int
}

func (s *hasher) mix(v uint64) {
	s.h ^= v + 0x9e3779b97f4a7c15 + (s.h << 6) + (s.h >> 2)
	s.h *= 0xff51afd7ed558ccd
	s.h ^= s.h >> 33
}

// DeepHash hashes the whole object graph below the pointer v, including
// unexported fields, canonicalising pointers (first-visit numbering), floats
// (1e-9) and instants (relative to now).
func DeepHash(now time.Time, vs ...interface{}) uint64 {
	s := &hasher{now: now, ptr: map[unsafe.Pointer]uint64{}, pay: map[string]uint64{}, h: 14695981039346656037}
	for _, v := range vs {
		rv := reflect.ValueOf(v)
		s.walk(rv)
	}
	return s.h
}

var timeType = reflect.TypeOf(time.Time{})

func (s *hasher) alias(p unsafe.Pointer) bool {
	if id, ok := s.ptr[p]; ok {
		s.mix(0xA11A5 ^ id)
		return true
	}
	s.ptr[p] = uint64(len(s.ptr))
	return false
}

func (s *hasher) walk(v reflect.Value) {
	s.n++
	if s.n > 200000 {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			s.mix(1)
		} else {
			s.mix(2)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		s.mix(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		s.mix(v.Uint())
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		switch {
		case math.IsNaN(f):
			s.mix(0x7ff8)
		case math.IsInf(f, 0) || math.Abs(f) > 1e9:
			s.mix(math.Float64bits(f))
		default:
			s.mix(uint64(int64(math.Round(f*1e9))) ^ 0xF10A7)
		}
	case reflect.String:
		s.mix(hashString(v.String()))
	case reflect.Slice:
		if v.IsNil() {
			s.mix(0x5111)
			return
		}
		s.mix(uint64(v.Len())<<20 | uint64(v.Cap()))
		if v.Type().Elem().Kind() == reflect.Uint8 {
			// Payloads are opaque identities: number them by first appearance.
			b := string(v.Bytes())
			id, ok := s.pay[b]
			if !ok {
				id = uint64(len(s.pay)) + 1
				s.pay[b] = id
			}
			s.mix(id)
			return
		}
		if v.Cap() > 0 && v.Type().Elem().Size() > 0 {
			if s.alias(v.UnsafePointer()) && v.Type().Elem().Kind() != reflect.Uint8 {
				// contents may differ in length, walk anyway
			}
		}
		for i := 0; i < v.Len(); i++ {
			s.walk(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s.walk(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			s.mix(0x3a9)
			return
		}
		var sum uint64
		it := v.MapRange()
		for it.Next() {
			t := &hasher{now: s.now, ptr: map[unsafe.Pointer]uint64{}, pay: s.pay}
			t.walk(it.Key())
			t.walk(it.Value())
			sum += t.h
		}
		s.mix(uint64(v.Len()))
		s.mix(sum)
	case reflect.Ptr:
		if v.IsNil() {
			s.mix(0x911)
			return
		}
		if s.alias(v.UnsafePointer()) {
			return
		}
		s.walk(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			s.mix(0x117)
			return
		}
		s.mix(hashString(v.Elem().Type().String()))
		s.walk(v.Elem())
	case reflect.Struct:
		if n := v.Type().Name(); strings.HasSuffix(v.Type().PkgPath(), "vsync") && n != "Map" && n != "Pool" {
			// Locks: free between requests; their bookkeeping is the scheduler's.
			s.mix(0x10c)
			return
		}
		if v.Type() == timeType {
			var t time.Time
			if v.CanInterface() {
				t = v.Interface().(time.Time)
			} else if v.CanAddr() {
				t = *(*time.Time)(unsafe.Pointer(v.UnsafeAddr()))
			} else {
				c := reflect.New(timeType).Elem()
				_ = c
				s.mix(0x71)
				return
			}
			if t.IsZero() {
				s.mix(0x70)
			} else {
				// Only the order of now and future deadlines matters.
				d := t.Sub(s.now)
				switch {
				case d < 0:
					d = -1
				case d > 100*time.Hour:
					d = 100 * time.Hour
				}
				s.mix(uint64(d))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			s.walk(v.Field(i))
		}
	case reflect.Func:
		if v.IsNil() {
			s.mix(0xf0)
		} else {
			s.mix(0xf1)
		}
	case reflect.Chan:
		if v.IsNil() {
			s.mix(0xc0)
		} else {
			s.mix(0xc1 + uint64(v.Len()))
		}
	}
}
