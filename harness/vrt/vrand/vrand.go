// Package vrand replaces math/rand in instrumented code: draws are choices.
package vrand

import (
	"math/rand"

	"vharness/vrt"
)

type Source = rand.Source
type Source64 = rand.Source64

func NewSource(seed int64) Source { return rand.NewSource(seed) }

func draw(n int) int {
	e := vrt.Cur
	if e == nil || n <= 1 {
		return 0
	}
	if e.RandMax > 0 && n > e.RandMax {
		e.RandCtr++
		return (e.RandCtr / 10) % n
	}
	if n > 64 {
		n = 64
	}
	return e.Choose(vrt.KRand, n, !e.RandFree)
}

// Rand mirrors rand.Rand.
type Rand struct{}

func New(Source) *Rand { return &Rand{} }

func Seed(int64)                         {}
func Intn(n int) int                     { return g.Intn(n) }
func Int31n(n int32) int32               { return int32(g.Intn(int(n))) }
func Int63n(n int64) int64               { return int64(g.Intn(int(n))) }
func Int() int                           { return draw(64) }
func Int31() int32                       { return int32(draw(64)) }
func Int63() int64                       { return int64(draw(64)) }
func Uint32() uint32                     { return uint32(draw(64)) }
func Uint64() uint64                     { return uint64(draw(64)) }
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return float32(g.Float64()) }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }

var g = &Rand{}

func (*Rand) Seed(int64) {}
func (*Rand) Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return draw(n)
}
func (r *Rand) Int31n(n int32) int32 { return int32(r.Intn(int(n))) }
func (r *Rand) Int63n(n int64) int64 { return int64(r.Intn(int(n))) }
func (*Rand) Int() int               { return draw(64) }
func (*Rand) Int31() int32           { return int32(draw(64)) }
func (*Rand) Int63() int64           { return int64(draw(64)) }
func (*Rand) Uint32() uint32         { return uint32(draw(64)) }
func (*Rand) Uint64() uint64         { return uint64(draw(64)) }
func (*Rand) Float64() float64       { return []float64{0, 0.3, 0.6, 0.999999}[draw(4)] }
func (r *Rand) Float32() float32     { return float32(r.Float64()) }
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	r.Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, draw(i+1))
	}
}
