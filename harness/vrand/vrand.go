// Package vrand replaces math/rand in instrumented code: inside a controlled task the explorer chooses the values.
package vrand

import (
	"math/rand"
	"sync/atomic"

	"verif.local/h/vsched"
)

type Rand struct{ r *rand.Rand }
type Source = rand.Source
type Source64 = rand.Source64
type Zipf = rand.Zipf

func New(s Source) *Rand           { return &Rand{rand.New(s)} }
func NewSource(seed int64) Source  { return rand.NewSource(seed) }
func Seed(seed int64)              {}

// All is the size up to which every value of a range is offered to the explorer.
var All int64 = 6

// Values is how many representative values of a larger range are offered (1 to 3).
var Values = 3

// Partial counts the draws for which only some of the possible values were offered.
var Partial atomic.Int64

// Picked is called for every draw with the number of values, and whether all of them were offered.
var Picked func(n int64, all bool)

func picked(n int64, all bool) {
	if Picked != nil {
		Picked(n, all)
	}
}

// pick offers the explorer every value of small ranges, and the ends and the middle of large ones.
func pick(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if !vsched.InTask() {
		return rand.Int63n(n)
	}
	picked(n, n <= All)
	if n <= All {
		return int64(vsched.Choose(int(n)))
	}
	Partial.Add(1)
	switch vsched.Choose(Values) {
	case 1:
		return n - 1
	case 2:
		return n / 2
	}
	return 0
}

func f64() float64 {
	if !vsched.InTask() {
		return rand.Float64()
	}
	picked(0, false)
	Partial.Add(1)
	return []float64{0.5, 0, 0.999999}[vsched.Choose(Values)]
}

func Intn(n int) int             { return int(pick(int64(n))) }
func Int63n(n int64) int64       { return pick(n) }
func Int31n(n int32) int32       { return int32(pick(int64(n))) }
func Int() int                   { return int(pick(1 << 62)) }
func Int63() int64               { return pick(1 << 62) }
func Int31() int32               { return int32(pick(1 << 31)) }
func Uint32() uint32             { return uint32(pick(1 << 32)) }
func Uint64() uint64             { return uint64(pick(1 << 62)) }
func Float64() float64           { return f64() }
func Float32() float32           { return float32(f64()) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	picked(0, false)
	for i := n - 1; i > 0; i-- {
		swap(i, vsched.Choose(i+1))
	}
}
func NormFloat64() float64 { return f64() }
func ExpFloat64() float64  { return f64() }

// A Rand is not safe for concurrent use: touching r makes unsynchronised use visible to the race detector.
func (r *Rand) Intn(n int) int       { r.r.Int63(); return Intn(n) }
func (r *Rand) Int63n(n int64) int64 { r.r.Int63(); return Int63n(n) }
func (r *Rand) Int31n(n int32) int32 { r.r.Int63(); return Int31n(n) }
func (r *Rand) Int() int             { r.r.Int63(); return Int() }
func (r *Rand) Int63() int64         { r.r.Int63(); return Int63() }
func (r *Rand) Int31() int32         { r.r.Int63(); return Int31() }
func (r *Rand) Uint32() uint32       { r.r.Int63(); return Uint32() }
func (r *Rand) Uint64() uint64       { r.r.Int63(); return Uint64() }
func (r *Rand) Float64() float64     { r.r.Int63(); return Float64() }
func (r *Rand) Float32() float32     { r.r.Int63(); return Float32() }
func (r *Rand) NormFloat64() float64 { return f64() }
func (r *Rand) ExpFloat64() float64  { return f64() }
func (r *Rand) Perm(n int) []int     { return Perm(n) }
func (r *Rand) Shuffle(n int, swap func(i, j int)) { Shuffle(n, swap) }
func (r *Rand) Seed(seed int64)      { r.r.Seed(seed) }
