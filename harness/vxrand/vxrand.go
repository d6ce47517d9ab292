// Package vxrand replaces golang.org/x/exp/rand in instrumented code: inside a controlled task the explorer chooses the
// values drawn from the global generator; explicitly seeded sources are deterministic and stay as they are.
package vxrand

import (
	"golang.org/x/exp/rand"
	"verif.local/h/vrand"
)

type Rand = rand.Rand
type Source = rand.Source
type Zipf = rand.Zipf
type LockedSource = rand.LockedSource
type PCGSource = rand.PCGSource

func New(s Source) *Rand            { return rand.New(s) }
func NewSource(seed uint64) Source  { return rand.NewSource(seed) }
func Seed(seed uint64)              {}
func Intn(n int) int                { return vrand.Intn(n) }
func Int63n(n int64) int64          { return vrand.Int63n(n) }
func Int31n(n int32) int32          { return vrand.Int31n(n) }
func Uint64n(n uint64) uint64       { return uint64(vrand.Int63n(int64(n))) }
func Int() int                      { return vrand.Int() }
func Int63() int64                  { return vrand.Int63() }
func Int31() int32                  { return vrand.Int31() }
func Uint32() uint32                { return vrand.Uint32() }
func Uint64() uint64                { return vrand.Uint64() }
func Float64() float64              { return vrand.Float64() }
func Float32() float32              { return vrand.Float32() }
func Perm(n int) []int              { return vrand.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { vrand.Shuffle(n, swap) }
func NormFloat64() float64          { return vrand.NormFloat64() }
func ExpFloat64() float64           { return vrand.ExpFloat64() }
