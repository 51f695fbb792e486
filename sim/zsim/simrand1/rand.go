// Package simrand1 stands in for math/rand.
package simrand1

import (
	"math/rand"

	"github.com/rmera/boo/zsim/simrt"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

type src struct{}

func (src) Int63() int64   { return int64(simrt.CurStream().Uint64() >> 1) }
func (src) Uint64() uint64 { return simrt.CurStream().Uint64() }
func (src) Seed(int64)     {}

func g() *rand.Rand { return rand.New(src{}) }

func New(s Source) *Rand                                    { return rand.New(s) }
func NewSource(seed int64) Source                           { return rand.NewSource(seed) }
func NewZipf(r *Rand, s float64, v float64, i uint64) *Zipf { return rand.NewZipf(r, s, v, i) }
func Seed(int64)                                            {}
func Float64() float64                                      { return g().Float64() }
func Float32() float32                                      { return g().Float32() }
func Int() int                                              { return g().Int() }
func Intn(n int) int                                        { return g().Intn(n) }
func Int31() int32                                          { return g().Int31() }
func Int31n(n int32) int32                                  { return g().Int31n(n) }
func Int63() int64                                          { return g().Int63() }
func Int63n(n int64) int64                                  { return g().Int63n(n) }
func Uint32() uint32                                        { return g().Uint32() }
func Uint64() uint64                                        { return g().Uint64() }
func NormFloat64() float64                                  { return g().NormFloat64() }
func ExpFloat64() float64                                   { return g().ExpFloat64() }
func Perm(n int) []int                                      { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int))                    { g().Shuffle(n, swap) }
