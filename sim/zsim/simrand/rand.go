// Package simrand stands in for math/rand/v2: its top-level functions draw
// from the simulator's per-task stream.
package simrand

import (
	"math/rand/v2"

	"github.com/rmera/boo/zsim/simrt"
)

type (
	Rand    = rand.Rand
	Source  = rand.Source
	PCG     = rand.PCG
	ChaCha8 = rand.ChaCha8
	Zipf    = rand.Zipf
)

func New(s Source) *Rand                                    { return rand.New(s) }
func NewPCG(a, b uint64) *PCG                               { return rand.NewPCG(a, b) }
func NewChaCha8(s [32]byte) *ChaCha8                        { return rand.NewChaCha8(s) }
func NewZipf(r *Rand, s float64, v float64, i uint64) *Zipf { return rand.NewZipf(r, s, v, i) }

func g() *rand.Rand { return rand.New(simrt.CurStream()) }

func Float64() float64                   { return g().Float64() }
func Float32() float32                   { return g().Float32() }
func Int() int                           { return g().Int() }
func IntN(n int) int                     { return g().IntN(n) }
func Int32() int32                       { return g().Int32() }
func Int32N(n int32) int32               { return g().Int32N(n) }
func Int64() int64                       { return g().Int64() }
func Int64N(n int64) int64               { return g().Int64N(n) }
func Uint() uint                         { return g().Uint() }
func UintN(n uint) uint                  { return g().UintN(n) }
func Uint32() uint32                     { return g().Uint32() }
func Uint32N(n uint32) uint32            { return g().Uint32N(n) }
func Uint64() uint64                     { return g().Uint64() }
func Uint64N(n uint64) uint64            { return g().Uint64N(n) }
func NormFloat64() float64               { return g().NormFloat64() }
func ExpFloat64() float64                { return g().ExpFloat64() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }

type intType interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func N[Int intType](n Int) Int { return Int(g().Uint64N(uint64(n))) }
