// Package vshim replaces the sources of nondeterminism of the code under test.
package vshim

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/google/uuid"
	"github.com/lucasb-eyer/go-colorful"
)

// Draw is the random source: the harness decides every draw in [0,1).
// A nil Draw means a constant 0.5.
var Draw func() float64

// DrawCount counts draws (observability only).
var drawConst float64 = 0.5
var uuidCounter uint64

var drawPos func() int

// DrawPos is the position in the cycle of draws, 0 when they are constant.
func DrawPos() int {
	if drawPos == nil {
		return 0
	}
	return drawPos()
}

// SetConst makes every draw c.
func SetConst(c float64) { Draw, drawPos = nil, nil; drawConst = c }

// SetCycle makes the draws cycle through xs.
func SetCycle(xs ...float64) {
	i := 0
	drawPos = func() int { return i % len(xs) }
	Draw = func() float64 {
		v := xs[i%len(xs)]
		i++
		return v
	}
}

// ResetUUID restarts the deterministic identifier counter.
func ResetUUID(n uint64) { uuidCounter = n }

// UUIDCount is the number of identifiers drawn.
func UUIDCount() uint64 { return uuidCounter }

//go:norace
func draw() float64 {
	var v float64
	if Draw != nil {
		v = Draw()
	} else {
		v = drawConst
	}
	if v < 0 {
		v = 0
	}
	if v >= 1 {
		v = math.Nextafter(1, 0)
	}
	return v
}

func drawN(n int64) int64 {
	k := int64(draw() * float64(n))
	if k >= n {
		k = n - 1
	}
	return k
}

func expF() float64  { return -math.Log(1 - draw()) }
func normF() float64 { return (draw() - 0.5) * 6 }

// Rand stands for *rand.Rand. tick is deliberately a plain field: the race
// detector sees unsynchronised use of one source.
type Rand struct {
	*rand.Rand
	tick uint64
}

func NewRand(src rand.Source) *Rand { return &Rand{Rand: rand.New(src)} }

func (r *Rand) Float64() float64     { r.tick++; return draw() }
func (r *Rand) Float32() float32     { r.tick++; return float32(math.Min(draw(), 0.9999999)) }
func (r *Rand) Intn(n int) int       { r.tick++; check(n > 0, "Intn"); return int(drawN(int64(n))) }
func (r *Rand) Int63n(n int64) int64 { r.tick++; check(n > 0, "Int63n"); return drawN(n) }
func (r *Rand) Int31n(n int32) int32 { r.tick++; check(n > 0, "Int31n"); return int32(drawN(int64(n))) }
func (r *Rand) Int() int             { r.tick++; return int(drawN(math.MaxInt64)) }
func (r *Rand) Int63() int64         { r.tick++; return drawN(math.MaxInt64) }
func (r *Rand) Int31() int32         { r.tick++; return int32(drawN(math.MaxInt32)) }
func (r *Rand) Uint32() uint32       { r.tick++; return uint32(drawN(math.MaxUint32)) }
func (r *Rand) Uint64() uint64       { r.tick++; return uint64(drawN(math.MaxInt64)) }
func (r *Rand) ExpFloat64() float64  { r.tick++; return expF() }
func (r *Rand) NormFloat64() float64 { r.tick++; return normF() }
func (r *Rand) Perm(n int) []int     { r.tick++; return RandPerm(n) }
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	r.tick++
	RandShuffle(n, swap)
}

func check(ok bool, what string) {
	if !ok {
		panic("invalid argument to " + what)
	}
}

func RandFloat64() float64     { return draw() }
func RandFloat32() float32     { return float32(math.Min(draw(), 0.9999999)) }
func RandIntn(n int) int       { check(n > 0, "Intn"); return int(drawN(int64(n))) }
func RandInt() int             { return int(drawN(math.MaxInt64)) }
func RandInt63() int64         { return drawN(math.MaxInt64) }
func RandInt63n(n int64) int64 { check(n > 0, "Int63n"); return drawN(n) }
func RandInt31() int32         { return int32(drawN(math.MaxInt32)) }
func RandInt31n(n int32) int32 { check(n > 0, "Int31n"); return int32(drawN(int64(n))) }
func RandUint32() uint32       { return uint32(drawN(math.MaxUint32)) }
func RandUint64() uint64       { return uint64(drawN(math.MaxInt64)) }
func RandExpFloat64() float64  { return expF() }
func RandNormFloat64() float64 { return normF() }
func RandPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	RandShuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func RandShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(drawN(int64(i+1))))
	}
}

// FastRNG stands for fastrand.RNG.
type FastRNG struct{ x uint32 }

func (r *FastRNG) Uint32() uint32 { r.x++; return uint32(drawN(math.MaxUint32)) }
func (r *FastRNG) Uint32n(n uint32) uint32 {
	r.x++
	if n == 0 {
		return 0
	}
	return uint32(drawN(int64(n)))
}
func (r *FastRNG) Seed(uint32) {}

func FastUint32() uint32 { return uint32(drawN(math.MaxUint32)) }
func FastUint32n(n uint32) uint32 {
	if n == 0 {
		return 0
	}
	return uint32(drawN(int64(n)))
}

//go:norace
func nextUUID() uint64 { uuidCounter++; return uuidCounter }

func UUIDString() string { return fmt.Sprintf("00000000-0000-4000-8000-%012x", nextUUID()) }
func UUIDNew() uuid.UUID { return uuid.MustParse(UUIDString()) }
func UUIDNewRandom() (uuid.UUID, error) {
	return UUIDNew(), nil
}

func FastHappyColor() colorful.Color {
	n := int(draw() * 255)
	return colorful.Color{R: float64(n) / 255, G: 0.2, B: 0.4}
}
