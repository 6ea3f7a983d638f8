// C23: torus and bit-string conversions are exact and mutually inverse.
package main

import (
	"math"
	"math/big"
	mrand "math/rand"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/utils"
	"pgregory.net/rapid"
	"verif/core"
)

// want is the exact oracle: trunc(d*2^32) mod 2^32 in arbitrary precision. (The integer
// part contributes a multiple of 2^32, and truncation is toward zero on both sides.)
func want(d float64) core.Torus {
	x := new(big.Float).SetFloat64(d)
	if x.Sign() != 0 {
		x.SetMantExp(x, 32)
	}
	i, _ := x.Int(nil)
	i.Mod(i, new(big.Int).Lsh(big.NewInt(1), 32))
	return core.Torus(i.Uint64())
}

type Real struct {
	Style string
	Bits  []uint64 // float64 bit patterns
}

var styles = []string{"unit", "bits", "grid", "nearint", "nearulp", "special", "tiny", "mid", "huge", "dyadic"}

func genReal(t *rapid.T, c *core.Ctx) Real {
	cs := Real{Style: core.Choose(t, "style", styles)}
	r := core.RNG(core.GenSeed(t))
	n := core.IntIn(t, "n", 0, 64)
	if core.Pick(t, "long", 40) == 0 {
		n = core.Choose(t, "ln", []int{127, 128, 255, 257, 512, 1000, 1023, 1024, 1025, 2047, 2049, 4097})
	}
	sgn := func(x float64) float64 {
		if r.IntN(2) == 0 {
			return -x
		}
		return x
	}
	for i := 0; i < n; i++ {
		var d float64
		switch cs.Style {
		case "unit":
			d = sgn(r.Float64())
		case "bits": // any finite bit pattern
			for {
				d = math.Float64frombits(r.Uint64())
				if !math.IsNaN(d) && !math.IsInf(d, 0) {
					break
				}
			}
		case "grid": // exact torus values, shifted by integers
			d = sgn(float64(r.Uint32())/(1<<32) + float64(r.IntN(1<<19)))
		case "nearint":
			d = sgn(math.Nextafter(float64(r.IntN(1<<uint(1+r.IntN(30)))), sgn(math.Inf(1))))
		case "nearulp": // one float step around a torus grid point
			d = sgn(math.Nextafter(float64(r.Uint32())/(1<<32), sgn(math.Inf(1))))
		case "special":
			sp := []float64{0, math.Copysign(0, -1), 1, 0.5, 0.25, 0.125, 0.375, 0.875, 1.0 / 3, 0.1, 2, 1e9, 1 << 31, 1 << 32, 1 << 52, 1 << 53, math.MaxFloat64, math.SmallestNonzeroFloat64, 1.0 / (1 << 32), 1.0 / (1 << 33), 1 - 1.0/(1<<32), 1 - 1.0/(1<<53), 0.5 - 1.0/(1<<33)}
			d = sgn(sp[r.IntN(len(sp))])
		case "tiny":
			d = sgn(r.Float64() * math.Pow(2, -float64(r.IntN(80))))
		case "mid":
			d = sgn(r.Float64() * math.Pow(2, float64(r.IntN(53))))
		case "huge":
			d = sgn(r.Float64() * math.Pow(2, float64(40+r.IntN(900))))
		case "dyadic":
			d = sgn(float64(r.IntN(1<<12)) / float64(int(1)<<uint(r.IntN(20))))
		}
		cs.Bits = append(cs.Bits, math.Float64bits(d))
	}
	return cs
}

func runReal(c *core.Ctx, cs Real) error {
	ds := make([]float64, len(cs.Bits))
	for i, b := range cs.Bits {
		ds[i] = math.Float64frombits(b)
	}
	vec := utils.F64ToTorusVec(ds)
	if len(vec) != len(ds) {
		return core.Errf("F64ToTorusVec of %d values returned %d", len(ds), len(vec))
	}
	for i, d := range ds {
		if math.Float64bits(d) != cs.Bits[i] {
			return core.Errf("F64ToTorusVec modified its input")
		}
		w := want(d)
		if got := utils.F64ToTorus(d); got != w {
			return core.Errf("F64ToTorus(%v) = %#x, exact value %#x", d, uint32(got), uint32(w))
		}
		if vec[i] != w {
			return core.Errf("F64ToTorusVec element %d (%v) = %#x, exact value %#x", i, d, uint32(vec[i]), uint32(w))
		}
		// noiseless gaussian sampling is the conversion
		if g := utils.GaussianF64(d, 0, mrand.New(mrand.NewSource(1))); g != w {
			return core.Errf("GaussianF64(%v, 0) = %#x, want %#x", d, uint32(g), uint32(w))
		}
	}
	if gv := utils.GaussianF64Vec(ds, 0, mrand.New(mrand.NewSource(1))); !core.Equal(gv, vec) {
		return core.Errf("GaussianF64Vec with zero deviation differs from the conversion")
	}
	c.Count("values", float64(len(ds)))
	c.Class("real:" + cs.Style)
	return nil
}

type Range struct {
	From   uint32
	Stride uint32
	N      int
}

func genRange(t *rapid.T, c *core.Ctx) Range {
	return Range{From: core.GenTorus().Draw(t, "from"), Stride: core.Choose(t, "stride", []uint32{1, 1, 3, 0x10001, 0x9e3779b1, 1 << 20, 0x7fffffff}), N: core.Choose(t, "n", []int{1, 100, 5000, 50000})}
}

func roundTrip(t core.Torus) error {
	f := utils.TorusToF64(t)
	if f*(1<<32) != float64(t) { // exact: division by a power of two
		return core.Errf("TorusToF64(%#x) = %v, want %v", uint32(t), f, math.Ldexp(float64(t), -32))
	}
	if b := utils.F64ToTorus(f); b != t {
		return core.Errf("F64ToTorus(TorusToF64(%#x)) = %#x", uint32(t), uint32(b))
	}
	if b := utils.F64ToTorus(-f); b != -t {
		return core.Errf("F64ToTorus(-TorusToF64(%#x)) = %#x, want %#x", uint32(t), uint32(b), uint32(-t))
	}
	return nil
}

func runRange(c *core.Ctx, cs Range) error {
	v := cs.From
	for i := 0; i < cs.N; i++ {
		t := core.Torus(v)
		if err := roundTrip(t); err != nil {
			return err
		}
		k := float64(int32(v*2654435761) >> 12) // integer shift, exact in a float64
		if b := utils.F64ToTorus(utils.TorusToF64(t) + k); b != t {
			return core.Errf("F64ToTorus(TorusToF64(%#x)%+v) = %#x", v, k, uint32(b))
		}
		v += cs.Stride
	}
	c.Count("torus_values", float64(cs.N))
	return nil
}

// Block is one 1/4096 of the torus, checked exhaustively (thorough tier).
type Block struct{ Top int }

func genBlock(t *rapid.T, c *core.Ctx) Block { return Block{Top: core.Pick(t, "top", 4096)} }

func runBlock(c *core.Ctx, cs Block) error {
	for i := 0; i < 1<<20; i++ {
		if err := roundTrip(core.Torus(cs.Top<<20 | i)); err != nil {
			return err
		}
	}
	c.Count("torus_values", 1<<20)
	return nil
}

type BitCase struct {
	V    uint64
	Size int
	Len  int
}

func genBit(t *rapid.T, c *core.Ctx) BitCase {
	v := rapid.OneOf(rapid.Uint64(), rapid.SampledFrom([]uint64{0, 1, 2, 0x80, 0xff, 0x100, 0x8000, 0xffff, 0x10000, 0x80000000, 0xffffffff, 1 << 32, 1 << 63, math.MaxUint64, 0xaaaaaaaaaaaaaaaa, 0x5555555555555555})).Draw(t, "v")
	return BitCase{V: v, Size: rapid.OneOf(rapid.IntRange(0, 64), rapid.IntRange(0, 64), rapid.IntRange(65, 200)).Draw(t, "size"), Len: core.IntIn(t, "len", 0, 64)}
}

func bitsEq(got []bool, v uint64, size int) bool {
	if len(got) != size {
		return false
	}
	for i := range got {
		want := i < 64 && v/(1<<uint(i&63))%2 == 1 // bits beyond the value are zero
		if got[i] != want {
			return false
		}
	}
	return true
}

func runBit(c *core.Ctx, cs BitCase) error {
	v := cs.V
	if !bitsEq(bitutils.ToBits(v, cs.Size), v, cs.Size) {
		return core.Errf("ToBits(%#x, %d) = %v", v, cs.Size, bitutils.ToBits(v, cs.Size))
	}
	if !bitsEq(bitutils.U8ToBits(uint8(v)), v&0xff, 8) || !bitsEq(bitutils.U16ToBits(uint16(v)), v&0xffff, 16) || !bitsEq(bitutils.U32ToBits(uint32(v)), v&0xffffffff, 32) || !bitsEq(bitutils.U64ToBits(v), v, 64) {
		return core.Errf("UxToBits wrong for %#x", v)
	}
	if g := bitutils.ConvertU8(bitutils.U8ToBits(uint8(v))); g != uint8(v) {
		return core.Errf("8-bit round trip of %#x gives %#x", uint8(v), g)
	}
	if g := bitutils.ConvertU16(bitutils.U16ToBits(uint16(v))); g != uint16(v) {
		return core.Errf("16-bit round trip of %#x gives %#x", uint16(v), g)
	}
	if g := bitutils.ConvertU32(bitutils.U32ToBits(uint32(v))); g != uint32(v) {
		return core.Errf("32-bit round trip of %#x gives %#x", uint32(v), g)
	}
	if g := bitutils.ConvertU64(bitutils.U64ToBits(v)); g != v {
		return core.Errf("64-bit round trip of %#x gives %#x", v, g)
	}
	// bit lists of any length up to the width
	l := cs.Len
	bs := make([]bool, l)
	for i := range bs {
		bs[i] = v/(1<<uint(i))%2 == 1
	}
	bc := append([]bool(nil), bs...)
	low := v
	if l < 64 {
		low = v % (1 << uint(l))
	}
	if l <= 8 {
		if g := bitutils.ConvertU8(bs); uint64(g) != low {
			return core.Errf("ConvertU8 of %d bits of %#x gives %#x", l, v, g)
		}
	}
	if l <= 16 {
		if g := bitutils.ConvertU16(bs); uint64(g) != low {
			return core.Errf("ConvertU16 of %d bits of %#x gives %#x", l, v, g)
		}
	}
	if l <= 32 {
		if g := bitutils.ConvertU32(bs); uint64(g) != low {
			return core.Errf("ConvertU32 of %d bits of %#x gives %#x", l, v, g)
		}
	}
	if g := bitutils.ConvertU64(bs); g != low {
		return core.Errf("ConvertU64 of %d bits of %#x gives %#x", l, v, g)
	}
	for i := range bs {
		if bs[i] != bc[i] {
			return core.Errf("conversion modified its bit slice")
		}
	}
	return nil
}

func main() {
	core.Main(&core.Prop{
		ID:   "C23",
		Rule: "real = 0-64 float64 values of one of ten styles (uniform, any finite bit pattern, grid points shifted by integers, one float step around integers and grid points, special, tiny, huge); range = up to 50000 torus values from a boundary-biased start with a stride; bits = 64-bit value, width and list length; oracle = arbitrary-precision arithmetic; non-trivial: at least one value / width",
		Subs: []*core.Sub{
			core.NewSub("real", genReal, func(cs Real) bool { return len(cs.Bits) > 0 }, runReal),
			core.NewSub("range", genRange, func(cs Range) bool { return cs.N > 1 }, runRange),
			core.NewSub("block", genBlock, func(cs Block) bool { return true }, runBlock),
			core.NewSub("bits", genBit, func(cs BitCase) bool { return cs.V != 0 && cs.Size > 0 }, runBit),
		},
		Plan: func(tier string) []core.Job {
			f, bl := 1, 8
			if tier == "thorough" {
				f, bl = 30, 1500
			}
			var js []core.Job
			for i := 0; i < 8; i++ {
				js = append(js, core.Job{Runs: []core.RunSpec{{Sub: "real", N: 3000 * f}, {Sub: "range", N: 150 * f}, {Sub: "block", N: bl}, {Sub: "bits", N: 20000 * f}}})
			}
			return js
		},
	})
}
