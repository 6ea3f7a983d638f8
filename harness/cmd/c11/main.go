// C11: gadget decomposition digits are bounded and recompose to the input.
package main

import (
	"math"
	"runtime"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"pgregory.net/rapid"
	"verif/core"
)

type Case struct {
	Seed   uint64
	LogN   int
	BgBit  int
	L      int
	Own    bool // parameters and offset of the current level
	Style  string
	Dirty  string
	Levels int // extra output polynomials
}

func gen(t *rapid.T, c *core.Ctx) Case {
	cs := Case{Seed: core.GenSeed(t), LogN: core.IntIn(t, "logn", 4, 11), Style: core.GenStyle(t, "style"), Dirty: core.GenStyle(t, "dirty"), Own: core.Pick(t, "own", 2) == 0, Levels: core.Pick(t, "ex", 2)}
	cs.BgBit = core.IntIn(t, "bg", 1, 24)
	cs.L = core.IntIn(t, "l", 1, min(8, 32/cs.BgBit))
	if core.Pick(t, "edges", 3) == 0 {
		cs.Style = "edges"
	}
	return cs
}

var offs = map[core.Level]core.Torus{}

func run(c *core.Ctx, cs Case) error {
	core.SetLevel(c.Level)
	n := 1 << cs.LogN
	bg, l := cs.BgBit, cs.L
	var off core.Torus
	if cs.Own {
		g := params.GetTRGSWLv1()
		bg, l = int(g.BGBIT), g.L
		if _, ok := offs[c.Level]; !ok {
			offs[c.Level] = cloudOffset()
		}
		off = offs[c.Level]
		c.Class("level parameters")
	} else {
		for i := 1; i <= l; i++ {
			off += core.Torus(1) << (bg - 1) << (32 - i*bg)
		}
		c.Class("custom base and depth")
	}
	p := core.FillTorus(cs.Style, cs.Seed, n)
	r := core.RNG(cs.Seed + 3)
	if cs.Style == "edges" { // around digit boundaries
		for i := range p {
			j := 1 + r.IntN(l)
			p[i] = core.Torus(r.Uint32())<<(32-j*bg) - core.Torus(1)<<(32-j*bg)/2 + core.Torus(int32(r.IntN(5)-2))
			if r.IntN(2) == 0 {
				p[i] = -off + core.Torus(int32(r.IntN(5)-2))
			}
		}
	}
	in := core.Clone(p)
	out := make([]poly.Poly, l+cs.Levels)
	for i := range out {
		out[i] = poly.Poly{Coeffs: core.FillTorus(cs.Dirty, cs.Seed+uint64(i)*7, n)}
	}
	extra := core.FillTorus(cs.Dirty, cs.Seed+uint64(l)*7, n)
	poly.DecomposePolyAssign(p, bg, l, off, out)
	if !core.Equal(p, in) {
		return core.Errf("decomposition modified its input")
	}
	if cs.Levels > 0 && !core.Equal(out[l].Coeffs, extra) {
		return core.Errf("decomposition into %d levels wrote level %d", l, l+1)
	}
	half := int64(1) << (bg - 1)
	unit := math.Ldexp(1, 32-l*bg)
	for j := range p {
		var rec core.Torus
		for i := 0; i < l; i++ {
			d := int64(int32(out[i].Coeffs[j]))
			if d < -half || d >= half {
				return core.Errf("base 2^%d depth %d: digit %d of coefficient %d (value %d) is %d, outside [-%d,%d)", bg, l, i, j, p[j], d, half, half)
			}
			rec += core.Torus(uint64(d)) << (32 - (i+1)*bg)
		}
		e := float64(int32(p[j] - rec))
		if math.Abs(e) >= unit && !(unit == 1 && e == 0) {
			return core.Errf("base 2^%d depth %d: coefficient %d = %d recomposes to %d, off by %g (unit %g)", bg, l, j, p[j], rec, e, unit)
		}
		c.Max("max_err_over_unit_x1000", math.Round(math.Abs(e)/unit*1000))
	}
	c.Count("coefficients", float64(n))
	// independence: each coefficient alone decomposes to the same digits
	for k := 0; k < 4; k++ {
		j := r.IntN(n)
		q := core.FillTorus("uniform", cs.Seed+uint64(k)*31, n)
		q[j] = p[j]
		o2 := make([]poly.Poly, l)
		for i := range o2 {
			o2[i] = poly.NewPoly(n)
		}
		poly.DecomposePolyAssign(q, bg, l, off, o2)
		for i := range o2 {
			if o2[i].Coeffs[j] != out[i].Coeffs[j] {
				return core.Errf("digit %d of coefficient %d depends on other coefficients or previous buffer contents", i, j)
			}
		}
	}
	// the level's own decomposer buffers
	d := poly.NewDecomposer(n, 2*l)
	bufs, fb := d.GetPolyDecomposedBuffer(2*l), d.GetPolyFourierDecomposedBuffer(2*l)
	if len(bufs) != 2*l || len(fb) != 2*l {
		return core.Errf("decomposer for %d levels returns %d/%d buffers", 2*l, len(bufs), len(fb))
	}
	poly.DecomposePolyAssign(p, bg, l, off, bufs[:l])
	poly.DecomposePolyAssign(core.FillTorus("uniform", cs.Seed+11, n), bg, l, off, bufs[l:])
	for i := 0; i < l; i++ {
		if !core.Equal(bufs[i].Coeffs, out[i].Coeffs) {
			return core.Errf("decomposer buffer %d was overwritten by another level", i)
		}
	}
	return nil
}

// cloudOffset reads the offset a cloud key of the level uses (without key material).
// At the levels above Uint5 such a key has many gigabytes: there the definition is used.
func cloudOffset() core.Torus {
	g := params.GetTRGSWLv1()
	if int64(g.IKS_T)<<g.BASEBIT*int64(g.N)*int64(params.GetTLWELv0().N) < 300e6 {
		off := cloudkey.NewCloudKeyNoKSK().DecompositionOffset
		runtime.GC()
		return off
	}
	var off core.Torus
	for i := 1; i <= g.L; i++ {
		off += core.Torus(1) << (g.BGBIT - 1) << (32 - uint32(i)*g.BGBIT)
	}
	return off
}

func main() {
	core.Main(&core.Prop{
		ID:   "C11",
		Rule: "case = degree, base 2^1..2^24 and depth fitting 32 bits (or the level's own with the cloud key's offset), polynomial style incl. values around digit boundaries, previous buffer contents; every coefficient's digits checked for range, recomposition error < 1 unit of the last level, independence; non-trivial: polynomial not zero",
		Subs: []*core.Sub{core.NewSub("decompose", gen, func(cs Case) bool { return cs.Style != "zero" }, run)},
		Plan: func(tier string) []core.Job {
			f := 1
			if tier == "thorough" {
				f = 40
			}
			return core.LevelJobs(core.AllLevels, core.RunSpec{Sub: "decompose", N: 6000 * f})
		},
	})
}
