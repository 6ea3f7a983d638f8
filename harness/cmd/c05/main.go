// C05: bootstrapping maps any ciphertext to the table entry its phase selects.
package main

import (
	"math"

	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"pgregory.net/rapid"
	"verif/core"
	"verif/pb"
)

type Case struct {
	Seed  uint64
	Mask  string  // mask style
	Idx   int     // target rotation index in units of N/512 (so it scales), or special
	Spec  string  // special index
	Sub   float64 // position of the body inside its rounding cell
	Table string
	Path  string
	Key   int
	Enc   bool // the table is an encrypted polynomial (random mask)
}

var specs = []string{"rel", "rel", "rel", "0", "1", "N-1", "N", "N+1", "2N-1", "body0", "bodymax", "bodymid"}
var tables = []string{"random", "random", "spike", "step", "const", "extreme", "ramp"}
var paths = []string{"bootstrapAssign", "bootstrap", "blindRotateAssign", "functional", "batch"}

func gen(t *rapid.T, c *core.Ctx) Case {
	return Case{
		Seed: core.GenSeed(t), Mask: core.Choose(t, "mask", core.MaskStyles),
		Idx: core.Pick(t, "idx", 8192), Spec: core.Choose(t, "spec", specs),
		Sub:   core.Choose(t, "sub", []float64{0.5, 0, 0.999999, 0.25, 1e-6, 0.75}),
		Table: core.Choose(t, "table", tables), Path: core.Choose(t, "path", paths),
		Enc: core.Pick(t, "enc", 3) == 0,
	}
}

func table(style string, seed uint64, n, idx int) []core.Torus {
	r := core.RNG(seed ^ 0x7ab1e)
	t := make([]core.Torus, n)
	switch style {
	case "spike":
		v := core.Torus(r.Uint32())
		t[idx%n] = v | 1<<29
	case "step":
		lo, hi := core.Torus(r.Uint32()), core.Torus(r.Uint32())
		for i := range t {
			if i < idx%n {
				t[i] = lo
			} else {
				t[i] = hi
			}
		}
	case "const":
		v := core.Torus(r.Uint32())
		for i := range t {
			t[i] = v
		}
	case "ramp":
		for i := range t {
			t[i] = core.Torus(uint64(i) * (1 << 31) / uint64(n))
		}
	case "extreme":
		copy(t, core.FillTorus("extreme", seed, n))
	default:
		for i := range t {
			t[i] = core.Torus(r.Uint32())
		}
	}
	return t
}

func eval(path string, k *core.Keys, ct *tlwe.TLWELv0, tv *trlwe.TRLWELv1) *tlwe.TLWELv0 {
	e := pb.Eval(k.Level)
	switch path {
	case "bootstrap":
		out := e.Bootstrap(ct, tv, k.CK.BootstrappingKey, k.CK.KeySwitchingKey, k.CK.DecompositionOffset)
		return &tlwe.TLWELv0{P: core.Clone(out.P)}
	case "blindRotateAssign":
		acc := trlwe.NewTRLWELv1()
		e.BlindRotateAssign(ct, tv, k.CK.BootstrappingKey, k.CK.DecompositionOffset, acc)
		return trgsw.IdentityKeySwitching(trlwe.SampleExtractIndex(acc, 0), k.CK.KeySwitchingKey)
	case "functional":
		pe := poly.NewEvaluator(params.GetTRGSWLv1().N)
		acc := trgsw.BlindRotate(ct, tv, k.CK.BootstrappingKey, k.CK.DecompositionOffset, pe)
		return trgsw.IdentityKeySwitching(trlwe.SampleExtractIndex(acc, 0), k.CK.KeySwitchingKey)
	case "batch":
		acc := trgsw.BatchBlindRotate([]*tlwe.TLWELv0{ct}, tv, k.CK.BootstrappingKey, k.CK.DecompositionOffset)[0]
		return trgsw.IdentityKeySwitching(trlwe.SampleExtractIndex(acc, 0), k.CK.KeySwitchingKey)
	default:
		out := tlwe.NewTLWELv0()
		e.BootstrapAssign(ct, tv, k.CK.BootstrappingKey, k.CK.KeySwitchingKey, k.CK.DecompositionOffset, out)
		return out
	}
}

func run(c *core.Ctx, cs Case) error {
	k := core.GetKeys(c.Level, cs.Key)
	n := params.GetTRGSWLv1().N
	s := k.SK.KeyLv0
	r := core.RNG(cs.Seed)
	idx := cs.Idx % (2 * n)
	if n > 4096 {
		idx = cs.Idx * (2 * n / 8192)
	}
	switch cs.Spec {
	case "0":
		idx = 0
	case "1":
		idx = 1
	case "N-1":
		idx = n - 1
	case "N":
		idx = n
	case "N+1":
		idx = n + 1
	case "2N-1":
		idx = 2*n - 1
	}
	ct := pb.CraftIdx(s, core.FillMask(r, cs.Mask, len(s)), idx, n, cs.Sub)
	switch cs.Spec {
	case "body0":
		ct.P[len(s)] = 0
	case "bodymax":
		ct.P[len(s)] = math.MaxUint32
	case "bodymid":
		ct.P[len(s)] = 1 << 31
	}
	got, _ := core.BRIndex(ct.P, s, n)
	tab := table(cs.Table, cs.Seed, n, got%n)
	tv := &trlwe.TRLWELv1{A: make([]core.Torus, n), B: core.Clone(tab)}
	if cs.Enc {
		tv = core.MakeRing(r, k.SK.KeyLv1, tab)
		c.Class("encrypted-table")
	}
	h := core.Hash(ct.P, tv.A, tv.B)
	out := eval(cs.Path, k, ct, tv)
	if core.Hash(ct.P, tv.A, tv.B) != h {
		return core.Errf("%s modified its input ciphertext or table", cs.Path)
	}
	if len(out.P) != len(s)+1 {
		return core.Errf("%s: result length %d", cs.Path, len(out.P))
	}
	ph := core.Phase(out.P, s)
	tol := core.Tol(c.Level)
	// components exactly half way may round either way: accept the neighbours they reach
	_, ties := core.BRIndex(ct.P, s, n)
	best := 2.0
	for d := -ties; d <= ties; d++ {
		best = math.Min(best, core.AbsDiff(ph, core.TableAt(tab, got+d)))
	}
	c.Class("spec:" + cs.Spec)
	c.Class("table:" + cs.Table)
	c.Class("path:" + cs.Path)
	if ties > 0 {
		c.Class("with-rounding-ties")
	}
	c.Count("bootstraps", 1)
	c.Max("max_dev_over_tol_x1000", math.Round(best/tol*1000))
	if best > tol {
		return core.Errf("%s: phase %d of the result is %.5f from the selected table entry %d (index %d of 2N=%d, bound %.5f)", cs.Path, ph, best, core.TableAt(tab, got), got, 2*n, tol)
	}
	return nil
}

// ---- noise does not depend on the input noise: RMS over many bootstraps ----------

type RMS struct {
	Seed uint64
	Path string
	N    int
}

func runRMS(c *core.Ctx, cs RMS) error {
	k := core.GetKeys(c.Level, 0)
	n := params.GetTRGSWLv1().N
	s := k.SK.KeyLv0
	r := core.RNG(cs.Seed)
	sum := 0.0
	for i := 0; i < cs.N; i++ {
		idx := r.IntN(2 * n)
		ct := pb.CraftIdx(s, core.FillMask(r, "uniform", len(s)), idx, n, 0.5)
		tab := table("random", cs.Seed+uint64(i), n, 0)
		tv := &trlwe.TRLWELv1{A: make([]core.Torus, n), B: tab}
		d := core.Diff(core.Phase(eval(cs.Path, k, ct, tv).P, s), core.TableAt(tab, idx))
		sum += d * d
	}
	rms := math.Sqrt(sum / float64(cs.N))
	c.Max("max_rms_over_sigma_x1000", math.Round(rms/core.Sigma(c.Level)*1000))
	c.Count("bootstraps", float64(cs.N))
	if rms > 1.6*core.Sigma(c.Level) {
		return core.Errf("%s: RMS output noise of %d bootstraps is %.6f, expected at most %.6f", cs.Path, cs.N, rms, 1.6*core.Sigma(c.Level))
	}
	return nil
}

func main() {
	core.Main(&core.Prop{
		ID:   "C05",
		Rule: "case = crafted ciphertext (mask style, target rotation index incl. 0,1,N-1,N,N+1,2N-1, extreme bodies, position inside the rounding cell), table polynomial (random, spike, step, constant, ramp, extreme; one in three encrypted under the ring key) and one of five evaluation paths; oracle = exact component-wise rounded index and negacyclic table entry; non-trivial: all but a constant table with a zero mask",
		Subs: []*core.Sub{
			core.NewSub("map", gen, func(cs Case) bool { return cs.Mask != "zero" || cs.Table != "const" }, run),
			core.NewSub("rms", func(t *rapid.T, c *core.Ctx) RMS {
				n := 60
				if c.Tier == "thorough" {
					n = 400
				}
				return RMS{core.GenSeed(t), core.Choose(t, "path", []string{"bootstrapAssign", "functional"}), n}
			}, func(RMS) bool { return true }, runRMS),
		},
		Plan: func(tier string) []core.Job {
			n := map[core.Level]int{80: 260, 110: 200, 128: 150, 1: 150, 2: 220, 3: 150, 4: 150, 5: 90, 6: 40, 7: 30, 8: 30}
			f, rms := 1, 2
			if tier == "thorough" {
				f, rms = 14, 6
			}
			var js []core.Job
			for _, l := range []core.Level{8, 6, 5, 128, 4, 1, 3, 110, 2, 80} {
				js = append(js, core.Job{Level: l, Procs: 1, Runs: []core.RunSpec{{Sub: "map", N: n[l] * f}, {Sub: "rms", N: rms}}})
			}
			if tier == "thorough" {
				js = append(js, core.Job{Level: 7, Procs: 1, Runs: []core.RunSpec{{Sub: "map", N: n[7] * f}}})
			}
			return js
		},
		Assume: []string{"noise bound 7.5 sigma with sigma calibrated per level on the unchanged tree", "masks are uniform, uniform with up to 24 boundary-valued coefficients, or zero"},
	})
}
