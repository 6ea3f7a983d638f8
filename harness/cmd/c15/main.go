// C15: cloud key entries encrypt exactly what evaluation needs.
package main

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"sync"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"pgregory.net/rapid"
	"verif/core"
)

var keyStyles = []string{"gen", "ones", "zeros", "sparse", "last", "gen"}

func fillKey(style string, seed uint64, s []core.Torus) {
	r := core.RNG(seed)
	for i := range s {
		switch style {
		case "ones":
			s[i] = 1
		case "zeros":
			s[i] = 0
		case "sparse":
			s[i] = 0
			if r.IntN(40) == 0 {
				s[i] = 1
			}
		case "last":
			s[i] = 0
			if i == len(s)-1 {
				s[i] = 1
			}
		}
	}
}

// par runs f over [0,n) on all cores and returns the error of the lowest index.
func par(n int, f func(i int) error) error {
	w := runtime.GOMAXPROCS(0)
	errs := make([]error, w)
	at := make([]int, w)
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := k; i < n; i += w {
				if err := f(i); err != nil {
					errs[k], at[k] = err, i
					return
				}
			}
		}()
	}
	wg.Wait()
	var best error
	bi := n
	for k := range errs {
		if errs[k] != nil && at[k] < bi {
			best, bi = errs[k], at[k]
		}
	}
	return best
}

// checkGadget checks that f is a gadget encryption of m under s.
func checkGadget(f *trgsw.TRGSWLv1FFT, m core.Torus, alpha float64, s []core.Torus, pe *poly.Evaluator) (float64, error) {
	g := params.GetTRGSWLv1()
	if len(f.TRLWEFFT) != 2*g.L {
		return 0, core.Errf("%d rows, want %d", len(f.TRLWEFFT), 2*g.L)
	}
	tol := 7.5*alpha + 3.0/(1<<32)
	worst := 0.0
	for r, row := range f.TRLWEFFT {
		if len(row.A.Coeffs) != g.N || len(row.B.Coeffs) != g.N {
			// the folded transform stores N floats per polynomial
			return 0, core.Errf("row %d has %d/%d coefficients, want %d", r, len(row.A.Coeffs), len(row.B.Coeffs), g.N)
		}
		a := pe.ToPoly(row.A).Coeffs
		b := pe.ToPoly(row.B).Coeffs
		ph := core.RingPhase(&trlwe.TRLWELv1{A: a, B: b}, s)
		h := core.Torus(1) << (32 - uint32(r%g.L+1)*g.BGBIT)
		for j := range ph {
			var want core.Torus
			if r < g.L {
				want = -(m * h * s[j])
			} else if j == 0 {
				want = m * h
			}
			d := core.AbsDiff(ph[j], want)
			worst = math.Max(worst, d)
			if d > tol {
				return worst, core.Errf("row %d coefficient %d: phase %d, want %d (off by %.3g, bound %.3g)", r, j, ph[j], want, d, tol)
			}
		}
	}
	return worst, nil
}

func checkOffset(off core.Torus, seed uint64) error {
	g := params.GetTRGSWLv1()
	p := core.FillTorus("uniform", seed, 64)
	copy(p, core.FillTorus("pow2", seed, 32))
	out := make([]poly.Poly, g.L)
	for i := range out {
		out[i] = poly.NewPoly(64)
	}
	poly.DecomposePolyAssign(p, int(g.BGBIT), g.L, off, out)
	unit := math.Ldexp(1, 32-g.L*int(g.BGBIT))
	for j := range p {
		var rec core.Torus
		for i := range out {
			rec += out[i].Coeffs[j] << (32 - uint32(i+1)*g.BGBIT)
		}
		if e := math.Abs(float64(int32(p[j] - rec))); e >= unit {
			return core.Errf("with the key's offset %d, %d decomposes to %d (off by %g, unit %g)", off, p[j], rec, e, unit)
		}
	}
	return nil
}

func checkTestvec(tv *trlwe.TRLWELv1, n int) error {
	if len(tv.A) != n || len(tv.B) != n {
		return core.Errf("test vector has %d/%d coefficients, want %d", len(tv.A), len(tv.B), n)
	}
	for i := range tv.A {
		if tv.A[i] != 0 || tv.B[i] != 1<<29 {
			return core.Errf("test vector coefficient %d is (%d,%d), want (0,2^29)", i, tv.A[i], tv.B[i])
		}
	}
	return nil
}

type KeyCase struct {
	Seed     uint64
	Lv0, Lv1 string
	Procs    int // processors key generation may use
}

func genKey(t *rapid.T, c *core.Ctx) KeyCase {
	return KeyCase{core.GenSeed(t), core.Choose(t, "lv0", keyStyles), core.Choose(t, "lv1", keyStyles), core.Choose(t, "procs", []int{8, 8, 1, 2, 3, 5, 6, 7, 12, 16})}
}

func runKey(c *core.Ctx, cs KeyCase) error {
	core.SetLevel(c.Level)
	core.SeedLib(cs.Seed)
	sk := key.NewSecretKey()
	fillKey(cs.Lv0, cs.Seed+1, sk.KeyLv0)
	fillKey(cs.Lv1, cs.Seed+2, sk.KeyLv1)
	h := core.Hash(sk.KeyLv0, sk.KeyLv1)
	old := runtime.GOMAXPROCS(cs.Procs)
	ck := cloudkey.NewCloudKey(sk)
	runtime.GOMAXPROCS(old)
	c.Class(fmt.Sprintf("procs:%d", cs.Procs))
	defer debug.FreeOSMemory()
	if core.Hash(sk.KeyLv0, sk.KeyLv1) != h {
		return core.Errf("cloud key generation modified the secret key")
	}
	g := params.GetTRGSWLv1()
	n0 := params.GetTLWELv0().N
	base := 1 << g.BASEBIT
	if len(ck.KeySwitchingKey) != base*g.IKS_T*g.N {
		return core.Errf("%d key-switching entries, want %d", len(ck.KeySwitchingKey), base*g.IKS_T*g.N)
	}
	if len(ck.BootstrappingKey) != n0 {
		return core.Errf("%d bootstrapping entries, want %d", len(ck.BootstrappingKey), n0)
	}
	if err := checkTestvec(ck.BlindRotateTestvec, g.N); err != nil {
		return err
	}
	if err := checkOffset(ck.DecompositionOffset, cs.Seed); err != nil {
		return err
	}
	tol := 7.5*params.KSKAlpha() + 2.0/(1<<32)
	// the support of the key, to sum only selected mask coefficients
	err := par(g.N, func(i int) error {
		for j := 0; j < g.IKS_T; j++ {
			for k := 1; k < base; k++ {
				e := ck.KeySwitchingKey[base*g.IKS_T*i+base*j+k]
				if e == nil || len(e.P) != n0+1 {
					return core.Errf("key-switching entry (%d,%d,%d) missing or of wrong size", i, j, k)
				}
				zeros := 0
				for _, v := range e.P[:n0] {
					if v == 0 {
						zeros++
					}
				}
				if zeros > n0/4 {
					return core.Errf("key-switching entry (coefficient %d, level %d, digit %d) is not an encryption: %d of %d mask coefficients are zero", i, j, k, zeros, n0)
				}
				want := core.Torus(k) * sk.KeyLv1[i] << (32 - uint(j+1)*uint(g.BASEBIT))
				if d := core.AbsDiff(core.Phase(e.P, sk.KeyLv0), want); d > tol {
					return core.Errf("key-switching entry (coefficient %d, level %d, digit %d) has phase %d, want %d (off by %.3g, bound %.3g)", i, j, k, core.Phase(e.P, sk.KeyLv0), want, d, tol)
				}
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	c.Count("key-switching entries", float64(g.N*g.IKS_T*(base-1)))
	w := runtime.GOMAXPROCS(0)
	pes := make(chan *poly.Evaluator, w)
	for i := 0; i < w; i++ {
		pes <- poly.NewEvaluator(g.N)
	}
	err = par(n0, func(i int) error {
		pe := <-pes
		defer func() { pes <- pe }()
		if _, err := checkGadget(ck.BootstrappingKey[i], sk.KeyLv0[i], params.BSKAlpha(), sk.KeyLv1, pe); err != nil {
			return core.Errf("bootstrapping entry %d (bit %d): %v", i, sk.KeyLv0[i], err)
		}
		return nil
	})
	if err != nil {
		return err
	}
	c.Count("bootstrapping rows", float64(n0*2*g.L))
	c.Class("lv0 key:" + cs.Lv0)
	c.Class("lv1 key:" + cs.Lv1)
	return nil
}

type GadgetCase struct {
	Seed  uint64
	M     uint32
	Key   string
	Alpha float64
	Reuse bool // encrypt into an object that held another encryption
}

func genGadget(t *rapid.T, c *core.Ctx) GadgetCase {
	cs := GadgetCase{Seed: core.GenSeed(t), Key: core.Choose(t, "key", keyStyles), Reuse: core.Pick(t, "reuse", 2) == 0}
	switch core.Pick(t, "m", 3) {
	case 0:
		cs.M = uint32(core.Pick(t, "bit", 2))
	case 1:
		cs.M = uint32(int32(core.IntIn(t, "small", -8, 8)))
	default:
		cs.M = core.GenTorus().Draw(t, "any")
	}
	cs.Alpha = core.Choose(t, "alpha", []float64{-1, 0, 1e-9, 1e-6})
	return cs
}

var pes = map[core.Level]*poly.Evaluator{}

func runGadget(c *core.Ctx, cs GadgetCase) error {
	core.SetLevel(c.Level)
	g := params.GetTRGSWLv1()
	core.SeedLib(cs.Seed)
	pe := pes[c.Level]
	if pe == nil {
		pe = poly.NewEvaluator(g.N)
		pes[c.Level] = pe
	}
	s := key.NewSecretKey().KeyLv1
	fillKey(cs.Key, cs.Seed, s)
	h := core.Hash(s)
	alpha := cs.Alpha
	if alpha < 0 {
		alpha = params.BSKAlpha()
	}
	tg := trgsw.NewTRGSWLv1()
	if cs.Reuse {
		tg.EncryptTorus(core.Torus(12345), 1e-3, s, pe)
	}
	tg = tg.EncryptTorus(core.Torus(cs.M), alpha, s, pe)
	var hs []uint64
	for _, r := range tg.TRLWE {
		hs = append(hs, core.Hash(r.A, r.B))
	}
	f := trgsw.NewTRGSWLv1FFT(tg, pe)
	if core.Hash(s) != h {
		return core.Errf("gadget encryption modified the key")
	}
	for i, r := range tg.TRLWE {
		if core.Hash(r.A, r.B) != hs[i] {
			return core.Errf("conversion to transform form modified row %d", i)
		}
	}
	worst, err := checkGadget(f, core.Torus(cs.M), alpha, s, pe)
	if err != nil {
		return core.Errf("gadget encryption of %d (alpha %g): %v", cs.M, alpha, err)
	}
	c.Max("max_gadget_error", worst)
	return nil
}

type NoKSK struct{ Seed uint64 }

func runNoKSK(c *core.Ctx, cs NoKSK) error {
	core.SetLevel(c.Level)
	ck := cloudkey.NewCloudKeyNoKSK()
	g := params.GetTRGSWLv1()
	if err := checkTestvec(ck.BlindRotateTestvec, g.N); err != nil {
		return err
	}
	if err := checkOffset(ck.DecompositionOffset, cs.Seed); err != nil {
		return err
	}
	if len(ck.BootstrappingKey) != params.GetTLWELv0().N || len(ck.KeySwitchingKey) != (g.N*g.IKS_T)<<g.BASEBIT {
		return core.Errf("dummy cloud key has wrong sizes")
	}
	for _, e := range ck.BootstrappingKey {
		if len(e.TRLWEFFT) != 2*g.L {
			return core.Errf("dummy bootstrapping entry has %d rows", len(e.TRLWEFFT))
		}
	}
	return nil
}

func main() {
	core.Main(&core.Prop{
		ID:   "C15",
		Rule: "case = secret key pattern (generated, all ones, zeros, sparse, last bit only, per LWE level) and number of processors (1..16), and a whole cloud key, every entry of which is decrypted exactly; plus single gadget encryptions of any 32-bit value with any deviation; non-trivial: at least one key not all zeros",
		Subs: []*core.Sub{
			core.NewSub("cloudkey", genKey, func(k KeyCase) bool { return k.Lv0 != "zeros" || k.Lv1 != "zeros" }, runKey),
			core.NewSub("gadget", genGadget, func(k GadgetCase) bool { return k.M != 0 }, runGadget),
			core.NewSub("noksk", func(t *rapid.T, c *core.Ctx) NoKSK { return NoKSK{core.GenSeed(t)} }, func(NoKSK) bool { return true }, runNoKSK),
		},
		Plan: func(tier string) []core.Job {
			f := 1
			if tier == "thorough" {
				f = 12
			}
			var js []core.Job
			for _, l := range []core.Level{5, 4, 3, 128, 110, 80, 1, 2} {
				n := 6
				if l == 4 || l == 5 || l == 3 {
					n = 2
				}
				js = append(js, core.Job{Level: l, Runs: []core.RunSpec{{Sub: "gadget", N: 40 * f}, {Sub: "cloudkey", N: n * f}}})
			}
			for _, l := range []core.Level{6, 7, 8} {
				rs := []core.RunSpec{{Sub: "gadget", N: 40 * f}}
				if tier == "thorough" {
					rs = append(rs, core.RunSpec{Sub: "cloudkey", N: 2})
				}
				js = append(js, core.Job{Level: l, Runs: rs})
			}
			js = append(js, core.Job{Level: 2, Runs: []core.RunSpec{{Sub: "noksk", N: 1}}}, core.Job{Level: 80, Runs: []core.RunSpec{{Sub: "noksk", N: 1}}})
			return js
		},
	})
}
