// C14: key switching preserves the phase up to its rounding and key noise.
package main

import (
	"math"
	"math/rand/v2"

	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"pgregory.net/rapid"
	"verif/core"
)

type Case struct {
	Seed  uint64
	Set   int // which key-switching key
	Mask  string
	Phase uint32
	Dirty string
}

func gen(t *rapid.T, c *core.Ctx) Case {
	sets := 3
	if c.Level >= 3 && c.Level <= 8 {
		sets = 2
	}
	if c.Level >= 5 && c.Level <= 8 && c.Tier != "thorough" || c.Level > 5 && c.Level <= 8 {
		sets = 1 // only the partial key
	}
	cs := Case{Seed: core.GenSeed(t), Set: core.Pick(t, "set", sets), Mask: core.GenStyle(t, "mask"), Phase: core.GenTorus().Draw(t, "ph"), Dirty: core.GenStyle(t, "dirty")}
	if core.Pick(t, "e", 3) == 0 {
		cs.Mask = "edges"
	}
	if sets == 1 {
		cs.Set = 3
	}
	return cs
}

type ks struct {
	s1, s0 []core.Torus
	k      []*tlwe.TLWELv0
	alpha  float64
}

var cache = map[int]*ks{}

// set 0: noiseless key made by the harness, random keys; set 1: with the declared noise;
// set 2: noiseless, all-ones source key, sparse target; set 3: see partial
func kset(l core.Level, i int) *ks {
	if k, ok := cache[i]; ok {
		return k
	}
	g := params.GetTRGSWLv1()
	r := core.RNG(uint64(i)*77 + uint64(l))
	n0, n1 := params.GetTLWELv0().N, g.N
	k := &ks{s1: make([]core.Torus, n1), s0: make([]core.Torus, n0)}
	for j := range k.s1 {
		k.s1[j] = core.Torus(r.IntN(2))
		if i == 2 {
			k.s1[j] = 1
		}
	}
	for j := range k.s0 {
		k.s0[j] = core.Torus(r.IntN(2))
		if i == 2 {
			k.s0[j] = 0
			if j%97 == 0 || j == n0-1 {
				k.s0[j] = 1
			}
		}
	}
	if i == 1 {
		k.alpha = params.KSKAlpha()
	}
	base := 1 << g.BASEBIT
	k.k = make([]*tlwe.TLWELv0, base*g.IKS_T*n1)
	back := make([]core.Torus, len(k.k)*(n0+1))
	for a := 0; a < n1; a++ {
		for j := 0; j < g.IKS_T; j++ {
			for d := 0; d < base; d++ {
				idx := base*g.IKS_T*a + base*j + d
				p := back[idx*(n0+1) : (idx+1)*(n0+1)]
				k.k[idx] = &tlwe.TLWELv0{P: p}
				if d == 0 {
					continue
				}
				b := core.Torus(d) * k.s1[a] << (32 - (j+1)*g.BASEBIT)
				if k.alpha > 0 {
					b += core.Torus(int32(r.NormFloat64() * k.alpha * (1 << 32)))
				}
				for x := 0; x < n0; x += 2 {
					v := r.Uint64()
					p[x] = core.Torus(v)
					b += p[x] * k.s0[x]
					if x+1 < n0 {
						p[x+1] = core.Torus(v >> 32)
						b += p[x+1] * k.s0[x+1]
					}
				}
				p[n0] = b
			}
		}
	}
	cache[i] = k
	return k
}

// partialKeys: at the highest levels a whole key takes gigabytes. Noiseless entries are made for the
// digits of the ciphertext at hand only (with either rounding of ties); all other entries are
// one random ciphertext, which no correct switching reads.
func partialKeys(l core.Level) *ks {
	if k, ok := cache[3]; ok {
		return k
	}
	g := params.GetTRGSWLv1()
	r := core.RNG(uint64(l) + 400)
	n0, n1 := params.GetTLWELv0().N, g.N
	k := &ks{s1: make([]core.Torus, n1), s0: make([]core.Torus, n0)}
	for j := range k.s1 {
		k.s1[j] = core.Torus(r.IntN(2))
	}
	for j := range k.s0 {
		k.s0[j] = core.Torus(r.IntN(2))
	}
	k.k = make([]*tlwe.TLWELv0, g.IKS_T*n1<<g.BASEBIT)
	cache[3] = k
	return k
}

func (k *ks) fill(r *rand.Rand, mask []core.Torus) {
	g := params.GetTRGSWLv1()
	n0, base := len(k.s0), 1<<g.BASEBIT
	bt := g.BASEBIT * g.IKS_T
	other := &tlwe.TLWELv0{P: core.FillTorus("uniform", r.Uint64(), n0+1)}
	for i := range k.k {
		k.k[i] = other
	}
	var half core.Torus
	if bt < 32 {
		half = core.Torus(1) << (31 - bt)
	}
	for i, a := range mask {
		for _, v := range []core.Torus{a + half, a + half - 1} {
			for j := 0; j < g.IKS_T; j++ {
				d := int(v>>(32-(j+1)*g.BASEBIT)) & (base - 1)
				idx := base*g.IKS_T*i + base*j + d
				if k.k[idx] != other {
					continue
				}
				p := make([]core.Torus, n0+1)
				k.k[idx] = &tlwe.TLWELv0{P: p}
				if d == 0 {
					continue
				}
				b := core.Torus(d) * k.s1[i] << (32 - (j+1)*g.BASEBIT)
				for x := 0; x < n0; x++ {
					p[x] = core.Torus(r.Uint32())
					b += p[x] * k.s0[x]
				}
				p[n0] = b
			}
		}
	}
}

func run(c *core.Ctx, cs Case) error {
	core.SetLevel(c.Level)
	g := params.GetTRGSWLv1()
	var k *ks
	if cs.Set == 3 {
		k = partialKeys(c.Level)
	} else {
		k = kset(c.Level, cs.Set)
	}
	n1, n0 := g.N, len(k.s0)
	bt := g.BASEBIT * g.IKS_T
	unit := math.Ldexp(1, -bt)
	src := &tlwe.TLWELv1{P: make([]core.Torus, n1+1)}
	copy(src.P, core.FillTorus(cs.Mask, cs.Seed, n1))
	r := core.RNG(cs.Seed + 1)
	if cs.Mask == "edges" { // around the rounding boundary and digit boundaries, random signs
		for i := 0; i < n1; i++ {
			j := 1 + r.IntN(g.IKS_T)
			src.P[i] = core.Torus(r.Uint32())<<(32-j*g.BASEBIT) + core.Torus(int32((r.IntN(3)-1)))*(core.Torus(1)<<(32-bt)/2) + core.Torus(int32(r.IntN(5)-2))
		}
	}
	if cs.Set == 3 {
		k.fill(r, src.P[:n1])
		c.Class("partial key")
	}
	b := core.Torus(cs.Phase)
	h := 0.0
	for i := 0; i < n1; i++ {
		b += src.P[i] * k.s1[i]
		h += float64(k.s1[i])
	}
	src.P[n1] = b
	hs := core.Hash(src.P)
	out := trgsw.IdentityKeySwitching(src, k.k)
	o2 := &tlwe.TLWELv0{P: core.FillTorus(cs.Dirty, cs.Seed+2, n0+1)}
	trgsw.IdentityKeySwitchingAssign(src, k.k, o2)
	if core.Hash(src.P) != hs {
		return core.Errf("key switching modified its input")
	}
	if len(out.P) != n0+1 || !core.Equal(out.P, o2.P) {
		return core.Errf("the two implementations of key switching return different ciphertexts")
	}
	ph := core.Phase(out.P, k.s0)
	d := core.AbsDiff(ph, core.Torus(cs.Phase))
	noise := 8 * k.alpha * math.Sqrt(float64(n1*g.IKS_T))
	// the number of entries used is at most N*t; one unit of 2^-32 of truncation per entry
	bound := h*unit/2 + noise + 1e-8
	c.Class("mask:" + cs.Mask)
	c.Max("max_err_over_bound_x1000", math.Round(d/bound*1000))
	if d > bound {
		return core.Errf("phase %d becomes %d: off by %.6g, bound %.6g (%d bits of precision, %g key ones)", cs.Phase, ph, d, bound, bt, h)
	}
	if cs.Mask == "uniform" || cs.Mask == "uniform2" {
		tight := 8*unit*math.Sqrt(h/12) + noise + 1e-8
		c.Max("max_err_over_tight_bound_x1000", math.Round(d/tight*1000))
		if d > tight {
			return core.Errf("uniform mask: phase %d becomes %d: off by %.6g, more than 8 standard deviations of rounding and key noise (%.6g)", cs.Phase, ph, d, tight)
		}
	}
	// exact: with a noiseless key the phase is b - sum s_i round(a_i), up to ties
	if k.alpha == 0 && bt < 32 {
		half := core.Torus(1) << (31 - bt)
		w, ties := b, 0.0
		for i := 0; i < n1; i++ {
			if k.s1[i] != 0 {
				if src.P[i]&(half<<1-1) == half {
					ties++
				}
				w -= (src.P[i] + half) &^ (half<<1 - 1)
			}
		}
		if core.AbsDiff(w, ph) > ties*unit+1e-9 {
			return core.Errf("noiseless key: phase %d, rounding each mask coefficient to %d bits gives %d", ph, bt, w)
		}
	}
	return nil
}

func main() {
	core.Main(&core.Prop{
		ID:   "C14",
		Rule: "case = level-1 ciphertext (mask styles incl. values around digit and rounding boundaries, any phase) and a harness-built key-switching key (noiseless, declared noise, all-ones source key; at Uint5-Uint8 only the entries the ciphertext needs); oracle: deterministic rounding bound, 8-sigma bound for uniform masks, exact rounded phase for noiseless keys, bit-equality of both forms; non-trivial: mask not zero",
		Subs: []*core.Sub{core.NewSub("switch", gen, func(cs Case) bool { return cs.Mask != "zero" }, run)},
		Plan: func(tier string) []core.Job {
			f := 1
			if tier == "thorough" {
				f = 30
			}
			var js []core.Job
			for _, l := range []core.Level{4, 3, 80, 110, 128, 1, 2} {
				js = append(js, core.Job{Level: l, Procs: 1, Runs: []core.RunSpec{{Sub: "switch", N: 500 * f}}})
			}
			for _, l := range []core.Level{5, 6, 7, 8} {
				n := 40 * f
				if l == 5 && tier == "thorough" {
					n = 2000
				}
				js = append(js, core.Job{Level: l, Procs: 1, Runs: []core.RunSpec{{Sub: "switch", N: n}}})
			}
			return js
		},
		Assume: []string{"the number of key entries hit is at most N*t (8-sigma bound on their summed noise)"},
	})
}
