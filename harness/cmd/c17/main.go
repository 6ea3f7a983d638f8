// C17: public-key encryption decrypts correctly and uses fresh randomness.
package main

import (
	"math"
	"math/bits"

	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"pgregory.net/rapid"
	"verif/core"
)

type Val struct {
	Bool bool
	V    float64
	A    float64 // additional noise; -1: level's
}

type Case struct {
	Seed uint64
	Key  string
	Size int // -1: default constructor
	PKA  float64
	Vals []Val
	Rep  int // repetitions of the first value for the freshness check
}

func gen(t *rapid.T, c *core.Ctx) Case {
	cs := Case{Seed: core.GenSeed(t), Key: core.Choose(t, "key", []string{"gen", "gen", "ones", "zeros", "sparse"})}
	cs.Size = core.Choose(t, "size", []int{0, 1, 2, 3, 7, 16, 40, 64, 100, 257})
	if core.Pick(t, "def", 10) == 0 {
		cs.Size = -1
	}
	cs.PKA = core.Choose(t, "pka", []float64{-1, 0, 0, 1e-8, 1e-6, 1e-4})
	k := core.IntIn(t, "k", 1, 8)
	for i := 0; i < k; i++ {
		v := Val{Bool: core.Pick(t, "b", 3) == 0, A: core.Choose(t, "a", []float64{-1, 0, 0, 1e-8, 1e-5, 1e-3})}
		switch core.Pick(t, "vk", 3) {
		case 0:
			v.V = float64(core.IntIn(t, "n", -64, 64)) / 64
		case 1:
			v.V = float64(int32(core.GenTorus().Draw(t, "t"))) / (1 << 32)
		default:
			v.V = float64(int32(core.GenTorus().Draw(t, "t")))/(1<<31) + float64(core.IntIn(t, "int", -1000, 1000))
		}
		if v.Bool {
			v.V = float64(core.Pick(t, "bit", 2))
		}
		cs.Vals = append(cs.Vals, v)
	}
	cs.Rep = core.Choose(t, "rep", []int{0, 20, 60})
	return cs
}

func pkHash(pk *proxyreenc.PublicKeyLv0) uint64 {
	h := uint64(len(pk.Encryptions))
	for _, e := range pk.Encryptions {
		h = h*1000003 ^ core.Hash(e.P)
	}
	return h
}

func secret(style string, seed uint64, n int) []core.Torus {
	r := core.RNG(seed)
	s := make([]core.Torus, n)
	for i := range s {
		switch style {
		case "ones":
			s[i] = 1
		case "zeros":
		case "sparse":
			if r.IntN(30) == 0 {
				s[i] = 1
			}
		default:
			s[i] = core.Torus(r.IntN(2))
		}
	}
	return s
}

func run(c *core.Ctx, cs Case) error {
	core.SetLevel(c.Level)
	core.SeedLib(cs.Seed)
	n := params.GetTLWELv0().N
	s := secret(cs.Key, cs.Seed, n)
	sh := core.Hash(s)
	pka := cs.PKA
	if pka < 0 || cs.Size < 0 {
		pka = params.GetTLWELv0().ALPHA
	}
	var pk *proxyreenc.PublicKeyLv0
	size := cs.Size
	if size < 0 {
		pk = proxyreenc.NewPublicKeyLv0(s)
		if len(pk.Encryptions) < n {
			return core.Errf("default public key has only %d zero encryptions for dimension %d", len(pk.Encryptions), n)
		}
		size = len(pk.Encryptions)
		c.Class("default public key")
	} else {
		pk = proxyreenc.NewPublicKeyLv0WithParams(s, size, pka)
	}
	if core.Hash(s) != sh {
		return core.Errf("public key generation modified the secret key")
	}
	if len(pk.Encryptions) != size {
		return core.Errf("public key has %d zero encryptions, want %d", len(pk.Encryptions), size)
	}
	seen := map[uint64]int{}
	sum1, sum2 := 0.0, 0.0
	for i, e := range pk.Encryptions {
		if len(e.P) != n+1 {
			return core.Errf("zero encryption %d has %d components", i, len(e.P))
		}
		d := core.AbsDiff(core.Phase(e.P, s), 0)
		if d > 7.5*pka+1.0/(1<<32) {
			return core.Errf("public key entry %d is not an encryption of zero: phase off by %.3g (deviation %.3g)", i, d, pka)
		}
		sum1 += d
		sum2 += d * d
		h := core.Hash(e.P[:n])
		if j, ok := seen[h]; ok {
			return core.Errf("public key entries %d and %d share a mask", j, i)
		}
		seen[h] = i
		z := 0
		for _, v := range e.P[:n] {
			if v == 0 {
				z++
			}
		}
		if z > n/4 {
			return core.Errf("public key entry %d has a mask with %d zero coefficients", i, z)
		}
	}
	ph := pkHash(pk)
	masks := map[uint64]bool{}
	one := func(v Val) error {
		a := v.A
		if a < 0 {
			a = params.GetTLWELv0().ALPHA
		}
		var ct *tlwe.TLWELv0
		var want core.Torus
		if v.Bool {
			ct = pk.EncryptBool(v.V == 1, a)
			want = 1 << 29
			if v.V != 1 {
				want = -want
			}
		} else {
			ct = pk.EncryptF64(v.V, a)
			want = core.F2T(v.V)
		}
		if len(ct.P) != n+1 {
			return core.Errf("ciphertext has %d components", len(ct.P))
		}
		got := core.Phase(ct.P, s)
		bound := math.Min(sum1, 8.5*math.Sqrt(sum2)) + 7.5*a + 2.0/(1<<32)
		if d := core.AbsDiff(got, want); d > bound {
			return core.Errf("encryption of %v (bool %v) with %d zero encryptions: phase %d, want %d (off by %.3g, bound %.3g)", v.V, v.Bool, size, got, want, d, bound)
		}
		if v.Bool && bound < 0.12 && ct.DecryptBool(s) != (v.V == 1) {
			return core.Errf("encryption of %v decrypts to %v", v.V == 1, ct.DecryptBool(s))
		}
		h := core.Hash(ct.P[:n])
		if size >= 40 { // collision probability below 1e-13 per case
			if masks[h] {
				return core.Errf("two encryptions under the same public key share a mask")
			}
			masks[h] = true
			if _, ok := seen[h]; ok {
				return core.Errf("a ciphertext's mask equals a public key entry's mask")
			}
		}
		return nil
	}
	for _, v := range cs.Vals {
		if err := one(v); err != nil {
			return err
		}
	}
	for i := 0; i < cs.Rep; i++ {
		if err := one(cs.Vals[0]); err != nil {
			return err
		}
	}
	if pkHash(pk) != ph {
		return core.Errf("encryption modified the public key")
	}
	return nil
}

type Wt struct {
	Seed  uint64
	Size  int
	Delta uint32
	Rep   int
}

// runWeights uses a hand-made public key whose entry j is a multiple of the j-th unit
// vector, so the mask of a ciphertext shows how often each entry was used.
func runWeights(c *core.Ctx, cs Wt) error {
	core.SetLevel(c.Level)
	core.SeedLib(cs.Seed)
	n := params.GetTLWELv0().N
	pk := &proxyreenc.PublicKeyLv0{}
	delta := core.Torus(cs.Delta | 1)
	for j := 0; j < cs.Size; j++ {
		ct := tlwe.NewTLWELv0()
		ct.P[j] = delta
		ct.P[n] = 7 * delta
		pk.Encryptions = append(pk.Encryptions, ct)
	}
	vals := make([]map[int]int, cs.Size)
	for i := range vals {
		vals[i] = map[int]int{}
	}
	prev := map[uint64]bool{}
	words := (cs.Rep + 63) / 64
	used, pos := make([]uint64, cs.Size*words), make([]uint64, cs.Size*words) // per entry: in which encryptions
	inv := delta                                                              // inverse of delta modulo 2^32 (Newton)
	for i := 0; i < 5; i++ {
		inv *= 2 - delta*inv
	}
	for k := 0; k < cs.Rep; k++ {
		ct := pk.EncryptF64(0.25, 0)
		sum := core.Torus(0)
		w := make([]core.Torus, cs.Size)
		distinct := map[core.Torus]bool{}
		for j := 0; j < cs.Size; j++ {
			w[j] = ct.P[j] * inv
			if v := int32(w[j]); v > 4 || v < -4 {
				return core.Errf("entry %d of the public key enters a ciphertext %d times", j, v)
			}
			sum += w[j]
			vals[j][int(int32(w[j]))]++
			if w[j] != 0 {
				used[j*words+k/64] |= 1 << (k % 64)
			}
			if int32(w[j]) > 0 {
				pos[j*words+k/64] |= 1 << (k % 64)
			}
			distinct[w[j]] = true
		}
		for j := cs.Size; j < n; j++ {
			if ct.P[j] != 0 {
				return core.Errf("mask coefficient %d is not a combination of the public key's masks", j)
			}
		}
		if got, want := ct.P[n], core.Torus(1<<30)+7*delta*sum; got != want {
			return core.Errf("body %d is not the same combination as the mask (want %d)", got, want)
		}
		if len(distinct) == 1 {
			return core.Errf("an encryption uses all %d public key entries alike", cs.Size)
		}
		h := core.Hash(w)
		if prev[h] {
			return core.Errf("two encryptions use the same combination of public key entries")
		}
		prev[h] = true
	}
	for j := range vals {
		if len(vals[j]) == 1 {
			return core.Errf("entry %d of the public key is used the same way in all %d encryptions", j, cs.Rep)
		}
	}
	// the choices for different entries are independent
	for q, set := range [][]uint64{used, pos} {
		cnt := make([]float64, cs.Size)
		for j := range cnt {
			for _, x := range set[j*words : (j+1)*words] {
				cnt[j] += float64(bits.OnesCount64(x))
			}
		}
		n := float64(cs.Rep)
		for j := range cnt {
			for k := 0; k < j; k++ {
				both := 0
				for x := 0; x < words; x++ {
					both += bits.OnesCount64(set[j*words+x] & set[k*words+x])
				}
				v := cnt[j] * (n - cnt[j]) * cnt[k] * (n - cnt[k])
				if v == 0 {
					continue
				}
				if z := (n*float64(both) - cnt[j]*cnt[k]) * math.Sqrt(n-1) / math.Sqrt(v); math.Abs(z) > 8.5 && n >= 150 {
					return core.Errf("public key entries %d and %d are not chosen independently: in %d encryptions used %.0f and %.0f times, %d times together (statistic %d, %.1f deviations)", k, j, cs.Rep, cnt[k], cnt[j], both, q, z)
				}
			}
		}
		c.Count("entry pairs tested for independence", float64(cs.Size*(cs.Size-1)/2))
	}
	return nil
}

// Sp: the requested additional noise really is added, fresh in every encryption.
type Sp struct {
	Seed uint64
	Size int // -1: default constructor
	PKA  float64
	A    float64
	Bool bool
}

func genSp(t *rapid.T, c *core.Ctx) Sp {
	cs := Sp{Seed: core.GenSeed(t), Size: core.Choose(t, "size", []int{0, 1, 3, 20, 40, 100, 200}), Bool: core.Pick(t, "bool", 2) == 0}
	if core.Pick(t, "def", 4) == 0 {
		cs.Size = -1
	}
	cs.PKA = core.Choose(t, "pka", []float64{0, 1e-7, 1e-6, 1e-5})
	cs.A = math.Pow(10, -float64(core.IntIn(t, "a", 13, 60))/10) // 1e-6 .. 0.05
	return cs
}

func runSp(c *core.Ctx, cs Sp) error {
	core.SetLevel(c.Level)
	core.SeedLib(cs.Seed)
	n := params.GetTLWELv0().N
	s := secret("gen", cs.Seed, n)
	var pk *proxyreenc.PublicKeyLv0
	pka := cs.PKA
	if cs.Size < 0 {
		pk = proxyreenc.NewPublicKeyLv0(s)
		pka = params.GetTLWELv0().ALPHA
	} else {
		pk = proxyreenc.NewPublicKeyLv0WithParams(s, cs.Size, cs.PKA)
	}
	sum2 := 0.0
	for _, e := range pk.Encryptions {
		d := core.AbsDiff(core.Phase(e.P, s), 0)
		sum2 += d * d
	}
	const reps = 300
	got2, repeated := 0.0, 0
	seen := map[core.Torus]bool{}
	for i := 0; i < reps; i++ {
		var ct *tlwe.TLWELv0
		want := core.F2T(0.3125)
		if cs.Bool {
			ct, want = pk.EncryptBool(true, cs.A), 1<<29
		} else {
			ct = pk.EncryptF64(0.3125, cs.A)
		}
		e := core.Phase(ct.P, s) - want
		d := core.AbsDiff(e, 0)
		got2 += d * d
		if seen[e] {
			repeated++
		}
		seen[e] = true
	}
	// the sample deviation of 300 values is within 8 deviations (33 %) of the true one
	// (entries enter with weight 0 or +-1; 2 allows for a larger weight)
	sd := math.Sqrt(got2 / reps)
	lo, hi := 0.67*cs.A, 1.33*math.Sqrt(cs.A*cs.A+4*sum2)+2.0/(1<<32)
	if hi > 0.1 {
		hi = 1
	}
	c.Max("max_noise_ratio", sd/cs.A)
	if sd < lo || sd > hi {
		return core.Errf("%d encryptions with %d zero encryptions (deviation %.3g) and additional noise %.3g requested: deviation %.3g, want between %.3g and %.3g", reps, len(pk.Encryptions), pka, cs.A, sd, lo, hi)
	}
	if exp := reps * reps / 2 / (3.5449 * cs.A * (1 << 32)); float64(repeated) > 10+5*exp {
		return core.Errf("%d of %d noise values repeat", repeated, reps)
	}
	if cs.Size < 0 {
		c.Class("spread: default key")
	}
	return nil
}

func main() {
	core.Main(&core.Prop{
		ID:   "C17",
		Rule: "case = key pattern, public key size 0..257 or default, its noise (incl. none), 1-8 booleans or reals of any magnitude with additional noise, up to 60 repetitions; oracle = exact phase with the bound given by the recovered noise of the entries (exact when noiseless), distinct masks; plus hand-made unit-vector keys that expose the combination used; plus the deviation of 300 encryptions against the requested noise, from both sides; non-trivial: size >= 1",
		Subs: []*core.Sub{
			core.NewSub("encrypt", gen, func(cs Case) bool { return cs.Size != 0 }, run),
			core.NewSub("weights", func(t *rapid.T, c *core.Ctx) Wt {
				return Wt{core.GenSeed(t), core.IntIn(t, "size", 50, 400), core.GenTorus().Draw(t, "delta"), core.IntIn(t, "rep", 180, 256)}
			}, func(Wt) bool { return true }, runWeights),
			core.NewSub("spread", genSp, func(Sp) bool { return true }, runSp),
		},
		Plan: func(tier string) []core.Job {
			f := 1
			if tier == "thorough" {
				f = 30
			}
			var js []core.Job
			for _, l := range core.AllLevels {
				js = append(js, core.Job{Level: l, Procs: 1, Runs: []core.RunSpec{{Sub: "encrypt", N: 350 * f}, {Sub: "weights", N: 40 * f}, {Sub: "spread", N: 40 * f}}})
			}
			return js
		},
	})
}
