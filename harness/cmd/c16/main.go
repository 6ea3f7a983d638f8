// C16: proxy re-encryption preserves the plaintext under the target key.
package main

import (
	"math"
	"math/rand/v2"

	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"pgregory.net/rapid"
	"verif/core"
)

type Hop struct {
	To    int
	Asym  bool
	Base  int
	T     int
	Alpha float64
	PK    int // public key size (asymmetric)
	PKA   float64
}

type Case struct {
	Seed uint64
	Keys []string
	Hops []Hop
	Mask []string
	Msg  []uint32 // phases
}

// alphas are torus deviations; -1 means the level's.
var alphas = []float64{0, 0, 0, -1, 1e-9, 1e-7}

func gen(t *rapid.T, c *core.Ctx) Case {
	cs := Case{Seed: core.GenSeed(t)}
	nk := core.IntIn(t, "nk", 1, 3)
	for i := 0; i < nk; i++ {
		cs.Keys = append(cs.Keys, core.Choose(t, "key", []string{"gen", "gen", "gen", "ones", "zeros", "sparse", "last"}))
	}
	budget := core.Choose(t, "budget", []int{128, 48, 32, 32})
	nh := core.IntIn(t, "nh", 1, 3)
	for i := 0; i < nh; i++ {
		h := Hop{To: core.Pick(t, "to", nk), Asym: core.Pick(t, "asym", 2) == 1, Alpha: core.Choose(t, "alpha", alphas), PKA: core.Choose(t, "pka", alphas)}
		switch core.Pick(t, "shape", 4) {
		case 0: // digits covering all 32 bits
			h.Base = core.Choose(t, "fb", []int{1, 2, 4})
			h.T = 32 / h.Base
		case 1:
			h.Base, h.T = params.GetTRGSWLv1().BASEBIT, params.GetTRGSWLv1().IKS_T
		default:
			h.Base = core.IntIn(t, "base", 1, 6)
			h.T = core.IntIn(t, "t", 1, 32/h.Base)
		}
		for h.T > 1 && h.T<<h.Base > budget {
			h.T--
		}
		budget = 24
		if h.Asym {
			h.PK = core.Choose(t, "pk", []int{1, 3, 8})
		}
		cs.Hops = append(cs.Hops, h)
	}
	k := core.IntIn(t, "cts", 3, 8)
	for i := 0; i < k; i++ {
		cs.Mask = append(cs.Mask, core.Choose(t, "mask", []string{"uniform", "uniform", "digits", "zero", "ones", "pow2", "extreme"}))
		cs.Msg = append(cs.Msg, core.GenTorus().Draw(t, "msg"))
	}
	return cs
}

func fillKey(style string, r *rand.Rand, n int) []core.Torus {
	s := make([]core.Torus, n)
	for i := range s {
		switch style {
		case "gen":
			s[i] = core.Torus(r.IntN(2))
		case "ones":
			s[i] = 1
		case "sparse":
			if r.IntN(40) == 0 {
				s[i] = 1
			}
		case "last":
			if i == n-1 || i == 0 {
				s[i] = 1
			}
		}
	}
	return s
}

func keyHash(k *proxyreenc.ProxyReencryptionKey) uint64 {
	h := uint64(k.Base)*131 + uint64(k.T)
	for _, e := range k.KeyEncryptions {
		h = h*1000003 ^ core.Hash(e.P)
	}
	return h
}

func run(c *core.Ctx, cs Case) error {
	core.SetLevel(c.Level)
	core.SeedLib(cs.Seed)
	n := params.GetTLWELv0().N
	r := core.RNG(cs.Seed)
	var keys [][]core.Torus
	for _, s := range cs.Keys {
		keys = append(keys, fillKey(s, r, n))
	}
	cur := 0
	type ctx struct {
		ct *tlwe.TLWELv0
		ph core.Torus
	}
	var cts []ctx
	for i, m := range cs.Mask {
		mask := make([]core.Torus, n)
		if m == "digits" { // close to digit boundaries of the first hop
			sh := max(0, 32-cs.Hops[0].Base*cs.Hops[0].T)
			for j := range mask {
				mask[j] = core.Torus(r.Uint32()) << sh
				if sh > 0 {
					mask[j] += core.Torus(1)<<(sh-1) + core.Torus(int32(r.IntN(3)-1))
				} else {
					mask[j] |= []core.Torus{0, 0xff, 0xff00, 0xfffffff0, 0x80000000}[r.IntN(5)]
				}
			}
		} else {
			mask = core.FillTorus(m, cs.Seed+uint64(i), n)
		}
		p := append(mask, 0)
		b := core.Torus(cs.Msg[i])
		for j := range keys[0] {
			b += mask[j] * keys[0][j]
		}
		p[n] = b
		cts = append(cts, ctx{&tlwe.TLWELv0{P: p}, core.Torus(cs.Msg[i])})
	}
	for hi, h := range cs.Hops {
		from, to := keys[cur], keys[h.To]
		hf, ht := core.Hash(from), core.Hash(to)
		alpha, pka := h.Alpha, h.PKA
		if alpha < 0 {
			alpha = params.KSKAlpha()
		}
		if pka < 0 {
			pka = params.KSKAlpha()
		}
		var rk *proxyreenc.ProxyReencryptionKey
		sig2 := alpha * alpha
		deflt := h.Base == params.GetTRGSWLv1().BASEBIT && h.T == params.GetTRGSWLv1().IKS_T && h.Alpha < 0
		var pkh uint64
		var pk *proxyreenc.PublicKeyLv0
		if h.Asym {
			pk = proxyreenc.NewPublicKeyLv0WithParams(to, h.PK, pka)
			pkh = pkHash(pk)
			if deflt {
				rk = proxyreenc.NewProxyReencryptionKeyAsymmetric(from, pk)
			} else {
				rk = proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(from, pk, alpha, h.Base, h.T)
			}
			// few zero encryptions: their errors are bounded one by one
			sig2 += float64(h.PK) * pka * pka
		} else if deflt {
			rk = proxyreenc.NewProxyReencryptionKeySymmetric(from, to)
		} else {
			rk = proxyreenc.NewProxyReencryptionKeySymmetricWithParams(from, to, alpha, h.Base, h.T)
		}
		if core.Hash(from) != hf || core.Hash(to) != ht {
			return core.Errf("hop %d: generating the re-encryption key modified a secret key", hi)
		}
		if pk != nil && pkHash(pk) != pkh {
			return core.Errf("hop %d: generating the re-encryption key modified the public key", hi)
		}
		if rk.Base != 1<<h.Base || rk.T != h.T {
			return core.Errf("hop %d: key reports base %d depth %d, want %d %d", hi, rk.Base, rk.T, 1<<h.Base, h.T)
		}
		if err := distinctMasks(rk, n*h.T, h); err != nil {
			return core.Errf("hop %d: %v", hi, err)
		}
		kh := keyHash(rk)
		bits := h.Base * h.T
		exact := alpha == 0 && (!h.Asym || pka == 0)
		for i := range cts {
			in := core.Hash(cts[i].ct.P)
			out := proxyreenc.ReencryptTLWELv0(cts[i].ct, rk)
			if core.Hash(cts[i].ct.P) != in {
				return core.Errf("hop %d: re-encryption modified its input", hi)
			}
			if len(out.P) != n+1 || &out.P[0] == &cts[i].ct.P[0] {
				return core.Errf("hop %d: result has wrong size or shares memory with the input", hi)
			}
			// expected phase: every mask coefficient rounded to the nearest multiple of 2^-bits
			want := cts[i].ct.P[n]
			ties, used := 0, 0
			for j := 0; j < n; j++ {
				a := cts[i].ct.P[j]
				if bits < 32 {
					half := core.Torus(1) << (31 - bits)
					if a&(half<<1-1) == half {
						ties += int(from[j])
					}
					a = (a + half) &^ (half<<1 - 1)
				}
				want -= a * from[j]
				used += h.T
			}
			got := core.Phase(out.P, to)
			d := core.AbsDiff(got, want)
			bound := float64(ties) * math.Ldexp(1, -bits)
			if !exact {
				bound += 8.5*math.Sqrt(sig2*float64(used)) + float64(used)*float64(1+h.PK)/(1<<32)
				c.Class("noisy key")
			} else {
				c.Class("noiseless key (exact)")
			}
			if d > bound {
				return core.Errf("hop %d (asymmetric %v, base 2^%d, depth %d, alpha %g): phase under the target key %d, want %d (off by %.3g, bound %.3g)", hi, h.Asym, h.Base, h.T, alpha, got, want, d, bound)
			}
			if core.AbsDiff(got, 0) < 0.5-1e-6 && out.DecryptBool(to) != (int32(got) >= 0) {
				return core.Errf("hop %d: decryption disagrees with the phase", hi)
			}
			cts[i] = ctx{out, got}
		}
		if keyHash(rk) != kh {
			return core.Errf("hop %d: re-encryption modified its key", hi)
		}
		if bits == 32 {
			c.Class("digits cover 32 bits")
		}
		if h.To == cur {
			c.Class("target key equals source key")
		}
		cur = h.To
	}
	return nil
}

func pkHash(pk *proxyreenc.PublicKeyLv0) uint64 {
	h := uint64(len(pk.Encryptions))
	for _, e := range pk.Encryptions {
		h = h*1000003 ^ core.Hash(e.P)
	}
	return h
}

// distinctMasks: apart from the unused digit-zero entries, no two entries share a mask
// (symmetric mode: each is an independent encryption).
func distinctMasks(rk *proxyreenc.ProxyReencryptionKey, unused int, h Hop) error {
	if h.Asym {
		return nil
	}
	seen := map[uint64]bool{}
	zero := 0
	for i, e := range rk.KeyEncryptions {
		z := true
		for _, v := range e.P[:8] {
			z = z && v == 0
		}
		if z {
			zero++
			continue
		}
		hh := core.Hash(e.P[:16])
		if seen[hh] {
			return core.Errf("entry %d of the re-encryption key reuses the mask of another entry", i)
		}
		seen[hh] = true
	}
	if zero > unused {
		return core.Errf("%d entries of the re-encryption key have no mask (at most %d unused entries)", zero, unused)
	}
	return nil
}

type OneWay struct {
	Seed uint64
	Asym bool
}

// runOneWay: a key from A to B gives nothing readable under A, and does not convert B to A.
func runOneWay(c *core.Ctx, cs OneWay) error {
	core.SetLevel(c.Level)
	core.SeedLib(cs.Seed)
	n := params.GetTLWELv0().N
	r := core.RNG(cs.Seed)
	a, b := fillKey("gen", r, n), fillKey("gen", r, n)
	var rk *proxyreenc.ProxyReencryptionKey
	if cs.Asym {
		rk = proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(a, proxyreenc.NewPublicKeyLv0WithParams(b, 24, 1e-9), 1e-9, 2, 8)
	} else {
		rk = proxyreenc.NewProxyReencryptionKeySymmetricWithParams(a, b, 1e-9, 2, 8)
	}
	okB, okA, back := 0, 0, 0
	const m = 96
	for i := 0; i < m; i++ {
		msg := core.Torus(uint32(1) << 29)
		if r.IntN(2) == 0 {
			msg = -msg
		}
		out := proxyreenc.ReencryptTLWELv0(core.MakeLv0(r, a, msg), rk)
		if core.AbsDiff(core.Phase(out.P, b), msg) < 1.0/16 {
			okB++
		}
		if core.AbsDiff(core.Phase(out.P, a), msg) < 1.0/16 {
			okA++
		}
		rev := proxyreenc.ReencryptTLWELv0(core.MakeLv0(r, b, msg), rk)
		if core.AbsDiff(core.Phase(rev.P, a), msg) < 1.0/16 {
			back++
		}
	}
	if okB != m {
		return core.Errf("%d of %d re-encryptions readable under the target key", okB, m)
	}
	// expected 1/8 of them by chance; 48 of 96 has probability below 1e-16
	if okA > m/2 {
		return core.Errf("%d of %d re-encrypted ciphertexts still decrypt under the source key", okA, m)
	}
	if back > m/2 {
		return core.Errf("the key from A to B converts %d of %d ciphertexts of B to A", back, m)
	}
	return nil
}

type Default struct {
	Seed uint64
}

// runDefault uses the default parameters in asymmetric mode with the default public key.
func runDefault(c *core.Ctx, cs Default) error {
	core.SetLevel(c.Level)
	core.SeedLib(cs.Seed)
	n := params.GetTLWELv0().N
	g := params.GetTRGSWLv1()
	r := core.RNG(cs.Seed)
	a, b := fillKey("gen", r, n), fillKey("gen", r, n)
	pk := proxyreenc.NewPublicKeyLv0(b)
	rk := proxyreenc.NewProxyReencryptionKeyAsymmetric(a, pk)
	kh, ph := keyHash(rk), pkHash(pk)
	alpha := params.KSKAlpha()
	bits := g.BASEBIT * g.IKS_T
	base := float64(int(1) << g.BASEBIT)
	used := float64(n*g.IKS_T) * (1 - 1/base)
	model := math.Sqrt((float64(len(pk.Encryptions))/2+1)*alpha*alpha*used + float64(n)/2*math.Pow(2, -2*float64(bits))/12)
	const m = 600
	sum, sum2, wrong := 0.0, 0.0, 0
	for i := 0; i < m; i++ {
		v := r.IntN(2) == 1
		msg := core.Torus(uint32(1) << 29)
		if !v {
			msg = -msg
		}
		ct := core.MakeLv0(r, a, msg)
		if r.IntN(2) == 0 {
			ct = tlwe.NewTLWELv0().EncryptBool(v, alpha, a)
		}
		out := proxyreenc.ReencryptTLWELv0(ct, rk)
		p := core.Phase(out.P, b)
		d := core.Diff(p, msg)
		sum += d
		sum2 += d * d
		if math.Abs(d) > 8.5*model+8.5*alpha {
			return core.Errf("re-encryption with default parameters: phase off by %.3g, more than 8.5 times the declared noise %.3g", d, model)
		}
		if out.DecryptBool(b) != v {
			if math.Abs(d) < 0.125-1e-6 {
				return core.Errf("decryption wrong although the phase error is only %.3g", d)
			}
			wrong++
		}
	}
	// For a fixed key the digit-zero entries contribute nothing, so the error has a
	// key-dependent mean (a share 1/base of the variance) and the rest varies with the ciphertext.
	mean := sum / m
	std := math.Sqrt(sum2/m - mean*mean)
	c.Max("max_std_over_model_x1000", math.Round(std/model*1000))
	c.Count("wrong decryptions with default asymmetric parameters", float64(wrong))
	if std > 1.25*math.Sqrt(model*model*(1-1/base)+alpha*alpha) {
		return core.Errf("re-encryption with default parameters: phase error deviation %.4g, the declared parameters give %.4g", std, model*math.Sqrt(1-1/base))
	}
	if math.Abs(mean) > 6.5*model*(1/math.Sqrt(base)+1/math.Sqrt(m)) {
		return core.Errf("re-encryption with default parameters: mean phase error %.4g, the declared parameters give a deviation of %.4g", mean, model)
	}
	if keyHash(rk) != kh || pkHash(pk) != ph {
		return core.Errf("re-encryption modified a key")
	}
	if wrong > 0 {
		c.Known("K1")
	}
	c.Class("default parameters")
	return nil
}

func main() {
	core.Main(&core.Prop{
		ID:   "C16",
		Rule: "case = 1-3 keys (patterns), 1-3 hops (mode, digit base and depth up to 32 bits, key noise incl. none, public key size), 3-8 ciphertexts of any phase with uniform/boundary/structured masks; oracle = exact phase with every mask coefficient rounded to nearest, exact when the key is noiseless; plus one-way checks and the default parameters; non-trivial: some non-zero mask",
		Subs: []*core.Sub{
			core.NewSub("hops", gen, func(cs Case) bool {
				for _, m := range cs.Mask {
					if m != "zero" {
						return true
					}
				}
				return false
			}, run),
			core.NewSub("oneway", func(t *rapid.T, c *core.Ctx) OneWay { return OneWay{core.GenSeed(t), core.Pick(t, "asym", 2) == 1} }, func(OneWay) bool { return true }, runOneWay),
			core.NewSub("default", func(t *rapid.T, c *core.Ctx) Default { return Default{core.GenSeed(t)} }, func(Default) bool { return true }, runDefault),
		},
		Plan: func(tier string) []core.Job {
			f, d := 1, []core.Level{80, 128}
			if tier == "thorough" {
				f, d = 20, []core.Level{80, 110, 128, 1, 2}
			}
			var js []core.Job
			for _, l := range d {
				js = append(js, core.Job{Level: l, Procs: 2, Runs: []core.RunSpec{{Sub: "default", N: max(1, f/4)}}})
			}
			for _, l := range core.AllLevels {
				n := 24
				if l >= 3 && l <= 8 {
					n = 12
				}
				js = append(js, core.Job{Level: l, Procs: 2, Runs: []core.RunSpec{{Sub: "oneway", N: f}, {Sub: "hops", N: n * f}}})
			}
			return js
		},
	})
}
