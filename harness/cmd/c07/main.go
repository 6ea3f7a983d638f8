// C07: encrypting then decrypting returns the plaintext.
package main

import (
	"math"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"pgregory.net/rapid"
	"verif/core"
	"verif/pb"
)

type Case struct {
	Seed  uint64
	Kind  string
	M     int
	Msg   int
	Alpha string // "default", "zero", "given"
	Noise float64
	Bits  []int
	Key   string
}

var kinds = []string{"bool0", "bool1", "ring", "bits", "msg", "msg", "craftBool0", "craftBool1", "craftMsg", "craftMsg", "craftRing", "enc", "encScale", "f64"}

func gen(t *rapid.T, c *core.Ctx) Case {
	cs := Case{Seed: core.GenSeed(t), Kind: core.Choose(t, "kind", kinds), Alpha: core.Choose(t, "alpha", []string{"default", "default", "zero", "given"}),
		Key: core.Choose(t, "key", []string{"gen", "gen", "zeros", "ones", "sparse"})}
	cs.Noise = core.Choose(t, "noise", []float64{0, 0.5, -0.5, 0.9, -0.9, 0.97, -0.97, 0.1, 1, -1})
	switch cs.Kind {
	case "msg", "craftMsg", "enc", "encScale":
		switch core.Pick(t, "mk", 5) {
		case 4:
			cs.M = core.IntIn(t, "m", 4097, 1<<core.IntIn(t, "me", 13, 24))
			if cs.Kind == "enc" || cs.Kind == "encScale" {
				cs.M = min(cs.M, 1<<20)
			}
		case 0:
			cs.M = 1 << core.IntIn(t, "e", 1, 12)
		case 1:
			cs.M = core.IntIn(t, "m", 2, 4096)
		default:
			cs.M = core.IntIn(t, "m", 2, 40)
		}
		switch core.Pick(t, "msgk", 4) {
		case 0:
			cs.Msg = core.Choose(t, "sp", []int{0, 1, cs.M - 1, cs.M, -1, -cs.M, 2*cs.M - 1, -cs.M - 1, cs.M * 1000, -cs.M*1000 - 1, math.MaxInt32, math.MinInt32})
		default:
			cs.Msg = core.IntIn(t, "msg", -2*cs.M, 3*cs.M)
		}
	case "bits":
		cs.Bits = core.GenBits(t, core.IntIn(t, "nb", 0, 40), "b")
	default:
		cs.Bits = core.GenBits(t, core.IntIn(t, "nb", 1, 8), "b")
	}
	return cs
}

func keys(cs Case) *key.SecretKey {
	sk := key.NewSecretKey()
	r := core.RNG(cs.Seed ^ 5)
	fill := func(s []core.Torus) {
		for i := range s {
			switch cs.Key {
			case "zeros":
				s[i] = 0
			case "ones":
				s[i] = 1
			case "sparse":
				s[i] = 0
			}
		}
		if cs.Key == "sparse" {
			s[r.IntN(len(s))] = 1
			s[len(s)-1] = 1
		}
	}
	fill(sk.KeyLv0)
	fill(sk.KeyLv1)
	return sk
}

var pes = map[int]*poly.Evaluator{}

func pe(n int) *poly.Evaluator {
	if e, ok := pes[n]; ok {
		return e
	}
	pes[n] = poly.NewEvaluator(n)
	return pes[n]
}

func run(c *core.Ctx, cs Case) error {
	core.SetLevel(c.Level)
	core.SeedLib(cs.Seed)
	r := core.RNG(cs.Seed)
	sk := keys(cs)
	s0, s1 := sk.KeyLv0, sk.KeyLv1
	h := core.Hash(s0, s1)
	alpha := func(def float64) float64 {
		switch cs.Alpha {
		case "zero":
			return 0
		case "given":
			return 1e-4
		}
		return def
	}
	a0, a1 := alpha(params.GetTLWELv0().ALPHA), alpha(params.GetTLWELv1().ALPHA)
	slack := 4.0 / (1 << 32)
	c.Class("kind:" + cs.Kind)
	c.Class("key:" + cs.Key)
	// reuse one ciphertext object, holding garbage, as the encryption target
	ct0 := &tlwe.TLWELv0{P: core.FillTorus("uniform", cs.Seed, len(s0)+1)}
	ct1 := &tlwe.TLWELv1{P: core.FillTorus("uniform", cs.Seed, len(s1)+1)}
	mu := func(b bool) core.Torus {
		if b {
			return 1 << 29
		}
		return 7 << 29
	}
	craft := func(s []core.Torus, ph core.Torus) []core.Torus { return core.MakeLWE(r, s, ph) }
	near := func(what string, got, want core.Torus, bound float64) error {
		if d := core.AbsDiff(got, want); d > bound {
			return core.Errf("%s: phase %d is %.3g away from the plaintext %d (bound %.3g)", what, got, d, want, bound)
		}
		return nil
	}
	for _, bi := range cs.Bits {
		b := bi == 1
		switch cs.Kind {
		case "bool0":
			res := ct0.EncryptBool(b, a0, s0)
			if err := near("EncryptBool level 0", core.Phase(ct0.P, s0), mu(b), 8*a0+slack); err != nil {
				return err
			}
			if got := res.DecryptBool(s0); got != b {
				return core.Errf("level 0 encryption of %v decrypts to %v", b, got)
			}
		case "bool1":
			res := ct1.EncryptBool(b, a1, s1)
			if err := near("EncryptBool level 1", core.Phase(ct1.P, s1), mu(b), 8*a1+slack); err != nil {
				return err
			}
			if got := res.DecryptBool(s1); got != b {
				return core.Errf("level 1 encryption of %v decrypts to %v", b, got)
			}
		case "f64":
			v := []float64{r.Float64(), -r.Float64(), r.Float64() * 5, 0, 0.5, -0.5, 0.999999, 1}[r.IntN(8)]
			ct0.EncryptF64(v, a0, s0)
			if err := near("EncryptF64 level 0", core.Phase(ct0.P, s0), core.F2T(v), 8*a0+slack); err != nil {
				return err
			}
			ct1.EncryptF64(v, a1, s1)
			if err := near("EncryptF64 level 1", core.Phase(ct1.P, s1), core.F2T(v), 8*a1+slack); err != nil {
				return err
			}
		case "craftBool0":
			ph := mu(b) + core.Torus(int32(cs.Noise*0.99999*0.125*(1<<32)))
			ct := &tlwe.TLWELv0{P: craft(s0, ph)}
			if got := ct.DecryptBool(s0); got != b {
				return core.Errf("level 0 ciphertext of %v with noise %.3f/8 decrypts to %v", b, cs.Noise, got)
			}
		case "craftBool1":
			ph := mu(b) + core.Torus(int32(cs.Noise*0.99999*0.125*(1<<32)))
			ct := &tlwe.TLWELv1{P: craft(s1, ph)}
			if got := ct.DecryptBool(s1); got != b {
				return core.Errf("level 1 ciphertext of %v with noise %.3f/8 decrypts to %v", b, cs.Noise, got)
			}
		}
	}
	switch cs.Kind {
	case "ring":
		n := len(s1)
		bits := make([]bool, n)
		for i := range bits {
			bits[i] = r.IntN(2) == 1
		}
		if cs.Seed%5 == 0 {
			for i := range bits {
				bits[i] = cs.Seed%2 == 0
			}
		}
		ct := trlwe.NewTRLWELv1()
		copy(ct.A, core.FillTorus("uniform", 3, n))
		copy(ct.B, core.FillTorus("uniform", 4, n))
		ct.EncryptBool(bits, a1, s1, pe(n))
		ph := core.RingPhase(ct, s1)
		got := ct.DecryptBool(s1, pe(n))
		if len(got) != n {
			return core.Errf("ring decryption returned %d values, want %d", len(got), n)
		}
		for i := range bits {
			if err := near("ring EncryptBool", ph[i], mu(bits[i]), 8*a1+16*slack); err != nil {
				return core.Errf("coefficient %d: %v", i, err)
			}
			if got[i] != bits[i] {
				return core.Errf("ring coefficient %d: encrypted %v, decrypts to %v", i, bits[i], got[i])
			}
		}
		c.Count("ring_coefficients", float64(n))
	case "craftRing":
		n := len(s1)
		bits := make([]bool, n)
		ph := make([]core.Torus, n)
		for i := range bits {
			bits[i] = r.IntN(2) == 1
			ph[i] = mu(bits[i]) + core.Torus(int32((r.Float64()*2-1)*0.97*0.125*(1<<32)))
		}
		ct := core.MakeRing(r, s1, ph)
		got := ct.DecryptBool(s1, pe(n))
		for i := range bits {
			if got[i] != bits[i] {
				return core.Errf("crafted ring ciphertext: coefficient %d of %v (phase %d) decrypts to %v", i, bits[i], ph[i], got[i])
			}
		}
		c.Count("ring_coefficients", float64(n))
	case "bits":
		bits := make([]bool, len(cs.Bits))
		for i, b := range cs.Bits {
			bits[i] = b == 1
		}
		cts := bitutils.EncryptBits(bits, a0, s0)
		if len(cts) != len(bits) {
			return core.Errf("EncryptBits of %d bits gave %d ciphertexts", len(bits), len(cts))
		}
		got := bitutils.DecryptBits(cts, s0)
		if len(got) != len(bits) {
			return core.Errf("DecryptBits of %d ciphertexts gave %d bits", len(bits), len(got))
		}
		for i := range bits {
			if err := near("EncryptBits", core.Phase(cts[i].P, s0), mu(bits[i]), 8*a0+slack); err != nil {
				return err
			}
			if got[i] != bits[i] {
				return core.Errf("bit %d of %d: encrypted %v, decrypts to %v", i, len(bits), bits[i], got[i])
			}
		}
	case "msg":
		want := pb.Mod(cs.Msg, cs.M)
		res := ct0.EncryptLWEMessage(cs.Msg, cs.M, a0, s0)
		ph := core.Phase(res.P, s0)
		if err := near("EncryptLWEMessage", ph, pb.Encode(cs.Msg, cs.M), 8*a0+slack); err != nil {
			return core.Errf("message %d mod %d: %v", cs.Msg, cs.M, err)
		}
		// nearest encoding, up to the truncation of both to the 32-bit torus
		if core.AbsDiff(ph, pb.Encode(cs.Msg, cs.M)) < 1/float64(4*cs.M)-2.0/(1<<32) {
			if got := res.DecryptLWEMessage(cs.M, s0); got != want {
				return core.Errf("message %d modulo %d decrypts to %d, want %d", cs.Msg, cs.M, got, want)
			}
		} else {
			c.Count("fresh_noise_beyond_spacing", 1)
		}
	case "craftMsg":
		want := pb.Mod(cs.Msg, cs.M)
		nz := cs.Noise
		lim := 1 - float64(8*cs.M)/(1<<32) // two torus units short of half the spacing
		if math.Abs(nz) > lim {
			nz = math.Copysign(lim, nz)
		}
		ph := pb.Encode(cs.Msg, cs.M) + core.Torus(int32(nz/float64(4*cs.M)*(1<<32)))
		ct := &tlwe.TLWELv0{P: craft(s0, ph)}
		if got := ct.DecryptLWEMessage(cs.M, s0); got != want {
			return core.Errf("ciphertext of message %d mod %d with noise %.2f of half the spacing decrypts to %d, want %d", cs.Msg, cs.M, nz, got, want)
		}
	case "enc", "encScale":
		var e *lut.Encoder
		scale := 1 / float64(2*cs.M)
		if cs.Kind == "encScale" {
			scale = []float64{1 / float64(cs.M), 0.7 / float64(cs.M), 0.9999 / float64(2*cs.M), 0.25 / float64(cs.M)}[r.IntN(4)]
			e = lut.NewEncoderWithScale(cs.M, scale)
		} else {
			e = lut.NewEncoder(cs.M)
		}
		want := pb.Mod(cs.Msg, cs.M)
		v := e.Encode(cs.Msg)
		if d := core.AbsDiff(v, core.F2T(float64(want)*scale)); d > slack {
			return core.Errf("Encode(%d) mod %d at scale %g is %d, %.3g away", cs.Msg, cs.M, scale, v, d)
		}
		v2 := e.EncodeWithCustomScale(cs.Msg, scale/2)
		if d := core.AbsDiff(v2, core.F2T(float64(want)*scale/2)); d > slack {
			return core.Errf("EncodeWithCustomScale(%d, %g) mod %d is %d, %.3g away", cs.Msg, scale/2, cs.M, v2, d)
		}
		if got := e.Decode(v); got != want {
			return core.Errf("Decode(Encode(%d)) mod %d at scale %g = %d, want %d", cs.Msg, cs.M, scale, got, want)
		}
		if got := e.DecodeBool(v); got != (want != 0) {
			return core.Errf("DecodeBool(Encode(%d)) mod %d = %v", cs.Msg, cs.M, got)
		}
		// displaced within the half spacing; message 0 with a negative displacement wraps to
		// the top of the torus, which decodes to message 0 only if the scale divides the torus
		d := cs.Noise
		if want == 0 && d < 0 && cs.Kind == "encScale" {
			d = -d
		}
		w := v + core.Torus(int32(d*0.97*scale/2*(1<<32)))
		if got := e.Decode(w); got != want {
			return core.Errf("Decode of the encoding of %d mod %d (scale %g) displaced by %.2f of half the spacing = %d, want %d", cs.Msg, cs.M, scale, d, got, want)
		}
	}
	if core.Hash(s0, s1) != h {
		return core.Errf("%s modified the secret key", cs.Kind)
	}
	return nil
}

func main() {
	core.Main(&core.Prop{
		ID:   "C07",
		Rule: "case = encryption kind (booleans at both LWE levels, ring vectors, bit strings, integer messages inside and outside [0,m), reals, encoders), key pattern (generated, all 0, all 1, sparse), noise (default, zero, given) or crafted ciphertexts with noise up to two torus units short of half the spacing, moduli up to 2^24; oracle = plaintext and exact phase; non-trivial: every case with at least one value",
		Subs: []*core.Sub{core.NewSub("roundtrip", gen, func(cs Case) bool { return len(cs.Bits) > 0 || cs.M > 0 }, run)},
		Plan: func(tier string) []core.Job {
			f := 1
			if tier == "thorough" {
				f = 25
			}
			var js []core.Job
			for _, l := range core.AllLevels {
				n := 15000
				if l >= 3 && l <= 8 {
					n = 7000
				}
				js = append(js, core.Job{Level: l, Procs: 1, Runs: []core.RunSpec{{Sub: "roundtrip", N: n * f}}})
			}
			return js
		},
		Assume: []string{"fresh noise bounded by 8 standard deviations"},
	})
}
