// C13: sample extraction yields exactly the chosen coefficient's phase.
package main

import (
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"pgregory.net/rapid"
	"verif/core"
)

type Case struct {
	Seed uint64
	A, B string
	Key  string
	K    int // index, modulo N
	Spec string
	Form string
}

func gen(t *rapid.T, c *core.Ctx) Case {
	return Case{core.GenSeed(t), core.GenStyle(t, "a"), core.GenStyle(t, "b"), core.Choose(t, "key", []string{"bin", "uniform", "extreme", "sparse", "ones"}), core.Pick(t, "k", 4096), core.Choose(t, "spec", []string{"", "", "0", "1", "N-1", "N/2"}), core.Choose(t, "form", []string{"alloc", "assign", "lv0"})}
}

func run(c *core.Ctx, cs Case) error {
	core.SetLevel(c.Level)
	n := params.GetTRLWELv1().N
	if cs.Form == "lv0" {
		n = params.GetTLWELv0().N // SampleExtractIndex2 works on ring ciphertexts of level-0 dimension
	}
	k := cs.K % n
	switch cs.Spec {
	case "0":
		k = 0
	case "1":
		k = 1
	case "N-1":
		k = n - 1
	case "N/2":
		k = n / 2
	}
	r := core.RNG(cs.Seed)
	s := make([]core.Torus, n)
	for i := range s {
		switch cs.Key {
		case "bin":
			s[i] = core.Torus(r.IntN(2))
		case "uniform":
			s[i] = core.Torus(r.Uint32())
		case "extreme":
			s[i] = []core.Torus{0, 1, 0xffffffff, 1 << 31}[r.IntN(4)]
		case "ones":
			s[i] = 1
		}
	}
	if cs.Key == "sparse" {
		s[r.IntN(n)] = 1
	}
	ct := &trlwe.TRLWELv1{A: core.FillTorus(cs.A, cs.Seed, n), B: core.FillTorus(cs.B, cs.Seed+1, n)}
	h := core.Hash(ct.A, ct.B)
	// coefficient k of B - A*s
	want := ct.B[k]
	for i := 0; i < n; i++ {
		if i <= k {
			want -= ct.A[i] * s[k-i]
		} else {
			want += ct.A[i] * s[n+k-i]
		}
	}
	c.Class("form:" + cs.Form)
	var p []core.Torus
	switch cs.Form {
	case "lv0":
		p = trlwe.SampleExtractIndex2(ct, k).P
	case "assign":
		o := &tlwe.TLWELv1{P: core.FillTorus("uniform", cs.Seed+4, n+1)}
		trlwe.SampleExtractIndexAssign(ct, k, o)
		p = o.P
		if !core.Equal(p, trlwe.SampleExtractIndex(ct, k).P) {
			return core.Errf("index %d: allocating and assigning extraction differ", k)
		}
	default:
		p = trlwe.SampleExtractIndex(ct, k).P
	}
	if len(p) != n+1 {
		return core.Errf("extracted sample has %d components, want %d", len(p), n+1)
	}
	if got := core.Phase(p, s); got != want {
		return core.Errf("%s index %d of %d (%s key): extracted phase %d, ring coefficient %d", cs.Form, k, n, cs.Key, got, want)
	}
	if core.Hash(ct.A, ct.B) != h {
		return core.Errf("extraction modified its input")
	}
	for i := range p { // result must not share memory with the input
		p[i] ^= 0x55555555
	}
	if core.Hash(ct.A, ct.B) != h {
		return core.Errf("the extracted sample shares memory with the ring ciphertext")
	}
	return nil
}

func main() {
	core.Main(&core.Prop{
		ID:   "C13",
		Rule: "case = ring ciphertext (mask/body styles), key (binary, arbitrary 32-bit, extreme, sparse, all ones), index (any, 0, 1, N/2, N-1), form (allocating, assigning into garbage, level-0 variant at its dimension); oracle = exact negacyclic coefficient; non-trivial: mask not zero",
		Subs: []*core.Sub{core.NewSub("extract", gen, func(cs Case) bool { return cs.A != "zero" }, run)},
		Plan: func(tier string) []core.Job {
			f := 1
			if tier == "thorough" {
				f = 40
			}
			return core.LevelJobs(core.AllLevels, core.RunSpec{Sub: "extract", N: 15000 * f})
		},
	})
}
