// C12: external product and CMUX select and multiply as specified.
package main

import (
	"math"

	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"pgregory.net/rapid"
	"verif/core"
	"verif/pb"
)

type Op struct {
	Op    string
	M     int // multiplier (external product) or control bit (cmux)
	A, B  int
	Alias string
	Impl  string
	Copy  bool
}

type Case struct {
	Seed  uint64
	Key   string
	Alpha string
	Mask  []string
	Body  []string
	Ops   []Op
}

func gen(t *rapid.T, c *core.Ctx) Case {
	cs := Case{Seed: core.GenSeed(t), Key: core.Choose(t, "key", []string{"gen", "gen", "ones", "sparse", "zeros"}), Alpha: core.Choose(t, "alpha", []string{"level", "level", "zero"})}
	k := core.IntIn(t, "k", 2, 3)
	for i := 0; i < k; i++ {
		cs.Mask = append(cs.Mask, core.GenStyle(t, "mask"))
		cs.Body = append(cs.Body, core.GenStyle(t, "body"))
	}
	n := core.IntIn(t, "n", 1, 4)
	for i := 0; i < n; i++ {
		o := Op{Op: core.Choose(t, "op", []string{"ext", "cmux", "cmux"}), A: core.Pick(t, "a", k+i), B: core.Pick(t, "b", k+i), Impl: core.Choose(t, "impl", []string{"eval", "fft"}), Alias: core.Choose(t, "al", []string{"", "", "a"}), Copy: core.Pick(t, "cp", 3) == 0}
		if o.Op == "cmux" {
			o.M = core.Pick(t, "bit", 2)
		} else {
			o.M = core.Choose(t, "m", []int{0, 1, -1, 2, -3, 7})
		}
		cs.Ops = append(cs.Ops, o)
	}
	return cs
}

type gkey struct {
	level core.Level
	key   string
	alpha string
	m     int
}

type entry struct {
	f    *trgsw.TRGSWLv1FFT
	hash uint64
}

var gcache = map[gkey]*entry{}
var kcache = map[string][]core.Torus{}
var pes = map[core.Level]*poly.Evaluator{}
var evs = map[core.Level][2]*evaluator.Evaluator{}

func hashG(f *trgsw.TRGSWLv1FFT) uint64 {
	h := uint64(0)
	for _, r := range f.TRLWEFFT {
		h = h*1000003 ^ core.HashF(r.A.Coeffs, r.B.Coeffs)
	}
	return h
}

func secret(l core.Level, style string) []core.Torus {
	id := style + string(rune(l))
	if s, ok := kcache[id]; ok {
		return s
	}
	core.SeedLib(uint64(l))
	s := key.NewSecretKey().KeyLv1
	for i := range s {
		switch style {
		case "ones":
			s[i] = 1
		case "zeros":
			s[i] = 0
		case "sparse":
			s[i] = 0
			if i == 3 || i == len(s)-1 {
				s[i] = 1
			}
		}
	}
	kcache[id] = s
	return s
}

func run(c *core.Ctx, cs Case) error {
	core.SetLevel(c.Level)
	g := params.GetTRGSWLv1()
	n := g.N
	s := secret(c.Level, cs.Key)
	h := 0.0
	for _, v := range s {
		h += float64(v)
	}
	pe := pes[c.Level]
	if pe == nil {
		pe = poly.NewEvaluator(n)
		pes[c.Level] = pe
		e := pb.NewEval()
		evs[c.Level] = [2]*evaluator.Evaluator{e, e.ShallowCopy()}
	}
	alpha := params.BSKAlpha()
	if cs.Alpha == "zero" {
		alpha = 0
	}
	var off core.Torus
	for i := 1; i <= g.L; i++ {
		off += core.Torus(1) << (g.BGBIT - 1) << (32 - uint32(i)*g.BGBIT)
	}
	control := func(m int) *entry {
		k := gkey{c.Level, cs.Key, cs.Alpha, m}
		if e, ok := gcache[k]; ok {
			return e
		}
		core.SeedLib(uint64(m) + 17)
		e := &entry{f: trgsw.NewTRGSWLv1FFT(trgsw.NewTRGSWLv1().EncryptTorus(core.Torus(int32(m)), alpha, s, pe), pe)}
		e.hash = hashG(e.f)
		gcache[k] = e
		return e
	}
	unit := math.Ldexp(1, -int(g.BGBIT)*g.L)
	// floating-point error per coefficient (coherent digits: constant masks make all digits
	// equal), which the phase adds up over the mask coefficients selected by the key
	fft := 6 * math.Ldexp(1, -53) * float64(g.NBIT) * float64(n) * math.Ldexp(1, 30) * float64(uint64(1)<<(g.BGBIT-1)) * math.Sqrt(float64(2*g.L)) / (1 << 32) * math.Sqrt(h+1)
	noise := 8 * alpha * math.Sqrt(float64(2*g.L*n)) * float64(uint64(1)<<(g.BGBIT-1))
	type val struct {
		ct *trlwe.TRLWELv1
		ph []core.Torus // exact current phase
		h  uint64
	}
	var vs []*val
	for i := range cs.Mask {
		ct := &trlwe.TRLWELv1{A: core.FillTorus(cs.Mask[i], cs.Seed+uint64(i), n), B: core.FillTorus(cs.Body[i], cs.Seed+uint64(i)+50, n)}
		vs = append(vs, &val{ct, core.RingPhase(ct, s), core.Hash(ct.A, ct.B)})
	}
	for i, o := range cs.Ops {
		a, b := vs[o.A], vs[o.B]
		ctl := control(o.M)
		want := make([]core.Torus, n)
		am := math.Abs(float64(o.M))
		if o.Op == "ext" {
			for j := range want {
				want[j] = a.ph[j] * core.Torus(int32(o.M))
			}
		} else {
			for j := range want {
				want[j] = a.ph[j]
				if o.M == 1 {
					want[j] = b.ph[j]
				}
			}
		}
		bound := am*unit*(h+1) + fft + noise + 4.0/(1<<32)
		var out *trlwe.TRLWELv1
		written := -1
		ev := evs[c.Level][0]
		if o.Copy {
			ev = evs[c.Level][1]
		}
		if o.Impl == "eval" {
			if o.Alias == "a" {
				out, written = a.ct, o.A
			} else {
				out = &trlwe.TRLWELv1{A: core.FillTorus("uniform", cs.Seed+7, n), B: core.FillTorus("ones", 0, n)}
			}
			if o.Op == "ext" {
				ev.ExternalProductAssign(ctl.f, a.ct, off, out)
			} else {
				ev.CMuxAssign(ctl.f, a.ct, b.ct, off, out)
			}
		} else {
			var res *trlwe.TRLWELv1
			if o.Op == "ext" {
				res = trgsw.ExternalProductWithFFT(ctl.f, a.ct, off, pe)
			} else {
				res = trgsw.CMUX(a.ct, b.ct, ctl.f, off, pe)
			}
			out = &trlwe.TRLWELv1{A: core.Clone(res.A), B: core.Clone(res.B)}
		}
		c.Class(o.Op + ":" + o.Impl)
		if written >= 0 {
			c.Class("output aliases the first input")
		}
		for j, v := range vs {
			if j != written && !(written >= 0 && v.ct == vs[written].ct) && core.Hash(v.ct.A, v.ct.B) != v.h {
				return core.Errf("op %d %s/%s modified input %d", i, o.Op, o.Impl, j)
			}
		}
		if hashG(ctl.f) != ctl.hash {
			return core.Errf("op %d %s/%s modified the control ciphertext", i, o.Op, o.Impl)
		}
		ph := core.RingPhase(out, s)
		worst, at := 0.0, 0
		for j := range ph {
			if d := core.AbsDiff(ph[j], want[j]); d > worst {
				worst, at = d, j
			}
		}
		c.Max("max_err_over_bound_x1000", math.Round(worst/bound*1000))
		if worst > bound {
			return core.Errf("op %d %s/%s with m=%d (alias %q): coefficient %d has phase %d, want %d (off by %.3g, bound %.3g)", i, o.Op, o.Impl, o.M, o.Alias, at, ph[at], want[at], worst, bound)
		}
		nv := &val{out, ph, core.Hash(out.A, out.B)}
		if written >= 0 {
			for _, v := range vs {
				if v.ct == out {
					v.ph, v.h = ph, nv.h
				}
			}
			cp := &trlwe.TRLWELv1{A: core.Clone(out.A), B: core.Clone(out.B)}
			nv = &val{cp, ph, core.Hash(cp.A, cp.B)}
		}
		vs = append(vs, nv)
	}
	c.Class("key:" + cs.Key)
	return nil
}

func main() {
	core.Main(&core.Prop{
		ID:   "C12",
		Rule: "case = 2-3 arbitrary ring ciphertexts (mask and body styles), key pattern, zero or declared key noise, 1-4 external products (m in {0,1,-1,2,-3,7}) or CMUXes in either implementation, with aliasing and evaluator copies; oracle = exact phases with the deterministic bound |m| unit (|s|_1+1) + 8 sigma key noise + FFT error; non-trivial: some ciphertext with non-zero mask",
		Subs: []*core.Sub{core.NewSub("select", gen, func(cs Case) bool {
			for _, m := range cs.Mask {
				if m != "zero" {
					return true
				}
			}
			return false
		}, run)},
		Plan: func(tier string) []core.Job {
			f := 1
			if tier == "thorough" {
				f = 20
			}
			var js []core.Job
			for _, l := range core.AllLevels {
				n := 4000
				if params.SecurityLevel(l) >= 4 && l <= 8 {
					n = 1500
				}
				js = append(js, core.Job{Level: l, Procs: 1, Runs: []core.RunSpec{{Sub: "select", N: n * f}}})
			}
			return js
		},
	})
}
