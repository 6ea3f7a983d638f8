// C04: programmable bootstrapping evaluates any function on any message.
package main

import (
	"math"

	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"pgregory.net/rapid"
	"verif/core"
	"verif/pb"
)

// Step: one bootstrap. Src < 0: the fresh encryption of message X; otherwise the result
// of step Src.
type Step struct {
	Src   int
	X     int
	F     int    // function index
	Entry string // entry point
	Eval  int    // 0: original evaluator, 1: shallow copy, 2: copy of the copy
}

type Case struct {
	Seed  uint64
	M     int
	Funcs [][]int // value tables, values may lie outside [0,M)
	Steps []Step
	Mask  string // "fresh", or crafted mask style
	Noise float64
}

var entries = []string{"func", "funcAssign", "lut", "lutAssign", "lutTemp", "funcInPlace", "lutInPlace"}

func gen(t *rapid.T, c *core.Ctx) Case {
	mx := pb.MaxModulus[c.Level]
	m := core.IntIn(t, "m", 2, mx)
	cs := Case{Seed: core.GenSeed(t), M: m, Mask: core.Choose(t, "mask", []string{"fresh", "fresh", "uniform", "spiked", "zero"})}
	cs.Noise = core.Choose(t, "noise", []float64{0, 0.2, -0.2, 0.35, -0.35, 0.45, -0.45})
	nf := core.IntIn(t, "nf", 1, 3)
	for i := 0; i < nf; i++ {
		f := make([]int, m)
		kind := core.Pick(t, "fkind", 6)
		for x := range f {
			switch kind {
			case 0:
				f[x] = x
			case 1:
				f[x] = m - 1 - x
			case 2:
				f[x] = (x * x) // may exceed m
			case 3:
				f[x] = -x
			default:
				f[x] = core.IntIn(t, "y", -2*m, 3*m)
			}
		}
		cs.Funcs = append(cs.Funcs, f)
	}
	if m > 2 && core.Pick(t, "near", 3) == 0 {
		// two functions that differ at a few messages only, alternated on one evaluator
		f := cs.Funcs[0]
		g := append([]int(nil), f...)
		var xs []int
		for i := 0; i < core.IntIn(t, "nd", 1, 2); i++ {
			x := core.IntIn(t, "dx", 0, m-1)
			g[x] = f[x] + core.IntIn(t, "dy", 1, m-1)
			xs = append(xs, x)
		}
		cs.Funcs = [][]int{f, g}
		ev := core.Pick(t, "eval", 3)
		e1 := core.Choose(t, "nentry", []string{"func", "func", "funcAssign", "lut", "lutTemp"})
		e2 := core.Choose(t, "nentry", []string{"func", "func", "funcAssign", e1})
		for i := 0; i < core.IntIn(t, "ns", 2, 4); i++ {
			e := e1
			if i%2 == 1 {
				e = e2
			}
			cs.Steps = append(cs.Steps, Step{Src: -1, X: core.Choose(t, "x", xs), F: i % 2, Entry: e, Eval: ev})
		}
		return cs
	}
	ns := core.IntIn(t, "ns", 1, 5)
	for i := 0; i < ns; i++ {
		st := Step{Src: -1, X: core.IntIn(t, "x", 0, m-1), F: core.Pick(t, "f", nf), Entry: core.Choose(t, "entry", entries), Eval: core.Pick(t, "eval", 3)}
		if i > 0 && core.Pick(t, "chain", 2) == 1 {
			st.Src = core.Pick(t, "src", i)
		}
		cs.Steps = append(cs.Steps, st)
	}
	return cs
}

var copies = map[core.Level][3]*evaluator.Evaluator{}

func evals(l core.Level) [3]*evaluator.Evaluator {
	if e, ok := copies[l]; ok {
		return e
	}
	e := pb.NewEval()
	c := e.ShallowCopy()
	copies[l] = [3]*evaluator.Evaluator{e, c, c.ShallowCopy()}
	return copies[l]
}

func run(c *core.Ctx, cs Case) error {
	k := core.GetKeys(c.Level, 0)
	core.SeedLib(cs.Seed)
	n := params.GetTRGSWLv1().N
	s := k.SK.KeyLv0
	r := core.RNG(cs.Seed)
	es := evals(c.Level)
	m := cs.M
	bsk, ksk, off := k.CK.BootstrappingKey, k.CK.KeySwitchingKey, k.CK.DecompositionOffset
	g := lut.NewGenerator(m)
	var luts []*lut.LookUpTable
	var lh []uint64
	for _, f := range cs.Funcs {
		f := f
		l := g.GenLookUpTable(func(x int) int { return f[x] })
		luts = append(luts, l)
		lh = append(lh, core.Hash(l.Poly.A, l.Poly.B))
	}
	var vals []int
	var cts []*tlwe.TLWELv0
	var hs []uint64
	for i, st := range cs.Steps {
		var in *tlwe.TLWELv0
		x := st.X
		switch {
		case st.Src >= 0:
			in, x = cts[st.Src], vals[st.Src]
		case cs.Mask == "fresh":
			in = tlwe.NewTLWELv0().EncryptLWEMessage(x, m, params.GetTLWELv0().ALPHA, s)
		default:
			mask := core.FillMask(r, cs.Mask, len(s))
			p := append(mask, pb.Encode(x, m)+core.Torus(int32(cs.Noise/float64(2*m)*(1<<32))))
			for j := range s {
				p[len(s)] += p[j] * s[j]
			}
			in = &tlwe.TLWELv0{P: p}
		}
		if st.Entry == "funcInPlace" || st.Entry == "lutInPlace" {
			in = &tlwe.TLWELv0{P: core.Clone(in.P)} // the step overwrites its own copy
		}
		inP, hin := core.Clone(in.P), core.Hash(in.P)
		f := cs.Funcs[st.F]
		ff := func(v int) int { return f[v] }
		e := es[st.Eval]
		var out *tlwe.TLWELv0
		switch st.Entry {
		case "func":
			out = e.BootstrapFunc(in, ff, m, bsk, ksk, off)
		case "funcAssign":
			out = &tlwe.TLWELv0{P: core.FillTorus("uniform", cs.Seed+uint64(i), len(s)+1)}
			e.BootstrapFuncAssign(in, ff, m, bsk, ksk, off, out)
		case "lut":
			out = e.BootstrapLUT(in, luts[st.F], bsk, ksk, off)
		case "lutAssign":
			out = &tlwe.TLWELv0{P: core.FillTorus("ones", 0, len(s)+1)}
			e.BootstrapLUTAssign(in, luts[st.F], bsk, ksk, off, out)
		case "funcInPlace":
			out = in
			e.BootstrapFuncAssign(in, ff, m, bsk, ksk, off, out)
		case "lutInPlace":
			out = in
			e.BootstrapLUTAssign(in, luts[st.F], bsk, ksk, off, out)
		default:
			tmp := e.BootstrapLUTTemp(in, luts[st.F], bsk, ksk, off)
			out = &tlwe.TLWELv0{P: core.Clone(tmp.P)}
		}
		c.Count("bootstraps", 1)
		c.Class("entry:" + st.Entry)
		if st.Src >= 0 {
			c.Class("chained")
		}
		if out != in && core.Hash(in.P) != hin {
			return core.Errf("step %d (%s): the input ciphertext was modified", i, st.Entry)
		}
		idx, ties := core.BRIndex(inP, s, n)
		want := pb.Mod(f[x], m)
		if ties > 0 || !pb.InSlot(idx, x, m, n) {
			// the input's own noise puts it outside message x's slot: judge against the slot it is in
			c.Count("noise_limited_steps", 1)
			ph := core.Phase(out.P, s)
			want = out.DecryptLWEMessage(m, s)
			_ = ph
		} else {
			ph := core.Phase(out.P, s)
			dev := core.AbsDiff(ph, pb.Encode(want, m))
			if dev > core.Tol(c.Level) {
				return core.Errf("step %d (%s, evaluator %d): f(%d)=%d mod %d = %d, but the result's phase is %.5f away from its encoding (bound %.5f), decrypts to %d", i, st.Entry, st.Eval, x, f[x], m, want, dev, core.Tol(c.Level), out.DecryptLWEMessage(m, s))
			}
			c.Max("max_dev_over_tol_x1000", math.Round(dev/core.Tol(c.Level)*1000))
			if dev < 1/float64(4*m)-1e-6 {
				if got := out.DecryptLWEMessage(m, s); got != want {
					return core.Errf("step %d (%s): decrypts to %d, want f(%d) mod %d = %d", i, st.Entry, got, x, m, want)
				}
			} else {
				c.Count("output_beyond_half_spacing", 1)
				want = out.DecryptLWEMessage(m, s)
			}
		}
		vals, cts, hs = append(vals, want), append(cts, out), append(hs, core.Hash(out.P))
	}
	for i := range cts {
		if core.Hash(cts[i].P) != hs[i] {
			return core.Errf("the result of step %d (%s) changed later", i, cs.Steps[i].Entry)
		}
	}
	for i, l := range luts {
		if core.Hash(l.Poly.A, l.Poly.B) != lh[i] {
			return core.Errf("bootstrapping modified lookup table %d", i)
		}
	}
	c.Class("mask:" + cs.Mask)
	return nil
}

func main() {
	core.Main(&core.Prop{
		ID:   "C04",
		Rule: "case = message modulus m, 1-3 functions given by value tables (values also outside [0,m)), 1-5 bootstraps (fresh, crafted-mask or chained inputs; seven ways to call, two of them in place; original evaluator, copy, copy of copy); oracle = f(x) mod m and phase bound; non-trivial: some function not constant",
		Subs: []*core.Sub{core.NewSub("pbs", gen, func(cs Case) bool {
			for _, f := range cs.Funcs {
				for _, y := range f {
					if y != f[0] {
						return true
					}
				}
			}
			return false
		}, run)},
		Plan: func(tier string) []core.Job {
			n := map[core.Level]int{80: 110, 110: 75, 128: 65, 1: 65, 2: 100, 3: 65, 4: 65, 5: 35, 6: 14, 7: 6, 8: 6}
			f := 1
			ls := []core.Level{8, 6, 5, 128, 4, 1, 3, 110, 2, 80}
			if tier == "thorough" {
				f = 14
				ls = append([]core.Level{7}, ls...)
			}
			var js []core.Job
			for _, l := range ls {
				js = append(js, core.Job{Level: l, Procs: 1, Runs: []core.RunSpec{{Sub: "pbs", N: n[l] * f}}})
			}
			return js
		},
		Assume: []string{"steps whose input noise (known exactly) leaves the message's slot are counted as noise-limited and not judged", "phase bound 7.5 sigma"},
	})
}
