// C01: every boolean gate computes its truth table on every valid ciphertext.
package main

import (
	"math"
	"strings"

	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"pgregory.net/rapid"
	"verif/core"
	"verif/gx"
)

// Op describes one operand.
type Op struct {
	Bit    int
	Origin string
	Style  string  // crafted: mask style
	Frac   float64 // crafted: displacement as a signed fraction of the operand's share of the margin
	Abs    bool    // crafted: Frac is a fraction of the whole margin instead
	Ref    int     // alias: operand index
}

// Case is one gate evaluation.
type Case struct {
	Gate string
	Ops  []Op
	Seed uint64
}

var origins = []string{"fresh", "fresh", "pk", "const", "not", "gate", "copy", "crafted", "crafted", "crafted", "alias", "alias"}

func gen(t *rapid.T, c *core.Ctx) Case {
	g := gx.ByName(core.Choose(t, "gate", gx.Names()))
	cs := Case{Gate: g.Name, Seed: core.GenSeed(t)}
	if g.Boot && core.Pick(t, "edge", 3) == 0 {
		// all operands displaced, in every combination of directions, so that the
		// combination comes close to the largest load the gate must accept
		w := make([]float64, 3)
		for i := 0; i < g.Arity; i++ {
			w[i] = core.Choose(t, "w", []float64{1, 1, 1, 0.5, 0.2, 0})
		}
		if w[0]+w[1]+w[2] == 0 {
			w[0] = 1
		}
		f := core.Choose(t, "load", []float64{0.99, 0.99, 0.97, 0.93, 0.85}) / g.Load(w)
		for i := 0; i < g.Arity; i++ {
			sign := float64(1 - 2*core.Pick(t, "sign", 2))
			cs.Ops = append(cs.Ops, Op{Bit: core.IntIn(t, "bit", 0, 1), Origin: "crafted", Style: core.Choose(t, "style", core.MaskStyles), Frac: sign * f * w[i], Abs: true})
		}
		return cs
	}
	for i := 0; i < g.Arity; i++ {
		op := Op{Bit: core.IntIn(t, "bit", 0, 1), Origin: core.Choose(t, "origin", origins)}
		switch op.Origin {
		case "crafted":
			op.Style = core.Choose(t, "style", core.MaskStyles)
			op.Frac = float64(core.Choose(t, "frac", []int{-96, 96, 90, -90, 75, -75, 50, -50, 25, -25, 10, -10, 0})) / 100
		case "alias":
			if i == 0 {
				op.Origin = "fresh"
			} else {
				op.Ref = core.IntIn(t, "ref", 0, i-1)
				op.Bit = cs.Ops[op.Ref].Bit
			}
		}
		cs.Ops = append(cs.Ops, op)
	}
	return cs
}

var pkCache = map[core.Level]*proxyreenc.PublicKeyLv0{}

func run(c *core.Ctx, cs Case) error {
	k := core.GetKeys(c.Level, 0)
	core.SeedLib(cs.Seed)
	r := core.RNG(cs.Seed)
	g := gx.ByName(cs.Gate)
	alpha := params.GetTLWELv0().ALPHA
	margin := gx.Margin()
	var args [3]*gx.CT
	var bits [3]bool
	// per-operand share of the margin for crafted operands
	share := margin / 2
	if g.XorTy {
		share = margin / 3
	}
	aliased := false
	for i, op := range cs.Ops {
		b := op.Bit == 1
		bits[i] = b
		c.Class("origin:" + op.Origin)
		switch op.Origin {
		case "fresh":
			args[i] = gx.Fresh(k, b)
		case "pk":
			pk := pkCache[c.Level]
			if pk == nil {
				pk = proxyreenc.NewPublicKeyLv0WithParams(k.SK.KeyLv0, 64, alpha)
				pkCache[c.Level] = pk
			}
			args[i] = pk.EncryptBool(b, alpha)
		case "const":
			args[i] = gates.Constant(b)
		case "not":
			args[i] = gates.NOT(gx.Fresh(k, !b))
		case "copy":
			args[i] = gates.Copy(gx.Fresh(k, b))
		case "gate":
			x := r.IntN(2) == 1
			// NAND(x, !x) = 1, AND(x, !x) = 0
			if b {
				args[i] = gates.NAND(gx.Fresh(k, x), gx.Fresh(k, !x), k.CK)
			} else {
				args[i] = gates.AND(gx.Fresh(k, x), gx.Fresh(k, !x), k.CK)
			}
		case "crafted":
			d := op.Frac * share
			if op.Abs {
				d = op.Frac * margin
			}
			if math.Abs(d) > 0.108 {
				d = math.Copysign(0.108, d)
			}
			args[i] = gx.Crafted(r, k, b, d, op.Style)
		case "alias":
			args[i] = args[op.Ref]
			aliased = true
		}
	}
	c.Class("gate:" + g.Name)
	if aliased {
		c.Class("aliased")
	}
	// the inputs must be what they claim; displaced inputs beyond the margin are not "valid"
	devs := make([]float64, 3)
	snap := make([][]core.Torus, 3)
	for i := 0; i < g.Arity; i++ {
		devs[i] = gx.Dev(args[i].P, k.SK.KeyLv0, bits[i])
		if devs[i] > 0.11 {
			return core.Errf("operand %d (%s) of bit %v has phase error %.4f", i, cs.Ops[i].Origin, bits[i], devs[i])
		}
		if got := args[i].DecryptBool(k.SK.KeyLv0); got != bits[i] {
			return core.Errf("operand %d (%s) decrypts to %v, want %v", i, cs.Ops[i].Origin, got, bits[i])
		}
		snap[i] = core.Clone(args[i].P)
	}
	load := g.Load(devs)
	if load > margin {
		c.Count("skipped_noise_limited", 1)
		return nil
	}
	if g.Boot && load > 0.7*margin {
		c.Class("near-margin")
	}
	out := g.Eval(args[0], args[1], args[2], k.CK)
	tol := core.Tol(c.Level)
	if !g.Boot {
		tol = devs[0] + 1e-8
	}
	want := g.Truth(bits[0], bits[1], bits[2])
	if err := gx.CheckOut(c, k, g.Name, out, want, tol); err != nil {
		return core.Errf("%v; operands %v", err, bits[:g.Arity])
	}
	for i := 0; i < g.Arity; i++ {
		if !core.Equal(snap[i], args[i].P) {
			return core.Errf("%s modified operand %d", g.Name, i)
		}
		if &out.P[0] == &args[i].P[0] {
			return core.Errf("%s returned memory of operand %d", g.Name, i)
		}
	}
	return nil
}

// ConstCase checks constants under several keys.
type ConstCase struct {
	Bit  int
	Seed uint64
}

func main() {
	tt := core.NewSub("truth", gen, func(cs Case) bool {
		for _, o := range cs.Ops {
			if o.Origin != "fresh" {
				return true
			}
		}
		return false
	}, run)
	ct := core.NewSub("constant", func(t *rapid.T, c *core.Ctx) ConstCase {
		return ConstCase{core.IntIn(t, "bit", 0, 1), core.GenSeed(t)}
	}, func(ConstCase) bool { return true }, func(c *core.Ctx, cs ConstCase) error {
		core.SetLevel(c.Level)
		core.SeedLib(cs.Seed)
		r := core.RNG(cs.Seed)
		out := gates.Constant(cs.Bit == 1)
		// a constant is an encryption under every key
		key := core.FillTorus("uniform", r.Uint64(), params.GetTLWELv0().N)
		for i := range key {
			key[i] &= 1
		}
		if d := gx.Dev(out.P, key, cs.Bit == 1); d > 1e-6 {
			return core.Errf("Constant(%v) has phase error %g", cs.Bit == 1, d)
		}
		if out.DecryptBool(key) != (cs.Bit == 1) {
			return core.Errf("Constant(%v) decrypts wrongly", cs.Bit == 1)
		}
		return nil
	})
	core.Main(&core.Prop{
		ID: "C01",
		Rule: "case = gate x operand bits x operand origins (fresh, public-key, constant, NOT, copy, gate result, crafted mask/displacement up to 96% of the decision margin, aliased) at one level; " +
			"non-trivial: at least one operand is not a plain fresh encryption; oracle: truth table, exact phase bound, operands unmodified. Gates: " + strings.Join(gx.Names(), ","),
		Subs: []*core.Sub{tt, ct},
		Plan: func(tier string) []core.Job {
			n := map[core.Level]int{80: 300, 110: 220, 128: 220, 1: 240, 2: 500, 3: 260, 4: 200, 5: 110, 6: 40, 7: 24, 8: 24}
			var js []core.Job
			f := 1
			if tier == "thorough" {
				f = 6
			}
			add := func(l core.Level) {
				js = append(js, core.Job{Level: l, Procs: 1, Runs: []core.RunSpec{{Sub: "truth", N: n[l] * f}, {Sub: "constant", N: 10}}})
			}
			add(8)
			add(128)
			add(128)
			add(128)
			for _, l := range []core.Level{6, 7, 5, 80, 110, 1, 2, 3, 4} {
				add(l)
			}
			return js
		},
		Assume: []string{"inputs whose summed phase displacement exceeds 1/8 minus 6.5 sigma of the 2N rounding are not required to be answered correctly (noise budget)", "bootstrapping noise bound: 7.5 x calibrated sigma per level"},
	})
}
