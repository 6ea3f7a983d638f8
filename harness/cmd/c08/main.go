// C08: LWE ciphertext arithmetic is exactly linear on phases.
package main

import (
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"pgregory.net/rapid"
	"verif/core"
)

type Op struct {
	Op  string
	A   int
	B   int
	Out int // AddAssign target (existing value), -1: new garbage object
	K   uint32
}

type Case struct {
	Seed uint64
	Key  string
	Sty  []string
	Ops  []Op
}

var ops = []string{"add", "sub", "neg", "addMul", "subMul", "addAssign", "addAssign", "mul", "not", "copy"}

func gen(t *rapid.T, c *core.Ctx) Case {
	cs := Case{Seed: core.GenSeed(t), Key: core.Choose(t, "key", []string{"bin", "uniform", "extreme", "zero"})}
	k := core.IntIn(t, "k", 1, 4)
	for i := 0; i < k; i++ {
		cs.Sty = append(cs.Sty, core.GenStyle(t, "style"))
	}
	n := core.IntIn(t, "n", 1, 12)
	for i := 0; i < n; i++ {
		o := Op{Op: core.Choose(t, "op", ops), A: core.Pick(t, "a", k+i), B: core.Pick(t, "b", k+i), Out: -1, K: core.GenTorus().Draw(t, "mult")}
		if core.Pick(t, "al", 2) == 1 {
			o.Out = core.Pick(t, "out", k+i)
		}
		if core.Pick(t, "same", 5) == 0 {
			o.B = o.A
		}
		cs.Ops = append(cs.Ops, o)
	}
	return cs
}

func run(c *core.Ctx, cs Case) error {
	core.SetLevel(c.Level)
	n := params.GetTLWELv0().N
	r := core.RNG(cs.Seed)
	s := make([]core.Torus, n)
	for i := range s {
		switch cs.Key {
		case "bin":
			s[i] = core.Torus(r.IntN(2))
		case "uniform":
			s[i] = core.Torus(r.Uint32())
		case "extreme":
			s[i] = []core.Torus{0, 1, 0xffffffff, 1 << 31}[r.IntN(4)]
		}
	}
	type val struct {
		ct *tlwe.TLWELv0
		m  []core.Torus // model content
		ph core.Torus
	}
	var vs []*val
	push := func(ct *tlwe.TLWELv0, m []core.Torus, ph core.Torus) { vs = append(vs, &val{ct, m, ph}) }
	for i, st := range cs.Sty {
		p := core.FillTorus(st, cs.Seed+uint64(i)*17, n+1)
		push(&tlwe.TLWELv0{P: core.Clone(p)}, p, core.Phase(p, s))
	}
	for i, o := range cs.Ops {
		a, b := vs[o.A], vs[o.B]
		m := make([]core.Torus, n+1)
		var ph core.Torus
		var out *tlwe.TLWELv0
		comp := func(f func(x, y core.Torus) core.Torus) {
			for j := range m {
				m[j] = f(a.m[j], b.m[j])
			}
			ph = f(a.ph, b.ph)
		}
		inPlace := -1
		switch o.Op {
		case "add":
			comp(func(x, y core.Torus) core.Torus { return x + y })
			out = a.ct.Add(b.ct)
		case "sub":
			comp(func(x, y core.Torus) core.Torus { return x - y })
			out = a.ct.Sub(b.ct)
		case "neg":
			comp(func(x, y core.Torus) core.Torus { return -x })
			out = a.ct.Neg()
		case "not":
			comp(func(x, y core.Torus) core.Torus { return -x })
			out = gates.NOT(a.ct)
		case "copy":
			comp(func(x, y core.Torus) core.Torus { return x })
			out = gates.Copy(a.ct)
		case "addMul":
			comp(func(x, y core.Torus) core.Torus { return x + y*core.Torus(o.K) })
			out = a.ct.AddMul(b.ct, core.Torus(o.K))
		case "subMul":
			comp(func(x, y core.Torus) core.Torus { return x - y*core.Torus(o.K) })
			out = a.ct.SubMul(b.ct, core.Torus(o.K))
		case "mul":
			comp(func(x, y core.Torus) core.Torus { return x * y })
			ph = core.Phase(m, s) // component-wise product: not linear on phases
			out = a.ct.Mul(b.ct)
		case "addAssign":
			comp(func(x, y core.Torus) core.Torus { return x + y })
			if o.Out >= 0 {
				out = vs[o.Out].ct
				inPlace = o.Out
				c.Class("aliased-output")
			} else {
				out = &tlwe.TLWELv0{P: core.FillTorus("uniform", cs.Seed+99, n+1)}
			}
			a.ct.AddAssign(b.ct, out)
		}
		c.Class("op:" + o.Op)
		if o.A == o.B {
			c.Class("same-operand")
		}
		if len(out.P) != n+1 {
			return core.Errf("op %d %s: result length %d, want %d", i, o.Op, len(out.P), n+1)
		}
		if got := core.Phase(out.P, s); got != ph {
			return core.Errf("op %d %s: phase %d, want %d", i, o.Op, got, ph)
		}
		if !core.Equal(out.P, m) {
			return core.Errf("op %d %s: ciphertext differs from the component-wise result", i, o.Op)
		}
		if inPlace >= 0 {
			vs[inPlace].m, vs[inPlace].ph = core.Clone(m), ph
			// keep the value indices in step: the new value is a detached copy
			push(&tlwe.TLWELv0{P: core.Clone(m)}, m, ph)
		} else {
			for j, v := range vs {
				if &v.ct.P[0] == &out.P[0] {
					return core.Errf("op %d %s: the result shares memory with value %d", i, o.Op, j)
				}
			}
			push(out, m, ph)
		}
		for j, v := range vs {
			if !core.Equal(v.ct.P, v.m) {
				return core.Errf("op %d %s(%d,%d): value %d was modified", i, o.Op, o.A, o.B, j)
			}
		}
	}
	// writing into a result must not reach any other value
	last := vs[len(vs)-1]
	for j := range last.ct.P {
		last.ct.P[j] ^= 0x5a5a5a5a
	}
	for j, v := range vs[:len(vs)-1] {
		if !core.Equal(v.ct.P, v.m) {
			return core.Errf("writing to the last result changed value %d", j)
		}
	}
	return nil
}

func main() {
	core.Main(&core.Prop{
		ID:   "C08",
		Rule: "case = 1-4 arbitrary ciphertexts, a key (binary, arbitrary 32-bit, extreme, zero) and 1-12 operations with arbitrary 32-bit multipliers, repeated operands and aliased outputs; after each step phase, components and all earlier values are compared with an exact model; non-trivial: some ciphertext not all zero",
		Subs: []*core.Sub{core.NewSub("program", gen, func(cs Case) bool {
			for _, s := range cs.Sty {
				if s != "zero" {
					return true
				}
			}
			return false
		}, run)},
		Plan: func(tier string) []core.Job {
			f := 1
			if tier == "thorough" {
				f = 40
			}
			return core.LevelJobs(core.AllLevels, core.RunSpec{Sub: "program", N: 3000 * f})
		},
	})
}
