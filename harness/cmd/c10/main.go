// C10: multiplication by X^k is the exact ring rotation for every integer k.
package main

import (
	"math"

	"github.com/thedonutfactory/go-tfhe/poly"
	"pgregory.net/rapid"
	"verif/core"
)

type Case struct {
	Seed  uint64
	LogN  int
	Style string
	Ks    []int
	Form  string
}

func genK(t *rapid.T, n int) int {
	switch core.Pick(t, "kk", 5) {
	case 0:
		b := core.Choose(t, "base", []int{0, n, 2 * n, 3 * n, 4 * n, -n, -2 * n, -3 * n, -4 * n, 1000 * n, -1001 * n})
		return b + core.IntIn(t, "d", -2, 2)
	case 1:
		return core.IntIn(t, "k", -6*n, 6*n)
	case 2:
		return core.Choose(t, "huge", []int{math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, 1 << 40, -(1 << 40) - 3, math.MinInt64 + 1})
	default:
		return core.IntIn(t, "k", 0, 2*n-1)
	}
}

func gen(t *rapid.T, c *core.Ctx) Case {
	cs := Case{Seed: core.GenSeed(t), LogN: core.IntIn(t, "logn", 4, 11), Style: core.GenStyle(t, "style"), Form: core.Choose(t, "form", []string{"inplace", "direct", "pooled"})}
	for i := 0; i < core.IntIn(t, "n", 1, 4); i++ {
		cs.Ks = append(cs.Ks, genK(t, 1<<cs.LogN))
	}
	return cs
}

func rot(a []core.Torus, k int) []core.Torus {
	n := len(a)
	k %= 2 * n
	if k < 0 {
		k += 2 * n
	}
	return core.Rotate(a, k)
}

var evs = map[int]*poly.Evaluator{}

func run(c *core.Ctx, cs Case) error {
	n := 1 << cs.LogN
	if evs[n] == nil {
		evs[n] = poly.NewEvaluator(n)
	}
	e := evs[n]
	a := core.FillTorus(cs.Style, cs.Seed, n)
	in := core.Clone(a)
	c.Class("form:" + cs.Form)
	do := func(x []core.Torus, k int) []core.Torus {
		switch cs.Form {
		case "direct":
			out := core.FillTorus("uniform", cs.Seed+5, n)
			e.PolyMulWithXKDirect(x, k, out)
			return out
		case "pooled":
			return e.PolyMulWithXK(x, k)
		default:
			out := core.FillTorus("ones", 0, n)
			poly.PolyMulWithXKInPlace(x, k, out)
			return out
		}
	}
	// independent rotations of the same input: with the pooled form up to four stay valid
	var outs, wants [][]core.Torus
	for _, k := range cs.Ks {
		outs = append(outs, do(in, k))
		wants = append(wants, rot(a, k))
		if !core.Equal(in, a) {
			return core.Errf("%s: X^%d modified its input", cs.Form, k)
		}
	}
	for i, k := range cs.Ks {
		if k < 0 {
			c.Class("negative")
		}
		if k >= 2*n {
			c.Class("beyond 2N")
		}
		for j := range outs[i] {
			if outs[i][j] != wants[i][j] {
				return core.Errf("%s N=%d: coefficient %d of X^%d * p is %d, want %d", cs.Form, n, j, k, outs[i][j], wants[i][j])
			}
		}
	}
	// composition
	x, tot := core.Clone(a), 0
	for _, k := range cs.Ks {
		x = core.Clone(do(x, k))
		tot = (tot + k%(2*n)) % (2 * n)
	}
	if !core.Equal(x, rot(a, tot)) {
		return core.Errf("%s N=%d: rotations %v do not compose to X^%d", cs.Form, n, cs.Ks, tot)
	}
	// X^N negates, X^2N is the identity
	neg := core.Clone(do(in, n))
	for j := range neg {
		if neg[j] != -a[j] {
			return core.Errf("N=%d: X^N * p is not -p at coefficient %d", n, j)
		}
	}
	if !core.Equal(do(in, 2*n), a) {
		return core.Errf("N=%d: X^2N * p is not p", n)
	}
	return nil
}

// All rotations of one polynomial.
type All struct {
	Seed uint64
	LogN int
}

func runAll(c *core.Ctx, cs All) error {
	n := 1 << cs.LogN
	a := core.FillTorus("uniform", cs.Seed, n)
	out := make([]core.Torus, n)
	for k := -2*n - 1; k <= 4*n+1; k++ {
		poly.PolyMulWithXKInPlace(a, k, out)
		if !core.Equal(out, rot(a, k)) {
			return core.Errf("N=%d: X^%d * p wrong", n, k)
		}
	}
	c.Count("rotations", float64(6*n))
	return nil
}

func main() {
	core.Main(&core.Prop{
		ID:   "C10",
		Rule: "case = degree 16..2048, polynomial style, 1-4 exponents (any sign and size, near multiples of N, extreme integers), one of three forms; every result, the composition, X^N and X^2N compared with the definition; 'all' enumerates every k in [-2N-1, 4N+1]; non-trivial: polynomial not zero and some exponent not 0 mod 2N",
		Subs: []*core.Sub{
			core.NewSub("rotate", gen, func(cs Case) bool {
				for _, k := range cs.Ks {
					if k%(2<<cs.LogN) != 0 {
						return cs.Style != "zero"
					}
				}
				return false
			}, run),
			core.NewSub("all", func(t *rapid.T, c *core.Ctx) All { return All{core.GenSeed(t), core.IntIn(t, "logn", 4, 10)} }, func(All) bool { return true }, runAll),
		},
		Plan: func(tier string) []core.Job {
			f := 1
			if tier == "thorough" {
				f = 40
			}
			var js []core.Job
			for i := 0; i < 8; i++ {
				js = append(js, core.Job{Level: 128, Procs: 1, Runs: []core.RunSpec{{Sub: "rotate", N: 30000 * f}, {Sub: "all", N: 8 * f}}})
			}
			return js
		},
	})
}
