// C25: multi-bit integer programs on encrypted digits agree with integer arithmetic.
package main

import (
	"fmt"

	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"pgregory.net/rapid"
	"verif/core"
	"verif/gx"
	"verif/pb"
)

// Op produces one more value. Message values are integers modulo 2m (a value v has phase
// v/2m; the messages proper are 0..m-1); boolean values have phase +-1/8.
type Op struct {
	K       string
	A, B, C int    `json:",omitempty"`
	X       int    `json:",omitempty"` // plaintext, constant or multiplier
	F       int    `json:",omitempty"` // function
	G       string `json:",omitempty"` // gate
	Form    int    `json:",omitempty"` // way to call
	D       int    `json:",omitempty"` // fresh input's distance from its encoding, in 1/100 of half the spacing
}

// Case is a program.
type Case struct {
	Seed  uint64
	Shape string
	M     int
	Base  int     `json:",omitempty"` // radix shapes
	Nums  [][]int `json:",omitempty"` // radix shapes: digits, least significant first
	Mul   int     `json:",omitempty"`
	Funcs [][]int
	Ops   []Op
	Out   []int `json:",omitempty"` // radix shapes: value positions of the result's digits
}

type builder struct {
	cs    *Case
	kinds []byte // 'm' or 'b'
}

func (b *builder) op(k byte, o Op) int {
	b.cs.Ops = append(b.cs.Ops, o)
	b.kinds = append(b.kinds, k)
	return len(b.kinds) - 1
}

func (b *builder) fn(f func(x int) int) int {
	t := make([]int, b.cs.M)
	for x := range t {
		t[x] = f(x)
	}
	for i, g := range b.cs.Funcs {
		if fmt.Sprint(g) == fmt.Sprint(t) {
			return i
		}
	}
	b.cs.Funcs = append(b.cs.Funcs, t)
	return len(b.cs.Funcs) - 1
}

const nForms = 7

func gen(t *rapid.T, c *core.Ctx) Case {
	mx := pb.MaxModulus[c.Level]
	cs := Case{Seed: core.GenSeed(t)}
	b := &builder{cs: &cs}
	form := func() int { return core.Pick(t, "form", nForms) }
	shape := core.Choose(t, "shape", []string{"program", "program", "add", "sub", "scale", "sum"})
	switch shape {
	case "add", "sub", "scale", "sum":
		// base-b numbers whose digit sums stay inside the message space
		k := 2 // numbers added per digit
		if shape == "scale" || shape == "sum" {
			k = core.IntIn(t, "k", 2, max(2, min(5, mx/2)))
		}
		cs.Base = core.IntIn(t, "base", 2, max(2, mx/k))
		if core.Pick(t, "widest", 2) == 0 {
			cs.Base = max(2, mx/k)
		}
		cs.M = core.IntIn(t, "m", k*cs.Base, max(k*cs.Base, mx))
		if cs.M > mx {
			cs.M = mx
		}
		if k*cs.Base > mx {
			k, cs.Base, cs.M = 2, 2, mx
		}
		cs.Shape, cs.Mul = shape, k
		nd := core.IntIn(t, "digits", 1, 4)
		nums := 2
		if shape == "scale" {
			nums = 1
		}
		if shape == "sum" {
			nums = k
		}
		for i := 0; i < nums; i++ {
			var d []int
			for j := 0; j < nd; j++ {
				x := core.Pick(t, "digit", cs.Base)
				if core.Pick(t, "top", 4) == 0 {
					x = cs.Base - 1 // long carry chains
				}
				d = append(d, x)
			}
			cs.Nums = append(cs.Nums, d)
		}
		base := cs.Base
		low := b.fn(func(x int) int { return x % base })
		high := b.fn(func(x int) int { return x / base })
		borrow := b.fn(func(x int) int {
			if x < base {
				return 1
			}
			return 0
		})
		pos := make([][]int, nums)
		for i := range cs.Nums {
			for _, d := range cs.Nums[i] {
				pos[i] = append(pos[i], b.op('m', Op{K: "enc", X: d}))
			}
		}
		carry := -1
		for j := 0; j < nd; j++ {
			s := pos[0][j]
			switch shape {
			case "add", "sum":
				for i := 1; i < nums; i++ {
					s = b.op('m', Op{K: "add", A: s, B: pos[i][j], Form: form()})
				}
				if carry >= 0 {
					s = b.op('m', Op{K: "add", A: s, B: carry, Form: form()})
				}
			case "sub":
				s = b.op('m', Op{K: "sub", A: s, B: pos[1][j], Form: form()})
				if carry >= 0 {
					s = b.op('m', Op{K: "sub", A: s, B: carry, Form: form()})
				}
				s = b.op('m', Op{K: "addc", A: s, X: base, Form: form()})
			case "scale":
				if carry >= 0 {
					s = b.op('m', Op{K: "addmul", A: carry, B: s, X: k})
				} else {
					z := b.op('m', Op{K: "const", X: 0})
					s = b.op('m', Op{K: "addmul", A: z, B: s, X: k})
				}
			}
			f := form()
			cs.Out = append(cs.Out, b.op('m', Op{K: "pbs", A: s, F: low, Form: f}))
			hf := high
			if shape == "sub" {
				hf = borrow
			}
			if core.Pick(t, "otherform", 2) == 0 {
				f = form()
			}
			carry = b.op('m', Op{K: "pbs", A: s, F: hf, Form: f})
		}
		cs.Out = append(cs.Out, carry)
		return cs
	}
	cs.Shape = "program"
	m := core.IntIn(t, "m", 2, mx)
	if core.Pick(t, "even", 2) == 0 {
		m &^= 1
	}
	cs.M = m
	for i := 0; i < core.IntIn(t, "nf", 1, 3); i++ {
		f := make([]int, m)
		kind := core.Pick(t, "fkind", 8)
		y := core.IntIn(t, "y0", 0, m-1)
		for x := range f {
			switch kind {
			case 0:
				f[x] = y // constant
			case 1:
				f[x] = x // identity
			case 2:
				f[x] = (m - 1 - x + y) % m
			case 3:
				f[x] = x / (1 + y%m) // step from 0 on
			case 4:
				f[x] = x * y % m // f(0) = 0
			default:
				f[x] = core.IntIn(t, "y", 0, m-1)
			}
		}
		cs.Funcs = append(cs.Funcs, f)
	}
	fresh := func() {
		d := 0
		if core.Pick(t, "displaced", 3) > 0 {
			d = core.IntIn(t, "d", -96, 96)
		}
		x := core.IntIn(t, "x", 0, m-1)
		if core.Pick(t, "end", 3) == 0 {
			x = core.Choose(t, "endx", []int{0, m - 1})
		}
		b.op('m', Op{K: "enc", X: x, D: d})
	}
	fresh()
	fresh()
	pick := func(kind byte) int {
		var ps []int
		for i, k := range b.kinds {
			if k == kind {
				ps = append(ps, i)
			}
		}
		if len(ps) == 0 {
			return -1
		}
		if core.Pick(t, "recent", 2) == 0 {
			return ps[len(ps)-1]
		}
		return ps[core.Pick(t, "operand", len(ps))]
	}
	nops := core.IntIn(t, "nops", 2, 9)
	for i := 0; i < nops; i++ {
		switch core.Pick(t, "op", 12) {
		case 0:
			fresh()
		case 1:
			b.op('m', Op{K: "const", X: core.IntIn(t, "x", 0, 2*m-1)})
		case 2, 3:
			b.op('m', Op{K: core.Choose(t, "lin", []string{"add", "sub"}), A: pick('m'), B: pick('m'), Form: form()})
		case 4:
			b.op('m', Op{K: core.Choose(t, "mul", []string{"addmul", "submul"}), A: pick('m'), B: pick('m'), X: core.IntIn(t, "k", 0, 3)})
		case 5:
			b.op('m', Op{K: "neg", A: pick('m')})
		case 6:
			b.op('m', Op{K: "addc", A: pick('m'), X: core.IntIn(t, "x", 0, 2*m-1), Form: form()})
		case 7:
			b.op('b', Op{K: "tobool", A: pick('m'), F: core.Pick(t, "f", len(cs.Funcs)), Form: form()})
		case 8:
			if a := pick('b'); a >= 0 {
				b.op('b', Op{K: "gate", A: a, B: pick('b'), C: pick('b'), G: core.Choose(t, "g", gx.Names())})
			} else {
				b.op('b', Op{K: "encbool", X: core.Pick(t, "bit", 2)})
			}
		case 9:
			if a := pick('b'); a >= 0 && m%2 == 0 {
				b.op('m', Op{K: "lift", A: a})
				break
			}
			fallthrough
		default:
			b.op('m', Op{K: "pbs", A: pick('m'), F: core.Pick(t, "f", len(cs.Funcs)), Form: form()})
		}
	}
	return cs
}

var copies = map[core.Level][2]*evaluator.Evaluator{}

func evals(l core.Level) [2]*evaluator.Evaluator {
	if e, ok := copies[l]; ok {
		return e
	}
	e := pb.NewEval()
	copies[l] = [2]*evaluator.Evaluator{e, e.ShallowCopy()}
	return copies[l]
}

// enc2m is the torus encoding of v modulo 2m.
func enc2m(v, m int) core.Torus {
	return core.F2T(float64(pb.Mod(v, 2*m)) / float64(2*m))
}

type val struct {
	kind byte
	v    int // message value modulo 2m, or bit
	ct   *tlwe.TLWELv0
	h    uint64
}

func run(c *core.Ctx, cs Case) error {
	k := core.GetKeys(c.Level, 0)
	core.SeedLib(cs.Seed)
	n := params.GetTRGSWLv1().N
	s := k.SK.KeyLv0
	es := evals(c.Level)
	m := cs.M
	bsk, ksk, off := k.CK.BootstrappingKey, k.CK.KeySwitchingKey, k.CK.DecompositionOffset
	g := lut.NewGenerator(m)
	luts := map[string]*lut.LookUpTable{}
	table := func(f int, boolean bool) *lut.LookUpTable {
		key := fmt.Sprint(f, boolean)
		if luts[key] == nil {
			if boolean {
				luts[key] = g.GenLookUpTableFull(func(x int) params.Torus { return gx.Mu(cs.Funcs[f][x]&1 == 1) })
			} else {
				luts[key] = g.GenLookUpTable(func(x int) int { return cs.Funcs[f][x] })
			}
		}
		return luts[key]
	}
	var vals []val
	limited := false // some result was decided by its input's noise
	for i, op := range cs.Ops {
		for _, x := range []int{op.A, op.B, op.C} {
			if x != 0 && x >= i {
				return core.Errf("bad case")
			}
		}
		var a, b val
		if i > 0 {
			a, b = vals[op.A], vals[op.B]
		}
		out := val{kind: 'm'}
		exact := core.Torus(0) // expected phase of linear operations
		linear := false
		ph := func(x val) core.Torus { return core.Phase(x.ct.P, s) }
		switch op.K {
		case "enc":
			out.v = op.X
			out.ct = tlwe.NewTLWELv0().EncryptLWEMessage(op.X, m, params.GetTLWELv0().ALPHA, s)
			if op.D != 0 {
				out.ct.SetB(out.ct.B() + core.F2T(float64(op.D)/100/float64(4*m)))
				c.Class("displaced")
			}
		case "encbool":
			out.kind, out.v = 'b', op.X
			out.ct = gx.Fresh(k, op.X == 1)
		case "const":
			out.v = pb.Mod(op.X, 2*m)
			out.ct = tlwe.NewTLWELv0()
			out.ct.SetB(enc2m(op.X, m))
			linear, exact = true, enc2m(op.X, m)
		case "add", "sub":
			out.v = pb.Mod(a.v+b.v, 2*m)
			linear, exact = true, ph(a)+ph(b)
			if op.K == "sub" {
				out.v = pb.Mod(a.v-b.v, 2*m)
				exact = ph(a) - ph(b)
			}
			switch {
			case op.Form%3 == 0:
				// component by component, as the examples do
				out.ct = tlwe.NewTLWELv0()
				for j := range out.ct.P {
					if op.K == "add" {
						out.ct.P[j] = a.ct.P[j] + b.ct.P[j]
					} else {
						out.ct.P[j] = a.ct.P[j] - b.ct.P[j]
					}
				}
			case op.Form%3 == 1 && op.K == "add":
				out.ct = &tlwe.TLWELv0{P: core.FillTorus("uniform", cs.Seed, len(s)+1)}
				a.ct.AddAssign(b.ct, out.ct)
			case op.K == "add":
				out.ct = a.ct.Add(b.ct)
			default:
				out.ct = a.ct.Sub(b.ct)
			}
		case "addmul", "submul":
			kx := op.X
			out.v = pb.Mod(a.v+kx*b.v, 2*m)
			linear, exact = true, ph(a)+core.Torus(kx)*ph(b)
			if op.K == "submul" {
				out.v = pb.Mod(a.v-kx*b.v, 2*m)
				exact = ph(a) - core.Torus(kx)*ph(b)
				out.ct = a.ct.SubMul(b.ct, core.Torus(kx))
			} else {
				out.ct = a.ct.AddMul(b.ct, core.Torus(kx))
			}
		case "neg":
			out.v = pb.Mod(-a.v, 2*m)
			linear, exact = true, -ph(a)
			out.ct = a.ct.Neg()
		case "addc":
			out.v = pb.Mod(a.v+op.X, 2*m)
			linear, exact = true, ph(a)+enc2m(op.X, m)
			if op.Form%2 == 0 {
				z := tlwe.NewTLWELv0()
				z.SetB(enc2m(op.X, m))
				out.ct = a.ct.Add(z)
			} else {
				out.ct = gates.Copy(a.ct)
				out.ct.SetB(out.ct.B() + enc2m(op.X, m))
			}
		case "lift":
			// a boolean +-1/8 plus 1/8 is 0 or 1/4, message 0 or m/2
			out.v = a.v * m / 2
			linear, exact = true, ph(a)+1<<29
			out.ct = gates.Copy(a.ct)
			out.ct.SetB(out.ct.B() + 1<<29)
		case "gate":
			gt := gx.ByName(op.G)
			out.kind = 'b'
			vb := [3]val{a, b, vals[op.C]}
			d := make([]float64, 3)
			for j := range vb {
				d[j] = gx.Dev(vb[j].ct.P, s, vb[j].v == 1)
			}
			want := gt.Truth(vb[0].v == 1, vb[1].v == 1, vb[2].v == 1)
			out.ct = gt.Eval(vb[0].ct, vb[1].ct, vb[2].ct, k.CK)
			tol := core.Tol(c.Level)
			if !gt.Boot {
				tol = d[0] + 1e-8
			}
			if gt.Load(d) > gx.Margin() {
				limited = true
				c.Count("noise_limited_ops", 1)
				want = out.ct.DecryptBool(s)
			}
			if err := gx.CheckOut(c, k, op.G, out.ct, want, tol); err != nil {
				return core.Errf("operation %d: gate on converted values: %v", i, err)
			}
			if want {
				out.v = 1
			}
		case "pbs", "tobool":
			boolean := op.K == "tobool"
			form := op.Form
			if boolean {
				form = []int{1, 2, 3, 5}[op.Form%4]
				out.kind = 'b'
			}
			e := es[op.Form%2]
			f := cs.Funcs[op.F]
			ff := func(x int) int { return f[x] }
			in := a.ct
			switch form {
			case 0:
				out.ct = e.BootstrapFunc(in, ff, m, bsk, ksk, off)
			case 1:
				out.ct = e.BootstrapLUT(in, table(op.F, boolean), bsk, ksk, off)
			case 2:
				out.ct = &tlwe.TLWELv0{P: core.FillTorus("ones", 0, len(s)+1)}
				e.BootstrapLUTAssign(in, table(op.F, boolean), bsk, ksk, off, out.ct)
			case 3:
				out.ct = gates.Copy(e.BootstrapLUTTemp(in, table(op.F, boolean), bsk, ksk, off))
			case 4:
				out.ct = gates.Copy(in)
				e.BootstrapFuncAssign(out.ct, ff, m, bsk, ksk, off, out.ct)
			case 5:
				out.ct = gates.Copy(in)
				e.BootstrapLUTAssign(out.ct, table(op.F, boolean), bsk, ksk, off, out.ct)
			default:
				out.ct = tlwe.NewTLWELv0()
				e.BootstrapFuncAssign(in, ff, m, bsk, ksk, off, out.ct)
			}
			c.Count("bootstraps", 1)
			x, neg := a.v, false
			if x >= m {
				x, neg = x-m, true
				c.Class("negacyclic-half")
			}
			y := pb.Mod(f[x], m)
			wantPh := pb.Encode(y, m)
			if boolean {
				y &= 1
				y = f[x] & 1
				wantPh = gx.Mu(y == 1)
			}
			if neg {
				wantPh = -wantPh
				y = pb.Mod(-y, 2*m)
				if boolean {
					y = 1 - f[x]&1
				}
			}
			idx, ties := core.BRIndex(in.P, s, n)
			got := core.Phase(out.ct.P, s)
			if ties > 0 || !pb.InSlot(idx, a.v, m, n) {
				limited = true
				c.Count("noise_limited_ops", 1)
				if boolean {
					y = 0
					if out.ct.DecryptBool(s) {
						y = 1
					}
				} else {
					y = pb.Mod(int(float64(got)/(1<<32)*float64(2*m)+0.5), 2*m)
				}
			} else {
				dev := core.AbsDiff(got, wantPh)
				if dev > core.Tol(c.Level) {
					return core.Errf("operation %d (%s, form %d, m=%d): value %d: f(%d)=%d: the result's phase is %.5f away from its encoding (bound %.5f)", i, op.K, form, m, a.v, x, f[x], dev, core.Tol(c.Level))
				}
				c.Max("max_dev_over_tol_x1000", float64(int(dev/core.Tol(c.Level)*1000)))
				if !boolean && y < m && dev < 1/float64(4*m)-1e-6 {
					if d := out.ct.DecryptLWEMessage(m, s); d != y {
						return core.Errf("operation %d: decrypts to %d, want %d", i, d, y)
					}
				}
			}
			out.v = y
		default:
			return core.Errf("bad case")
		}
		if len(out.ct.P) != len(s)+1 {
			return core.Errf("operation %d (%s): result of length %d", i, op.K, len(out.ct.P))
		}
		if linear {
			if p := core.Phase(out.ct.P, s); p != exact {
				return core.Errf("operation %d (%s, form %d): phase %d, want %d", i, op.K, op.Form, p, exact)
			}
		}
		c.Class("op:" + op.K)
		out.h = core.Hash(out.ct.P)
		vals = append(vals, out)
		for j := range vals {
			if core.Hash(vals[j].ct.P) != vals[j].h {
				return core.Errf("operation %d (%s) changed value %d", i, op.K, j)
			}
		}
	}
	c.Class("shape:" + cs.Shape)
	if cs.Shape == "program" {
		return nil
	}
	// the digits of the result make up the integer
	want := 0
	p := 1
	for j := range cs.Nums[0] {
		for i := range cs.Nums {
			switch {
			case cs.Shape == "sub" && i == 1:
				want -= p * cs.Nums[i][j]
			case cs.Shape == "scale":
				want += p * cs.Nums[i][j] * cs.Mul
			default:
				want += p * cs.Nums[i][j]
			}
		}
		p *= cs.Base
	}
	got, q := 0, 1
	for j, o := range cs.Out {
		d := vals[o].ct.DecryptLWEMessage(m, s)
		if cs.Shape == "sub" && j == len(cs.Out)-1 {
			d = -d
		}
		got += q * d
		q *= cs.Base
	}
	if limited {
		c.Count("noise_limited_programs", 1)
		return nil
	}
	if got != want {
		for j, o := range cs.Out {
			if core.AbsDiff(core.Phase(vals[o].ct.P, s), pb.Encode(vals[o].v, m)) >= 1/float64(4*m)-1e-6 {
				_ = j
				c.Count("output_beyond_half_spacing", 1)
				return nil
			}
		}
		return core.Errf("%s of %v (base %d, modulus %d, factor %d) decrypts to %d, want %d", cs.Shape, cs.Nums, cs.Base, m, cs.Mul, got, want)
	}
	c.Count("integers_checked", 1)
	return nil
}

func main() {
	core.Main(&core.Prop{
		ID:   "C25",
		Rule: "case = program over encrypted digits at one level: numbers in base b added (two or several), subtracted with borrow or scaled digit by digit with carries from lookup tables, or a random program of additions, subtractions, multiples, negations, plaintext constants, lookups (values in the negacyclic upper half too), conversions to boolean, gates and back; non-trivial: at least one lookup on a linear combination",
		Subs: []*core.Sub{core.NewSub("integer", gen, func(cs Case) bool {
			lin := map[int]bool{}
			for i, o := range cs.Ops {
				switch o.K {
				case "add", "sub", "addmul", "submul", "addc", "lift", "neg":
					lin[i] = true
				case "pbs", "tobool":
					if lin[o.A] {
						return true
					}
				}
			}
			return false
		}, run)},
		Plan: func(tier string) []core.Job {
			n := map[core.Level]int{80: 140, 110: 90, 128: 80, 1: 90, 2: 220, 3: 100, 4: 80, 5: 44, 6: 10, 7: 3, 8: 3}
			f := 1
			ls := []core.Level{6, 5, 128, 4, 1, 3, 110, 2, 80}
			if tier == "thorough" {
				f = 8
				ls = append([]core.Level{8, 7}, ls...)
			}
			var js []core.Job
			for _, l := range ls {
				js = append(js, core.Job{Level: l, Procs: 1, Runs: []core.RunSpec{{Sub: "integer", N: n[l] * f}}})
			}
			return js
		},
		Assume: []string{"lookups whose input noise (known exactly) leaves the value's slot are counted as noise-limited and not judged; programs containing one are judged operation by operation only", "phase bound 7.5 sigma"},
	})
}
