// C06: lookup tables hold f(x) at every phase that decodes to x.
package main

import (
	"math"

	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"pgregory.net/rapid"
	"verif/core"
	"verif/pb"
)

type Case struct {
	Seed    uint64
	M       int
	Scale   float64 // 0: default 1/(2M)
	F       string
	Variant string
	Dirty   string
	GenM    int // modulus of the generator when the custom variant is used
}

var variants = []string{"gen", "assign", "full", "fullAssign", "custom", "withScale"}

func gen(t *rapid.T, c *core.Ctx) Case {
	core.SetLevel(c.Level)
	n := params.GetTRGSWLv1().N
	var m int
	switch core.Pick(t, "mkind", 4) {
	case 0:
		m = core.IntIn(t, "m", 2, 16)
	case 1:
		e := 1
		for 2<<e <= n/2 {
			e++
		}
		m = 1 << core.IntIn(t, "e", 1, e)
	case 2:
		m = core.IntIn(t, "m", 2, n/2)
	default:
		m = core.IntIn(t, "m", 2, 100)
	}
	return Case{
		Seed: core.GenSeed(t), M: m,
		Scale:   core.Choose(t, "scale", []float64{0, 0, 0.25, 1.0 / 3, 0.0078125, 1e-3, -0.0625, 0.5}),
		F:       core.Choose(t, "f", []string{"random", "id", "wild", "neg", "const", "square"}),
		Variant: core.Choose(t, "variant", variants), Dirty: core.GenStyle(t, "dirty"),
		GenM: core.IntIn(t, "genm", 2, 64),
	}
}

func fn(cs Case) []int {
	r := core.RNG(cs.Seed)
	f := make([]int, cs.M)
	for x := range f {
		switch cs.F {
		case "id":
			f[x] = x
		case "wild":
			f[x] = r.IntN(8*cs.M) - 4*cs.M
		case "neg":
			f[x] = -x
		case "const":
			f[x] = 1
		case "square":
			f[x] = x * x
		default:
			f[x] = r.IntN(cs.M)
		}
	}
	return f
}

// slotOf lists the messages whose encoding x/(2M) is nearest to table position idx/(2N),
// for idx in [-N/(2M), N); tolerance: at boundaries not representable exactly on the grid
// both neighbours are accepted.
func check(c *core.Ctx, cs Case, l *lut.LookUpTable, enc []core.Torus, tolUnits float64) error {
	n := params.GetTRGSWLv1().N
	m := cs.M
	if len(l.Poly.A) != n || len(l.Poly.B) != n {
		return core.Errf("table polynomial has %d/%d coefficients, want %d", len(l.Poly.A), len(l.Poly.B), n)
	}
	for i, a := range l.Poly.A {
		if a != 0 {
			return core.Errf("mask coefficient %d is %d, want 0", i, a)
		}
	}
	exact := n%(2*m) == 0
	for i := 0; i < n; i++ {
		// position in message units
		pos := float64(i) * float64(m) / float64(n)
		x := int(math.Floor(pos + 0.5))
		cands := []int{x}
		slack := 0.0
		if !exact {
			slack = float64(m) / float64(n) * 1.01 // one table position
			if fr := pos + 0.5 - math.Floor(pos+0.5); fr < slack {
				cands = append(cands, x-1)
			} else if 1-fr < slack {
				cands = append(cands, x+1)
			}
		}
		ok := false
		var want core.Torus
		for _, x := range cands {
			// x in [0, m]: message m is the negacyclic image of message 0
			w := enc[0]
			switch {
			case x < 0:
				w = -enc[m+x]
			case x >= m:
				w = -enc[x-m]
			default:
				w = enc[x]
			}
			want = w
			if math.Abs(float64(int32(l.Poly.B[i]-w))) <= tolUnits {
				ok = true
				break
			}
		}
		if !ok {
			return core.Errf("table position %d of %d (message %d of %d) holds %d, want %d", i, n, x, m, l.Poly.B[i], want)
		}
	}
	return nil
}

func run(c *core.Ctx, cs Case) error {
	core.SetLevel(c.Level)
	n := params.GetTRGSWLv1().N
	f := fn(cs)
	calls := 0
	ff := func(x int) int {
		calls++
		if x < 0 || x >= cs.M {
			panic("function evaluated outside the message space")
		}
		return f[x]
	}
	scale := cs.Scale
	if scale == 0 {
		scale = 1 / float64(2*cs.M)
	}
	var g *lut.Generator
	var l *lut.LookUpTable
	dirty := func() *lut.LookUpTable {
		d := lut.NewLookUpTable()
		copy(d.Poly.A, core.FillTorus(cs.Dirty, cs.Seed, n))
		copy(d.Poly.B, core.FillTorus(cs.Dirty, cs.Seed+1, n))
		return d
	}
	enc := make([]core.Torus, cs.M)
	for x := range enc {
		enc[x] = core.F2T(float64(pb.Mod(f[x], cs.M)) * scale)
	}
	tol := 1.0
	genM, genScale := cs.M, scale
	switch cs.Variant {
	case "custom":
		g = lut.NewGenerator(cs.GenM)
		genM, genScale = cs.GenM, 1/float64(2*cs.GenM)
		l = g.GenLookUpTableCustom(ff, cs.M, scale)
	case "withScale":
		g = lut.NewGeneratorWithScale(cs.M, scale)
		l = g.GenLookUpTable(ff)
	case "full", "fullAssign":
		g = lut.NewGenerator(cs.M)
		genScale = 1 / float64(2*cs.M)
		r := core.RNG(cs.Seed + 9)
		for x := range enc {
			enc[x] = core.Torus(r.Uint32())
		}
		tf := func(x int) core.Torus { calls++; return enc[x] }
		tol = 0
		if cs.Variant == "full" {
			l = g.GenLookUpTableFull(tf)
		} else {
			l = dirty()
			g.GenLookUpTableFullAssign(tf, l)
		}
	default:
		if cs.Scale == 0 {
			g = lut.NewGenerator(cs.M)
		} else {
			g = lut.NewGeneratorWithScale(cs.M, scale)
		}
		if cs.Variant == "gen" {
			l = g.GenLookUpTable(ff)
		} else {
			l = dirty()
			g.GenLookUpTableAssign(ff, l)
		}
	}
	c.Class("variant:" + cs.Variant)
	c.Count("positions", float64(n))
	if n%(2*cs.M) != 0 {
		c.Class("modulus does not divide the table")
	}
	if err := check(c, cs, l, enc, tol); err != nil {
		return core.Errf("%s, modulus %d, scale %g: %v", cs.Variant, cs.M, scale, err)
	}
	// the generator still describes what it was made for, and generates the same table again
	if g.Encoder == nil || g.Encoder.MessageModulus != genM || g.Encoder.Scale != genScale || g.PolyDegree != n {
		return core.Errf("%s changed the generator: modulus %d scale %g degree %d, want %d, %g, %d", cs.Variant, g.Encoder.MessageModulus, g.Encoder.Scale, g.PolyDegree, genM, genScale, n)
	}
	if cs.Variant == "custom" {
		ref := lut.NewGeneratorWithScale(cs.M, scale).GenLookUpTable(ff)
		if !core.Equal(ref.Poly.B, l.Poly.B) {
			return core.Errf("custom generation and a generator made with modulus %d, scale %g disagree", cs.M, scale)
		}
		again := g.GenLookUpTable(func(x int) int { return x })
		own := lut.NewGenerator(cs.GenM).GenLookUpTable(func(x int) int { return x })
		if !core.Equal(again.Poly.B, own.Poly.B) {
			return core.Errf("after a custom table the generator makes a different table for its own modulus")
		}
	}
	// ModSwitch: nearest multiple of 1/size
	r := core.RNG(cs.Seed + 77)
	for i := 0; i < 40; i++ {
		x := core.Torus(r.Uint32())
		if i < 8 {
			x = []core.Torus{0, 1, 0xffffffff, 1 << 31, 1<<31 - 1, 1 << 30, 0xc0000000, 0xfff00000}[i]
		}
		got := g.ModSwitch(x)
		if got < 0 || got >= g.LookUpTableSize {
			return core.Errf("ModSwitch(%d) = %d outside [0,%d)", x, got, g.LookUpTableSize)
		}
		d := core.AbsDiff(x, core.F2T(float64(got)/float64(g.LookUpTableSize)))
		if d > 0.5/float64(g.LookUpTableSize)+1e-9 {
			return core.Errf("ModSwitch(%d) = %d of %d is %.6g away", x, got, g.LookUpTableSize, d)
		}
	}
	return nil
}

// ---- histories of table copies --------------------------------------------------

type Op struct {
	Op   string
	A, B int
	Seed uint64
}

type Hist struct {
	K   int
	Ops []Op
}

func genHist(t *rapid.T, c *core.Ctx) Hist {
	h := Hist{K: core.IntIn(t, "k", 2, 5)}
	n := core.IntIn(t, "n", 2, 25)
	for i := 0; i < n; i++ {
		h.Ops = append(h.Ops, Op{core.Choose(t, "op", []string{"gen", "copy", "copyFrom", "clear", "write", "assign"}), core.Pick(t, "a", h.K), core.Pick(t, "b", h.K), core.GenSeed(t)})
	}
	return h
}

func runHist(c *core.Ctx, h Hist) error {
	core.SetLevel(c.Level)
	n := params.GetTRGSWLv1().N
	tabs := make([]*lut.LookUpTable, h.K)
	mA, mB := make([][]core.Torus, h.K), make([][]core.Torus, h.K)
	for i := range tabs {
		tabs[i] = lut.NewLookUpTable()
		mA[i], mB[i] = make([]core.Torus, n), make([]core.Torus, n)
	}
	for i, o := range h.Ops {
		m := 2 + int(o.Seed%7)
		f := func(x int) int { return x*int(o.Seed%11) + int(o.Seed%5) }
		switch o.Op {
		case "gen":
			tabs[o.A] = lut.NewGenerator(m).GenLookUpTable(f)
			mA[o.A], mB[o.A] = core.Clone(tabs[o.A].Poly.A), core.Clone(tabs[o.A].Poly.B)
		case "assign":
			want := lut.NewGenerator(m).GenLookUpTable(f)
			lut.NewGenerator(m).GenLookUpTableAssign(f, tabs[o.A])
			mA[o.A], mB[o.A] = core.Clone(want.Poly.A), core.Clone(want.Poly.B)
		case "copy":
			tabs[o.A] = tabs[o.B].Copy()
			mA[o.A], mB[o.A] = core.Clone(mA[o.B]), core.Clone(mB[o.B])
		case "copyFrom":
			tabs[o.A].CopyFrom(tabs[o.B])
			mA[o.A], mB[o.A] = core.Clone(mA[o.B]), core.Clone(mB[o.B])
		case "clear":
			tabs[o.A].Clear()
			mA[o.A], mB[o.A] = make([]core.Torus, n), make([]core.Torus, n)
		case "write":
			copy(tabs[o.A].Poly.A, core.FillTorus("uniform", o.Seed, n))
			copy(tabs[o.A].Poly.B, core.FillTorus("uniform", o.Seed+1, n))
			mA[o.A], mB[o.A] = core.FillTorus("uniform", o.Seed, n), core.FillTorus("uniform", o.Seed+1, n)
		}
		for j := range tabs {
			if !core.Equal(tabs[j].Poly.A, mA[j]) || !core.Equal(tabs[j].Poly.B, mB[j]) {
				return core.Errf("after operation %d (%s %d<-%d) table %d differs from the model", i, o.Op, o.A, o.B, j)
			}
		}
	}
	return nil
}

func main() {
	core.Main(&core.Prop{
		ID:   "C06",
		Rule: "tables: case = modulus (2..N/2, dividing N or not), scale, function (values also outside the message space), generator variant, previous table contents; every table position compared with the encoding of f at the nearest message; history: sequences of generate/assign/copy/copyFrom/clear/write over several tables against a model; non-trivial: function not constant / at least one copy in the history",
		Subs: []*core.Sub{
			core.NewSub("table", gen, func(cs Case) bool { return cs.F != "const" }, run),
			core.NewSub("history", genHist, func(h Hist) bool {
				for _, o := range h.Ops {
					if o.Op == "copy" || o.Op == "copyFrom" {
						return true
					}
				}
				return false
			}, runHist),
		},
		Plan: func(tier string) []core.Job {
			f := 1
			if tier == "thorough" {
				f = 30
			}
			return core.LevelJobs(core.AllLevels, core.RunSpec{Sub: "table", N: 6000 * f}, core.RunSpec{Sub: "history", N: 1000 * f})
		},
		Assume: []string{"where the modulus does not divide the table, a boundary may fall one table position to either side; encodings may differ by one unit of 2^-32"},
	})
}
