// C09: polynomial products equal exact negacyclic products.
package main

import (
	"math"

	"github.com/thedonutfactory/go-tfhe/poly"
	"pgregory.net/rapid"
	"verif/core"
)

type Torus = core.Torus

// ---- whole-polynomial operations ---------------------------------------------------

type MulCase struct {
	Seed   uint64
	LogN   int
	A, B   string // styles
	BitsA  int    // magnitude bits of the operands (signed)
	BitsB  int
	Op     string
	Alias  string // "", "a", "b" : output is an operand
	Dirty  string
	Copy   bool // evaluator copy
	Square bool // both operands the same object
}

var mulOps = []string{"mul", "mulAssign", "mulAdd", "mulSub", "roundtrip", "buffered"}

func gen(t *rapid.T, c *core.Ctx) MulCase {
	cs := MulCase{
		Seed: core.GenSeed(t), LogN: core.IntIn(t, "logn", 4, 11),
		A: core.GenStyle(t, "a"), B: core.GenStyle(t, "b"), Op: core.Choose(t, "op", mulOps), Dirty: core.GenStyle(t, "dirty"),
		Alias: core.Choose(t, "alias", []string{"", "", "a", "b"}), Copy: core.Pick(t, "copy", 3) == 0, Square: core.Pick(t, "sq", 8) == 0,
	}
	if core.Pick(t, "big", 12) == 0 {
		cs.LogN = 12
	}
	return magnitudes(t, cs)
}

// genLarge: the same at degrees far above those of the parameter sets.
func genLarge(t *rapid.T, c *core.Ctx) MulCase {
	cs := gen(t, c)
	cs.LogN = core.IntIn(t, "large", 13, 15)
	return magnitudes(t, cs)
}

func magnitudes(t *rapid.T, cs MulCase) MulCase {
	switch core.Pick(t, "mag", 3) {
	case 0: // exact regime: product sums within 48 bits
		tot := 48 - cs.LogN
		cs.BitsA = core.IntIn(t, "ba", 1, min(31, tot-1))
		cs.BitsB = min(31, tot-cs.BitsA)
	case 1: // torus times key or digit
		cs.BitsA, cs.BitsB = 31, core.IntIn(t, "bb", 1, 10)
	default:
		cs.BitsA, cs.BitsB = core.IntIn(t, "ba", 1, 31), core.IntIn(t, "bb", 1, 31)
	}
	return cs
}

// operand draws a polynomial whose signed coefficients fit in bits bits plus sign.
func operand(style string, seed uint64, n, bits int) []Torus {
	p := core.FillTorus(style, seed, n)
	for i := range p {
		p[i] = Torus(int32(p[i]) >> (31 - bits))
	}
	return p
}

func norms(a []Torus) (l2, inf float64) {
	for _, v := range a {
		x := float64(int32(v))
		l2 += x * x
		inf = math.Max(inf, math.Abs(x))
	}
	return math.Sqrt(l2), inf
}

const cErr = 5.0

// tolerance of one output coefficient in units: 0 in the documented exact range
func tolUnits(n int, a, b []Torus) (float64, bool) {
	a2, ai := norms(a)
	b2, bi := norms(b)
	e := cErr * math.Ldexp(1, -53) * math.Log2(float64(n)) * a2 * b2
	if float64(n)*ai*bi <= math.Ldexp(1, 48) {
		return 0, true
	}
	return math.Floor(e + 1), false
}

var evs = map[int]*poly.Evaluator{}
var cps = map[int]*poly.Evaluator{}

func ev(n int, cp bool) *poly.Evaluator {
	if _, ok := evs[n]; !ok {
		evs[n] = poly.NewEvaluator(n)
		cps[n] = evs[n].ShallowCopy()
	}
	if cp {
		return cps[n]
	}
	return evs[n]
}

func maxErr(got, want []Torus) (float64, int) {
	m, at := 0.0, -1
	for i := range got {
		if d := math.Abs(float64(int32(got[i] - want[i]))); d > m {
			m, at = d, i
		}
	}
	return m, at
}

func run(c *core.Ctx, cs MulCase) error {
	n := 1 << cs.LogN
	e := ev(n, cs.Copy)
	a := operand(cs.A, cs.Seed, n, cs.BitsA)
	b := operand(cs.B, cs.Seed+1, n, cs.BitsB)
	pa, pb := poly.Poly{Coeffs: core.Clone(a)}, poly.Poly{Coeffs: core.Clone(b)}
	if cs.Square {
		b, pb = a, pa
	}
	init := core.FillTorus(cs.Dirty, cs.Seed+2, n)
	c.Class("op:" + cs.Op)
	if cs.Op == "roundtrip" {
		full := core.FillTorus(cs.A, cs.Seed, n)
		p := poly.Poly{Coeffs: core.Clone(full)}
		f := e.ToFourierPoly(p)
		if !core.Equal(p.Coeffs, full) {
			return core.Errf("N=%d: the forward transform modified its input", n)
		}
		h := core.HashF(f.Coeffs)
		back := e.ToPoly(f)
		if core.HashF(f.Coeffs) != h {
			return core.Errf("N=%d: ToPoly modified its input", n)
		}
		if !core.Equal(back.Coeffs, full) {
			m, at := maxErr(back.Coeffs, full)
			return core.Errf("N=%d %s: transform and back changes coefficient %d by %g", n, cs.A, at, m)
		}
		out := poly.Poly{Coeffs: core.Clone(init)}
		e.ToPolyAssign(f, out)
		if !core.Equal(out.Coeffs, full) {
			return core.Errf("N=%d: ToPolyAssign differs from ToPoly", n)
		}
		f2 := poly.NewFourierPoly(n)
		for i := range f2.Coeffs {
			f2.Coeffs[i] = 1e30
		}
		e.ToFourierPolyAssign(p, f2)
		if core.HashF(f2.Coeffs) != core.HashF(f.Coeffs) {
			return core.Errf("N=%d: ToFourierPolyAssign depends on previous contents", n)
		}
		for _, k := range []string{"assign", "add", "sub"} {
			out := poly.Poly{Coeffs: core.Clone(init)}
			ff := f.Copy()
			want := core.Clone(full)
			switch k {
			case "assign":
				e.ToPolyAssignUnsafe(ff, out)
			case "add":
				e.ToPolyAddAssignUnsafe(ff, out)
				for i := range want {
					want[i] = init[i] + full[i]
				}
			default:
				e.ToPolySubAssignUnsafe(ff, out)
				for i := range want {
					want[i] = init[i] - full[i]
				}
			}
			if m, at := maxErr(out.Coeffs, want); m != 0 {
				return core.Errf("N=%d: ToPoly%sUnsafe is off by %g at coefficient %d", n, k, m, at)
			}
		}
		return nil
	}
	prod := core.MulExact(a, b)
	tol, exact := tolUnits(n, a, b)
	if exact {
		c.Class("exact-range")
	} else {
		c.Class("floating-range")
	}
	want := prod
	var out poly.Poly
	switch cs.Alias {
	case "a":
		out = pa
	case "b":
		out = pb
	default:
		out = poly.Poly{Coeffs: core.Clone(init)}
	}
	start := core.Clone(out.Coeffs)
	switch cs.Op {
	case "mul":
		out = e.MulPoly(pa, pb)
	case "mulAssign":
		e.MulPolyAssign(pa, pb, out)
	case "mulAdd":
		e.MulAddPolyAssign(pa, pb, out)
		want = make([]Torus, n)
		for i := range want {
			want[i] = start[i] + prod[i]
		}
	case "mulSub":
		e.MulSubPolyAssign(pa, pb, out)
		want = make([]Torus, n)
		for i := range want {
			want[i] = start[i] - prod[i]
		}
	case "buffered":
		// product through the evaluator's own buffers, accumulating twice
		bi := int(cs.Seed % 8)
		name := []string{"fpAcc", "fpBcc"}[cs.Seed/8%2]
		e.CopyToDecompBuffer(core.FillTorus("uniform", 1, n), bi)
		e.CopyToDecompBuffer(pa.Coeffs, bi)
		e.ToFourierPolyInBuffer(*e.GetDecompBuffer(bi), bi)
		fb := e.ToFourierPoly(pb)
		e.ClearBuffer(name)
		e.MulAddFourierPolyAssignBuffered(bi, fb, name)
		e.MulAddFourierPolyAssignBuffered(bi, fb, name)
		e.BufferToPolyAssign(name, out.Coeffs)
		want = make([]Torus, n)
		for i := range want {
			want[i] = 2 * prod[i]
		}
		if exact && float64(n)*mx(a)*mx(b) > math.Ldexp(1, 47) {
			tol = 2
		}
		if !exact {
			tol *= 2
		}
	}
	m, at := maxErr(out.Coeffs, want)
	if !exact {
		a2, _ := norms(a)
		b2, _ := norms(b)
		c.Max("max_err_coefficient_x1000", math.Round((m-0.5)/(math.Ldexp(1, -53)*math.Log2(float64(n))*a2*b2)*1000))
	}
	if m > tol {
		return core.Errf("N=%d %s (%s x %s, %d x %d bits): coefficient %d is off by %g (allowed %g)", n, cs.Op, cs.A, cs.B, cs.BitsA, cs.BitsB, at, m, tol)
	}
	if cs.Alias != "a" && !(cs.Square && cs.Alias == "b") && !core.Equal(pa.Coeffs, a) {
		return core.Errf("%s modified its first operand", cs.Op)
	}
	if cs.Alias != "b" && !(cs.Square && cs.Alias == "a") && !core.Equal(pb.Coeffs, b) {
		return core.Errf("%s modified its second operand", cs.Op)
	}
	if cs.Op == "mul" && len(out.Coeffs) != n {
		return core.Errf("product has %d coefficients", len(out.Coeffs))
	}
	return nil
}

func mx(a []Torus) float64 { _, i := norms(a); return i }

// ---- programs in the transform domain ----------------------------------------------

type FOp struct {
	Op        string
	A, B, Out int
	C         float64
}

type Prog struct {
	Seed uint64
	LogN int
	Bits int
	Sty  []string
	Ops  []FOp
}

var fops = []string{"add", "sub", "mul", "mulAdd", "mulSub", "addNew", "subNew", "mulNew", "scale", "scaleAdd", "copyFrom", "copy", "clear"}

func genProg(t *rapid.T, c *core.Ctx) Prog {
	p := Prog{Seed: core.GenSeed(t), LogN: core.IntIn(t, "logn", 4, 10), Bits: core.IntIn(t, "bits", 1, 14)}
	k := core.IntIn(t, "k", 2, 5)
	for i := 0; i < k; i++ {
		p.Sty = append(p.Sty, core.GenStyle(t, "sty"))
	}
	n := core.IntIn(t, "n", 1, 10)
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, FOp{core.Choose(t, "op", fops), core.Pick(t, "a", k), core.Pick(t, "b", k), core.Pick(t, "o", k), core.Choose(t, "c", []float64{2, -1, 3, 0, 1, 4, -5})})
	}
	return p
}

type reg struct {
	f    poly.FourierPoly
	m    []int64
	deg  int     // 0: zero, 1: transform of small polynomials, 2: contains products
	mag  float64 // bound on the mean spectrum magnitude
	base float64
}

func mulI(a, b []int64) []int64 {
	n := len(a)
	o := make([]int64, n)
	for i, x := range a {
		if x == 0 {
			continue
		}
		for j, y := range b {
			if i+j < n {
				o[i+j] += x * y
			} else {
				o[i+j-n] -= x * y
			}
		}
	}
	return o
}

func runProg(c *core.Ctx, p Prog) error {
	n := 1 << p.LogN
	e := ev(n, false)
	var rs []*reg
	for i, s := range p.Sty {
		a := operand(s, p.Seed+uint64(i), n, p.Bits)
		m := make([]int64, n)
		for j := range m {
			m[j] = int64(int32(a[j]))
		}
		l2, _ := norms(a)
		rs = append(rs, &reg{f: e.ToFourierPoly(poly.Poly{Coeffs: a}), m: m, deg: 1, mag: l2})
	}
	budget := math.Ldexp(1, 47)
	for i, o := range p.Ops {
		a, b, out := rs[o.A], rs[o.B], rs[o.Out]
		nm := make([]int64, n)
		deg, mag := 1, 0.0
		isMul := o.Op == "mul" || o.Op == "mulAdd" || o.Op == "mulSub" || o.Op == "mulNew"
		if isMul && (a.deg > 1 || b.deg > 1) {
			continue
		}
		hs := make([]uint64, len(rs))
		for j, r := range rs {
			hs[j] = core.HashF(r.f.Coeffs)
		}
		switch o.Op {
		case "add", "addNew":
			for j := range nm {
				nm[j] = a.m[j] + b.m[j]
			}
			deg, mag = max(a.deg, b.deg), a.mag+b.mag
		case "sub", "subNew":
			for j := range nm {
				nm[j] = a.m[j] - b.m[j]
			}
			deg, mag = max(a.deg, b.deg), a.mag+b.mag
		case "mul", "mulNew":
			nm = mulI(a.m, b.m)
			deg, mag = 2, a.mag*b.mag
		case "mulAdd", "mulSub":
			pr := mulI(a.m, b.m)
			for j := range nm {
				if o.Op == "mulAdd" {
					nm[j] = out.m[j] + pr[j]
				} else {
					nm[j] = out.m[j] - pr[j]
				}
			}
			deg, mag = 2, out.mag+a.mag*b.mag
		case "scale":
			for j := range nm {
				nm[j] = a.m[j] * int64(o.C)
			}
			deg, mag = a.deg, a.mag*math.Abs(o.C)
		case "scaleAdd":
			for j := range nm {
				nm[j] = out.m[j] + a.m[j]*int64(o.C)
			}
			deg, mag = max(a.deg, out.deg), out.mag+a.mag*math.Abs(o.C)
		case "copyFrom", "copy":
			copy(nm, a.m)
			deg, mag = a.deg, a.mag
		case "clear":
			deg, mag = 1, 0
		}
		if mag > budget {
			continue
		}
		fresh := false
		switch o.Op {
		case "add":
			e.AddFourierPolyAssign(a.f, b.f, out.f)
		case "sub":
			e.SubFourierPolyAssign(a.f, b.f, out.f)
		case "mul":
			e.MulFourierPolyAssign(a.f, b.f, out.f)
		case "mulAdd":
			e.MulAddFourierPolyAssign(a.f, b.f, out.f)
		case "mulSub":
			e.MulSubFourierPolyAssign(a.f, b.f, out.f)
		case "addNew":
			out.f = e.AddFourierPoly(a.f, b.f)
			fresh = true
		case "subNew":
			out.f = e.SubFourierPoly(a.f, b.f)
			fresh = true
		case "mulNew":
			out.f = e.MulFourierPoly(a.f, b.f)
			fresh = true
		case "scale":
			e.FloatMulFourierPolyAssign(a.f, o.C, out.f)
		case "scaleAdd":
			e.FloatMulAddFourierPolyAssign(a.f, o.C, out.f)
		case "copyFrom":
			out.f.CopyFrom(a.f)
		case "copy":
			out.f = a.f.Copy()
			fresh = true
		case "clear":
			out.f.Clear()
		}
		_ = fresh
		out.m, out.deg, out.mag = nm, deg, mag
		c.Class("op:" + o.Op)
		if o.Out == o.A || o.Out == o.B {
			c.Class("aliased")
		}
		for j, r := range rs {
			if j != o.Out && core.HashF(r.f.Coeffs) != hs[j] {
				return core.Errf("N=%d op %d %s(%d,%d)->%d modified value %d", n, i, o.Op, o.A, o.B, o.Out, j)
			}
			if j != o.Out && &r.f.Coeffs[0] == &out.f.Coeffs[0] {
				return core.Errf("N=%d op %d %s: result shares memory with value %d", n, i, o.Op, j)
			}
		}
		got := e.ToPoly(out.f)
		// each of the (at most 10) operations adds rounding of relative size 2^-53 log N
		tol := math.Floor(0.5 + 4*math.Ldexp(1, -53)*float64(p.LogN)*out.mag)
		for j := range nm {
			if d := math.Abs(float64(int32(got.Coeffs[j] - Torus(uint64(nm[j]))))); d > tol {
				return core.Errf("N=%d op %d %s(%d,%d)->%d: coefficient %d is %d, want %d (allowed error %g)", n, i, o.Op, o.A, o.B, o.Out, j, int32(got.Coeffs[j]), int32(Torus(uint64(nm[j]))), tol)
			}
		}
	}
	return nil
}

// ---- histories over polynomials whose buffers are reused ---------------------------------

// HOp: mutate polynomial A (style/seed), or multiply A and B into Out by operation Op.
type HOp struct {
	Op        string
	A, B, Out int
	Style     string
	At        int // mutated position; -1: all
}

type Hist struct {
	Seed uint64
	LogN int
	Bits int
	K    int
	Ops  []HOp
}

func genHist(t *rapid.T, c *core.Ctx) Hist {
	h := Hist{Seed: core.GenSeed(t), LogN: core.IntIn(t, "logn", 4, 10), Bits: core.IntIn(t, "bits", 2, 18), K: core.IntIn(t, "k", 2, 4)}
	for i := 0; i < core.IntIn(t, "n", 3, 12); i++ {
		o := HOp{A: core.Pick(t, "a", h.K), B: core.Pick(t, "b", h.K), Out: core.Pick(t, "o", h.K), Op: core.Choose(t, "op", []string{"set", "mul", "mulAssign", "mulAdd", "mulSub", "set"}), At: -1}
		if o.Op == "set" {
			o.Style = core.GenStyle(t, "sty")
			if core.Pick(t, "one", 2) == 0 {
				o.At = core.Pick(t, "at", 1<<h.LogN)
			}
		}
		h.Ops = append(h.Ops, o)
	}
	return h
}

// runHist: products on one evaluator while the operands' buffers are rewritten in place
// between calls (the same memory holds other polynomials later).
func runHist(c *core.Ctx, h Hist) error {
	n := 1 << h.LogN
	e := ev(n, h.Seed%2 == 0)
	ps := make([]poly.Poly, h.K)
	for i := range ps {
		ps[i] = poly.Poly{Coeffs: operand("uniform", h.Seed+uint64(i), n, h.Bits)}
	}
	for i, o := range h.Ops {
		a, b := core.Clone(ps[o.A].Coeffs), core.Clone(ps[o.B].Coeffs)
		if o.Op == "set" {
			v := operand(o.Style, h.Seed+100+uint64(i), n, h.Bits)
			if o.At >= 0 {
				ps[o.A].Coeffs[o.At%n] ^= 1 + v[0]&3
			} else {
				copy(ps[o.A].Coeffs, v)
			}
			continue
		}
		want := core.MulExact(a, b)
		tol, _ := tolUnits(n, a, b)
		got := poly.Poly{}
		switch o.Op {
		case "mul":
			got = e.MulPoly(ps[o.A], ps[o.B])
		case "mulAssign":
			// into a fresh polynomial or an operand
			got = ps[o.Out]
			if o.Out != o.A && o.Out != o.B {
				got = poly.NewPoly(n)
			}
			e.MulPolyAssign(ps[o.A], ps[o.B], got)
		default:
			got = poly.Poly{Coeffs: core.FillTorus("uniform", h.Seed+uint64(i)*3, n)}
			for j, v := range got.Coeffs {
				if o.Op == "mulAdd" {
					want[j] = v + want[j]
				} else {
					want[j] = v - want[j]
				}
			}
			if o.Op == "mulAdd" {
				e.MulAddPolyAssign(ps[o.A], ps[o.B], got)
			} else {
				e.MulSubPolyAssign(ps[o.A], ps[o.B], got)
			}
		}
		if m, at := maxErr(got.Coeffs, want); m > tol {
			return core.Errf("N=%d operation %d %s(%d,%d): coefficient %d is off by %g (allowed %g)", n, i, o.Op, o.A, o.B, at, m, tol)
		}
		for _, q := range []struct {
			i int
			v []Torus
		}{{o.A, a}, {o.B, b}} {
			if &ps[q.i].Coeffs[0] != &got.Coeffs[0] && !core.Equal(ps[q.i].Coeffs, q.v) {
				return core.Errf("N=%d operation %d %s modified operand %d", n, i, o.Op, q.i)
			}
		}
		// results of in-place products leave the drawn range: bring them back
		for j := range got.Coeffs {
			got.Coeffs[j] = Torus(int32(got.Coeffs[j]<<(31-h.Bits)) >> (31 - h.Bits))
		}
	}
	return nil
}

// ---- polynomial containers --------------------------------------------------------

type Cont struct {
	LogN int
	Seed uint64
}

func runCont(c *core.Ctx, cs Cont) error {
	n := 1 << cs.LogN
	for _, p := range []poly.Poly{poly.NewPoly(n), poly.NewPolyAligned(n), ev(n, false).NewPoly()} {
		if len(p.Coeffs) != n || p.Degree() != n {
			return core.Errf("new polynomial of degree %d has %d coefficients", n, len(p.Coeffs))
		}
		for i, v := range p.Coeffs {
			if v != 0 {
				return core.Errf("new polynomial has coefficient %d at %d", v, i)
			}
		}
		copy(p.Coeffs, core.FillTorus("uniform", cs.Seed, n))
		q := p.Copy()
		if !core.Equal(p.Coeffs, q.Coeffs) {
			return core.Errf("copy differs")
		}
		q.Coeffs[n-1]++
		if core.Equal(p.Coeffs, q.Coeffs) {
			return core.Errf("copy shares memory with the original")
		}
		p.Clear()
		for i, v := range p.Coeffs {
			if v != 0 {
				return core.Errf("cleared polynomial has %d at %d", v, i)
			}
		}
	}
	e := ev(n, false)
	a := core.FillTorus("uniform", cs.Seed+1, n)
	for _, f := range []poly.FourierPoly{poly.NewFourierPoly(n), poly.NewFourierPolyAligned(n), e.NewFourierPoly()} {
		if len(f.Coeffs) != n || f.Degree() != n {
			return core.Errf("new fourier polynomial of degree %d has %d coefficients", n, len(f.Coeffs))
		}
		for i, v := range e.ToPoly(f).Coeffs {
			if v != 0 {
				return core.Errf("new fourier polynomial represents %d at %d", v, i)
			}
		}
		e.ToFourierPolyAssign(poly.Poly{Coeffs: a}, f)
		g := f.Copy()
		f.Clear()
		if !core.Equal(e.ToPoly(g).Coeffs, a) {
			return core.Errf("clearing a fourier polynomial changed its copy")
		}
		for i, v := range e.ToPoly(f).Coeffs {
			if v != 0 {
				return core.Errf("cleared fourier polynomial represents %d at %d", v, i)
			}
		}
	}
	if e.Degree() != n || e.ShallowCopy().Degree() != n {
		return core.Errf("evaluator degree %d, want %d", e.Degree(), n)
	}
	return nil
}

func main() {
	core.Main(&core.Prop{
		ID:   "C09",
		Rule: "product: case = degree 16..4096 (large: 8192..32768), operand styles and magnitudes (within and beyond the 48-bit bound), operation (product, assign, multiply-add/-subtract, buffered, round trip), aliasing, dirty output, original or copied evaluator, against schoolbook arithmetic mod 2^32; program: up to 10 transform-domain operations with aliasing against an int64 model; history: products on one evaluator over buffers that are rewritten in place between calls; non-trivial: no operand identically zero",
		Subs: []*core.Sub{
			core.NewSub("product", gen, func(cs MulCase) bool { return cs.A != "zero" && cs.B != "zero" }, run),
			core.NewSub("large", genLarge, func(cs MulCase) bool { return cs.A != "zero" && cs.B != "zero" }, run),
			core.NewSub("program", genProg, func(p Prog) bool {
				for _, s := range p.Sty {
					if s == "zero" {
						return false
					}
				}
				return true
			}, runProg),
			core.NewSub("history", genHist, func(h Hist) bool { return len(h.Ops) > 2 }, runHist),
			core.NewSub("containers", func(t *rapid.T, c *core.Ctx) Cont { return Cont{core.IntIn(t, "logn", 4, 12), core.GenSeed(t)} }, func(Cont) bool { return true }, runCont),
		},
		Plan: func(tier string) []core.Job {
			f := 1
			if tier == "thorough" {
				f = 20
			}
			var js []core.Job
			for i := 0; i < 8; i++ {
				js = append(js, core.Job{Level: 128, Procs: 1, Runs: []core.RunSpec{{Sub: "containers", N: 40 * f}, {Sub: "product", N: 12000 * f}, {Sub: "large", N: 8 * f}, {Sub: "program", N: 4000 * f}, {Sub: "history", N: 2000 * f}}})
			}
			return js
		},
		Assume: []string{"outside the 48-bit range the floating-point error is bounded by 5 * 2^-53 log2(N) |a|_2 |b|_2 plus rounding"},
	})
}
