// C29: scratch buffers are disjoint, whole, and hold their contents as long as documented.
package main

import (
	"fmt"
	"reflect"
	"sort"

	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"pgregory.net/rapid"
	"verif/core"
)

type Step struct {
	K string
	E int    // object, modulo the number there is
	I int    // index
	X int    // exponent, or which handle
	S string // style of the contents, or buffer name
}

type Case struct {
	Seed  uint64
	Log   int // log2 of the degree
	Steps []Step
}

var accNames = []string{"fpAcc", "fpBcc"}
var evalOps = []string{"rot", "rot", "xk", "xk", "xk", "resetrot", "trl", "trl", "cleartrl", "resettrl", "decomp", "write", "gadget", "dfft", "dfft", "dfft2", "clear", "muladd", "muladd", "muladd", "read", "readrot", "diff", "mul", "mulassign", "muladdpoly", "fourier", "copy", "new"}

func genEval(t *rapid.T, c *core.Ctx) Case {
	cs := Case{Seed: core.GenSeed(t), Log: core.Choose(t, "log", []int{4, 4, 5, 5, 6, 7, 8, 10})}
	for i := 0; i < core.IntIn(t, "ns", 3, 50); i++ {
		st := Step{K: core.Choose(t, "k", evalOps), E: core.Pick(t, "e", 3), I: core.Pick(t, "i", 6)}
		st.X = core.Choose(t, "x", []int{0, 1, -1, 2, 3, 7, 15, 16, 17, 31, 32, 33, -16, 100, 1000, -777})
		switch st.K {
		case "clear", "muladd", "read", "readrot":
			st.S = core.Choose(t, "name", accNames)
		default:
			st.S = core.GenStyle(t, "s")
		}
		cs.Steps = append(cs.Steps, st)
	}
	return cs
}

// held is memory handed out by the library, with what it must hold.
type held struct {
	what string
	mem  []core.Torus
	want []core.Torus
}

func hold(what string, mem []core.Torus) held { return held{what, mem, core.Clone(mem)} }

func (h held) check() error {
	for i := range h.want {
		if h.mem[i] != h.want[i] {
			return core.Errf("%s changed at %d: %#x, was %#x", h.what, i, h.mem[i], h.want[i])
		}
	}
	return nil
}

type model struct {
	name  string
	e     *poly.Evaluator
	rot   []held   // last handles, oldest first
	trl   [][]held // pairs
	dec   map[int][]core.Torus
	dfft  map[int][]core.Torus
	small map[int]bool // dfft[i] is small enough to multiply exactly
	acc   map[string][]core.Torus
	nacc  map[string]int
}

func newModel(name string, e *poly.Evaluator) *model {
	return &model{name: name, e: e, dec: map[int][]core.Torus{}, dfft: map[int][]core.Torus{}, small: map[int]bool{}, acc: map[string][]core.Torus{}, nacc: map[string]int{}}
}

func near(a, b []core.Torus, tol int32) int {
	for i := range a {
		if d := int32(a[i] - b[i]); d > tol || d < -tol {
			return i
		}
	}
	return -1
}

func (m *model) check(chk *poly.Evaluator) error {
	for i, h := range m.rot {
		if err := h.check(); err != nil {
			return core.Errf("%s: %d of the last %d: %v", m.name, i, len(m.rot), err)
		}
	}
	for i, p := range m.trl {
		for _, h := range p {
			if err := h.check(); err != nil {
				return core.Errf("%s: %d of the last %d: %v", m.name, i, len(m.trl), err)
			}
		}
	}
	for i, w := range m.dec {
		if got := m.e.GetDecompBuffer(i); !core.Equal(got.Coeffs, w) {
			return core.Errf("%s: decomposition buffer %d does not hold what was written to it", m.name, i)
		}
	}
	if len(m.dfft) == 0 {
		return nil
	}
	out := chk.NewPoly()
	for i, w := range m.dfft {
		f := m.e.GetDecompFFTBuffer(i).Copy()
		chk.ToPolyAssign(f, out)
		if j := near(out.Coeffs, w, 4); j >= 0 {
			return core.Errf("%s: decomposition FFT buffer %d does not hold the polynomial put into it (coefficient %d: %#x, want %#x)", m.name, i, j, out.Coeffs[j], w[j])
		}
	}
	return nil
}

// overlap tells whether two slices share memory.
func overlap(a, b []core.Torus) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	pa, pb := reflect.ValueOf(a).Pointer(), reflect.ValueOf(b).Pointer()
	return pa < pb+uintptr(4*len(b)) && pb < pa+uintptr(4*len(a))
}

func (m *model) pushRot(h held) error {
	if len(m.rot) == 4 {
		m.rot = m.rot[1:]
	}
	for i, o := range m.rot {
		if overlap(o.mem, h.mem) {
			return core.Errf("%s: a rotation buffer shares memory with the one handed out %d before it", m.name, len(m.rot)-i)
		}
	}
	m.rot = append(m.rot, h)
	return nil
}

func (m *model) pushTRL(a, b []core.Torus) error {
	if overlap(a, b) {
		return core.Errf("%s: the two halves of a TRLWE buffer share memory", m.name)
	}
	if len(m.trl) == 4 {
		m.trl = m.trl[1:]
	}
	for _, o := range m.trl {
		for _, h := range o {
			if overlap(h.mem, a) || overlap(h.mem, b) {
				return core.Errf("%s: a TRLWE buffer shares memory with one of the three before it", m.name)
			}
		}
	}
	m.trl = append(m.trl, []held{hold("TRLWE buffer", a), hold("TRLWE buffer", b)})
	return nil
}

func digits(seed uint64, n int) []core.Torus {
	r := core.RNG(seed)
	d := make([]core.Torus, n)
	for i := range d {
		d[i] = core.Torus(r.IntN(65) - 32)
	}
	return d
}

func runEval(c *core.Ctx, cs Case) error {
	core.SetLevel(c.Level)
	n := 1 << cs.Log
	chk := poly.NewEvaluator(n)
	ms := []*model{newModel("evaluator 0", poly.NewEvaluator(n))}
	var kept []held
	for si, st := range cs.Steps {
		m := ms[st.E%len(ms)]
		e := m.e
		seed := cs.Seed + uint64(si)*17
		fill := func() []core.Torus { return core.FillTorus(st.S, seed, n) }
		err := func() error {
			switch st.K {
			case "rot":
				b := e.GetRotationBuffer()
				if len(b) != n {
					return core.Errf("%s: rotation buffer of %d coefficients", m.name, len(b))
				}
				copy(b, fill())
				return m.pushRot(hold("rotation buffer", b))
			case "xk":
				src := fill()
				// of the last three handles: the fourth may be the one reused
				if k := len(m.rot); k > 0 && st.I%2 == 0 {
					src = m.rot[k-1-st.I/2%min(k, 3)].mem
				}
				want := core.Rotate(src, st.X)
				b := e.PolyMulWithXK(src, st.X)
				if !core.Equal(b, want) {
					return core.Errf("%s: PolyMulWithXK by X^%d is wrong", m.name, st.X)
				}
				return m.pushRot(held{"rotated polynomial", b, want})
			case "resetrot":
				e.ResetRotationPool()
				m.rot = nil
			case "trl":
				a, b := e.GetTRLWEBuffer()
				if len(a) != n || len(b) != n {
					return core.Errf("%s: TRLWE buffer of %d and %d coefficients", m.name, len(a), len(b))
				}
				copy(a, fill())
				copy(b, core.FillTorus("uniform", seed+1, n))
				return m.pushTRL(a, b)
			case "cleartrl":
				if len(m.trl) > 0 {
					p := m.trl[st.I%len(m.trl)]
					e.ClearTRLWEBuffer(p[0].mem, p[1].mem)
					clear(p[0].want)
					clear(p[1].want)
				}
			case "resettrl":
				e.ResetTRLWEPool()
				m.trl = nil
			case "decomp":
				src := fill()
				e.CopyToDecompBuffer(src, st.I)
				m.dec[st.I] = src
			case "write":
				src := fill()
				copy(e.GetDecompBuffer(st.I).Coeffs, src)
				m.dec[st.I] = src
			case "gadget":
				var out []poly.Poly
				for i := 0; i < 3; i++ {
					out = append(out, *e.GetDecompBuffer((st.I + i) % 6))
				}
				ref := []poly.Poly{poly.NewPoly(n), poly.NewPoly(n), poly.NewPoly(n)}
				src := fill()
				off := core.Torus(32<<26 + 32<<20 + 32<<14)
				poly.DecomposePolyAssign(src, 6, 3, off, out)
				poly.DecomposePolyAssign(src, 6, 3, off, ref)
				for i := range ref {
					m.dec[(st.I+i)%6] = ref[i].Coeffs
				}
			case "dfft":
				src := digits(seed, n)
				e.ToFourierPolyInBuffer(poly.Poly{Coeffs: src}, st.I)
				m.dfft[st.I], m.small[st.I] = src, true
			case "dfft2":
				src := e.GetDecompBuffer(st.I)
				w := core.Clone(src.Coeffs)
				e.ToFourierPolyInBuffer(*src, (st.I+1)%6)
				m.dfft[(st.I+1)%6], m.small[(st.I+1)%6] = w, false
			case "clear":
				e.ClearBuffer(st.S)
				m.acc[st.S] = make([]core.Torus, n)
				m.nacc[st.S] = 0
			case "muladd":
				if m.acc[st.S] == nil || m.nacc[st.S] >= 8 {
					e.ClearBuffer(st.S)
					m.acc[st.S], m.nacc[st.S] = make([]core.Torus, n), 0
				}
				if !m.small[st.I] {
					src := digits(seed+1, n)
					e.ToFourierPolyInBuffer(poly.Poly{Coeffs: src}, st.I)
					m.dfft[st.I], m.small[st.I] = src, true
				}
				{
					b := core.FillTorus("uniform", seed, n)
					e.MulAddFourierPolyAssignBuffered(st.I, e.ToFourierPoly(poly.Poly{Coeffs: b}), st.S)
					p := core.MulExact(m.dfft[st.I], b)
					w := core.Clone(m.acc[st.S])
					for j := range w {
						w[j] += p[j]
					}
					m.acc[st.S] = w
					m.nacc[st.S]++
					c.Class("accumulated")
				}
			case "read", "readrot":
				w := m.acc[st.S]
				if w == nil {
					return nil
				}
				out := core.FillTorus("uniform", seed, n)
				if st.K == "readrot" && len(m.rot) > 0 {
					h := &m.rot[st.I%len(m.rot)]
					out, h.want = h.mem, nil
				}
				e.BufferToPolyAssign(st.S, out)
				m.acc[st.S] = nil // consumed
				c.Class(fmt.Sprintf("read after %d", m.nacc[st.S]))
				if j := near(out, w, 4); j >= 0 {
					return core.Errf("%s: %s gives %#x at %d after %d products, want %#x", m.name, st.S, out[j], j, m.nacc[st.S], w[j])
				}
				for i := range m.rot {
					if m.rot[i].want == nil {
						m.rot[i].want = core.Clone(out)
					}
				}
			case "diff":
				e.ClearBuffer("fpDiff")
				e.ClearBuffer("fpMul1")
				e.ClearBuffer("fpMul2")
				out := core.FillTorus("uniform", seed, n)
				e.BufferToPolyAssign("fpDiff", out)
				for _, v := range out {
					if v != 0 {
						return core.Errf("%s: cleared buffer fpDiff is not zero", m.name)
					}
				}
			case "mul", "mulassign", "muladdpoly":
				a, b := digits(seed, n), fill()
				p0, p1 := poly.Poly{Coeffs: a}, poly.Poly{Coeffs: b}
				var out poly.Poly
				w := core.MulExact(a, b)
				switch st.K {
				case "mul":
					out = e.MulPoly(p0, p1)
				case "mulassign":
					out = e.NewPoly()
					copy(out.Coeffs, core.FillTorus("uniform", seed, n))
					e.MulPolyAssign(p0, p1, out)
				default:
					out = e.NewPoly()
					e.MulAddPolyAssign(p0, p1, out)
				}
				if j := near(out.Coeffs, w, 4); j >= 0 {
					return core.Errf("%s: %s wrong at %d", m.name, st.K, j)
				}
				kept = append(kept, hold("product", out.Coeffs))
			case "fourier":
				src := fill()
				f := e.ToFourierPoly(poly.Poly{Coeffs: src})
				g := f.Copy()
				out := e.ToPoly(f)
				out2 := e.NewPoly()
				e.ToPolyAssignUnsafe(g, out2)
				if near(out.Coeffs, src, 4) >= 0 || near(out2.Coeffs, src, 4) >= 0 {
					return core.Errf("%s: transform and back is wrong", m.name)
				}
				kept = append(kept, hold("polynomial", out.Coeffs), hold("polynomial", out2.Coeffs))
			case "copy", "new":
				if len(ms) < 4 {
					x := newModel(fmt.Sprintf("evaluator %d (%s of %s)", len(ms), st.K, m.name), nil)
					if st.K == "copy" {
						x.e = e.ShallowCopy()
					} else {
						x.e = poly.NewEvaluator(n)
					}
					ms = append(ms, x)
					c.Class("several evaluators")
				}
			}
			return nil
		}()
		if err == nil {
			for _, m := range ms {
				if err = m.check(chk); err != nil {
					break
				}
			}
		}
		for _, h := range kept {
			if err == nil {
				err = h.check()
			}
		}
		if err != nil {
			return core.Errf("after step %d (%s on evaluator %d): %v", si, st.K, st.E%len(ms), err)
		}
	}
	// nothing of one evaluator is part of another
	for i, a := range ms {
		for j, b := range ms {
			if i == j {
				continue
			}
			for _, x := range a.rot {
				for _, y := range b.rot {
					if overlap(x.mem, y.mem) {
						return core.Errf("%s and %s share rotation buffers", a.name, b.name)
					}
				}
			}
			for d := 0; d < 6; d++ {
				for f := 0; f < 6; f++ {
					if overlap(a.e.GetDecompBuffer(d).Coeffs, b.e.GetDecompBuffer(f).Coeffs) {
						return core.Errf("%s and %s share decomposition buffers", a.name, b.name)
					}
				}
			}
		}
		for name, w := range a.acc {
			if w == nil {
				continue
			}
			out := make([]core.Torus, n)
			a.e.BufferToPolyAssign(name, out)
			if k := near(out, w, 4); k >= 0 {
				return core.Errf("at the end %s: %s gives %#x at %d after %d products, want %#x", a.name, name, out[k], k, a.nacc[name], w[k])
			}
		}
	}
	return nil
}

// ---- buffer managers and pools -------------------------------------------------------

type PoolCase struct {
	Seed  uint64
	Kind  string // manager, pool, evaluator, decomposer
	Log   int
	Steps []Step
}

func genPool(t *rapid.T, c *core.Ctx) PoolCase {
	cs := PoolCase{Seed: core.GenSeed(t), Kind: core.Choose(t, "kind", []string{"manager", "manager", "pool", "pool", "evaluator", "decomposer"}), Log: core.IntIn(t, "log", 4, 11)}
	for i := 0; i < core.IntIn(t, "ns", 1, 24); i++ {
		cs.Steps = append(cs.Steps, Step{K: core.Choose(t, "k", []string{"rot", "rot", "trl", "trl", "next", "next", "next", "reset", "new", "own"}), E: core.Pick(t, "e", 3), I: core.Pick(t, "i", 8), S: core.GenStyle(t, "s")})
	}
	return cs
}

// region is one stretch of memory reachable from an object.
type region struct {
	path string
	p    uintptr
	size uintptr
	len  int
	v    reflect.Value
}

// regions lists the numeric slices reachable through exported fields.
func regions(path string, v reflect.Value, out *[]region) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			regions(path, v.Elem(), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				regions(path+"."+v.Type().Field(i).Name, v.Field(i), out)
			}
		}
	case reflect.Slice, reflect.Array:
		switch v.Type().Elem().Kind() {
		case reflect.Uint32, reflect.Float64, reflect.Complex128:
			if v.Kind() == reflect.Slice && v.Len() > 0 {
				*out = append(*out, region{path, v.Pointer(), uintptr(v.Len()) * v.Type().Elem().Size(), v.Len(), v})
			} else if v.Kind() == reflect.Slice {
				*out = append(*out, region{path, 0, 0, 0, v})
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			regions(fmt.Sprintf("%s[%d]", path, i), v.Index(i), out)
		}
	}
}

func disjoint(rs []region) error {
	s := append([]region(nil), rs...)
	sort.Slice(s, func(i, j int) bool { return s[i].p < s[j].p })
	for i := 1; i < len(s); i++ {
		if s[i-1].size > 0 && s[i].p < s[i-1].p+s[i-1].size {
			return core.Errf("%s and %s share memory", s[i-1].path, s[i].path)
		}
	}
	return nil
}

type pool struct {
	name string
	bm   *poly.BufferManager
	bp   *evaluator.BufferPool
	ev   *evaluator.Evaluator
	dec  *poly.Decomposer
	m    *model // rotation and TRLWE handles
	next []held
	own  map[string]held
}

func (p *pool) root() any {
	if p.bp != nil {
		return p.bp
	}
	return p.bm
}

func newPool(kind, name string, n int) *pool {
	p := &pool{name: name, m: newModel(name, nil), own: map[string]held{}}
	switch kind {
	case "manager":
		p.bm = poly.NewBufferManager(n)
	case "pool":
		p.bp = evaluator.NewBufferPool(n)
		p.bm = p.bp.PolyBuffers
	case "evaluator":
		p.ev = evaluator.NewEvaluator(n)
		p.bp = p.ev.Buffers
		p.bm = p.bp.PolyBuffers
	}
	return p
}

func runPool(c *core.Ctx, cs PoolCase) error {
	core.SetLevel(c.Level)
	if cs.Kind == "decomposer" {
		return runDecomposer(c, cs)
	}
	n := 1 << cs.Log
	if cs.Kind != "manager" {
		n = params.GetTRGSWLv1().N
	}
	c.Class(cs.Kind)
	ps := []*pool{newPool(cs.Kind, cs.Kind+" 0", n)}
	for si, st := range cs.Steps {
		p := ps[st.E%len(ps)]
		seed := cs.Seed + uint64(si)*13
		err := func() error {
			switch st.K {
			case "rot":
				b := p.bm.GetRotationBuffer().Coeffs
				if len(b) != n {
					return core.Errf("rotation buffer of %d coefficients, want %d", len(b), n)
				}
				copy(b, core.FillTorus(st.S, seed, n))
				return p.m.pushRot(hold("rotation buffer", b))
			case "trl":
				a, b := p.bm.GetTRLWEBuffer()
				if len(a) != n || len(b) != n {
					return core.Errf("TRLWE buffer of %d and %d coefficients", len(a), len(b))
				}
				copy(a, core.FillTorus(st.S, seed, n))
				copy(b, core.FillTorus("uniform", seed, n))
				return p.m.pushTRL(a, b)
			case "next":
				if p.bp == nil {
					return nil
				}
				b := p.bp.GetNextResult().P
				if len(b) != params.GetTLWELv0().N+1 {
					return core.Errf("result buffer of %d coefficients, want %d", len(b), params.GetTLWELv0().N+1)
				}
				if len(p.next) == 4 {
					p.next = p.next[1:]
				}
				for _, o := range p.next {
					if overlap(o.mem, b) {
						return core.Errf("a result buffer is one of the three before it")
					}
				}
				copy(b, core.FillTorus(st.S, seed, len(b)))
				p.next = append(p.next, hold("result buffer", b))
				c.Class("result")
			case "reset":
				// the handles become reusable
				if p.bp != nil && st.I%2 == 0 {
					p.bp.Reset()
					p.next = nil
				} else {
					p.bm.Reset()
				}
				p.m.rot, p.m.trl = nil, nil
			case "new":
				if len(ps) < 3 {
					name := fmt.Sprintf("%s %d", cs.Kind, len(ps))
					q := newPool(cs.Kind, name, n)
					if p.ev != nil && st.I%2 == 0 {
						q = &pool{name: name + " (copy)", m: newModel(name, nil), own: map[string]held{}, ev: p.ev.ShallowCopy()}
						q.bp = q.ev.Buffers
						q.bm = q.bp.PolyBuffers
					}
					ps = append(ps, q)
				}
			case "own":
				// write to a buffer that is not part of a round
				bufs := [][]core.Torus{p.bm.FFT.Poly.Coeffs, p.bm.Temp.Poly1.Coeffs, p.bm.Temp.Poly2.Coeffs, p.bm.Temp.Poly3.Coeffs}
				for _, d := range p.bm.Decomposition.Poly {
					bufs = append(bufs, d.Coeffs)
				}
				if p.bp != nil {
					bufs = append(bufs, p.bp.GatePrep.P, p.bp.Bootstrap.ExtractedLWE.P, p.bp.Bootstrap.KeySwitched.P, p.bp.CMUX.Temp.A, p.bp.CMUX.Temp.B, p.bp.BlindRotation.Accumulator1.A, p.bp.BlindRotation.Accumulator2.B, p.bp.BlindRotation.Rotated.A, p.bp.ExternalProduct.Result.B)
				}
				i := (st.I*7 + si) % len(bufs)
				copy(bufs[i], core.FillTorus(st.S, seed, len(bufs[i])))
				p.own[fmt.Sprint(i)] = hold(fmt.Sprintf("buffer %d", i), bufs[i])
			}
			return nil
		}()
		for _, q := range ps {
			if err == nil {
				err = q.m.check(nil)
			}
			for _, h := range q.next {
				if err == nil {
					err = h.check()
				}
			}
			for _, h := range q.own {
				if err == nil {
					err = h.check()
				}
			}
		}
		if err != nil {
			return core.Errf("after step %d (%s on %s): %v", si, st.K, p.name, err)
		}
	}
	// all buffers are disjoint and have the level's sizes
	var all []region
	for _, p := range ps {
		var rs []region
		regions(p.name, reflect.ValueOf(p.root()), &rs)
		var bytes uintptr
		for _, r := range rs {
			bytes += r.size
			if r.len == 0 {
				return core.Errf("%s is empty", r.path)
			}
		}
		if len(rs) < 20 {
			return core.Errf("harness: %d regions", len(rs))
		}
		all = append(all, rs...)
		c.Max("buffers", float64(len(rs)))
		if err := sizes(p, n); err != nil {
			return core.Errf("%s: %v", p.name, err)
		}
		usage := p.bm.MemoryUsage()
		if p.bp != nil {
			usage = p.bp.MemoryUsage()
		}
		if usage < int(bytes)/4 || usage > int(bytes)*4 {
			return core.Errf("%s: %d bytes of buffers, MemoryUsage says %d", p.name, bytes, usage)
		}
	}
	return disjoint(all)
}

func sizes(p *pool, n int) error {
	l := params.GetTRGSWLv1().L
	want := func(what string, got, w int) error {
		if got != w {
			return core.Errf("%s has size %d, want %d", what, got, w)
		}
		return nil
	}
	var errs []error
	add := func(e error) {
		if e != nil {
			errs = append(errs, e)
		}
	}
	add(want("FFT.Poly", p.bm.FFT.Poly.Degree(), n))
	add(want("FFT.Fourier", p.bm.FFT.Fourier.Degree(), n))
	add(want("AccA", p.bm.Multiplication.AccA.Degree(), n))
	add(want("AccB", p.bm.Multiplication.AccB.Degree(), n))
	add(want("Temp", p.bm.Multiplication.Temp.Degree(), n))
	for _, t := range []poly.Poly{p.bm.Temp.Poly1, p.bm.Temp.Poly2, p.bm.Temp.Poly3} {
		add(want("Temp.Poly", t.Degree(), n))
	}
	if len(p.bm.Decomposition.Poly) < 2*l || len(p.bm.Decomposition.Fourier) < 2*l {
		return core.Errf("%d and %d decomposition buffers for %d levels of two polynomials", len(p.bm.Decomposition.Poly), len(p.bm.Decomposition.Fourier), l)
	}
	for i := 0; i < 2*l; i++ {
		add(want("Decomposition.Poly", p.bm.Decomposition.Poly[i].Degree(), n))
		add(want("Decomposition.Fourier", p.bm.Decomposition.Fourier[i].Degree(), n))
	}
	if b := p.bp; b != nil {
		add(want("GatePrep", len(b.GatePrep.P), params.GetTLWELv0().N+1))
		add(want("KeySwitched", len(b.Bootstrap.KeySwitched.P), params.GetTLWELv0().N+1))
		add(want("ExtractedLWE", len(b.Bootstrap.ExtractedLWE.P), params.GetTLWELv1().N+1))
		add(want("FourierA", b.ExternalProduct.FourierA.Degree(), n))
		add(want("FourierB", b.ExternalProduct.FourierB.Degree(), n))
		add(want("Result", len(b.ExternalProduct.Result.A), n))
		add(want("CMUX", len(b.CMUX.Temp.B), n))
		add(want("Accumulator1", len(b.BlindRotation.Accumulator1.A), n))
		add(want("Accumulator2", len(b.BlindRotation.Accumulator2.B), n))
		add(want("Rotated", len(b.BlindRotation.Rotated.B), n))
		if params.UseBlockBlindRotation() != (b.BlockRotation != nil) {
			return core.Errf("block rotation buffers: %v, level asks for them: %v", b.BlockRotation != nil, params.UseBlockBlindRotation())
		}
	}
	if len(errs) > 0 {
		return errs[0]
	}
	return nil
}

func runDecomposer(c *core.Ctx, cs PoolCase) error {
	n := 1 << min(cs.Log, 8)
	const levels = 5
	pe := poly.NewEvaluator(n)
	type dm struct {
		d *poly.Decomposer
		p map[int][]core.Torus
		f map[int][]core.Torus
	}
	mk := func() *dm {
		return &dm{poly.NewDecomposer(n, levels), map[int][]core.Torus{}, map[int][]core.Torus{}}
	}
	ds := []*dm{mk()}
	c.Class("decomposer")
	out := pe.NewPoly()
	for si, st := range cs.Steps {
		d := ds[st.E%len(ds)]
		src := core.FillTorus(st.S, cs.Seed+uint64(si), n)
		l := 1 + st.I%levels
		switch st.K {
		case "new":
			if len(ds) < 3 {
				ds = append(ds, mk())
			}
		case "rot", "own": // one buffer
			copy(d.d.GetPolyDecomposedBuffer(l)[l-1].Coeffs, src)
			d.p[l-1] = src
		case "trl", "reset": // a decomposition
			const bg = 6
			ref := make([]poly.Poly, l)
			for i := range ref {
				ref[i] = poly.NewPoly(n)
			}
			poly.DecomposePolyAssign(src, bg, l, 0, ref)
			poly.DecomposePolyAssign(src, bg, l, 0, d.d.GetPolyDecomposedBuffer(l))
			for i := range ref {
				d.p[i] = ref[i].Coeffs
			}
		default:
			pe.ToFourierPolyAssign(poly.Poly{Coeffs: src}, d.d.GetPolyFourierDecomposedBuffer(l)[l-1])
			d.f[l-1] = src
		}
		for di, d := range ds {
			bs, fs := d.d.GetPolyDecomposedBuffer(levels), d.d.GetPolyFourierDecomposedBuffer(levels)
			if len(bs) != levels || len(fs) != levels {
				return core.Errf("%d and %d buffers for %d levels", len(bs), len(fs), levels)
			}
			for i, w := range d.p {
				if !core.Equal(bs[i].Coeffs, w) {
					return core.Errf("after step %d (%s): decomposer %d: buffer of level %d does not hold what was written to it", si, st.K, di, i)
				}
			}
			for i, w := range d.f {
				pe.ToPolyAssign(fs[i].Copy(), out)
				if near(out.Coeffs, w, 4) >= 0 {
					return core.Errf("after step %d (%s): decomposer %d: Fourier buffer of level %d does not hold what was written to it", si, st.K, di, i)
				}
			}
		}
	}
	return nil
}

func main() {
	core.Main(&core.Prop{
		ID:   "C29",
		Rule: "evaluator: histories of 3-50 calls over up to four polynomial evaluators (new and copied) with a model of the last four rotation and TRLWE buffers, the decomposition buffers in both domains and the accumulators, all compared after every call; pool: histories over buffer managers, pools, whole evaluators and decomposers, all memory they expose disjoint and of the level's sizes; non-trivial: three or more calls",
		Subs: []*core.Sub{
			core.NewSub("evaluator", genEval, func(cs Case) bool { return len(cs.Steps) >= 3 }, runEval),
			core.NewSub("pool", genPool, func(cs PoolCase) bool { return len(cs.Steps) >= 3 }, runPool),
		},
		Plan: func(tier string) []core.Job {
			f := 1
			if tier == "thorough" {
				f = 15
			}
			var js []core.Job
			for _, l := range core.AllLevels {
				js = append(js, core.Job{Level: l, Runs: []core.RunSpec{{Sub: "evaluator", N: 5000 * f}, {Sub: "pool", N: 1500 * f}}})
			}
			return js
		},
		Assume: []string{"a rotation, TRLWE or result buffer holds its contents until four more of its kind are asked for or the pool is reset; reading an accumulator consumes it"},
	})
}
