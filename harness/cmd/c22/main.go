// C22: results live as documented and operations never modify their inputs.
package main

import (
	"fmt"

	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"pgregory.net/rapid"
	"verif/core"
	"verif/gx"
	"verif/pb"
)

// Op is one step of a history. A, B, C select operands, T a table, E an evaluator, O an
// output or a log entry (all taken modulo what exists).
type Op struct {
	Op   string
	Name string
	A    int
	B    int
	C    int
	T    int
	E    int
	O    int
}

type Case struct {
	Seed uint64
	M    int
	Ops  []Op
	Full bool // compare the whole cloud key before and after
}

var names = []string{
	"boot", "boot", "luttemp", "luttemp", "luttemp", "lut", "lut", "func",
	"bootassign", "lutassign", "lutassign", "funcassign", "gate", "gate", "batch",
	"prepboot", "linear", "fresh", "reset", "copyeval", "neweval", "table", "tableassign", "repeat", "repeat", "repeat",
}

func gen(t *rapid.T, c *core.Ctx) Case {
	cs := Case{Seed: core.GenSeed(t), M: core.IntIn(t, "m", 2, pb.MaxModulus[c.Level]), Full: core.Pick(t, "full", 6) == 0}
	n := core.IntIn(t, "n", 3, 16)
	for i := 0; i < n; i++ {
		o := Op{Op: core.Choose(t, "op", names), A: core.Pick(t, "a", 16), B: core.Pick(t, "b", 16), C: core.Pick(t, "c", 16), T: core.Pick(t, "t", 4), E: core.Pick(t, "e", 3), O: core.Pick(t, "o", 8)}
		switch o.Op {
		case "gate":
			o.Name = core.Choose(t, "gate", gx.Names())
		case "batch":
			o.Name = core.Choose(t, "batch", gx.BatchNames())
		case "prepboot":
			o.Name = core.Choose(t, "prep", []string{"NAND", "AND", "OR", "XOR"})
		case "linear":
			o.Name = core.Choose(t, "lin", []string{"add", "sub", "neg", "addmul", "submul", "addassign"})
		}
		cs.Ops = append(cs.Ops, o)
	}
	return cs
}

type val struct {
	ct    *gx.CT
	hash  uint64
	kind  string // how it was made
	temp  bool
	ev    int  // evaluator owning a temporary
	birth int  // bootstraps done on that evaluator when it was made
	own   bool // assigned output owned by the harness: may be assigned again
	dead  bool
}

type rec struct { // executed operation that can be repeated
	what string
	in   []*val
	tab  int
	tabH uint64
	do   func(ev *evaluator.Evaluator) *gx.CT
	out  []core.Torus
}

func run(c *core.Ctx, cs Case) error {
	k := core.GetKeys(c.Level, 0)
	core.SeedLib(cs.Seed)
	r := core.RNG(cs.Seed)
	s := k.SK.KeyLv0
	n := params.GetTRGSWLv1().N
	bsk, ksk, off := k.CK.BootstrappingKey, k.CK.KeySwitchingKey, k.CK.DecompositionOffset
	tv := k.CK.BlindRotateTestvec
	skHash := core.Hash(k.SK.KeyLv0, k.SK.KeyLv1)
	tvHash := core.Hash(tv.A, tv.B)
	var ckHash uint64
	if cs.Full {
		ckHash = core.HashCK(k.CK)
		c.Class("whole cloud key compared")
	}
	// a few key entries are compared in every case
	var ei, ki []int
	for i := 0; i < 12; i++ {
		ei, ki = append(ei, r.IntN(len(bsk))), append(ki, r.IntN(len(ksk)))
	}
	entries := func() uint64 {
		h := uint64(len(bsk))
		for _, i := range ei {
			for _, q := range bsk[i].TRLWEFFT {
				h = h*1000003 ^ core.HashF(q.A.Coeffs, q.B.Coeffs)
			}
		}
		for _, i := range ki {
			h = h*1000003 ^ core.Hash(ksk[i].P)
		}
		return h
	}
	entH := entries()

	evs := []*evaluator.Evaluator{pb.NewEval()}
	boots := []int{0}
	var vals []*val
	var recs []*rec
	var tabs []*lut.LookUpTable
	var tabF [][]int
	var tabH []uint64
	gn := lut.NewGenerator(cs.M)

	newF := func() []int {
		f := make([]int, cs.M)
		for i := range f {
			f[i] = r.IntN(cs.M)
		}
		return f
	}
	addTab := func() {
		f := newF()
		tb := gn.GenLookUpTable(func(x int) int { return f[x] })
		tabs, tabF, tabH = append(tabs, tb), append(tabF, f), append(tabH, core.Hash(tb.Poly.A, tb.Poly.B))
	}
	add := func(ct *gx.CT, kind string) *val {
		v := &val{ct: ct, hash: core.Hash(ct.P), kind: kind}
		vals = append(vals, v)
		return v
	}
	fresh := func() {
		if r.IntN(2) == 0 {
			add(tlwe.NewTLWELv0().EncryptLWEMessage(r.IntN(cs.M), cs.M, params.GetTLWELv0().ALPHA, s), "encryption")
		} else {
			add(gx.Fresh(k, r.IntN(2) == 1), "encryption")
		}
	}
	fresh()
	fresh()
	addTab()
	addTab()

	// usable inputs: alive; temporaries only while the next call cannot take their slot
	pick := func(q, ev int) *val {
		var u []*val
		for _, v := range vals {
			if v.dead || (v.temp && boots[v.ev]-v.birth > 2) {
				continue
			}
			u = append(u, v)
		}
		return u[q%len(u)]
	}
	dirty := func() *gx.CT {
		o := tlwe.NewTLWELv0()
		copy(o.P, core.FillTorus(core.Styles[r.IntN(len(core.Styles))], r.Uint64(), len(o.P)))
		return o
	}
	checkBoot := func(what string, in []core.Torus, tab []core.Torus, out []core.Torus) error {
		c.Count("bootstraps", 1)
		if len(out) != len(s)+1 {
			return core.Errf("%s returned %d components", what, len(out))
		}
		idx, ties := core.BRIndex(in, s, n)
		if ties > 0 {
			return nil
		}
		if d := core.AbsDiff(core.Phase(out, s), core.TableAt(tab, idx)); d > core.Tol(c.Level) {
			return core.Errf("%s: phase %.5f away from the selected table entry (bound %.5f)", what, d, core.Tol(c.Level))
		}
		return nil
	}
	verify := func(i int, o Op) error {
		for _, v := range vals {
			if v.temp && boots[v.ev]-v.birth > 3 {
				v.dead = true
			}
			if v.dead {
				continue
			}
			if core.Hash(v.ct.P) != v.hash {
				life := "for good"
				if v.temp {
					life = fmt.Sprintf("temporary, %d bootstraps on its evaluator since", boots[v.ev]-v.birth)
				}
				return core.Errf("step %d (%s %s): the result of an earlier %s (%s) or an input changed", i, o.Op, o.Name, v.kind, life)
			}
		}
		for j, tb := range tabs {
			if core.Hash(tb.Poly.A, tb.Poly.B) != tabH[j] {
				return core.Errf("step %d (%s %s) changed lookup table %d", i, o.Op, o.Name, j)
			}
		}
		if core.Hash(tv.A, tv.B) != tvHash {
			return core.Errf("step %d (%s %s) changed the test vector", i, o.Op, o.Name)
		}
		if core.Hash(k.SK.KeyLv0, k.SK.KeyLv1) != skHash {
			return core.Errf("step %d (%s %s) changed the secret key", i, o.Op, o.Name)
		}
		return nil
	}
	push := func(what string, in []*val, tab int, out []core.Torus, do func(ev *evaluator.Evaluator) *gx.CT) {
		q := &rec{what: what, in: in, tab: tab, out: core.Clone(out), do: do}
		if tab >= 0 {
			q.tabH = tabH[tab]
		}
		recs = append(recs, q)
	}

	for i, o := range cs.Ops {
		e := o.E % len(evs)
		ev := evs[e]
		in := pick(o.A, e)
		inP := core.Clone(in.ct.P)
		ti := o.T % len(tabs)
		tb := tabs[ti]
		f := tabF[ti]
		ff := func(x int) int { return f[x] }
		switch o.Op {
		case "boot", "luttemp":
			var out *gx.CT
			tab := tv.B
			if o.Op == "boot" {
				out = ev.Bootstrap(in.ct, tv, bsk, ksk, off)
			} else {
				out = ev.BootstrapLUTTemp(in.ct, tb, bsk, ksk, off)
				tab = tb.Poly.B
			}
			boots[e]++
			// the slot may have belonged to a temporary that just expired
			for _, v := range vals {
				if v.temp && boots[v.ev]-v.birth > 3 {
					v.dead = true
				}
				if !v.dead && &v.ct.P[0] == &out.P[0] {
					return core.Errf("step %d (%s): the returned buffer is that of a %s still valid", i, o.Op, v.kind)
				}
			}
			if err := checkBoot(o.Op, inP, tab, out.P); err != nil {
				return core.Errf("step %d: %v", i, err)
			}
			v := add(out, o.Op)
			v.temp, v.ev, v.birth = true, e, boots[e]
			src := &gx.CT{P: inP}
			if o.Op == "boot" {
				push("Bootstrap", nil, -1, out.P, func(ev *evaluator.Evaluator) *gx.CT { return ev.Bootstrap(src, tv, bsk, ksk, off) })
			} else {
				push("BootstrapLUTTemp", nil, ti, out.P, func(ev *evaluator.Evaluator) *gx.CT { return ev.BootstrapLUTTemp(src, tb, bsk, ksk, off) })
			}
		case "lut", "func":
			var out *gx.CT
			if o.Op == "lut" {
				out = ev.BootstrapLUT(in.ct, tb, bsk, ksk, off)
			} else {
				out = ev.BootstrapFunc(in.ct, ff, cs.M, bsk, ksk, off)
			}
			boots[e]++
			if err := checkBoot(o.Op, inP, tb.Poly.B, out.P); err != nil {
				return core.Errf("step %d: %v", i, err)
			}
			add(out, o.Op)
			src := &gx.CT{P: inP}
			push("BootstrapLUT", nil, ti, out.P, func(ev *evaluator.Evaluator) *gx.CT { return ev.BootstrapLUT(src, tb, bsk, ksk, off) })
		case "bootassign", "lutassign", "funcassign":
			// into a new dirty output or one assigned before
			var dst *val
			for j, v := range vals {
				if v.own && v != in && (j+o.O)%2 == 0 {
					dst = v
				}
			}
			if dst == nil {
				dst = add(dirty(), "assigned output")
				dst.own = true
			}
			tab := tb.Poly.B
			switch o.Op {
			case "bootassign":
				ev.BootstrapAssign(in.ct, tv, bsk, ksk, off, dst.ct)
				tab = tv.B
			case "lutassign":
				ev.BootstrapLUTAssign(in.ct, tb, bsk, ksk, off, dst.ct)
			case "funcassign":
				ev.BootstrapFuncAssign(in.ct, ff, cs.M, bsk, ksk, off, dst.ct)
			}
			boots[e]++
			if err := checkBoot(o.Op, inP, tab, dst.ct.P); err != nil {
				return core.Errf("step %d: %v", i, err)
			}
			dst.hash = core.Hash(dst.ct.P)
			src := &gx.CT{P: inP}
			if o.Op == "bootassign" {
				push("BootstrapAssign", nil, -1, dst.ct.P, func(ev *evaluator.Evaluator) *gx.CT {
					q := dirty()
					ev.BootstrapAssign(src, tv, bsk, ksk, off, q)
					return q
				})
			} else {
				push("BootstrapLUTAssign", nil, ti, dst.ct.P, func(ev *evaluator.Evaluator) *gx.CT {
					q := dirty()
					ev.BootstrapLUTAssign(src, tb, bsk, ksk, off, q)
					return q
				})
			}
		case "gate":
			b, cc := pick(o.B, e), pick(o.C, e)
			g := gx.ByName(o.Name)
			out := g.Eval(in.ct, b.ct, cc.ct, k.CK)
			add(out, o.Name)
			x, y, z := &gx.CT{P: inP}, &gx.CT{P: core.Clone(b.ct.P)}, &gx.CT{P: core.Clone(cc.ct.P)}
			push(o.Name, nil, -1, out.P, func(*evaluator.Evaluator) *gx.CT { return g.Eval(x, y, z, k.CK) })
		case "batch":
			b, cc := pick(o.B, e), pick(o.C, e)
			g := gx.BatchByName(o.Name)
			prs := [][2]*gx.CT{{in.ct, b.ct}, {b.ct, cc.ct}, {cc.ct, in.ct}}
			var cp [][2]*gx.CT
			for _, p := range prs {
				cp = append(cp, [2]*gx.CT{{P: core.Clone(p[0].P)}, {P: core.Clone(p[1].P)}})
			}
			res := g.F(prs, k.CK)
			if len(res) != 3 {
				return core.Errf("Batch%s returned %d results", o.Name, len(res))
			}
			for _, q := range res {
				add(q, "Batch"+o.Name)
			}
			push("Batch"+o.Name, nil, -1, res[1].P, func(*evaluator.Evaluator) *gx.CT { return g.F(cp, k.CK)[1] })
		case "prepboot":
			b := pick(o.B, e)
			var p *gx.CT
			switch o.Name {
			case "NAND":
				p = ev.PrepareNAND(in.ct, b.ct)
			case "AND":
				p = ev.PrepareAND(in.ct, b.ct)
			case "OR":
				p = ev.PrepareOR(in.ct, b.ct)
			case "XOR":
				p = ev.PrepareXOR(in.ct, b.ct)
			}
			q := core.Clone(p.P)
			dst := add(dirty(), "assigned output")
			dst.own = true
			ev.BootstrapAssign(p, tv, bsk, ksk, off, dst.ct)
			boots[e]++
			dst.hash = core.Hash(dst.ct.P)
			if !core.Equal(q, p.P) {
				return core.Errf("step %d: bootstrapping modified the prepared gate input", i)
			}
			if err := checkBoot("prepared "+o.Name, q, tv.B, dst.ct.P); err != nil {
				return core.Errf("step %d: %v", i, err)
			}
		case "linear":
			b := pick(o.B, e)
			m := core.Torus(r.Uint32())
			switch o.Name {
			case "add":
				add(in.ct.Add(b.ct), "Add")
			case "sub":
				add(in.ct.Sub(b.ct), "Sub")
			case "neg":
				add(in.ct.Neg(), "Neg")
			case "addmul":
				add(in.ct.AddMul(b.ct, m), "AddMul")
			case "submul":
				add(in.ct.SubMul(b.ct, m), "SubMul")
			case "addassign":
				q := dirty()
				in.ct.AddAssign(b.ct, q)
				add(q, "AddAssign")
			}
		case "fresh":
			fresh()
		case "reset":
			ev.ResetBuffers()
			for _, v := range vals {
				if v.temp && v.ev == e {
					v.dead = true // a reset starts a new computation
				}
			}
		case "copyeval":
			if len(evs) < 3 {
				evs, boots = append(evs, ev.ShallowCopy()), append(boots, 0)
			}
		case "neweval":
			if len(evs) < 3 {
				evs, boots = append(evs, pb.NewEval()), append(boots, 0)
			}
		case "table":
			if len(tabs) < 4 {
				if o.O%2 == 0 {
					addTab()
				} else {
					q := tb.Copy()
					tabs, tabF, tabH = append(tabs, q), append(tabF, f), append(tabH, tabH[ti])
				}
			}
		case "tableassign":
			nf := newF()
			gn.GenLookUpTableAssign(func(x int) int { return nf[x] }, tb)
			tabF[ti] = nf
			h := core.Hash(tb.Poly.A, tb.Poly.B)
			want := gn.GenLookUpTable(func(x int) int { return nf[x] })
			if h != core.Hash(want.Poly.A, want.Poly.B) {
				return core.Errf("step %d: assigning a table over an old one differs from a fresh table", i)
			}
			tabH[ti] = h
		case "repeat":
			if len(recs) == 0 {
				continue
			}
			q := recs[o.O%len(recs)]
			if q.tab >= 0 && q.tabH != tabH[q.tab] {
				continue // the table was replaced on purpose
			}
			out := q.do(ev)
			boots[e]++
			if !core.Equal(out.P, q.out) {
				return core.Errf("step %d: repeating %s on the same inputs gave a different ciphertext (phase moved by %.6f)", i, q.what, core.AbsDiff(core.Phase(out.P, s), core.Phase(q.out, s)))
			}
			c.Count("repeats", 1)
		}
		if err := verify(i, o); err != nil {
			return err
		}
		c.Class("op:" + o.Op)
	}
	if entries() != entH {
		return core.Errf("evaluation modified a cloud key entry")
	}
	if cs.Full && core.HashCK(k.CK) != ckHash {
		return core.Errf("evaluation modified the cloud key")
	}
	return nil
}

// ---- ring-level operations: inputs, keys and determinism -----------------------

type RingCase struct {
	Seed uint64
	Ops  []string
}

var ringOps = []string{"encbool", "encf64", "decrypt", "extract", "extractassign", "keyswitch", "extprod", "cmux", "blindrotate", "trgswenc", "ringfft", "encode"}

func genRing(t *rapid.T, c *core.Ctx) RingCase {
	cs := RingCase{Seed: core.GenSeed(t)}
	for i := 0; i < core.IntIn(t, "n", 1, 6); i++ {
		cs.Ops = append(cs.Ops, core.Choose(t, "op", ringOps))
	}
	return cs
}

func runRing(c *core.Ctx, cs RingCase) error {
	k := core.GetKeys(c.Level, 0)
	core.SeedLib(cs.Seed)
	r := core.RNG(cs.Seed)
	s0, s1 := k.SK.KeyLv0, k.SK.KeyLv1
	n := params.GetTRGSWLv1().N
	ev := pb.NewEval()
	pe := poly.NewEvaluator(n)
	off := k.CK.DecompositionOffset
	rnd := func() []core.Torus {
		p := make([]core.Torus, n)
		for i := range p {
			p[i] = core.Torus(r.Uint32())
		}
		return p
	}
	// long-lived objects, all watched
	x, y := core.MakeRing(r, s1, rnd()), core.MakeRing(r, s1, rnd())
	l1 := &tlwe.TLWELv1{P: core.MakeLWE(r, s1, core.Torus(r.Uint32()))}
	l0 := core.MakeLv0(r, s0, core.Torus(r.Uint32()))
	tab := core.MakeRing(r, s1, rnd())
	ki := r.IntN(len(k.CK.BootstrappingKey))
	cond := k.CK.BootstrappingKey[ki]
	raw := trgsw.NewTRGSWLv1().EncryptTorus(1, params.GetTRGSWLv1().ALPHA, s1, pe)
	bools := make([]bool, n)
	fl := make([]float64, n)
	for i := range bools {
		bools[i], fl[i] = r.IntN(2) == 1, (r.Float64()-0.5)*8
	}
	flc := append([]float64(nil), fl...)
	bc := append([]bool(nil), bools...)
	condH := func() uint64 {
		h := uint64(0)
		for _, q := range cond.TRLWEFFT {
			h = h*1000003 ^ core.HashF(q.A.Coeffs, q.B.Coeffs)
		}
		return h
	}
	rawH := func() uint64 {
		h := uint64(0)
		for _, q := range raw.TRLWE {
			h = h*1000003 ^ core.Hash(q.A, q.B)
		}
		return h
	}
	world := func() uint64 {
		return core.Hash(x.A, x.B, y.A, y.B, l1.P, l0.P, tab.A, tab.B, s0, s1) ^ condH()*3 ^ rawH()*5
	}
	w := world()
	var kept [][]core.Torus // allocated results
	var keptH []uint64
	keep := func(a ...[]core.Torus) {
		for _, q := range a {
			kept, keptH = append(kept, q), append(keptH, core.Hash(q))
		}
	}
	for i, op := range cs.Ops {
		same := func(a, b []core.Torus) error {
			if !core.Equal(a, b) {
				return core.Errf("step %d (%s): repeating it on the same inputs gave a different result", i, op)
			}
			return nil
		}
		switch op {
		case "encbool":
			ct := trlwe.NewTRLWELv1().EncryptBool(bools, params.GetTRLWELv1().ALPHA, s1, pe)
			keep(ct.A, ct.B)
		case "encf64":
			ct := trlwe.NewTRLWELv1().EncryptF64(fl, params.GetTRLWELv1().ALPHA, s1, pe)
			keep(ct.A, ct.B)
			ct0 := tlwe.NewTLWELv0().EncryptF64(fl[0], params.GetTLWELv0().ALPHA, s0)
			ct1 := tlwe.NewTLWELv1().EncryptF64(fl[0], params.GetTLWELv1().ALPHA, s1)
			keep(ct0.P, ct1.P)
		case "decrypt":
			a, b := x.DecryptBool(s1, pe), x.DecryptBool(s1, pe)
			for j := range a {
				if a[j] != b[j] {
					return core.Errf("step %d: decrypting twice differs", i)
				}
			}
			if l0.DecryptBool(s0) != l0.DecryptBool(s0) || l0.DecryptLWEMessage(4, s0) != l0.DecryptLWEMessage(4, s0) || l1.DecryptBool(s1) != l1.DecryptBool(s1) {
				return core.Errf("step %d: decrypting twice differs", i)
			}
		case "extract":
			q := r.IntN(n)
			a, b := trlwe.SampleExtractIndex(x, q), trlwe.SampleExtractIndex(x, q)
			if err := same(a.P, b.P); err != nil {
				return err
			}
			keep(a.P, b.P)
		case "extractassign":
			q := r.IntN(n)
			o := &tlwe.TLWELv1{P: core.FillTorus("uniform", r.Uint64(), n+1)}
			trlwe.SampleExtractIndexAssign(x, q, o)
			if err := same(o.P, trlwe.SampleExtractIndex(x, q).P); err != nil {
				return err
			}
			keep(o.P)
		case "keyswitch":
			a := trgsw.IdentityKeySwitching(l1, k.CK.KeySwitchingKey)
			o := &tlwe.TLWELv0{P: core.FillTorus("uniform", r.Uint64(), len(s0)+1)}
			trgsw.IdentityKeySwitchingAssign(l1, k.CK.KeySwitchingKey, o)
			if err := same(a.P, o.P); err != nil {
				return err
			}
			keep(a.P, o.P)
		case "extprod":
			o := trlwe.NewTRLWELv1()
			ev.ExternalProductAssign(cond, x, off, o)
			a := trgsw.ExternalProductWithFFT(cond, x, off, pe)
			aA, aB := core.Clone(a.A), core.Clone(a.B)
			b := trgsw.ExternalProductWithFFT(cond, x, off, pe)
			if err := same(append(aA, aB...), append(core.Clone(b.A), b.B...)); err != nil {
				return err
			}
			o2 := &trlwe.TRLWELv1{A: rnd(), B: rnd()}
			ev.ExternalProductAssign(cond, x, off, o2)
			if err := same(append(core.Clone(o.A), o.B...), append(core.Clone(o2.A), o2.B...)); err != nil {
				return err
			}
			keep(o.A, o.B, o2.A, o2.B)
		case "cmux":
			o, o2 := trlwe.NewTRLWELv1(), &trlwe.TRLWELv1{A: rnd(), B: rnd()}
			ev.CMuxAssign(cond, x, y, off, o)
			ev.CMuxAssign(cond, x, y, off, o2)
			if err := same(append(core.Clone(o.A), o.B...), append(core.Clone(o2.A), o2.B...)); err != nil {
				return err
			}
			a := trgsw.CMUX(x, y, cond, off, pe)
			aa := append(core.Clone(a.A), a.B...)
			b := trgsw.CMUX(x, y, cond, off, pe)
			if err := same(aa, append(core.Clone(b.A), b.B...)); err != nil {
				return err
			}
			keep(o.A, o.B, o2.A, o2.B)
		case "blindrotate":
			o, o2 := trlwe.NewTRLWELv1(), &trlwe.TRLWELv1{A: rnd(), B: rnd()}
			ev.BlindRotateAssign(l0, tab, k.CK.BootstrappingKey, off, o)
			ev.BlindRotateAssign(l0, tab, k.CK.BootstrappingKey, off, o2)
			if err := same(append(core.Clone(o.A), o.B...), append(core.Clone(o2.A), o2.B...)); err != nil {
				return err
			}
			keep(o.A, o.B, o2.A, o2.B)
			c.Count("bootstraps", 2)
		case "trgswenc":
			g := trgsw.NewTRGSWLv1().EncryptTorus(core.Torus(r.IntN(3)), params.GetTRGSWLv1().ALPHA, s1, pe)
			for _, q := range g.TRLWE {
				keep(q.A, q.B)
			}
		case "ringfft":
			f1, f2 := trgsw.NewTRGSWLv1FFT(raw, pe), trgsw.NewTRGSWLv1FFT(raw, pe)
			for j := range f1.TRLWEFFT {
				if core.HashF(f1.TRLWEFFT[j].A.Coeffs, f1.TRLWEFFT[j].B.Coeffs) != core.HashF(f2.TRLWEFFT[j].A.Coeffs, f2.TRLWEFFT[j].B.Coeffs) {
					return core.Errf("step %d: transforming a gadget ciphertext twice differs", i)
				}
			}
		case "encode":
			m := 2 + r.IntN(30)
			e1, e2 := lut.NewEncoder(m), lut.NewEncoder(m)
			v := r.IntN(m)
			if e1.Encode(v) != e2.Encode(v) || e1.Decode(e1.Encode(v)) != e1.Decode(e1.Encode(v)) {
				return core.Errf("step %d: encoding twice differs", i)
			}
		}
		if world() != w {
			return core.Errf("step %d (%s) modified an input ciphertext or key", i, op)
		}
		for j := range fl {
			if fl[j] != flc[j] || bools[j] != bc[j] {
				return core.Errf("step %d (%s) modified the plaintext slice", i, op)
			}
		}
		for j := range kept {
			if core.Hash(kept[j]) != keptH[j] {
				return core.Errf("step %d (%s) modified an earlier result", i, op)
			}
		}
		c.Class("ring:" + op)
	}
	return nil
}

func main() {
	core.Main(&core.Prop{
		ID:   "C22",
		Rule: "history case = 3-16 operations on up to three evaluators (new or copied), with temporary, allocated and assigned (dirty) results fed back as inputs, buffer resets, table generation and re-assignment, and repetition of logged operations; after every step all live results, inputs, tables, the test vector and the keys are compared with their snapshots, temporaries for three further bootstraps; ring case = 1-6 ring-level operations on watched inputs; own case = 1-12 results of up to six kinds of operation, some of which are then overwritten by their owner, after which no other result, input or key may have changed and the deterministic operations must repeat exactly; non-trivial: at least two operations",
		Subs: []*core.Sub{
			core.NewSub("history", gen, func(cs Case) bool { return len(cs.Ops) >= 2 }, run),
			core.NewSub("ring", genRing, func(cs RingCase) bool { return len(cs.Ops) >= 2 }, runRing),
			core.NewSub("own", genOwn, func(cs OwnCase) bool { return len(cs.Ops) >= 2 }, runOwn),
		},
		Plan: func(tier string) []core.Job {
			f := 1
			if tier == "thorough" {
				f = 25
			}
			var js []core.Job
			for _, l := range []core.Level{6, 5, 4, 128, 110, 80, 1, 3, 2} {
				n := 40
				switch l {
				case 2:
					n = 150
				case 3:
					n = 60
				case 4:
					n = 20
				case 5, 6:
					n = 10
				}
				js = append(js, core.Job{Level: l, Runs: []core.RunSpec{{Sub: "history", N: n * f}, {Sub: "ring", N: 40 * f}, {Sub: "own", N: n * f}}})
			}
			return js
		},
		Assume: []string{"temporary results are required to survive three further bootstraps on their evaluator (four result slots); a buffer reset ends their life"},
	})
}
