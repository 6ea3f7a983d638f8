package main

import (
	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"pgregory.net/rapid"
	"verif/core"
	"verif/gx"
	"verif/pb"
)

// ---- every result owns its memory ---------------------------------------------
//
// Results of several operations are collected; then one after another is overwritten
// completely, as in-place use (encrypting into it, assigning to it) does. No other result, input
// or key may change, and performing a deterministic operation again must give what it gave
// before.

type OwnOp struct {
	Op   string
	Name string
	N    int
}

type OwnCase struct {
	Seed uint64
	Ops  []OwnOp
	Wipe []int // results overwritten, in this order
}

var ownOps = []string{
	"constant", "constant", "not", "copy", "linear", "gate", "batch", "encbits", "encbits", "decbits", "enc", "encpk",
	"reenc", "lut", "func", "table", "tablecopy", "extract", "keyswitch", "ringenc", "gadget", "batchrotate", "emptykey",
}

func genOwn(t *rapid.T, c *core.Ctx) OwnCase {
	cs := OwnCase{Seed: core.GenSeed(t)}
	n := core.IntIn(t, "n", 1, 6)
	for i := 0; i < n; i++ {
		o := OwnOp{Op: core.Choose(t, "op", ownOps)}
		switch o.Op {
		case "gate":
			o.Name = core.Choose(t, "gate", gx.Names())
		case "batch":
			o.Name = core.Choose(t, "batch", gx.BatchNames())
			o.N = core.IntIn(t, "size", 1, 6)
		case "encbits", "decbits":
			o.N = core.Choose(t, "bits", []int{1, 2, 8, 16, 33, 64, 65, 130, 260})
		case "batchrotate":
			o.N = core.IntIn(t, "size", 1, 4)
		}
		cs.Ops = append(cs.Ops, o)
		if core.Pick(t, "again", 3) == 0 { // twice the same: the second must not be the first
			cs.Ops = append(cs.Ops, o)
		}
	}
	for i := 0; i < core.IntIn(t, "wipes", 1, 5); i++ {
		cs.Wipe = append(cs.Wipe, core.Pick(t, "wipe", 1<<12))
	}
	return cs
}

type owned struct {
	p    []core.Torus
	f    []float64
	hash uint64
	what string
}

func (o *owned) sum() uint64 {
	if o.f != nil {
		return core.HashF(o.f)
	}
	return core.Hash(o.p)
}

func runOwn(c *core.Ctx, cs OwnCase) error {
	k := core.GetKeys(c.Level, 0)
	core.SeedLib(cs.Seed)
	r := core.RNG(cs.Seed)
	s0, s1 := k.SK.KeyLv0, k.SK.KeyLv1
	n := params.GetTRGSWLv1().N
	ev, pe := pb.NewEval(), poly.NewEvaluator(n)
	bsk, ksk, off, tv := k.CK.BootstrappingKey, k.CK.KeySwitchingKey, k.CK.DecompositionOffset, k.CK.BlindRotateTestvec
	rnd := func() []core.Torus { return core.FillTorus("uniform", r.Uint64(), n) }

	var all []*owned
	keep := func(what string, ps ...[]core.Torus) {
		for _, p := range ps {
			all = append(all, &owned{p: p, hash: core.Hash(p), what: what})
		}
	}
	keepF := func(what string, fs ...[]float64) {
		for _, f := range fs {
			all = append(all, &owned{f: f, hash: core.HashF(f), what: what})
		}
	}
	cts := func(what string, l ...*gx.CT) {
		for _, q := range l {
			keep(what, q.P)
		}
	}
	var again []func() error // repeat a deterministic operation and compare
	det := func(what string, do func() [][]core.Torus) {
		out := do()
		var cp [][]core.Torus
		for _, q := range out {
			cp = append(cp, core.Clone(q))
		}
		keep(what, out...)
		again = append(again, func() error {
			got := do()
			if len(got) != len(cp) {
				return core.Errf("%s: repeating it gave %d results, before %d", what, len(got), len(cp))
			}
			for i := range got {
				if !core.Equal(got[i], cp[i]) {
					return core.Errf("%s: after other results were overwritten by their owner, repeating it on the same inputs gave a different result", what)
				}
			}
			return nil
		})
	}
	one := func(ct *gx.CT) [][]core.Torus { return [][]core.Torus{ct.P} }

	// inputs, never overwritten
	a, b, d := gx.Fresh(k, true), gx.Fresh(k, false), gx.Fresh(k, r.IntN(2) == 1)
	l1 := &tlwe.TLWELv1{P: core.MakeLWE(r, s1, core.Torus(r.Uint32()))}
	ring := core.MakeRing(r, s1, rnd())
	gen := lut.NewGenerator(2)
	tab := gen.GenLookUpTable(func(x int) int { return 1 - x })
	world := func() uint64 {
		return core.Hash(a.P, b.P, d.P, l1.P, ring.A, ring.B, tab.Poly.A, tab.Poly.B, tv.A, tv.B, s0, s1)
	}
	wh := world()
	var pub *proxyreenc.PublicKeyLv0

	for _, o := range cs.Ops {
		o := o
		c.Class("own:" + o.Op)
		switch o.Op {
		case "constant":
			for _, v := range []bool{true, false} {
				v := v
				det("Constant", func() [][]core.Torus { return one(gates.Constant(v)) })
			}
		case "not":
			det("NOT", func() [][]core.Torus { return one(gates.NOT(a)) })
		case "copy":
			det("Copy", func() [][]core.Torus { return one(gates.Copy(a)) })
		case "linear":
			det("Add/Sub/Neg/AddMul/SubMul", func() [][]core.Torus {
				return [][]core.Torus{a.Add(b).P, a.Sub(b).P, a.Neg().P, a.AddMul(b, 2).P, a.SubMul(b, 2).P}
			})
		case "gate":
			g := gx.ByName(o.Name)
			det(o.Name, func() [][]core.Torus { return one(g.Eval(a, b, d, k.CK)) })
		case "batch":
			g := gx.BatchByName(o.Name)
			var prs [][2]*gx.CT
			for i := 0; i < o.N; i++ {
				prs = append(prs, [2]*gx.CT{a, b})
			}
			det("Batch"+o.Name, func() [][]core.Torus {
				var out [][]core.Torus
				for _, q := range g.F(prs, k.CK) {
					out = append(out, q.P)
				}
				return out
			})
			c.Count("bootstraps", float64(o.N))
		case "encbits":
			bits := make([]bool, o.N)
			for i := range bits {
				bits[i] = r.IntN(2) == 1
			}
			cts("EncryptBits", bitutils.EncryptBits(bits, params.GetTLWELv0().ALPHA, s0)...)
		case "decbits":
			in := make([]*gx.CT, o.N)
			want := make([]bool, o.N)
			for i := range in {
				in[i], want[i] = a, true
				if r.IntN(2) == 0 {
					in[i], want[i] = b, false
				}
			}
			got, got2 := bitutils.DecryptBits(in, s0), bitutils.DecryptBits(in, s0)
			for i := range got {
				got[i] = !got[i] // ours to change
			}
			for i := range want {
				if got2[i] != want[i] {
					return core.Errf("DecryptBits: bit %d wrong, or shared with an earlier result", i)
				}
			}
		case "enc":
			cts("encryption", tlwe.NewTLWELv0().EncryptBool(true, params.GetTLWELv0().ALPHA, s0),
				tlwe.NewTLWELv0().EncryptF64(0.3, params.GetTLWELv0().ALPHA, s0),
				tlwe.NewTLWELv0().EncryptLWEMessage(1, 2, params.GetTLWELv0().ALPHA, s0))
			keep("encryption", tlwe.NewTLWELv1().EncryptBool(true, params.GetTLWELv1().ALPHA, s1).P,
				tlwe.NewTLWELv1().EncryptF64(0.3, params.GetTLWELv1().ALPHA, s1).P)
		case "encpk":
			if pub == nil {
				pub = proxyreenc.NewPublicKeyLv0WithParams(s0, 3+r.IntN(20), params.GetTLWELv0().ALPHA)
			}
			cts("public-key encryption", pub.EncryptBool(true, params.GetTLWELv0().ALPHA), pub.EncryptF64(0.2, params.GetTLWELv0().ALPHA), pub.EncryptF64(0, 0))
		case "reenc":
			rk := proxyreenc.NewProxyReencryptionKeySymmetricWithParams(s0, s0, params.GetTLWELv0().ALPHA, 2, 3)
			zero := tlwe.NewTLWELv0()
			zero.SetB(a.B())
			det("ReencryptTLWELv0", func() [][]core.Torus {
				return [][]core.Torus{proxyreenc.ReencryptTLWELv0(a, rk).P, proxyreenc.ReencryptTLWELv0(zero, rk).P}
			})
		case "lut":
			det("BootstrapLUT", func() [][]core.Torus { return one(ev.BootstrapLUT(a, tab, bsk, ksk, off)) })
		case "func":
			det("BootstrapFunc", func() [][]core.Torus {
				return one(ev.BootstrapFunc(a, func(x int) int { return x }, 2, bsk, ksk, off))
			})
		case "table":
			det("GenLookUpTable", func() [][]core.Torus {
				t := gen.GenLookUpTable(func(x int) int { return x })
				f := gen.GenLookUpTableFull(func(x int) core.Torus { return core.Torus(x) << 20 })
				u := gen.GenLookUpTableCustom(func(x int) int { return x }, 4, 0.125)
				return [][]core.Torus{t.Poly.A, t.Poly.B, f.Poly.A, f.Poly.B, u.Poly.A, u.Poly.B}
			})
		case "tablecopy":
			det("LookUpTable.Copy", func() [][]core.Torus {
				t, u := tab.Copy(), lut.NewLookUpTable()
				u.CopyFrom(tab)
				v := tab.Copy()
				v.Clear()
				return [][]core.Torus{t.Poly.A, t.Poly.B, u.Poly.A, u.Poly.B, v.Poly.A, v.Poly.B}
			})
		case "extract":
			q := []int{0, n / 2, n - 1, r.IntN(n)}[r.IntN(4)]
			det("SampleExtractIndex", func() [][]core.Torus { return [][]core.Torus{trlwe.SampleExtractIndex(ring, q).P} })
		case "keyswitch":
			z := tlwe.NewTLWELv1()
			det("IdentityKeySwitching", func() [][]core.Torus {
				return [][]core.Torus{trgsw.IdentityKeySwitching(l1, ksk).P, trgsw.IdentityKeySwitching(z, ksk).P}
			})
		case "ringenc":
			for i := 0; i < 2; i++ {
				e := trlwe.NewTRLWELv1().EncryptF64(make([]float64, n), params.GetTRLWELv1().ALPHA, s1, pe)
				keep("ring encryption", e.A, e.B)
				g := trlwe.NewTRLWELv1().EncryptBool(make([]bool, n), params.GetTRLWELv1().ALPHA, s1, pe)
				keep("ring encryption", g.A, g.B)
			}
		case "gadget":
			g := trgsw.NewTRGSWLv1().EncryptTorus(core.Torus(r.IntN(2)), params.GetTRGSWLv1().ALPHA, s1, pe)
			for _, q := range g.TRLWE {
				keep("gadget encryption", q.A, q.B)
			}
			f := trgsw.NewTRGSWLv1FFT(g, pe)
			for _, q := range f.TRLWEFFT {
				keepF("gadget transform", q.A.Coeffs, q.B.Coeffs)
			}
		case "emptykey":
			if params.GetTRGSWLv1().N > 1024 || c.Level == 3 {
				break // large
			}
			e := cloudkey.NewCloudKeyNoKSK()
			tp := params.GetTRGSWLv1()
			if e.DecompositionOffset != off || !core.Equal(e.BlindRotateTestvec.A, tv.A) || !core.Equal(e.BlindRotateTestvec.B, tv.B) {
				return core.Errf("a cloud key without contents has another test vector or offset than a generated one")
			}
			if len(e.KeySwitchingKey) != tp.N*tp.IKS_T<<tp.BASEBIT || len(e.BootstrappingKey) != len(s0) {
				return core.Errf("a cloud key without contents has %d and %d entries", len(e.KeySwitchingKey), len(e.BootstrappingKey))
			}
			keep("NewCloudKeyNoKSK", e.BlindRotateTestvec.A, e.BlindRotateTestvec.B)
			for i := 0; i < 4; i++ {
				q := e.BootstrappingKey[r.IntN(len(s0)/4)+i*(len(s0)/4)]
				if len(q.TRLWEFFT) != 2*tp.L {
					return core.Errf("a cloud key without contents has a gadget ciphertext of %d rows", len(q.TRLWEFFT))
				}
				for _, row := range q.TRLWEFFT {
					keepF("NewCloudKeyNoKSK", row.A.Coeffs, row.B.Coeffs)
				}
			}
		case "batchrotate":
			var in []*gx.CT
			for i := 0; i < o.N; i++ {
				in = append(in, a)
			}
			for _, q := range trgsw.BatchBlindRotate(in, tv, bsk, off) {
				keep("BatchBlindRotate", q.A, q.B)
			}
			c.Count("bootstraps", float64(o.N))
		}
	}
	for _, w := range cs.Wipe {
		if len(all) == 0 {
			break
		}
		v := all[w%len(all)]
		for i := range v.p {
			v.p[i] = core.Torus(r.Uint32())
		}
		for i := range v.f {
			v.f[i] = r.Float64()
		}
		for _, q := range all {
			if q == v {
				q.hash = q.sum()
				continue
			}
			if q.sum() != q.hash {
				return core.Errf("overwriting a result of %s changed a result of %s: they share memory", v.what, q.what)
			}
		}
		c.Count("results_overwritten", 1)
		if world() != wh {
			return core.Errf("overwriting a result of %s changed an input or a key: they share memory", v.what)
		}
	}
	for _, f := range again {
		if err := f(); err != nil {
			return err
		}
	}
	c.Count("results_held", float64(len(all)))
	for _, q := range all {
		if q.sum() != q.hash {
			return core.Errf("a repeated operation wrote into an earlier result of %s", q.what)
		}
	}
	if world() != wh {
		return core.Errf("an operation changed an input or a key")
	}
	return nil
}
