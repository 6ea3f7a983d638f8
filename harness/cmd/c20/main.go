// C20: security levels can be switched at any time without cross-talk.
package main

import (
	"math"
	"runtime"
	"strconv"

	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"pgregory.net/rapid"
	"verif/core"
	"verif/gx"
	"verif/pb"
)

// groups of levels sharing a process, keyed by the job's level. They mix ring degrees,
// LWE dimensions, gadget depths and key-switching bases.
var groups = map[core.Level][]core.Level{
	80:  {80, 2, 128},
	110: {110, 3, 2},
	128: {128, 1, 3, 2},
	1:   {1, 3, 80, 110},
	4:   {4, 2, 128},
	5:   {5, 2, 80},
	3:   {3, 128, 4},
	2:   {2, 1, 80},
	6:   {6, 2, 128},
	7:   {7, 80, 6},
}

type Op struct {
	L    int // level index in the group, switched to before the operation
	Op   string
	Name string
	A    int
	B    int
	C    int
	Size int
	M    int
	X    int
	Ev   string
	GC   bool
}

type Case struct {
	Seed uint64
	Ops  []Op
}

var opNames = []string{"gate", "gate", "gate", "batch", "pbs", "pbs", "enc", "const", "reenc", "ring", "newkey", "lut", "pubkey", "reencdef", "gadget"}

func gen(t *rapid.T, c *core.Ctx) Case {
	g := groups[c.Level]
	cs := Case{Seed: core.GenSeed(t)}
	n := core.IntIn(t, "n", 2, 8)
	l := 0
	for i := 0; i < n; i++ {
		if core.Pick(t, "switch", 4) != 0 {
			l = core.Pick(t, "level", len(g))
		}
		o := Op{L: l, Op: core.Choose(t, "op", opNames), A: core.Pick(t, "a", 16), B: core.Pick(t, "b", 16), C: core.Pick(t, "c", 16), GC: core.Pick(t, "gc", 10) == 0}
		switch o.Op {
		case "gate":
			o.Name = core.Choose(t, "gate", gx.Names())
		case "batch":
			o.Name = core.Choose(t, "batch", gx.BatchNames())
			o.Size = core.IntIn(t, "size", 1, 6)
		case "pbs", "lut":
			o.M = core.IntIn(t, "m", 2, pb.MaxModulus[g[l]])
			o.X = core.Pick(t, "x", o.M)
			o.Ev = core.Choose(t, "ev", []string{"kept", "kept", "copy", "new"})
		}
		cs.Ops = append(cs.Ops, o)
	}
	return cs
}

// state kept per level across the whole process.
type state struct {
	k      *core.Keys
	ev     *evaluator.Evaluator
	cp     *evaluator.Evaluator
	pe     *poly.Evaluator
	gens   map[int]*lut.Generator
	sk2    *key.SecretKey
	rk     *proxyreenc.ProxyReencryptionKey
	rkd    *proxyreenc.ProxyReencryptionKey // default parameters
	bits   []*gx.CT
	want   []bool
	hashes []uint64
}

var states = map[core.Level]*state{}

func (s *state) push(ct *gx.CT, b bool) {
	s.bits, s.want, s.hashes = append(s.bits, ct), append(s.want, b), append(s.hashes, core.Hash(ct.P))
	if len(s.bits) > 12 {
		s.bits, s.want, s.hashes = s.bits[1:], s.want[1:], s.hashes[1:]
	}
}

func run(c *core.Ctx, cs Case) error {
	g := groups[c.Level]
	r := core.RNG(cs.Seed)
	core.SeedLib(cs.Seed)
	// values do not live on between cases, keys, evaluators and generators do
	for _, s := range states {
		s.bits, s.want, s.hashes = nil, nil, nil
	}
	prev := core.Level(0)
	switched := false
	for i, o := range cs.Ops {
		l := g[o.L]
		core.SetLevel(l)
		if prev != 0 && prev != l {
			switched = true
			c.Count("switches", 1)
		}
		prev = l
		st := states[l]
		if st == nil {
			st = &state{k: core.GetKeys(l, 0), gens: map[int]*lut.Generator{}}
			st.ev = pb.NewEval()
			st.cp = st.ev.ShallowCopy()
			st.pe = poly.NewEvaluator(params.GetTRGSWLv1().N)
			states[l] = st
			core.SeedLib(cs.Seed + uint64(i))
		}
		if len(st.bits) == 0 {
			for j := 0; j < 3; j++ {
				b := r.IntN(2) == 1
				st.push(gx.Fresh(st.k, b), b)
			}
		}
		if o.GC {
			runtime.GC() // empties pools
		}
		k := st.k
		s := k.SK.KeyLv0
		where := func(f string, a ...any) error {
			return core.Errf("operation %d at level %d (levels before: %s): "+f, append([]any{i, int(l), trail(cs.Ops[:i], g)}, a...)...)
		}
		switch o.Op {
		case "gate":
			gt := gx.ByName(o.Name)
			ix := []int{o.A % len(st.bits), o.B % len(st.bits), o.C % len(st.bits)}
			var d []float64
			for _, x := range ix {
				d = append(d, gx.Dev(st.bits[x].P, s, st.want[x]))
			}
			if gt.Boot && gt.Load(d) > gx.Margin() {
				c.Count("noise_limited", 1)
				continue
			}
			out := gt.Eval(st.bits[ix[0]], st.bits[ix[1]], st.bits[ix[2]], k.CK)
			want := gt.Truth(st.want[ix[0]], st.want[ix[1]], st.want[ix[2]])
			tol := core.Tol(l)
			if !gt.Boot {
				tol = d[0] + 1e-9
			}
			if err := gx.CheckOut(c, k, o.Name, out, want, tol); err != nil {
				return where("%v", err)
			}
			st.push(out, want)
			c.Count("bootstraps", 1)
		case "batch":
			var in [][2]*gx.CT
			var want []bool
			for j := 0; j < o.Size; j++ {
				a, b := r.IntN(2) == 1, r.IntN(2) == 1
				in = append(in, [2]*gx.CT{gx.Fresh(k, a), gx.Fresh(k, b)})
				want = append(want, gx.ByName(o.Name).Truth(a, b, false))
			}
			res := gx.BatchByName(o.Name).F(in, k.CK)
			if len(res) != o.Size {
				return where("batch %s returned %d results, want %d", o.Name, len(res), o.Size)
			}
			for j := range res {
				if err := gx.CheckOut(c, k, "Batch"+o.Name, res[j], want[j], core.Tol(l)); err != nil {
					return where("element %d: %v", j, err)
				}
			}
			st.push(res[0], want[0])
			c.Count("bootstraps", float64(o.Size))
		case "pbs", "lut":
			f := make([]int, o.M)
			for j := range f {
				f[j] = r.IntN(3*o.M) - o.M
			}
			ff := func(x int) int { return f[x] }
			in := tlwe.NewTLWELv0().EncryptLWEMessage(o.X, o.M, params.GetTLWELv0().ALPHA, s)
			e := st.ev
			switch o.Ev {
			case "copy":
				e = st.cp
			case "new":
				e = pb.NewEval()
			}
			var out *tlwe.TLWELv0
			bsk, ksk, off := k.CK.BootstrappingKey, k.CK.KeySwitchingKey, k.CK.DecompositionOffset
			if o.Op == "pbs" {
				out = e.BootstrapFunc(in, ff, o.M, bsk, ksk, off)
			} else {
				gn := st.gens[o.M]
				if gn == nil {
					gn = lut.NewGenerator(o.M)
					st.gens[o.M] = gn
				}
				out = e.BootstrapLUT(in, gn.GenLookUpTable(ff), bsk, ksk, off)
			}
			c.Count("bootstraps", 1)
			idx, ties := core.BRIndex(in.P, s, params.GetTRGSWLv1().N)
			if ties > 0 || !pb.InSlot(idx, o.X, o.M, params.GetTRGSWLv1().N) {
				c.Count("noise_limited", 1)
				continue
			}
			want := pb.Encode(f[o.X], o.M)
			if len(out.P) != len(s)+1 {
				return where("bootstrap returned %d components", len(out.P))
			}
			if d := core.AbsDiff(core.Phase(out.P, s), want); d > core.Tol(l) {
				return where("%s (%s evaluator) of %d modulo %d: phase %.5f away from the encoding of f(x)=%d (bound %.5f)", o.Op, o.Ev, o.X, o.M, d, f[o.X], core.Tol(l))
			}
		case "enc":
			b := r.IntN(2) == 1
			ct := gx.Fresh(k, b)
			if len(ct.P) != len(s)+1 || ct.DecryptBool(s) != b {
				return where("fresh encryption of %v decrypts to %v", b, ct.DecryptBool(s))
			}
			c1 := tlwe.NewTLWELv1().EncryptBool(b, params.GetTLWELv1().ALPHA, k.SK.KeyLv1)
			if c1.DecryptBool(k.SK.KeyLv1) != b {
				return where("fresh level-1 encryption of %v decrypts to %v", b, !b)
			}
			st.push(ct, b)
		case "const":
			b := r.IntN(2) == 1
			ct := gates.Constant(b)
			if err := gx.CheckOut(c, k, "Constant", ct, b, 1e-9); err != nil {
				return where("%v", err)
			}
			st.push(ct, b)
		case "reenc":
			if st.rk == nil {
				if st.sk2 == nil {
					st.sk2 = key.NewSecretKey()
				}
				st.rk = proxyreenc.NewProxyReencryptionKeySymmetricWithParams(s, st.sk2.KeyLv0, 1e-8, 3, 6)
			}
			x := o.A % len(st.bits)
			out := proxyreenc.ReencryptTLWELv0(st.bits[x], st.rk)
			if d := core.AbsDiff(core.Phase(out.P, st.sk2.KeyLv0), core.Phase(st.bits[x].P, s)); d > 0.003 {
				return where("re-encryption moved the phase by %.5f", d)
			}
		case "pubkey":
			// a key with the default parameters, made now
			lp := params.GetTLWELv0()
			pk := proxyreenc.NewPublicKeyLv0(s)
			if len(pk.Encryptions) != 2*lp.N {
				return where("the default public key has %d encryptions of zero, at this level it has %d", len(pk.Encryptions), 2*lp.N)
			}
			b := r.IntN(2) == 1
			ct := pk.EncryptBool(b, lp.ALPHA)
			want := core.Torus(1) << 29
			if !b {
				want = -want
			}
			if len(ct.P) != lp.N+1 {
				return where("public-key encryption has %d components", len(ct.P))
			}
			if d := core.AbsDiff(core.Phase(ct.P, s), want); d > 8.5*lp.ALPHA*math.Sqrt(float64(lp.N)+1)+1e-6 {
				return where("public-key encryption: phase %.5f away from the encoding", d)
			}
		case "reencdef":
			tp := params.GetTRGSWLv1()
			if l != 80 && l != 110 && l != 128 {
				continue // large keys
			}
			if st.sk2 == nil {
				st.sk2 = key.NewSecretKey()
			}
			if st.rkd == nil || r.IntN(4) == 0 {
				st.rkd = proxyreenc.NewProxyReencryptionKeySymmetric(s, st.sk2.KeyLv0)
			}
			if st.rkd.Base != 1<<tp.BASEBIT || st.rkd.T != tp.IKS_T || len(st.rkd.KeyEncryptions) != st.rkd.Base*st.rkd.T*len(s) {
				return where("default re-encryption key has base %d, depth %d and %d entries", st.rkd.Base, st.rkd.T, len(st.rkd.KeyEncryptions))
			}
			x := o.A % len(st.bits)
			out := proxyreenc.ReencryptTLWELv0(st.bits[x], st.rkd)
			nn, cut := float64(len(s)), math.Ldexp(1, -tp.BASEBIT*tp.IKS_T)
			bound := 8.5*math.Sqrt(nn*(float64(tp.IKS_T)*params.KSKAlpha()*params.KSKAlpha()+cut*cut/12)) + 1e-6
			if d := core.AbsDiff(core.Phase(out.P, st.sk2.KeyLv0), core.Phase(st.bits[x].P, s)); d > bound {
				return where("re-encryption with default parameters moved the phase by %.5f (bound %.5f)", d, bound)
			}
		case "gadget":
			tp := params.GetTRGSWLv1()
			m := core.Torus(r.IntN(2))
			g := trgsw.NewTRGSWLv1().EncryptTorus(m, params.BSKAlpha(), k.SK.KeyLv1, st.pe)
			if len(g.TRLWE) != 2*tp.L {
				return where("gadget encryption has %d rows, want %d", len(g.TRLWE), 2*tp.L)
			}
			f := trgsw.NewTRGSWLv1FFT(g, st.pe)
			x := core.MakeRing(r, k.SK.KeyLv1, core.FillTorus("uniform", r.Uint64(), tp.N))
			// the product selects the ring ciphertext or zero
			e := st.ev
			if r.IntN(2) == 0 {
				e = st.cp
			}
			o1 := trlwe.NewTRLWELv1()
			e.ExternalProductAssign(f, x, k.CK.DecompositionOffset, o1)
			o2 := trgsw.ExternalProductWithFFT(f, x, k.CK.DecompositionOffset, st.pe)
			px := core.RingPhase(x, k.SK.KeyLv1)
			for w, q := range []*trlwe.TRLWELv1{o1, o2} {
				pq := core.RingPhase(q, k.SK.KeyLv1)
				for j := range pq {
					if d := core.AbsDiff(pq[j], m*px[j]); d > core.Tol(l) {
						return where("external product (form %d) by %d: coefficient %d off by %.5f (bound %.5f)", w, m, j, d, core.Tol(l))
					}
				}
			}
		case "ring":
			n := params.GetTRLWELv1().N
			bs := make([]bool, n)
			for j := range bs {
				bs[j] = r.IntN(2) == 1
			}
			ct := trlwe.NewTRLWELv1().EncryptBool(bs, params.GetTRLWELv1().ALPHA, k.SK.KeyLv1, st.pe)
			got := ct.DecryptBool(k.SK.KeyLv1, st.pe)
			if len(got) != n {
				return where("ring decryption returned %d bits", len(got))
			}
			for j := range got {
				if got[j] != bs[j] {
					return where("ring coefficient %d decrypts wrongly", j)
				}
			}
			q := r.IntN(n)
			if e := trlwe.SampleExtractIndex(ct, q); e.DecryptBool(k.SK.KeyLv1) != bs[q] {
				return where("extracted coefficient %d decrypts wrongly", q)
			}
		case "newkey":
			sk := key.NewSecretKey()
			if len(sk.KeyLv0) != params.GetTLWELv0().N || len(sk.KeyLv1) != params.GetTLWELv1().N {
				return where("new secret key has dimensions %d/%d", len(sk.KeyLv0), len(sk.KeyLv1))
			}
		}
		// everything made earlier at this level still decrypts
		for j, ct := range st.bits {
			if core.Hash(ct.P) != st.hashes[j] || ct.DecryptBool(s) != st.want[j] {
				return where("an earlier ciphertext of this level changed or decrypts wrongly")
			}
		}
		c.Class("op:" + o.Op)
	}
	if switched {
		c.Class("history with level switch")
	}
	return nil
}

func trail(ops []Op, g []core.Level) string {
	s := ""
	for _, o := range ops {
		s += " " + lname(g[o.L])
	}
	return s
}

func main() {
	core.Main(&core.Prop{
		ID:   "C20",
		Rule: "case = history of 2-8 operations (gates, batch gates, programmable bootstraps with kept/copied/new evaluators and kept table generators, encryption, constants, re-encryption with custom and default parameters, default public keys, ring and gadget encryption, external products, key generation), each at a level drawn from a group of 3-4 levels with different dimensions, optionally after a garbage collection (pools emptied); keys, evaluators and generators live across cases; oracle = plaintext model and phase bound; non-trivial: at least one level switch",
		Subs: []*core.Sub{core.NewSub("switch", gen, func(cs Case) bool {
			for i := 1; i < len(cs.Ops); i++ {
				if cs.Ops[i].L != cs.Ops[i-1].L {
					return true
				}
			}
			return false
		}, run)},
		Plan: func(tier string) []core.Job {
			f := 1
			if tier == "thorough" {
				f = 20
			}
			var js []core.Job
			for _, l := range []core.Level{7, 6, 5, 4, 3, 128, 110, 1, 80, 2} {
				n := 60
				if l == 5 {
					n = 45
				}
				if l == 6 || l == 7 {
					n = 12
				}
				js = append(js, core.Job{Level: l, Procs: 2, Runs: []core.RunSpec{{Sub: "switch", N: n * f}}})
			}
			return js
		},
	})
}

func lname(l core.Level) string { return strconv.Itoa(int(l)) }
