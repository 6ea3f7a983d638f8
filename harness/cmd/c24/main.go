// C24: each security level's parameters are coherent and select that level.
package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"pgregory.net/rapid"
	"verif/core"
)

// the level selected when the process starts
var initial = params.CurrentSecurityLevel

// spec is the documented parameter set of a level.
type spec struct {
	n0    int
	a0    float64
	n1    int
	nbit  int
	a1    float64
	bgbit int
	l     int
	base  int
	t     int
	block int
	m     int // documented message modulus
	exper bool
}

var table = map[core.Level]spec{
	80:  {550, 5.0e-5, 1024, 10, 3.73e-8, 6, 3, 2, 7, 3, 2, false},
	110: {630, 3.0517578125e-05, 1024, 10, 2.980232238769531e-8, 6, 3, 2, 8, 3, 2, false},
	128: {700, 2.0e-5, 1024, 10, 2.0e-8, 6, 3, 2, 9, 3, 2, false},
	1:   {700, 2.0e-5, 1024, 10, 2.0e-8, 10, 2, 2, 8, 3, 2, false},
	2:   {687, 0.00002120846893069971872305794214, 512, 9, 0.00000000000231841227527049948463, 18, 1, 4, 3, 3, 4, false},
	3:   {820, 0.00000251676160959795544987084234, 1024, 10, 0.00000000000000022204460492503131, 23, 1, 6, 2, 4, 8, false},
	4:   {820, 0.00000251676160959795544987084234, 2048, 11, 0.00000000000000022204460492503131, 22, 1, 5, 3, 4, 16, false},
	5:   {1071, 7.088226765410429399593757e-08, 2048, 11, 2.2204460492503131e-17, 22, 1, 6, 3, 7, 32, false},
	6:   {1071, 7.088226765410429399593757e-08, 2048, 11, 2.2204460492503131e-17, 22, 1, 6, 3, 7, 64, true},
	7:   {1160, 1.966220007498402695211596e-08, 2048, 11, 2.2204460492503131e-17, 22, 1, 7, 3, 8, 128, true},
	8:   {1160, 1.966220007498402695211596e-08, 2048, 11, 2.2204460492503131e-17, 22, 1, 7, 3, 8, 256, true},
}

type Step struct {
	L  int // level value (may be unknown to the library)
	Do []string
}

type Case struct {
	Seed  uint64
	Steps []Step
}

var actions = []string{"getters", "getters", "mutate", "info", "blocks", "lwe", "ring", "secret", "lut", "evaluator", "proxy", "ksk"}

func gen(t *rapid.T, c *core.Ctx) Case {
	cs := Case{Seed: core.GenSeed(t)}
	for i := 0; i < core.IntIn(t, "n", 1, 8); i++ {
		st := Step{L: int(core.Choose(t, "level", core.AllLevels))}
		if core.Pick(t, "unknown", 12) == 0 {
			st.L = core.Choose(t, "odd", []int{0, 9, 64, 100, 127, 129, 256, -1})
		}
		for j := 0; j < core.IntIn(t, "acts", 1, 4); j++ {
			st.Do = append(st.Do, core.Choose(t, "act", actions))
		}
		cs.Steps = append(cs.Steps, st)
	}
	return cs
}

func near(a, b float64) bool { return a == b || math.Abs(a-b) <= 1e-12*math.Abs(b) }

// getters compares every getter with the documented values.
func getters(l core.Level) error {
	sp, ok := table[l]
	if !ok {
		sp = table[128]
	}
	a, b, r, g := params.GetTLWELv0(), params.GetTLWELv1(), params.GetTRLWELv1(), params.GetTRGSWLv1()
	type kv struct {
		n   string
		got float64
		w   float64
	}
	for _, x := range []kv{
		{"TLWELv0.N", float64(a.N), float64(sp.n0)}, {"TLWELv0.ALPHA", a.ALPHA, sp.a0},
		{"TLWELv1.N", float64(b.N), float64(sp.n1)}, {"TLWELv1.ALPHA", b.ALPHA, sp.a1},
		{"TRLWELv1.N", float64(r.N), float64(sp.n1)}, {"TRLWELv1.ALPHA", r.ALPHA, sp.a1},
		{"TRGSWLv1.N", float64(g.N), float64(sp.n1)}, {"TRGSWLv1.NBIT", float64(g.NBIT), float64(sp.nbit)},
		{"TRGSWLv1.BGBIT", float64(g.BGBIT), float64(sp.bgbit)}, {"TRGSWLv1.BG", float64(g.BG), math.Pow(2, float64(sp.bgbit))},
		{"TRGSWLv1.L", float64(g.L), float64(sp.l)}, {"TRGSWLv1.BASEBIT", float64(g.BASEBIT), float64(sp.base)},
		{"TRGSWLv1.IKS_T", float64(g.IKS_T), float64(sp.t)}, {"TRGSWLv1.ALPHA", g.ALPHA, sp.a1},
		{"TRGSWLv1.BlockSize", float64(g.BlockSize), float64(sp.block)},
		{"KSKAlpha", params.KSKAlpha(), sp.a0}, {"BSKAlpha", params.BSKAlpha(), sp.a1},
	} {
		if !near(x.got, x.w) {
			return core.Errf("level %d: %s is %v, documented %v", l, x.n, x.got, x.w)
		}
	}
	// coherence, independent of the table
	if 1<<g.NBIT != g.N || 1<<g.BGBIT != int(g.BG) || int(g.BGBIT)*g.L > 32 || g.BASEBIT*g.IKS_T > 32 || g.N != b.N || g.N != r.N || b.ALPHA != r.ALPHA || b.ALPHA != g.ALPHA || a.ALPHA != params.KSKAlpha() || b.ALPHA != params.BSKAlpha() {
		return core.Errf("level %d: incoherent parameters %+v %+v %+v %+v", l, a, b, r, g)
	}
	if g.BlockSize < 1 || a.ALPHA <= b.ALPHA {
		return core.Errf("level %d: block size %d, noise %v / %v", l, g.BlockSize, a.ALPHA, b.ALPHA)
	}
	if !sp.exper {
		s := budget(a, g)
		if room := 1 / (4 * float64(sp.m)) / s; room < 3.5 {
			return core.Errf("level %d: expected bootstrapping noise %.5f leaves only %.2f standard deviations for messages modulo %d", l, s, room, sp.m)
		}
	}
	return nil
}

// budget is the textbook bootstrapping noise (standard deviation) of a parameter set:
// key noise through the external products, truncation of the gadget decomposition, key
// switching noise and rounding.
func budget(a params.TLWELv0Params, g params.TRGSWLv1Params) float64 {
	n, N, l := float64(a.N), float64(g.N), float64(g.L)
	bg := math.Pow(2, float64(g.BGBIT))
	ext := n * 2 * l * N * bg * bg / 12 * g.ALPHA * g.ALPHA
	tr := (N / 2) * math.Pow(2, -float64(g.L)*float64(g.BGBIT)-1)
	trunc := n / 2 * tr * tr / 3
	ks := N * float64(g.IKS_T) * a.ALPHA * a.ALPHA
	ksr := N / 2 * math.Pow(2, -2*float64(g.BASEBIT*g.IKS_T)) / 12
	return math.Sqrt(ext + trunc + ks + ksr)
}

func act(c *core.Ctx, l core.Level, what string) error {
	sp, ok := table[l]
	if !ok {
		sp = table[128]
	}
	bad := func(f string, a ...any) error { return core.Errf("level %d: "+f, append([]any{int(l)}, a...)...) }
	size := func(name string, got, want int) error {
		if got != want {
			return bad("%s has %d elements, want %d", name, got, want)
		}
		return nil
	}
	all := func(es ...error) error {
		for _, e := range es {
			if e != nil {
				return e
			}
		}
		return nil
	}
	switch what {
	case "getters":
		return getters(l)
	case "mutate": // the returned structs are copies
		a, b, r, g := params.GetTLWELv0(), params.GetTLWELv1(), params.GetTRLWELv1(), params.GetTRGSWLv1()
		a.N, b.N, r.N, g.N = 1, 1, 1, 1
		a.ALPHA, b.ALPHA, r.ALPHA, g.ALPHA = 1, 1, 1, 1
		g.L, g.BGBIT, g.BG, g.NBIT, g.BASEBIT, g.IKS_T, g.BlockSize = 9, 9, 9, 9, 9, 9, 9
		_, _, _, _ = a, b, r, g
		return getters(l)
	case "info":
		s := params.SecurityInfo()
		if s2 := params.SecurityInfo(); s2 != s {
			return bad("SecurityInfo changes between calls: %q, %q", s, s2)
		}
		var want []string
		switch {
		case !ok || l >= 80:
			lv := int(l)
			if !ok {
				lv = 128
			}
			want = []string{fmt.Sprintf("%d-bit", lv)}
		default:
			want = []string{fmt.Sprintf("Uint%d ", l), fmt.Sprintf("%d-bit", l), fmt.Sprintf("messageModulus=%d,", sp.m), fmt.Sprintf("N=%d)", sp.n1)}
		}
		for _, w := range want {
			if !strings.Contains(s+" ", w) {
				return bad("description %q does not mention %q", s, w)
			}
		}
	case "blocks":
		want := sp.n0
		if sp.block > 1 {
			want = 0
			for i := 0; i < sp.n0; i += sp.block {
				want++
			}
		}
		if g := params.GetBlockCount(); g != want {
			return bad("GetBlockCount %d, want %d", g, want)
		}
		if params.UseBlockBlindRotation() != (sp.block > 1) {
			return bad("UseBlockBlindRotation %v with block size %d", params.UseBlockBlindRotation(), sp.block)
		}
	case "lwe":
		x, y := tlwe.NewTLWELv0(), tlwe.NewTLWELv1()
		x.SetB(7)
		y.SetB(9)
		if err := all(size("TLWELv0", len(x.P), sp.n0+1), size("TLWELv1", len(y.P), sp.n1+1)); err != nil {
			return err
		}
		if x.P[sp.n0] != 7 || y.P[sp.n1] != 9 || x.B() != 7 {
			return bad("the body is not the last component")
		}
		for _, v := range []*tlwe.TLWELv0{x.Add(x), x.Neg(), x.Sub(x), x.AddMul(x, 3), x.SubMul(x, 3), gates.Constant(true), gates.NOT(x), gates.Copy(x)} {
			if err := size("result of an operation", len(v.P), sp.n0+1); err != nil {
				return err
			}
		}
	case "ring":
		x := trlwe.NewTRLWELv1()
		g := trgsw.NewTRGSWLv1()
		pe := poly.NewEvaluator(sp.n1)
		f := trgsw.NewTRGSWLv1FFT(g, pe)
		d := trgsw.NewTRGSWLv1FFTDummy(pe)
		e0 := trlwe.SampleExtractIndex(x, 0)
		return all(size("TRLWELv1.A", len(x.A), sp.n1), size("TRLWELv1.B", len(x.B), sp.n1), size("TRGSWLv1", len(g.TRLWE), 2*sp.l), size("TRGSWLv1FFT", len(f.TRLWEFFT), 2*sp.l), size("dummy TRGSWLv1FFT", len(d.TRLWEFFT), 2*sp.l),
			size("TRGSWLv1 row", len(g.TRLWE[2*sp.l-1].A), sp.n1), size("TRGSWLv1FFT row", len(f.TRLWEFFT[2*sp.l-1].B.Coeffs), sp.n1), size("extracted sample", len(e0.P), sp.n1+1))
	case "secret":
		sk := key.NewSecretKey()
		for _, v := range append(append([]core.Torus(nil), sk.KeyLv0...), sk.KeyLv1...) {
			if v > 1 {
				return bad("secret key coefficient %d", v)
			}
		}
		b := tlwe.NewTLWELv0().EncryptBool(true, params.GetTLWELv0().ALPHA, sk.KeyLv0)
		if !b.DecryptBool(sk.KeyLv0) {
			return bad("encryption under a new key does not decrypt")
		}
		return all(size("KeyLv0", len(sk.KeyLv0), sp.n0), size("KeyLv1", len(sk.KeyLv1), sp.n1))
	case "lut":
		g := lut.NewGenerator(4)
		tb := g.GenLookUpTable(func(x int) int { return x })
		g2 := lut.NewGeneratorWithScale(4, 0.125)
		n := lut.NewLookUpTable()
		return all(size("generator degree", g.PolyDegree, sp.n1), size("generator table", g.LookUpTableSize, sp.n1), size("generator degree", g2.PolyDegree, sp.n1), size("generator table", g2.LookUpTableSize, sp.n1),
			size("table", len(tb.Poly.B), sp.n1), size("table mask", len(tb.Poly.A), sp.n1), size("new table", len(n.Poly.B), sp.n1))
	case "evaluator":
		e := evaluator.NewEvaluator(params.GetTRGSWLv1().N)
		cp := e.ShallowCopy()
		for _, v := range []*evaluator.Evaluator{e, cp} {
			if err := all(size("evaluator degree", v.PolyEvaluator.Degree(), sp.n1), size("decomposition buffers", len(v.Decomposer.GetPolyDecomposedBuffer(2*sp.l)), 2*sp.l),
				size("result buffer", len(v.Buffers.GetNextResult().P), sp.n0+1)); err != nil {
				return err
			}
		}
	case "proxy":
		sk := key.NewSecretKey()
		pk := proxyreenc.NewPublicKeyLv0WithParams(sk.KeyLv0, 10, params.GetTLWELv0().ALPHA)
		ct := pk.EncryptBool(true, params.GetTLWELv0().ALPHA)
		return size("public-key ciphertext", len(ct.P), sp.n0+1)
	case "ksk":
		if l != 2 && l != 80 && l != 110 {
			return nil // large at the other levels
		}
		ck := cloudkey.NewCloudKeyNoKSK()
		return all(size("key-switching key", len(ck.KeySwitchingKey), (1<<sp.base)*sp.t*sp.n1), size("bootstrapping key", len(ck.BootstrappingKey), sp.n0),
			size("bootstrapping key entry", len(ck.BootstrappingKey[0].TRLWEFFT), 2*sp.l), size("test vector", len(ck.BlindRotateTestvec.B), sp.n1), size("key-switching entry", len(ck.KeySwitchingKey[0].P), sp.n0+1))
	}
	return nil
}

func run(c *core.Ctx, cs Case) error {
	if initial != params.Security128Bit {
		return core.Errf("the process starts at level %d, not 128", initial)
	}
	core.SeedLib(cs.Seed)
	defer core.SetLevel(128)
	for i, st := range cs.Steps {
		l := core.Level(st.L)
		core.SetLevel(l)
		for _, a := range st.Do {
			if err := act(c, l, a); err != nil {
				return core.Errf("step %d (%s): %v", i, a, err)
			}
			if params.CurrentSecurityLevel != l {
				return core.Errf("step %d (%s): the selected level changed from %d to %d", i, a, l, params.CurrentSecurityLevel)
			}
			c.Class("act:" + a)
		}
		// whatever was done, every getter still describes this level
		if err := getters(l); err != nil {
			return core.Errf("step %d: %v", i, err)
		}
		c.Class(fmt.Sprintf("level %d", st.L))
	}
	// all levels, and their descriptions distinct
	seen := map[string]core.Level{}
	for _, l := range core.AllLevels {
		core.SetLevel(l)
		if err := getters(l); err != nil {
			return core.Errf("after the history: %v", err)
		}
		s := params.SecurityInfo()
		if o, dup := seen[s]; dup {
			return core.Errf("levels %d and %d have the same description %q", o, l, s)
		}
		seen[s] = l
	}
	return nil
}

func main() {
	core.Main(&core.Prop{
		ID:   "C24",
		Rule: "case = history of 1-8 level selections (the eleven levels, sometimes an unknown value) with 1-4 actions each (getters, mutation of returned structs, description, block counts, creation of LWE/ring/gadget objects, keys, tables, evaluators, public keys, empty cloud keys); oracle = documented parameter table, coherence rules, textbook noise formula; non-trivial: at least two levels selected",
		Subs: []*core.Sub{core.NewSub("levels", gen, func(cs Case) bool { return len(cs.Steps) >= 2 }, run)},
		Plan: func(tier string) []core.Job {
			f := 1
			if tier == "thorough" {
				f = 40
			}
			var js []core.Job
			for i := 0; i < 4; i++ {
				js = append(js, core.Job{Runs: []core.RunSpec{{Sub: "levels", N: 150 * f}}})
			}
			return js
		},
		Assume: []string{"the documented values are those of the package comments and README (the levels Uint6-Uint8 are documented as experimental: no noise budget is demanded of them)", "an unknown level selects the default 128-bit set"},
	})
}
