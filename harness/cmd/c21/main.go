// C21: concurrent evaluation gives the same results as sequential evaluation.
package main

import (
	"fmt"
	"os"
	"runtime"
	"sync"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"pgregory.net/rapid"
	"verif/core"
	"verif/gx"
	"verif/pb"
)

type Op struct {
	Op   string
	Name string
	A    int
	B    int
	C    int
	Ev   int // 0: new evaluator, 1: copy made before, 2: copy made in the goroutine
	Size int
	F    int
}

type Case struct {
	Seed  uint64
	Bits  []int // shared boolean inputs
	M     int
	X     []int // shared message inputs
	Progs [][]Op
	Procs int
}

var names = []string{"gate", "gate", "gate", "gate", "batch", "pbs", "pbs", "boot", "brot", "enc", "ring", "secret", "cloudkey", "pk", "reenc", "eval", "polyops", "polyops", "cmux"}

func gen(t *rapid.T, c *core.Ctx) Case {
	cs := Case{Seed: core.GenSeed(t), Procs: core.Choose(t, "procs", []int{8, 8, 2, 3, 16})}
	nb := core.IntIn(t, "nb", 2, 5)
	cs.Bits = core.GenBits(t, nb, "bit")
	cs.M = core.IntIn(t, "m", 2, pb.MaxModulus[c.Level])
	for i := 0; i < 3; i++ {
		cs.X = append(cs.X, core.Pick(t, "x", cs.M))
	}
	g := core.IntIn(t, "g", 2, 8)
	same := core.Pick(t, "same", 3) == 0 // all goroutines run the same program
	for i := 0; i < g; i++ {
		if same && i > 0 {
			cs.Progs = append(cs.Progs, cs.Progs[0])
			continue
		}
		var p []Op
		for j := 0; j < core.IntIn(t, "len", 1, 3); j++ {
			o := Op{Op: core.Choose(t, "op", names), A: core.Pick(t, "a", nb), B: core.Pick(t, "b", nb), C: core.Pick(t, "c", nb), Ev: core.Pick(t, "ev", 3), F: core.Pick(t, "f", 2)}
			if o.Op == "cloudkey" && core.Pick(t, "ck", 8) != 0 {
				o.Op = "gate" // whole cloud keys are expensive: kept rare
			}
			switch o.Op {
			case "gate":
				o.Name = core.Choose(t, "gate", gx.BootNames())
			case "batch":
				o.Name = core.Choose(t, "batch", gx.BatchNames())
				o.Size = core.IntIn(t, "size", 1, 5)
			}
			p = append(p, o)
		}
		cs.Progs = append(cs.Progs, p)
	}
	return cs
}

type shared struct {
	base *evaluator.Evaluator
	pk   *proxyreenc.PublicKeyLv0
	rk   *proxyreenc.ProxyReencryptionKey
	sk2  *key.SecretKey
	hash uint64
}

var sh = map[core.Level]*shared{}

func run(c *core.Ctx, cs Case) error {
	k := core.GetKeys(c.Level, 0)
	core.SeedLib(cs.Seed)
	old := runtime.GOMAXPROCS(cs.Procs)
	defer runtime.GOMAXPROCS(old)
	s, s1 := k.SK.KeyLv0, k.SK.KeyLv1
	st := sh[c.Level]
	if st == nil {
		st = &shared{base: pb.NewEval(), sk2: key.NewSecretKey()}
		st.pk = proxyreenc.NewPublicKeyLv0WithParams(s, 40, 1e-8)
		st.rk = proxyreenc.NewProxyReencryptionKeySymmetricWithParams(s, st.sk2.KeyLv0, 1e-9, 2, 8)
		st.hash = core.HashCK(k.CK)
		sh[c.Level] = st
	}
	r := core.RNG(cs.Seed)
	n := params.GetTRGSWLv1().N
	var in []*gx.CT
	var hs []uint64
	for _, b := range cs.Bits {
		ct := core.MakeLv0(r, s, gx.Mu(b == 1))
		in, hs = append(in, ct), append(hs, core.Hash(ct.P))
	}
	var xs []*gx.CT
	var xin []bool
	for _, x := range cs.X {
		ct := core.MakeLv0(r, s, pb.Encode(x, cs.M))
		idx, ties := core.BRIndex(ct.P, s, n)
		xs, xin = append(xs, ct), append(xin, ties == 0 && pb.InSlot(idx, x, cs.M, n))
		hs = append(hs, core.Hash(ct.P))
	}
	fs := make([][]int, 2)
	var luts []*lut.LookUpTable
	g := lut.NewGenerator(cs.M)
	for i := range fs {
		fs[i] = make([]int, cs.M)
		for j := range fs[i] {
			fs[i][j] = r.IntN(cs.M)
		}
		f := fs[i]
		luts = append(luts, g.GenLookUpTable(func(x int) int { return f[x] }))
	}
	bsk, ksk, off := k.CK.BootstrappingKey, k.CK.KeySwitchingKey, k.CK.DecompositionOffset
	bit := func(i int) bool { return cs.Bits[i] == 1 }
	tol := core.Tol(c.Level)
	quiet := &core.Ctx{} // goroutines must not touch the shared counters
	// polynomial-level work on copied evaluators; expected values from core's own arithmetic
	N := n
	small := make([]core.Torus, N)
	big := core.FillTorus("random", cs.Seed+5, N)
	for i := range small {
		small[i] = core.Torus(int32(r.IntN(65) - 32))
	}
	var wantMul []core.Torus
	for _, p := range cs.Progs {
		for _, o := range p {
			if o.Op == "polyops" && wantMul == nil {
				wantMul = core.MulExact(small, big)
			}
		}
	}
	var fpShared poly.FourierPoly
	var ringIn [2]*trlwe.TRLWELv1
	if wantMul != nil {
		fpShared = poly.NewEvaluator(N).ToFourierPoly(poly.Poly{Coeffs: core.Clone(big)})
	}
	for i := range ringIn {
		ph := make([]core.Torus, N)
		for j := range ph {
			ph[j] = core.Torus(r.Uint32())
		}
		ringIn[i] = core.MakeRing(r, s1, ph)
	}
	ringHash := core.Hash(ringIn[0].A, ringIn[0].B, ringIn[1].A, ringIn[1].B)
	polyOps := func(ev *evaluator.Evaluator, o Op) error {
		pe := ev.PolyEvaluator
		if o.Ev == 2 {
			pe = pe.ShallowCopy().ShallowCopy()
		}
		fp := pe.NewFourierPoly()
		out := pe.NewPoly()
		for rep := 0; rep < 3; rep++ {
			check := func(what string, got []core.Torus, want []core.Torus) error {
				for i := range want {
					if d := int32(got[i] - want[i]); d > 4 || d < -4 {
						return core.Errf("%s: coefficient %d is %d, want %d", what, i, got[i], want[i])
					}
				}
				return nil
			}
			if err := check("MulPoly", pe.MulPoly(poly.Poly{Coeffs: small}, poly.Poly{Coeffs: big}).Coeffs, wantMul); err != nil {
				return err
			}
			if err := check("ToPoly(ToFourierPoly)", pe.ToPoly(fpShared).Coeffs, big); err != nil {
				return err
			}
			pe.ToFourierPolyAssign(poly.Poly{Coeffs: small}, fp)
			pe.MulFourierPolyAssign(fp, fpShared, fp)
			pe.ToPolyAssign(fp, out)
			if err := check("transformed product", out.Coeffs, wantMul); err != nil {
				return err
			}
			pe.MulAddPolyAssign(poly.Poly{Coeffs: small}, poly.Poly{Coeffs: big}, out)
			pe.MulSubPolyAssign(poly.Poly{Coeffs: small}, poly.Poly{Coeffs: big}, out)
			for i := range out.Coeffs { // two more roundings
				if d := int32(out.Coeffs[i] - wantMul[i]); d > 12 || d < -12 {
					return core.Errf("MulAdd then MulSub: coefficient %d is %d, want %d", i, out.Coeffs[i], wantMul[i])
				}
			}
			k := (o.A*517 + rep*811 + o.B) % (2 * N)
			rot := pe.PolyMulWithXK(big, k)
			pe.CopyToDecompBuffer(small, 0)
			pe.ToFourierPolyInBuffer(*pe.GetDecompBuffer(0), 0)
			pe.ClearBuffer("fpAcc")
			pe.MulAddFourierPolyAssignBuffered(0, fpShared, "fpAcc")
			pe.BufferToPolyAssign("fpAcc", out.Coeffs)
			if err := check("buffered product", out.Coeffs, wantMul); err != nil {
				return err
			}
			if want := core.Rotate(big, k); !core.Equal(rot, want) {
				return core.Errf("PolyMulWithXK by %d wrong", k)
			}
		}
		return nil
	}
	cmux := func(ev *evaluator.Evaluator, o Op) error {
		j := (o.A*97 + o.B*13) % len(bsk)
		pe := ev.PolyEvaluator
		for rep := 0; rep < 2; rep++ {
			got := trgsw.CMUX(ringIn[0], ringIn[1], bsk[j], off, pe)
			want := core.RingPhase(ringIn[int(s[j])], s1)
			ph := core.RingPhase(got, s1)
			for i := range ph {
				if d := core.AbsDiff(ph[i], want[i]); d > tol {
					return core.Errf("CMUX with key bit %d=%d: coefficient %d off by %.5f", j, s[j], i, d)
				}
			}
			x := trgsw.BlindRotate(in[o.A], k.CK.BlindRotateTestvec, bsk, off, pe)
			if err := checkOut(quiet, k, "BlindRotate", trgsw.IdentityKeySwitching(trlwe.SampleExtractIndex(x, 0), ksk), bit(o.A), tol); err != nil {
				return err
			}
		}
		return nil
	}
	one := func(o Op, cp *evaluator.Evaluator, rnd uint64) error {
		ev := cp
		switch o.Ev {
		case 0:
			ev = pb.NewEval()
		case 2:
			ev = st.base.ShallowCopy()
		}
		b := bit(o.A)
		switch o.Op {
		case "gate":
			gt := gx.ByName(o.Name)
			out := gt.Eval(in[o.A], in[o.B], in[o.C], k.CK)
			return checkOut(quiet, k, o.Name, out, gt.Truth(bit(o.A), bit(o.B), bit(o.C)), tol)
		case "batch":
			var prs [][2]*gx.CT
			for i := 0; i < o.Size; i++ {
				prs = append(prs, [2]*gx.CT{in[(o.A+i)%len(in)], in[(o.B+2*i)%len(in)]})
			}
			res := gx.BatchByName(o.Name).F(prs, k.CK)
			if len(res) != o.Size {
				return core.Errf("Batch%s returned %d results", o.Name, len(res))
			}
			for i := range res {
				if err := checkOut(quiet, k, "Batch"+o.Name, res[i], gx.ByName(o.Name).Truth(bit((o.A+i)%len(in)), bit((o.B+2*i)%len(in)), false), tol); err != nil {
					return err
				}
			}
		case "pbs":
			x := o.A % len(xs)
			var out *gx.CT
			if o.B%2 == 0 {
				out = ev.BootstrapLUT(xs[x], luts[o.F], bsk, ksk, off)
			} else {
				f := fs[o.F]
				out = ev.BootstrapFunc(xs[x], func(v int) int { return f[v] }, cs.M, bsk, ksk, off)
			}
			if xin[x] {
				if d := core.AbsDiff(core.Phase(out.P, s), pb.Encode(fs[o.F][cs.X[x]], cs.M)); d > tol {
					return core.Errf("bootstrap of %d modulo %d: phase %.5f away from f(x)=%d (bound %.5f)", cs.X[x], cs.M, d, fs[o.F][cs.X[x]], tol)
				}
			}
		case "boot":
			var out *gx.CT
			if o.B%2 == 0 {
				out = ev.Bootstrap(in[o.A], k.CK.BlindRotateTestvec, bsk, ksk, off)
			} else {
				out = tlwe.NewTLWELv0()
				ev.BootstrapAssign(in[o.A], k.CK.BlindRotateTestvec, bsk, ksk, off, out)
			}
			return checkOut(quiet, k, "Bootstrap", out, b, tol)
		case "brot":
			res := trgsw.BatchBlindRotate([]*tlwe.TLWELv0{in[o.A], in[o.B]}, k.CK.BlindRotateTestvec, bsk, off)
			for i, q := range []int{o.A, o.B} {
				out := trgsw.IdentityKeySwitching(trlwe.SampleExtractIndex(res[i], 0), ksk)
				if err := checkOut(quiet, k, "BatchBlindRotate", out, bit(q), tol); err != nil {
					return err
				}
			}
		case "enc":
			for i := 0; i < 20; i++ {
				ct := tlwe.NewTLWELv0().EncryptBool(b, 1e-8, s)
				if gx.Dev(ct.P, s, b) > 1e-6 || ct.DecryptBool(s) != b {
					return core.Errf("encryption of %v wrong", b)
				}
				c1 := tlwe.NewTLWELv1().EncryptBool(b, 1e-8, s1)
				if c1.DecryptBool(s1) != b {
					return core.Errf("level-1 encryption of %v wrong", b)
				}
				if m := tlwe.NewTLWELv0().EncryptLWEMessage(cs.X[0], cs.M, 1e-8, s).DecryptLWEMessage(cs.M, s); m != cs.X[0] {
					return core.Errf("message %d decrypts to %d", cs.X[0], m)
				}
			}
		case "ring":
			pe := st.base.PolyEvaluator.ShallowCopy()
			if o.Ev == 0 {
				pe = poly.NewEvaluator(n)
			}
			bs := make([]bool, n)
			rr := core.RNG(rnd)
			for i := range bs {
				bs[i] = rr.IntN(2) == 1
			}
			got := trlwe.NewTRLWELv1().EncryptBool(bs, 1e-9, s1, pe).DecryptBool(s1, pe)
			for i := range bs {
				if got[i] != bs[i] {
					return core.Errf("ring coefficient %d decrypts wrongly", i)
				}
			}
		case "secret":
			sk := key.NewSecretKey()
			if sk.KeyLv0[0] > 1 || len(sk.KeyLv1) != len(s1) {
				return core.Errf("bad secret key")
			}
		case "cloudkey":
			sk := key.NewSecretKey()
			ck := cloudkey.NewCloudKey(sk)
			ct := tlwe.NewTLWELv0().EncryptBool(b, 1e-8, sk.KeyLv0)
			out := gates.NAND(ct, ct, ck)
			if d := gx.Dev(out.P, sk.KeyLv0, !b); d > 1.3*tol {
				return core.Errf("NAND under a cloud key made concurrently is off by %.5f", d)
			}
		case "pk":
			ct := st.pk.EncryptBool(b, 1e-8)
			if gx.Dev(ct.P, s, b) > 1e-5 {
				return core.Errf("public-key encryption of %v wrong", b)
			}
		case "reenc":
			out := proxyreenc.ReencryptTLWELv0(in[o.A], st.rk)
			if d := gx.Dev(out.P, st.sk2.KeyLv0, b); d > 0.004 {
				return core.Errf("re-encryption moved the phase by %.5f", d)
			}
		case "polyops":
			return polyOps(ev, o)
		case "cmux":
			return cmux(ev, o)
		case "eval":
			tmp := ev.BootstrapLUTTemp(xs[0], luts[o.F], bsk, ksk, off)
			prep := ev.PrepareNAND(in[o.A], in[o.B])
			out := tlwe.NewTLWELv0()
			t0 := core.Clone(tmp.P)
			ev.BootstrapAssign(prep, k.CK.BlindRotateTestvec, bsk, ksk, off, out)
			if !core.Equal(t0, tmp.P) {
				return core.Errf("temporary result changed")
			}
			return checkOut(quiet, k, "NAND on own evaluator", out, !(b && bit(o.B)), tol)
		}
		return nil
	}
	errs := make([]error, len(cs.Progs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for gi, p := range cs.Progs {
		wg.Add(1)
		cp := st.base.ShallowCopy()
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					buf := make([]byte, 1500)
					errs[gi] = fmt.Errorf("panic in goroutine %d: %v\n%s", gi, e, buf[:runtime.Stack(buf, false)])
				}
			}()
			<-start
			for oi, o := range p {
				if err := one(o, cp, cs.Seed+uint64(gi*100+oi)); err != nil {
					errs[gi] = core.Errf("goroutine %d of %d, operation %d (%s): %v", gi, len(cs.Progs), oi, o.Op, err)
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	for i, ct := range append(append([]*gx.CT(nil), in...), xs...) {
		if core.Hash(ct.P) != hs[i] {
			return core.Errf("a shared input was modified")
		}
	}
	if core.Hash(ringIn[0].A, ringIn[0].B, ringIn[1].A, ringIn[1].B) != ringHash {
		return core.Errf("a shared ring ciphertext was modified")
	}
	for _, p := range cs.Progs {
		for _, o := range p {
			c.Class("op:" + o.Op)
		}
	}
	c.Class(fmt.Sprintf("%d goroutines", len(cs.Progs)))
	if r.IntN(20) == 0 && core.HashCK(k.CK) != st.hash {
		return core.Errf("the cloud key was modified")
	}
	return nil
}

func checkOut(c *core.Ctx, k *core.Keys, what string, out *gx.CT, want bool, tol float64) error {
	if out == nil || len(out.P) != len(k.SK.KeyLv0)+1 {
		return core.Errf("%s returned a malformed ciphertext", what)
	}
	if d := gx.Dev(out.P, k.SK.KeyLv0, want); d > tol || out.DecryptBool(k.SK.KeyLv0) != want {
		return core.Errf("%s: phase %.5f away from the encoding of %v (bound %.5f)", what, d, want, tol)
	}
	return nil
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "-cold" {
		coldChild(os.Args[2])
		return
	}
	core.Main(&core.Prop{
		ID:   "C21",
		Rule: "case = 2-8 goroutines, each running 1-3 operations (gates, batch gates, bootstraps on own or copied evaluators, blind-rotation batches, encryption, ring encryption, key and cloud-key generation, public-key encryption, re-encryption, polynomial products and transforms, CMUX) on shared keys, tables and input ciphertexts, under 2-16 processors; half of the jobs run under the race detector; plus fresh processes in which the first use of everything, at one level and after a level change, happens in several goroutines at once; oracle = plaintext model, phase bound, no race report; non-trivial: always (at least two goroutines)",
		Subs: []*core.Sub{core.NewSub("par", gen, func(cs Case) bool { return len(cs.Progs) >= 2 }, run), core.NewSub("cold", genCold, func(cs Cold) bool { return len(cs.Progs) >= 2 }, runCold)},
		Plan: func(tier string) []core.Job {
			f := 1
			if tier == "thorough" {
				f = 25
			}
			var js []core.Job
			for _, l := range []core.Level{2, 80, 1, 3} {
				n := map[core.Level]int{2: 12, 80: 5, 1: 5, 3: 5}[l]
				js = append(js, core.Job{Level: l, Race: true, Runs: []core.RunSpec{{Sub: "par", N: n * f}}})
			}
			for _, l := range []core.Level{128, 110, 4, 2, 80, 1, 3} {
				js = append(js, core.Job{Level: l, Runs: []core.RunSpec{{Sub: "par", N: 24 * f}}})
			}
			for i := 0; i < 3; i++ {
				js = append(js, core.Job{Level: 2, Race: true, Runs: []core.RunSpec{{Sub: "cold", N: 5 * f}}})
			}
			return js
		},
		Assume: []string{"interleavings are those the Go scheduler produces on this machine; the race detector reports unsynchronised accesses in the executions that happened"},
	})
}
