// C26: every operation completes and leaves nothing behind.
package main

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"pgregory.net/rapid"
	"verif/core"
	"verif/gx"
	"verif/pb"
)

// Step is one kind of operation, done N times in each round.
type Step struct {
	Op string
	N  int
	G  string `json:",omitempty"`
	X  int    `json:",omitempty"`
}

type Case struct {
	Seed   uint64
	Steps  []Step
	Rounds int
	Conc   int // goroutines running the history at the same time
}

// per-round repetitions and relative weight of the operations
var kinds = []struct {
	op string
	n  int
	w  int
}{
	{"gate", 8, 3}, {"batch", 2, 4}, {"batch0", 20, 2}, {"pbs", 5, 3}, {"bootstrap", 6, 1}, {"batchrotate", 2, 2},
	{"enc", 60, 2}, {"bits", 6, 1}, {"lut", 20, 2}, {"lutcustom", 20, 1}, {"const", 60, 1}, {"poly", 12, 2}, {"copyeval", 2, 1},
	{"neweval", 1, 1}, {"pubkey", 2, 1}, {"reenc", 2, 1}, {"ring", 4, 1}, {"badfunc", 4, 2}, {"badlut", 6, 1},
	{"secret", 2, 1}, {"emptykey", 3, 1}, {"getters", 60, 1},
}

func gen(t *rapid.T, c *core.Ctx) Case {
	cs := Case{Seed: core.GenSeed(t), Rounds: 4, Conc: 1}
	if core.Pick(t, "concurrent", 4) == 0 {
		cs.Conc = core.IntIn(t, "conc", 2, 4)
	}
	tot := 0
	for _, k := range kinds {
		tot += k.w
	}
	for i := 0; i < core.IntIn(t, "ns", 1, 4); i++ {
		x := core.Pick(t, "op", tot)
		for _, k := range kinds {
			if x < k.w {
				st := Step{Op: k.op, N: k.n}
				switch k.op {
				case "gate":
					st.G = core.Choose(t, "g", gx.Names())
				case "batch":
					st.G = core.Choose(t, "bg", gx.BatchNames())
					st.X = core.Choose(t, "size", []int{1, 2, 5, 9, 17})
				case "batch0":
					st.G = core.Choose(t, "bg", gx.BatchNames())
				case "pbs", "badfunc":
					st.X = core.Pick(t, "form", 5)
				case "batchrotate":
					st.X = core.Choose(t, "size", []int{0, 1, 3, 9})
				case "poly":
					st.X = core.Pick(t, "pop", 4)
				}
				cs.Steps = append(cs.Steps, st)
				break
			}
			x -= k.w
		}
	}
	return cs
}

type world struct {
	k    *core.Keys
	a, b *gx.CT
	pe   *poly.Evaluator
}

// pad is the value a failing callback panics with
type pad struct{}

func recovered(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(pad); !is {
				panic(r)
			}
			ok = true
		}
	}()
	f()
	return false
}

// do performs one operation once; the evaluator belongs to the calling goroutine. No two
// calls of a history have the same u: contents seen before are no help.
func do(w *world, e *evaluator.Evaluator, st Step, i, u int) error {
	k, ck := w.k, w.k.CK
	s := k.SK.KeyLv0
	alpha := params.GetTLWELv0().ALPHA
	switch st.Op {
	case "gate":
		gx.ByName(st.G).Eval(w.a, w.b, w.a, ck)
	case "batch":
		in := make([][2]*gx.CT, st.X)
		for j := range in {
			in[j] = [2]*gx.CT{w.a, w.b}
		}
		if r := gx.BatchByName(st.G).F(in, ck); len(r) != st.X {
			return core.Errf("Batch%s of %d pairs returned %d results", st.G, st.X, len(r))
		}
	case "batch0":
		if r := gx.BatchByName(st.G).F([][2]*gx.CT{}, ck); len(r) != 0 {
			return core.Errf("Batch%s of an empty list returned %d results", st.G, len(r))
		}
	case "pbs":
		f := func(x int) int { return (u>>(8*x) + x) % 256 }
		m := 3
		bsk, ksk, off := ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset
		switch st.X {
		case 0:
			e.BootstrapFunc(w.a, f, m, bsk, ksk, off)
		case 1:
			e.BootstrapFuncAssign(w.a, f, m, bsk, ksk, off, tlwe.NewTLWELv0())
		case 2:
			e.BootstrapLUT(w.a, lut.NewGenerator(m).GenLookUpTable(f), bsk, ksk, off)
		case 3:
			e.BootstrapLUTTemp(w.a, lut.NewGenerator(m).GenLookUpTable(f), bsk, ksk, off)
		default:
			e.BootstrapLUTAssign(w.a, lut.NewGenerator(m).GenLookUpTable(f), bsk, ksk, off, tlwe.NewTLWELv0())
		}
	case "bootstrap":
		e.Bootstrap(w.a, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
	case "batchrotate":
		in := make([]*gx.CT, st.X)
		for j := range in {
			in[j] = gates.Copy(w.a)
		}
		trgsw.BatchBlindRotate(in, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset)
	case "enc":
		tlwe.NewTLWELv0().EncryptBool(true, alpha, s)
		tlwe.NewTLWELv0().EncryptLWEMessage(u, 5, alpha, s)
		tlwe.NewTLWELv1().EncryptBool(false, params.GetTLWELv1().ALPHA, k.SK.KeyLv1)
	case "bits":
		bitutils.EncryptBits(bitutils.U8ToBits(uint8(u)), alpha, s)
	case "lut":
		m := 20 + u%7
		lut.NewGenerator(m).GenLookUpTable(func(x int) int { return u >> x & 1 })
	case "lutcustom":
		lut.NewGenerator(2).GenLookUpTableCustom(func(x int) int { return x }, 2+u, 0.25/float64(u+1))
		lut.NewGeneratorWithScale(3, 0.1+1e-7*float64(u)).GenLookUpTableFull(func(x int) params.Torus { return params.Torus(x * u) })
	case "const":
		gates.NOT(gates.Constant(i%2 == 0))
	case "poly":
		n := w.pe.Degree()
		p := poly.Poly{Coeffs: core.FillTorus("uniform", uint64(u), n)}
		pe := w.pe.ShallowCopy()
		switch st.X {
		case 0:
			pe.MulPoly(p, p)
		case 1:
			pe.ToPoly(pe.ToFourierPoly(p))
		case 2:
			pe.PolyMulWithXK(p.Coeffs, u%(2*n))
		default:
			poly.NewEvaluator(64).NewFourierPoly()
		}
	case "copyeval":
		e.ShallowCopy()
	case "neweval":
		pb.NewEval()
	case "pubkey":
		proxyreenc.NewPublicKeyLv0WithParams(s, 5, alpha).EncryptBool(true, alpha)
	case "reenc":
		rk := proxyreenc.NewProxyReencryptionKeySymmetricWithParams(s, s, alpha, 2, 3)
		proxyreenc.ReencryptTLWELv0(w.a, rk)
	case "ring":
		p := make([]float64, params.GetTRLWELv1().N)
		c := trlwe.NewTRLWELv1().EncryptF64(p, params.GetTRLWELv1().ALPHA, k.SK.KeyLv1, w.pe.ShallowCopy())
		trlwe.SampleExtractIndex(c, u%len(p))
	case "badfunc":
		// the user's function fails: the call fails, nothing else does
		calls := 0
		f := func(x int) int {
			calls++
			if calls > st.X {
				panic(pad{})
			}
			return x
		}
		if !recovered(func() {
			e.BootstrapFunc(w.a, f, 5, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
		}) {
			return core.Errf("BootstrapFunc swallowed the panic of the function it was given")
		}
	case "badlut":
		if !recovered(func() { lut.NewGenerator(3).GenLookUpTable(func(x int) int { panic(pad{}) }) }) {
			return core.Errf("GenLookUpTable swallowed the panic of the function it was given")
		}
	case "secret":
		key.NewSecretKey()
	case "emptykey":
		cloudkey.NewCloudKeyNoKSK()
	case "getters":
		params.GetTRGSWLv1()
		params.SecurityInfo()
		params.KSKAlpha()
	}
	return nil
}

func settle(base int) int {
	n := runtime.NumGoroutine()
	for i := 0; i < 400 && n > base; i++ {
		runtime.Gosched()
		time.Sleep(5 * time.Millisecond)
		n = runtime.NumGoroutine()
	}
	return n
}

func heap() (bytes, objects int64) {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc), int64(m.HeapObjects)
}

func run(c *core.Ctx, cs Case) error {
	k := core.GetKeys(c.Level, 0)
	core.SeedLib(cs.Seed)
	w := &world{k: k, a: gx.Fresh(k, true), b: gx.Fresh(k, false), pe: poly.NewEvaluator(params.GetTRGSWLv1().N)}
	es := make([]*evaluator.Evaluator, cs.Conc)
	for i := range es {
		es[i] = pb.NewEval()
	}
	// a call that never returns ends the process; the case in flight is the reproduction
	watch := time.AfterFunc(240*time.Second, func() {
		buf := make([]byte, 1<<16)
		panic(fmt.Sprintf("C26: history did not complete within 240 s\n%s", buf[:runtime.Stack(buf, true)]))
	})
	defer watch.Stop()
	base := runtime.NumGoroutine()
	var calls atomic.Int64
	round := func() error {
		errs := make([]error, cs.Conc)
		one := func(g int) {
			for _, st := range cs.Steps {
				for i := 0; i < st.N && errs[g] == nil; i++ {
					errs[g] = do(w, es[g], st, i, int(calls.Add(1)))
				}
			}
		}
		if cs.Conc == 1 {
			one(0)
		} else {
			done := make(chan bool)
			for g := 0; g < cs.Conc; g++ {
				go func() { one(g); done <- true }()
			}
			for g := 0; g < cs.Conc; g++ {
				<-done
			}
		}
		for _, e := range errs {
			if e != nil {
				return e
			}
		}
		return nil
	}
	for i := 0; i < 2; i++ {
		if err := round(); err != nil {
			return err
		}
	}
	settle(base)
	h0, o0 := heap()
	ops := 0
	for _, st := range cs.Steps {
		ops += st.N * cs.Rounds * cs.Conc
		c.Class("op:" + st.Op)
	}
	measure := func(rounds int) (bytes, objects int64, gor int, err error) {
		for i := 0; i < rounds; i++ {
			if err := round(); err != nil {
				return 0, 0, 0, err
			}
		}
		gor = settle(base)
		b, o := heap()
		return b - h0, o - o0, gor, nil
	}
	db, do1, gor, err := measure(cs.Rounds)
	if err != nil {
		return err
	}
	c.Count("operations", float64(ops))
	c.Max("max_retained_bytes", float64(db))
	c.Max("max_retained_objects", float64(do1))
	if gor > base {
		return core.Errf("%d goroutines are still running after the history (%d before): %v", gor, base, cs.Steps)
	}
	// growth must be proportional to nothing: a second, longer run decides
	if db > 16<<10 || do1 > 60 {
		db2, do2, _, err := measure(3 * cs.Rounds)
		if err != nil {
			return err
		}
		if db2 > 5*db/2 && db2 > db+32<<10 || do2 > 5*do1/2 && do2 > do1+120 {
			return core.Errf("memory kept after %d operations: %d bytes in %d objects; after %d: %d bytes in %d objects (%v)", ops, db, do1, 4*ops, db2, do2, cs.Steps)
		}
		c.Count("second_looks", 1)
	}
	// everything still works
	e := es[0]
	f := func(x int) int { return 1 - x }
	in := tlwe.NewTLWELv0().EncryptLWEMessage(1, 2, params.GetTLWELv0().ALPHA, k.SK.KeyLv0)
	out := e.BootstrapFunc(in, f, 2, k.CK.BootstrappingKey, k.CK.KeySwitchingKey, k.CK.DecompositionOffset)
	if d := core.AbsDiff(core.Phase(out.P, k.SK.KeyLv0), pb.Encode(0, 2)); d > core.Tol(c.Level) {
		return core.Errf("after the history NOT of 1 has phase %.5f away from 0", d)
	}
	return gx.CheckOut(c, k, "NAND after the history", gates.NAND(w.a, w.b, k.CK), true, core.Tol(c.Level))
}

func main() {
	core.Main(&core.Prop{
		ID:   "C26",
		Rule: "case = history of 1-4 kinds of operations repeated 6 times (gates, batch gates of any size, bootstraps, encryptions, keys, tables, polynomial work, callbacks that panic), in 1-4 goroutines; every call returns, the number of goroutines falls back, heap bytes and objects retained after garbage collection do not grow with the number of operations (two sizes compared), and evaluation still works; non-trivial: any",
		Subs: []*core.Sub{core.NewSub("history", gen, func(cs Case) bool { return len(cs.Steps) > 0 }, run)},
		Plan: func(tier string) []core.Job {
			n := map[core.Level]int{80: 16, 110: 10, 128: 10, 1: 10, 2: 30, 3: 10, 4: 8, 5: 5}
			f := 1
			if tier == "thorough" {
				f = 12
			}
			var js []core.Job
			for _, l := range []core.Level{5, 128, 4, 1, 3, 110, 2, 2, 80} {
				js = append(js, core.Job{Level: l, Procs: 4, Runs: []core.RunSpec{{Sub: "history", N: n[l] * f}}})
			}
			return js
		},
		Assume: []string{"retained memory is what three garbage collections leave; growth below 16 KiB and 60 objects per history is not distinguished from the runtime's own"},
	})
}
