package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"pgregory.net/rapid"
	"verif/core"
	"verif/gx"
	"verif/pb"
)

// Cold is run in a fresh process: the first use of everything happens in several goroutines
// at once, at one level and then at the next. It uses the system generator, so that the
// harness adds no synchronisation between the goroutines.
type Cold struct {
	Levels []core.Level
	Progs  [][]string // first operations, per goroutine
	Gates  [][]string // gates evaluated with the key made in between, per goroutine
	M      int
}

var coldOps = []string{"eval", "eval", "poly", "secret", "lut", "encoder", "enc", "msg", "ring", "gadget", "pk", "reenc", "params", "const", "evalcopy"}

func genCold(t *rapid.T, c *core.Ctx) Cold {
	cs := Cold{M: core.IntIn(t, "m", 2, 4)}
	cs.Levels = []core.Level{core.Choose(t, "l0", []core.Level{2, 2, 2, 80}), core.Choose(t, "l1", []core.Level{2, 80, 1, 3})}
	if core.Pick(t, "two", 3) != 0 {
		cs.Levels = cs.Levels[:1]
	}
	g := core.IntIn(t, "g", 2, 8)
	same := core.Pick(t, "same", 2) == 0
	for i := 0; i < g; i++ {
		if same && i > 0 {
			cs.Progs, cs.Gates = append(cs.Progs, cs.Progs[0]), append(cs.Gates, cs.Gates[0])
			continue
		}
		var p, q []string
		for j := 0; j < core.IntIn(t, "len", 1, 4); j++ {
			p = append(p, core.Choose(t, "op", coldOps))
		}
		for j := 0; j < core.IntIn(t, "glen", 1, 2); j++ {
			switch core.Pick(t, "gk", 4) {
			case 0:
				q = append(q, "batch "+core.Choose(t, "batch", gx.BatchNames()))
			case 1:
				q = append(q, "pbs")
			default:
				q = append(q, core.Choose(t, "gate", gx.BootNames()))
			}
		}
		cs.Progs, cs.Gates = append(cs.Progs, p), append(cs.Gates, q)
	}
	return cs
}

func runCold(c *core.Ctx, cs Cold) error {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	b, _ := json.Marshal(cs)
	cmd := exec.Command(self, "-cold", string(b))
	out, err := cmd.CombinedOutput()
	for _, p := range cs.Progs {
		for _, o := range p {
			c.Class("first use: " + o)
		}
	}
	c.Count("fresh processes", 1)
	if err != nil {
		s := string(out)
		if len(s) > 2500 {
			s = s[:2500]
		}
		return core.Errf("first use in several goroutines at once: %v\n%s", err, s)
	}
	return nil
}

func parallel(n int, f func(g int) error) {
	start := make(chan struct{})
	errs := make([]error, n)
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			errs[g] = f(g)
		}()
	}
	close(start)
	wg.Wait()
	for g, e := range errs {
		if e != nil {
			fmt.Printf("goroutine %d: %v\n", g, e)
			os.Exit(1)
		}
	}
}

// bits makes a deterministic key without touching the library.
func bits(n int, seed uint64) []core.Torus {
	r := core.RNG(seed)
	s := make([]core.Torus, n)
	for i := range s {
		s[i] = core.Torus(r.IntN(2))
	}
	return s
}

func coldChild(arg string) {
	var cs Cold
	if err := json.Unmarshal([]byte(arg), &cs); err != nil {
		panic(err)
	}
	for _, l := range cs.Levels {
		core.SetLevel(l)
		parallel(len(cs.Progs), func(g int) error {
			for _, o := range cs.Progs[g] {
				if err := coldOp(o, g, cs.M); err != nil {
					return core.Errf("%s: %v", o, err)
				}
			}
			return nil
		})
		sk := key.NewSecretKey()
		ck := cloudkey.NewCloudKey(sk)
		a, b := tlwe.NewTLWELv0().EncryptBool(true, 1e-9, sk.KeyLv0), tlwe.NewTLWELv0().EncryptBool(false, 1e-9, sk.KeyLv0)
		msg := tlwe.NewTLWELv0().EncryptLWEMessage(1, 2, 1e-9, sk.KeyLv0)
		parallel(len(cs.Gates), func(g int) error {
			for _, q := range cs.Gates[g] {
				var out []*gx.CT
				var want []bool
				if n, ok := strings.CutPrefix(q, "batch "); ok {
					out = gx.BatchByName(n).F([][2]*gx.CT{{a, b}, {b, b}, {a, a}}, ck)
					for _, p := range [][2]bool{{true, false}, {false, false}, {true, true}} {
						want = append(want, gx.ByName(n).Truth(p[0], p[1], false))
					}
				} else if q == "pbs" {
					o := pb.NewEval().BootstrapFunc(msg, func(x int) int { return 1 - x }, 2, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
					if v := o.DecryptLWEMessage(2, sk.KeyLv0); v != 0 {
						return core.Errf("bootstrap of 1 gives %d, want 0", v)
					}
				} else {
					out = append(out, gx.ByName(q).Eval(a, b, a, ck))
					want = append(want, gx.ByName(q).Truth(true, false, true))
				}
				if len(out) != len(want) {
					return core.Errf("%s: %d results", q, len(out))
				}
				for i := range out {
					if out[i].DecryptBool(sk.KeyLv0) != want[i] {
						return core.Errf("level %d %s: result %d wrong", l, q, i)
					}
				}
			}
			return nil
		})
	}
}

func coldOp(o string, g, m int) error {
	n0, n := params.GetTLWELv0().N, params.GetTRGSWLv1().N
	seed := uint64(g + 1)
	switch o {
	case "eval":
		evaluator.NewEvaluator(n)
	case "evalcopy":
		evaluator.NewEvaluator(n).ShallowCopy()
	case "poly":
		pe := poly.NewEvaluator(n)
		a := pe.NewPoly()
		a.Coeffs[1] = 5
		b := pe.NewPoly()
		b.Coeffs[n-1] = 7
		if p := pe.MulPoly(a, b); int32(p.Coeffs[0]) != -35 {
			return core.Errf("5X * 7X^(N-1) has constant term %d", int32(p.Coeffs[0]))
		}
	case "secret":
		if sk := key.NewSecretKey(); len(sk.KeyLv0) != n0 {
			return core.Errf("secret key of length %d", len(sk.KeyLv0))
		}
	case "lut":
		t := lut.NewGenerator(m).GenLookUpTable(func(x int) int { return x })
		if t.Poly.B[0] != 0 {
			return core.Errf("identity table starts with %d", t.Poly.B[0])
		}
	case "encoder":
		e := lut.NewEncoder(m)
		if e.Decode(e.Encode(m-1)) != m-1 {
			return core.Errf("encoder does not round-trip %d", m-1)
		}
	case "enc":
		s := bits(n0, seed)
		if !tlwe.NewTLWELv0().EncryptBool(true, 1e-7, s).DecryptBool(s) {
			return core.Errf("true decrypts to false")
		}
	case "msg":
		s := bits(n0, seed)
		if v := tlwe.NewTLWELv0().EncryptLWEMessage(m-1, m, 1e-7, s).DecryptLWEMessage(m, s); v != m-1 {
			return core.Errf("%d decrypts to %d", m-1, v)
		}
	case "ring":
		s := bits(n, seed)
		pe := poly.NewEvaluator(n)
		if !trlwe.NewTRLWELv1().EncryptBool(make([]bool, n), 1e-9, s, pe).DecryptBool(s, pe)[0] {
			return nil
		}
		return core.Errf("false decrypts to true")
	case "gadget":
		pe := poly.NewEvaluator(n)
		trgsw.NewTRGSWLv1FFT(trgsw.NewTRGSWLv1().EncryptTorus(1, 1e-9, bits(n, seed), pe), pe)
	case "pk":
		s := bits(n0, seed)
		if !proxyreenc.NewPublicKeyLv0WithParams(s, 20, 1e-8).EncryptBool(true, 1e-8).DecryptBool(s) {
			return core.Errf("true decrypts to false")
		}
	case "reenc":
		s, to := bits(n0, seed), bits(n0, seed+50)
		rk := proxyreenc.NewProxyReencryptionKeySymmetricWithParams(s, to, 1e-9, 3, 3)
		if !proxyreenc.ReencryptTLWELv0(tlwe.NewTLWELv0().EncryptBool(true, 1e-9, s), rk).DecryptBool(to) {
			return core.Errf("true decrypts to false after re-encryption")
		}
	case "params":
		params.SecurityInfo()
		params.KSKAlpha()
		params.BSKAlpha()
	case "const":
		if gates.NOT(gates.Constant(true)).B() != -gates.Constant(true).B() {
			return core.Errf("NOT of a constant is not its negative")
		}
	}
	return nil
}
