// C28: misuse and failed randomness are refused, never answered.
package main

import (
	"bytes"
	crand "crypto/rand"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"strings"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"pgregory.net/rapid"
	"verif/core"
	"verif/gx"
	"verif/pb"
)

// Step is a call that may or may not be valid.
type Step struct {
	K string
	F string `json:",omitempty"` // function
	X int    `json:",omitempty"`
	S string `json:",omitempty"`
}

type Case struct {
	Seed  uint64
	Steps []Step
}

var degreeFuncs = []string{"NewPoly", "NewFourierPoly", "NewPolyAligned", "NewFourierPolyAligned", "NewEvaluator", "NewDecomposer", "NewBufferManager", "evaluator.NewEvaluator"}
var nameFuncs = []string{"ClearBuffer", "MulAdd", "BufferToPoly"}
var allNames = map[string][]string{
	"ClearBuffer":  {"fpAcc", "fpBcc", "fpDiff", "fpMul1", "fpMul2"},
	"MulAdd":       {"fpAcc", "fpBcc"},
	"BufferToPoly": {"fpAcc", "fpBcc", "fpDiff"},
}
var indexFuncs = []string{"GetDecompBuffer", "GetDecompFFTBuffer", "ToFourierPolyInBuffer", "CopyToDecompBuffer", "MulAddIdx"}
var levelFuncs = []string{"GetPolyDecomposedBuffer", "GetPolyFourierDecomposedBuffer"}

var shortFuncs = []string{"add1", "add2", "sub1", "sub2", "neg", "addmul1", "addmul2", "submul2", "addassign", "decbool", "decmsg", "enc", "encmsg", "gate1", "gate2", "gate3", "not", "pbs", "pbsout", "lutassign", "blind", "bsk", "skdec", "skenc", "reenc", "ks", "enc1", "dec1"}

func genDegree(t *rapid.T) int {
	switch core.Pick(t, "dk", 7) {
	case 0:
		return core.Choose(t, "small", []int{0, 1, 2, 4, 8, 3, 5, 7, 9, 12, 15})
	case 1:
		return core.Choose(t, "neg", []int{-1, -16, -1024, math.MinInt32, math.MinInt64})
	case 2:
		return 1<<core.IntIn(t, "log", 4, 12) + core.Choose(t, "off", []int{-1, 1, 2, -2, 16, -4})
	case 3:
		return core.IntIn(t, "mult", 1, 300) * 16
	case 4:
		return core.IntIn(t, "any", -20, 3000)
	case 5:
		// two bits set, far apart
		return 1<<core.IntIn(t, "hi", 12, 19) + 1<<core.IntIn(t, "lo", 0, 11)
	default:
		return 1 << core.IntIn(t, "log", 4, 12)
	}
}

func genName(t *rapid.T, fn string) string {
	ok := allNames[fn]
	switch core.Pick(t, "nk", 5) {
	case 0:
		return core.Choose(t, "valid", ok)
	case 1:
		return core.Choose(t, "other", []string{"", " ", "fp", "acc", "fpacc", "FPACC", "fpCcc", "fpMul3", "fpMul", "fpInv", "pTemp", "A", "0", "fpAccB", "\x00"})
	case 2:
		s := core.Choose(t, "base", allNames["ClearBuffer"])
		return core.Choose(t, "mut", []string{s + " ", " " + s, strings.ToLower(s), strings.ToUpper(s), s[:len(s)-1], s + "0", s[1:], s + s})
	case 3:
		return core.Choose(t, "wrong", allNames["ClearBuffer"])
	default:
		return rapid.StringN(0, 8, 12).Draw(t, "str")
	}
}

func gen(t *rapid.T, c *core.Ctx) Case {
	cs := Case{Seed: core.GenSeed(t)}
	for i := 0; i < core.IntIn(t, "ns", 1, 6); i++ {
		st := Step{K: core.Choose(t, "k", []string{"degree", "degree", "name", "index", "level", "sample"})}
		switch st.K {
		case "degree":
			st.F, st.X = core.Choose(t, "f", degreeFuncs), genDegree(t)
		case "name":
			st.F = core.Choose(t, "f", nameFuncs)
			st.S = genName(t, st.F)
		case "index":
			st.F = core.Choose(t, "f", indexFuncs)
			st.X = core.Choose(t, "x", []int{0, 1, 2, 5, 0x7fff, 0x7fff + 1, 0x7fff + 2, 0x7fff + 9, 1 << 20, -1, -2, math.MinInt64, math.MaxInt64})
		case "level":
			st.F, st.X = core.Choose(t, "f", levelFuncs), core.Choose(t, "x", []int{0, 1, 2, 3, 4, 5, 6, 7, 100, math.MaxInt64})
		case "sample":
			// the ring's dimension against the LWE dimension, and an index
			st.F = core.Choose(t, "f", []string{"equal", "ring", "more", "less", "one", "double"})
			st.X = core.Choose(t, "x", []int{0, 1, 100, 17, 499})
		}
		cs.Steps = append(cs.Steps, st)
	}
	return cs
}

func genShort(t *rapid.T, c *core.Ctx) Case {
	cs := Case{Seed: core.GenSeed(t)}
	for i := 0; i < core.IntIn(t, "ns", 1, 5); i++ {
		st := Step{K: "short", F: core.Choose(t, "f", shortFuncs)}
		n := len(core.GetSecret(c.Level, 0).SK.KeyLv0)
		// coefficients missing; 0: a valid call
		st.X = core.Choose(t, "x", []int{0, 1, 1, 2, n / 2, n, n - 1, 13})
		st.S = core.Choose(t, "g", gx.BootNames())
		cs.Steps = append(cs.Steps, st)
	}
	return cs
}

// refused tells whether f panics.
func refused(f func()) (r bool, msg any) {
	defer func() {
		if x := recover(); x != nil {
			r, msg = true, x
		}
	}()
	f()
	return false, nil
}

type obj struct {
	pe   *poly.Evaluator
	e    *evaluator.Evaluator
	dec  *poly.Decomposer
	nIdx map[string]int
}

var objs = map[core.Level]*obj{}

const peN, decMax = 64, 5

func objects(l core.Level) *obj {
	if o := objs[l]; o != nil {
		return o
	}
	o := &obj{pe: poly.NewEvaluator(peN), e: pb.NewEval(), dec: poly.NewDecomposer(peN, decMax), nIdx: map[string]int{}}
	for _, f := range indexFuncs {
		n := 0
		for ; n < 10000; n++ {
			if r, _ := refused(func() { index(o, f, n) }); r {
				break
			}
		}
		o.nIdx[f] = n
	}
	objs[l] = o
	return o
}

func index(o *obj, f string, i int) {
	p := o.pe.NewPoly()
	switch f {
	case "GetDecompBuffer":
		o.pe.GetDecompBuffer(i)
	case "GetDecompFFTBuffer":
		o.pe.GetDecompFFTBuffer(i)
	case "ToFourierPolyInBuffer":
		o.pe.ToFourierPolyInBuffer(p, i)
	case "CopyToDecompBuffer":
		o.pe.CopyToDecompBuffer(p.Coeffs, i)
	default:
		o.pe.ClearBuffer("fpAcc")
		o.pe.MulAddFourierPolyAssignBuffered(i, o.pe.NewFourierPoly(), "fpAcc")
	}
}

// usable: the objects that refused a call still work.
func usable(o *obj, seed uint64) error {
	a, b := core.FillTorus("uniform", seed, peN), core.FillTorus("digits", seed+1, peN)
	for i := range b {
		b[i] %= 64
	}
	got := o.pe.MulPoly(poly.Poly{Coeffs: a}, poly.Poly{Coeffs: b})
	if !core.Equal(got.Coeffs, core.MulExact(a, b)) {
		return core.Errf("afterwards the evaluator's product is wrong")
	}
	return nil
}

func run(c *core.Ctx, cs Case) error {
	core.SetLevel(c.Level)
	core.SeedLib(cs.Seed)
	o := objects(c.Level)
	n := params.GetTRGSWLv1().N
	for i, st := range cs.Steps {
		var want bool
		var f func()
		x := st.X
		switch st.K {
		case "degree":
			want = x < poly.MinDegree || x&(x-1) != 0
			var size func() int
			f = func() {
				switch st.F {
				case "NewPoly":
					p := poly.NewPoly(x)
					size = func() int { return len(p.Coeffs) }
				case "NewFourierPoly":
					poly.NewFourierPoly(x)
				case "NewPolyAligned":
					p := poly.NewPolyAligned(x)
					size = func() int { return len(p.Coeffs) }
				case "NewFourierPolyAligned":
					poly.NewFourierPolyAligned(x)
				case "NewEvaluator":
					e := poly.NewEvaluator(x)
					size = e.Degree
				case "NewDecomposer":
					d := poly.NewDecomposer(x, 2)
					size = func() int { return d.GetPolyDecomposedBuffer(2)[1].Degree() }
				case "NewBufferManager":
					b := poly.NewBufferManager(x)
					size = func() int { return len(b.GetRotationBuffer().Coeffs) }
				default:
					if !want && x != n {
						return // ring degrees of other levels: not a claim
					}
					evaluator.NewEvaluator(x)
				}
				if size != nil && size() != x {
					panic(fmt.Sprintf("harness: size %d", size()))
				}
			}
		case "name":
			want = true
			for _, s := range allNames[st.F] {
				if s == st.S {
					want = false
				}
			}
			f = func() {
				switch st.F {
				case "ClearBuffer":
					o.pe.ClearBuffer(st.S)
				case "MulAdd":
					o.pe.ToFourierPolyInBuffer(o.pe.NewPoly(), 0)
					if !want {
						o.pe.ClearBuffer(st.S)
					}
					o.pe.MulAddFourierPolyAssignBuffered(0, o.pe.NewFourierPoly(), st.S)
				default:
					if !want {
						o.pe.ClearBuffer(st.S)
					}
					o.pe.BufferToPolyAssign(st.S, make([]core.Torus, peN))
				}
			}
		case "index":
			if x >= 0x7fff && x < 0x8fff {
				x += o.nIdx[st.F] - 0x7fff
			}
			want = x < 0 || x >= o.nIdx[st.F]
			if o.nIdx[st.F] < 2*params.GetTRGSWLv1().L || o.nIdx[st.F] >= 10000 {
				return core.Errf("%s accepts %d indices, at least %d and not any index needed", st.F, o.nIdx[st.F], 2*params.GetTRGSWLv1().L)
			}
			f = func() { index(o, st.F, x) }
		case "level":
			want = x > decMax
			f = func() {
				l := 0
				if st.F == "GetPolyDecomposedBuffer" {
					l = len(o.dec.GetPolyDecomposedBuffer(x))
				} else {
					l = len(o.dec.GetPolyFourierDecomposedBuffer(x))
				}
				if l != x {
					panic(fmt.Sprintf("harness: %d buffers", l))
				}
			}
		case "sample":
			m, lwe := 0, params.GetTLWELv0().N
			switch st.F {
			case "equal":
				m = lwe
			case "ring":
				m = params.GetTRLWELv1().N
			case "more":
				m = lwe + 1
			case "less":
				m = lwe - 1
			case "one":
				m = 1
				x = 0
			case "double":
				m = 2 * lwe
			}
			want = m != lwe
			ring := &trlwe.TRLWELv1{A: make([]core.Torus, m), B: make([]core.Torus, m)}
			f = func() { trlwe.SampleExtractIndex2(ring, x) }
		default:
			return core.Errf("bad case")
		}
		got, msg := refused(f)
		c.Class(fmt.Sprintf("%s:refused=%v", st.K, want))
		if got != want {
			return core.Errf("step %d: %s %s(%d, %q): refused %v (%v), want %v", i, st.K, st.F, x, st.S, got, msg, want)
		}
		if s, ok := msg.(string); ok && strings.HasPrefix(s, "harness:") {
			return core.Errf("step %d: %s %s(%d): %s", i, st.K, st.F, x, s)
		}
		if err := usable(o, cs.Seed+uint64(i)); err != nil {
			return core.Errf("step %d: %s %s(%d, %q): %v", i, st.K, st.F, x, st.S, err)
		}
	}
	return nil
}

// runShort: ciphertexts and keys too short for the selected level, refused or not, leave
// everything that is given whole ones as it was.
func runShort(c *core.Ctx, cs Case) error {
	k := core.GetKeys(c.Level, 0)
	core.SeedLib(cs.Seed)
	o := objects(c.Level)
	s := k.SK.KeyLv0
	id := func(x int) int { return x }
	bsk, ksk, off := k.CK.BootstrappingKey, k.CK.KeySwitchingKey, k.CK.DecompositionOffset
	alpha := params.GetTLWELv0().ALPHA
	for i, st := range cs.Steps {
		x := st.X
		full := gx.Fresh(k, true)
		short := &tlwe.TLWELv0{P: gx.Fresh(k, false).P[: len(s)+1-x : len(s)+1-x]}
		key0 := s[: len(s)-min(x, len(s)) : len(s)-min(x, len(s))]
		g := gx.ByName(st.S)
		f := func() {
			switch st.F {
			case "add1":
				short.Add(full)
			case "add2":
				full.Add(short)
			case "sub1":
				short.Sub(full)
			case "sub2":
				full.Sub(short)
			case "neg":
				short.Neg()
			case "addmul1":
				short.AddMul(full, 2)
			case "addmul2":
				full.AddMul(short, 2)
			case "submul2":
				full.SubMul(short, 3)
			case "addassign":
				full.AddAssign(full, short)
			case "decbool":
				short.DecryptBool(s)
			case "decmsg":
				short.DecryptLWEMessage(4, s)
			case "enc":
				short.EncryptBool(true, alpha, s)
			case "encmsg":
				short.EncryptLWEMessage(1, 4, alpha, s)
			case "gate1":
				g.Eval(short, full, full, k.CK)
			case "gate2":
				g.Eval(full, short, full, k.CK)
			case "gate3":
				gates.MUX(full, full, short, k.CK)
			case "not":
				gates.NOT(short)
			case "pbs":
				o.e.BootstrapFunc(short, id, 2, bsk, ksk, off)
			case "pbsout":
				o.e.BootstrapFuncAssign(full, id, 2, bsk, ksk, off, short)
			case "lutassign":
				o.e.BootstrapLUTAssign(full, lut.NewGenerator(2).GenLookUpTable(id), bsk, ksk, off, short)
			case "blind":
				trgsw.BlindRotate(short, k.CK.BlindRotateTestvec, bsk, off, poly.NewEvaluator(params.GetTRGSWLv1().N))
			case "bsk":
				o.e.BootstrapFunc(full, id, 2, bsk[:len(bsk)-min(x, len(bsk))], ksk, off)
			case "skdec":
				full.DecryptBool(key0)
			case "skenc":
				tlwe.NewTLWELv0().EncryptBool(true, alpha, key0)
			case "reenc":
				rk := proxyreenc.NewProxyReencryptionKeySymmetricWithParams(s, s, alpha, 1, 1)
				proxyreenc.ReencryptTLWELv0(short, rk)
			case "ks":
				t := tlwe.NewTLWELv1()
				t.P = t.P[:len(t.P)-min(x, len(t.P))]
				trgsw.IdentityKeySwitching(t, ksk)
			case "enc1":
				t := tlwe.NewTLWELv1()
				t.P = t.P[: len(t.P)-min(x, len(t.P)) : len(t.P)-min(x, len(t.P))]
				t.EncryptBool(true, alpha, k.SK.KeyLv1)
			case "dec1":
				t := tlwe.NewTLWELv1()
				t.P = t.P[: len(t.P)-min(x, len(t.P)) : len(t.P)-min(x, len(t.P))]
				t.DecryptBool(k.SK.KeyLv1)
			}
		}
		got, msg := refused(f)
		want := x > 0
		c.Class(fmt.Sprintf("%s:refused=%v", st.F, got))
		if got && !want {
			return core.Errf("step %d: valid %s refused (%v)", i, st.F, msg)
		}
		// nothing is left behind
		if want {
			in := tlwe.NewTLWELv0().EncryptLWEMessage(1, 2, alpha, s)
			out := o.e.BootstrapFunc(in, func(x int) int { return 1 - x }, 2, bsk, ksk, off)
			if d := core.AbsDiff(core.Phase(out.P, s), pb.Encode(0, 2)); d > core.Tol(c.Level) {
				return core.Errf("step %d: after the refused %s, bootstrapping is off by %.5f", i, st.F, d)
			}
			full = gx.Fresh(k, true)
			if err := gx.CheckOut(c, k, "NAND", gates.NAND(full, full, k.CK), false, core.Tol(c.Level)); err != nil {
				return core.Errf("step %d: after the refused %s: %v", i, st.F, err)
			}
		}
	}
	return nil
}

// ---- failing and slow randomness -----------------------------------------------------

// RandCase: in a fresh process the operating system's randomness fails after Bytes bytes,
// or arrives in pieces of Chunk bytes.
type RandCase struct {
	Seed  uint64
	Level int
	Bytes int // -1: never fails
	Chunk int
	Err   string
	Ops   []string
}

var randOps = []string{"secret", "lwe0", "lwe1", "msg", "ring", "gsw", "pubkey", "pkenc", "symkey", "asymkey", "cloud"}

func genRand(t *rapid.T, c *core.Ctx) RandCase {
	cs := RandCase{Seed: core.GenSeed(t), Level: int(c.Level), Chunk: core.Choose(t, "chunk", []int{1 << 20, 1, 3, 7, 100, 1023}), Err: core.Choose(t, "err", []string{"eof", "unexpected", "other", "zeroread"})}
	cs.Bytes = core.Choose(t, "bytes", []int{-1, 0, 1, 500, 1023, 1024, 1025, 2048, 4096, 10000, 100000, 1 << 20})
	if core.Pick(t, "anybytes", 3) == 0 {
		cs.Bytes = core.IntIn(t, "nbytes", 0, 60000)
	}
	for i := 0; i < core.IntIn(t, "nops", 1, 4); i++ {
		cs.Ops = append(cs.Ops, core.Choose(t, "op", randOps))
	}
	return cs
}

// stream is the substituted operating-system randomness.
type stream struct {
	src    interface{ Read([]byte) (int, error) }
	left   int
	chunk  int
	err    error
	failed bool
	asked  int
}

func (s *stream) Read(p []byte) (int, error) {
	n := min(len(p), s.chunk)
	if s.left >= 0 {
		if s.left == 0 && len(p) > 0 {
			s.failed = true
			s.asked++
			if s.err == nil && s.asked > 1000 {
				// a reader that keeps giving nothing: stop waiting for it
				return 0, errors.New("no progress")
			}
			return 0, s.err
		}
		n = min(n, s.left)
		s.left -= n
	}
	return s.src.Read(p[:n])
}

func randOp(op string, sk *key.SecretKey, pk *proxyreenc.PublicKeyLv0) (res uint64) {
	a := params.GetTLWELv0().ALPHA
	pe := poly.NewEvaluator(params.GetTRGSWLv1().N)
	switch op {
	case "secret":
		k := key.NewSecretKey()
		return core.Hash(k.KeyLv0, k.KeyLv1)
	case "lwe0":
		return core.Hash(tlwe.NewTLWELv0().EncryptBool(true, a, sk.KeyLv0).P)
	case "lwe1":
		return core.Hash(tlwe.NewTLWELv1().EncryptBool(true, a, sk.KeyLv1).P)
	case "msg":
		return core.Hash(tlwe.NewTLWELv0().EncryptLWEMessage(1, 3, a, sk.KeyLv0).P)
	case "ring":
		t := trlwe.NewTRLWELv1().EncryptF64(make([]float64, params.GetTRLWELv1().N), 1e-7, sk.KeyLv1, pe)
		return core.Hash(t.A, t.B)
	case "gsw":
		t := trgsw.NewTRGSWLv1().EncryptTorus(1, 1e-7, sk.KeyLv1, pe)
		return core.Hash(t.TRLWE[0].A, t.TRLWE[0].B, t.TRLWE[1].A)
	case "pubkey":
		p := proxyreenc.NewPublicKeyLv0WithParams(sk.KeyLv0, 3, a)
		return core.Hash(p.Encryptions[0].P, p.Encryptions[2].P)
	case "pkenc":
		return core.Hash(pk.EncryptBool(true, a).P)
	case "symkey":
		return core.Hash(proxyreenc.NewProxyReencryptionKeySymmetricWithParams(sk.KeyLv0, sk.KeyLv0, a, 1, 1).KeyEncryptions[1].P)
	case "asymkey":
		return core.Hash(proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(sk.KeyLv0, pk, a, 1, 1).KeyEncryptions[1].P)
	case "cloud":
		// generated in parallel: its value depends on the schedule
		cloudkey.NewCloudKey(sk)
		return 0
	}
	panic("bad op")
}

// childRand runs in the fresh process and reports each operation that completed.
func childRand(arg string) {
	var cs RandCase
	if err := json.Unmarshal([]byte(arg), &cs); err != nil {
		panic(err)
	}
	core.SetLevel(core.Level(cs.Level))
	core.ForceSeeded()
	core.SeedLib(cs.Seed)
	sk := key.NewSecretKey()
	pk := proxyreenc.NewPublicKeyLv0WithParams(sk.KeyLv0, 4, 1e-6)
	core.SeedLib(cs.Seed + 1)
	st := &stream{src: crand.Reader, left: cs.Bytes, chunk: cs.Chunk}
	switch cs.Err {
	case "eof":
		st.err = errors.New("EOF")
	case "unexpected":
		st.err = os.ErrDeadlineExceeded
	case "other":
		st.err = errors.New("entropy source failed")
	}
	crand.Reader = st
	for _, op := range cs.Ops {
		var h uint64
		r, _ := refused(func() { h = randOp(op, sk, pk) })
		if r {
			fmt.Printf("%s refused %v\n", op, st.failed)
			continue
		}
		fmt.Printf("%s done %x %v\n", op, h, st.failed)
	}
}

func child(cs RandCase) (lines []string, died bool, errOut string) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	b, _ := json.Marshal(cs)
	cmd := exec.Command(self, "-rand", string(b))
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	for _, l := range strings.Split(so.String(), "\n") {
		if l != "" {
			lines = append(lines, l)
		}
	}
	return lines, err != nil, se.String()
}

func runRand(c *core.Ctx, cs RandCase) error {
	cs.Level = int(c.Level)
	for _, op := range cs.Ops {
		if op == "cloud" && cs.Chunk < 1000 {
			cs.Chunk = 1000
		}
	}
	got, died, se := child(cs)
	c.Count("processes", 1)
	ref := cs
	ref.Bytes, ref.Chunk = -1, 1<<20
	want, wdied, wse := child(ref)
	if wdied || len(want) != len(cs.Ops) {
		return core.Errf("with working randomness %v fails: %.500s", cs.Ops, wse)
	}
	again, _, _ := child(ref)
	if len(again) != len(want) {
		return core.Errf("with working randomness %v completes only once", cs.Ops)
	}
	failed := false
	for i, l := range got {
		f := strings.Fields(l)
		if f[len(f)-1] == "true" {
			failed = true
			if f[1] == "done" {
				return core.Errf("operation %d (%s) completed although the system's randomness failed (%s after %d bytes)", i, f[0], cs.Err, cs.Bytes)
			}
			continue
		}
		if again[i] != want[i] {
			// generated in parallel: its value depends on the schedule
			if f[1] != "done" {
				return core.Errf("operation %d: %q with working randomness in pieces of %d bytes", i, l, cs.Chunk)
			}
			continue
		}
		if l != want[i] {
			return core.Errf("operation %d: randomness in pieces of %d bytes gives %q, in one piece %q", i, cs.Chunk, l, want[i])
		}
	}
	if (died || len(got) < len(cs.Ops)) && cs.Bytes < 0 {
		return core.Errf("process died although randomness never failed (pieces of %d bytes): %.500s", cs.Chunk, se)
	}
	switch {
	case died:
		c.Class("process stopped")
	case failed:
		c.Class("refused")
	default:
		c.Class("no failure reached")
	}
	return nil
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "-rand" {
		childRand(os.Args[2])
		return
	}
	core.Main(&core.Prop{
		ID:   "C28",
		Rule: "misuse: 1-6 calls, valid or not (degrees, buffer names and indices, decomposition levels, sample indices and dimensions, message modulus 0): refused exactly when invalid, and the objects still work; short: ciphertexts and keys with coefficients missing given to 28 operations: whatever they do with them, later calls with whole ones are right; randomness: in a fresh process the system's randomness fails after any number of bytes or comes in small pieces: no operation that needed it completes, pieces change nothing; non-trivial: all",
		Subs: []*core.Sub{
			core.NewSub("misuse", gen, func(cs Case) bool { return true }, run),
			core.NewSub("short", genShort, func(cs Case) bool { return true }, runShort),
			core.NewSub("randomness", genRand, func(cs RandCase) bool { return true }, runRand),
		},
		Plan: func(tier string) []core.Job {
			f := 1
			if tier == "thorough" {
				f = 12
			}
			var js []core.Job
			n := map[core.Level]int{80: 30, 110: 20, 128: 20, 1: 20, 2: 80, 3: 20, 5: 10}
			for _, l := range []core.Level{5, 128, 3, 1, 110, 80, 2} {
				js = append(js, core.Job{Level: l, Procs: 2, Runs: []core.RunSpec{{Sub: "misuse", N: 700 * f}, {Sub: "short", N: n[l] * f}}})
			}
			for _, l := range []core.Level{128, 2, 80} {
				js = append(js, core.Job{Level: l, Procs: 2, Runs: []core.RunSpec{{Sub: "randomness", N: 60 * f}}})
			}
			return js
		},
		Assume: []string{"randomness is replaced through crypto/rand's Reader; a refusal is a panic or the end of the process"},
	})
}
