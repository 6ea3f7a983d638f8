// C27: keys and ciphertexts are self-contained data.
package main

import (
	"bufio"
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"pgregory.net/rapid"
	"verif/core"
	"verif/gx"
	"verif/pb"
)

// Op is one evaluation on the objects of a World; the results are appended to its
// ciphertexts.
type Op struct {
	K       string
	G       string `json:",omitempty"`
	A, B, C int    `json:",omitempty"`
	X       int    `json:",omitempty"`
}

// Data is everything an evaluating party needs (and, for the client's side, the secret).
type Data struct {
	SK    *key.SecretKey
	CK    *cloudkey.CloudKey
	PK    *proxyreenc.PublicKeyLv0
	RK    *proxyreenc.ProxyReencryptionKey
	LUT   *lut.LookUpTable
	ELUT  *lut.LookUpTable // the same table, encrypted
	Bits  []*tlwe.TLWELv0
	Msgs  []*tlwe.TLWELv0
	Lv1   *tlwe.TLWELv1
	Ring  *trlwe.TRLWELv1
	GSW   *trgsw.TRGSWLv1
	GSWFT *trgsw.TRGSWLv1FFT
}

type Case struct {
	Seed uint64
	M    int
	Bits []int
	Msgs []int
	Ops  []Op
	Mode string // how the copy is made
}

var opKinds = []string{"gate", "gate", "batch", "pbs", "pbs", "lut", "elut", "reenc", "pk", "extract", "ks", "extprod", "decrypt", "ringdec", "bootstrap"}

func genOps(t *rapid.T, cs *Case, max int) {
	cs.M = 2 + core.Pick(t, "m", 3)
	cs.Bits = core.GenBits(t, 3, "bit")
	for i := 0; i < 2; i++ {
		cs.Msgs = append(cs.Msgs, core.Pick(t, "msg", cs.M))
	}
	for i := 0; i < core.IntIn(t, "nops", 1, max); i++ {
		o := Op{K: core.Choose(t, "op", opKinds), A: core.Pick(t, "a", 3), B: core.Pick(t, "b", 3), C: core.Pick(t, "c", 3), X: core.Pick(t, "x", 64)}
		switch o.K {
		case "gate":
			o.G = core.Choose(t, "g", gx.Names())
		case "batch":
			o.G = core.Choose(t, "bg", gx.BatchNames())
		}
		cs.Ops = append(cs.Ops, o)
	}
}

// gen: copies in the same process.
func gen(t *rapid.T, c *core.Ctx) Case {
	cs := Case{Seed: core.GenSeed(t), Mode: core.Choose(t, "mode", []string{"gob", "gob", "json", "replace", "entries", "deep"})}
	genOps(t, &cs, 5)
	return cs
}

func genProc(t *rapid.T, c *core.Ctx) Case {
	cs := Case{Seed: core.GenSeed(t), Mode: "process"}
	genOps(t, &cs, 10)
	return cs
}

// fixed holds the long-lived objects of a level.
type fixed struct {
	k, to *core.Keys
	pk    *proxyreenc.PublicKeyLv0
	rk    *proxyreenc.ProxyReencryptionKey
	ck2   *cloudkey.CloudKey // decoded copy
	pe    *poly.Evaluator
}

var fx = map[core.Level]map[int]*fixed{}

// objects of key pair idx of the level
func get(l core.Level, idx int) *fixed {
	core.SetLevel(l)
	if fx[l] == nil {
		fx[l] = map[int]*fixed{}
	}
	if f := fx[l][idx]; f != nil {
		return f
	}
	f := &fixed{k: core.GetKeys(l, idx), to: core.GetSecret(l, idx+5), pe: poly.NewEvaluator(params.GetTRGSWLv1().N)}
	core.SeedLib(uint64(l)*17 + uint64(idx))
	f.pk = proxyreenc.NewPublicKeyLv0WithParams(f.k.SK.KeyLv0, 40, params.GetTLWELv0().ALPHA)
	f.rk = proxyreenc.NewProxyReencryptionKeySymmetricWithParams(f.k.SK.KeyLv0, f.to.SK.KeyLv0, params.GetTLWELv0().ALPHA, 2, 1)
	fx[l][idx] = f
	return f
}

func enc(v any) []byte {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(v); err != nil {
		panic(err)
	}
	return b.Bytes()
}

func dec(b []byte, v any) {
	if err := gob.NewDecoder(bytes.NewReader(b)).Decode(v); err != nil {
		panic(err)
	}
}

func (f *fixed) decodedCK() *cloudkey.CloudKey {
	if f.ck2 == nil {
		f.ck2 = &cloudkey.CloudKey{}
		viaFile(f.k.CK, f.ck2)
	}
	return f.ck2
}

// data makes the objects of a case.
func (f *fixed) data(cs Case) *Data {
	core.SeedLib(cs.Seed)
	s, a := f.k.SK.KeyLv0, params.GetTLWELv0().ALPHA
	r := core.RNG(cs.Seed)
	n := params.GetTRGSWLv1().N
	d := &Data{SK: f.k.SK, CK: f.k.CK, PK: f.pk, RK: f.rk}
	for _, b := range cs.Bits {
		d.Bits = append(d.Bits, gx.Fresh(f.k, b == 1))
	}
	for _, m := range cs.Msgs {
		d.Msgs = append(d.Msgs, tlwe.NewTLWELv0().EncryptLWEMessage(m, cs.M, a, s))
	}
	d.LUT = lut.NewGenerator(cs.M).GenLookUpTable(func(x int) int { return x*x + 1 })
	q := make([]float64, n)
	for i := range q {
		q[i] = float64(d.LUT.Poly.B[i]) / (1 << 32)
	}
	d.ELUT = &lut.LookUpTable{Poly: trlwe.NewTRLWELv1().EncryptF64(q, params.GetTRLWELv1().ALPHA, f.k.SK.KeyLv1, f.pe)}
	d.Lv1 = tlwe.NewTLWELv1().EncryptBool(cs.Bits[0] == 1, params.GetTLWELv1().ALPHA, f.k.SK.KeyLv1)
	p := make([]bool, n)
	for i := range p {
		p[i] = r.IntN(2) == 1
	}
	d.Ring = trlwe.NewTRLWELv1().EncryptBool(p, params.GetTRLWELv1().ALPHA, f.k.SK.KeyLv1, f.pe)
	d.GSW = trgsw.NewTRGSWLv1().EncryptTorus(params.Torus(cs.Bits[1]), params.BSKAlpha(), f.k.SK.KeyLv1, f.pe)
	d.GSWFT = trgsw.NewTRGSWLv1FFT(d.GSW, f.pe)
	return d
}

// eval performs the operations; every result is a list of words.
func eval(d *Data, cs Case, e *evaluator.Evaluator, pe *poly.Evaluator) (out [][]core.Torus) {
	s := d.SK
	bsk, ksk, off := d.CK.BootstrappingKey, d.CK.KeySwitchingKey, d.CK.DecompositionOffset
	put := func(p []core.Torus) { out = append(out, core.Clone(p)) }
	nb, nm := len(d.Bits), len(d.Msgs)
	for i, o := range cs.Ops {
		core.SeedLib(cs.Seed + uint64(i))
		a, b, c := d.Bits[o.A%nb], d.Bits[o.B%nb], d.Bits[o.C%nb]
		switch o.K {
		case "gate":
			put(gx.ByName(o.G).Eval(a, b, c, d.CK).P)
		case "batch":
			for _, r := range gx.BatchByName(o.G).F([][2]*gx.CT{{a, b}, {c, a}}, d.CK) {
				put(r.P)
			}
		case "pbs":
			put(e.BootstrapFunc(d.Msgs[o.A%nm], func(x int) int { return x + o.X }, cs.M, bsk, ksk, off).P)
		case "lut":
			put(e.BootstrapLUT(d.Msgs[o.A%nm], d.LUT, bsk, ksk, off).P)
		case "elut":
			put(e.BootstrapLUT(d.Msgs[o.A%nm], d.ELUT, bsk, ksk, off).P)
		case "bootstrap":
			put(e.Bootstrap(a, d.CK.BlindRotateTestvec, bsk, ksk, off).P)
		case "reenc":
			put(proxyreenc.ReencryptTLWELv0(a, d.RK).P)
		case "pk":
			put(d.PK.EncryptBool(o.X%2 == 1, 1e-6).P)
		case "extract":
			put(trlwe.SampleExtractIndex(d.Ring, o.X).P)
		case "ks":
			put(trgsw.IdentityKeySwitching(d.Lv1, ksk).P)
		case "extprod":
			r := trgsw.ExternalProductWithFFT(d.GSWFT, d.Ring, off, pe)
			put(r.A)
			put(r.B)
			r = trgsw.ExternalProductWithFFT(trgsw.NewTRGSWLv1FFT(d.GSW, pe), d.Ring, off, pe)
			put(r.A)
			put(r.B)
		case "decrypt":
			v := core.Torus(d.Msgs[o.A%nm].DecryptLWEMessage(cs.M, s.KeyLv0)) << 2
			if a.DecryptBool(s.KeyLv0) {
				v |= 1
			}
			if d.Lv1.DecryptBool(s.KeyLv1) {
				v |= 2
			}
			put([]core.Torus{v})
		case "ringdec":
			var v []core.Torus
			for _, b := range d.Ring.DecryptBool(s.KeyLv1, pe) {
				if b {
					v = append(v, 1)
				} else {
					v = append(v, 0)
				}
			}
			put(v)
		default:
			panic("bad op " + o.K)
		}
	}
	return out
}

// encrypted checks that an encrypted table gives what its plain original gives, however the
// object was made.
func encrypted(c *core.Ctx, d *Data, cs Case, e *evaluator.Evaluator) error {
	for _, o := range cs.Ops {
		if o.K != "elut" {
			continue
		}
		bsk, ksk, off := d.CK.BootstrappingKey, d.CK.KeySwitchingKey, d.CK.DecompositionOffset
		in := d.Msgs[o.A%len(d.Msgs)]
		ref := core.Phase(e.BootstrapLUT(in, d.LUT, bsk, ksk, off).P, d.SK.KeyLv0)
		made := lut.NewLookUpTable()
		copy(made.Poly.A, d.ELUT.Poly.A)
		copy(made.Poly.B, d.ELUT.Poly.B)
		var back lut.LookUpTable
		dec(enc(d.ELUT), &back)
		for i, t := range []*lut.LookUpTable{d.ELUT, made, &back, d.ELUT.Copy()} {
			p := core.Phase(e.BootstrapLUT(in, t, bsk, ksk, off).P, d.SK.KeyLv0)
			// the same rotation of the same values: only the noise differs
			if dev := core.AbsDiff(p, ref); dev > 2*core.Tol(c.Level) {
				return core.Errf("lookup in an encrypted table (%s): the result's phase is %.5f away from the plain table's", []string{"composed", "filled in", "decoded", "copied"}[i], dev)
			}
			c.Count("encrypted_lookups", 1)
		}
	}
	return nil
}

func compare(what string, cs Case, want, got [][]core.Torus) error {
	if len(want) != len(got) {
		return core.Errf("%s: %d results, want %d", what, len(got), len(want))
	}
	for i := range want {
		if !core.Equal(want[i], got[i]) {
			return core.Errf("%s: result %d of %v differs from the one computed with the original objects", what, i, cs.Ops)
		}
	}
	return nil
}

// clone makes an independent copy of a data set.
func clone(f *fixed, d *Data, mode string) *Data {
	x := *d
	x.CK = nil // copied once per process
	var y Data
	if mode == "json" {
		b, err := json.Marshal(x)
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(b, &y); err != nil {
			panic(err)
		}
	} else {
		dec(enc(x), &y)
	}
	y.CK = f.decodedCK()
	return &y
}

var evs = map[core.Level]*evaluator.Evaluator{}

func run(c *core.Ctx, cs Case) error {
	f := get(c.Level, 0)
	if evs[c.Level] == nil {
		evs[c.Level] = pb.NewEval()
	}
	e := evs[c.Level]
	c.Class("mode:" + cs.Mode)
	for _, o := range cs.Ops {
		c.Class("op:" + o.K)
	}
	d := f.data(cs)
	want := eval(d, cs, e, f.pe)
	if err := encrypted(c, d, cs, e); err != nil {
		return err
	}
	switch cs.Mode {
	case "gob", "json":
		y := clone(f, d, cs.Mode)
		// the copy is used while the original's ciphertexts are gone
		for _, x := range append(append([]*gx.CT{}, d.Bits...), d.Msgs...) {
			clear(x.P)
		}
		clear(d.LUT.Poly.A)
		clear(d.LUT.Poly.B)
		clear(d.ELUT.Poly.A)
		clear(d.ELUT.Poly.B)
		clear(d.Ring.A)
		clear(d.Ring.B)
		return compare("copied objects ("+cs.Mode+")", cs, want, eval(y, cs, e, f.pe))
	default:
		// the same objects get the contents of another key pair
		g := get(c.Level, 1)
		d2 := g.data(cs)
		want2 := eval(d2, cs, pb.NewEval(), g.pe)
		h := clone(f, d, "gob")
		h.CK = scratchCK(f, cs.Mode)
		if err := compare("copied objects", cs, want, eval(h, cs, e, f.pe)); err != nil {
			return err
		}
		over(h, d2, cs.Mode)
		err := compare("objects whose contents were replaced ("+cs.Mode+") by those of another key pair", cs, want2, eval(h, cs, e, f.pe))
		if err != nil {
			return err
		}
		// and back
		over(h, clone(f, f.data(cs), "gob"), cs.Mode)
		return compare("objects whose contents were replaced twice ("+cs.Mode+")", cs, want, eval(h, cs, e, f.pe))
	}
}

var scratch *cloudkey.CloudKey

// scratchCK is a cloud key object whose contents may be overwritten the given way, holding
// f's key.
func scratchCK(f *fixed, mode string) *cloudkey.CloudKey {
	switch mode {
	case "replace":
		x := *f.k.CK
		return &x
	case "entries":
		x := *f.k.CK
		x.KeySwitchingKey = append([]*tlwe.TLWELv0(nil), x.KeySwitchingKey...)
		x.BootstrappingKey = append([]*trgsw.TRGSWLv1FFT(nil), x.BootstrappingKey...)
		return &x
	}
	if scratch == nil {
		scratch = &cloudkey.CloudKey{}
		viaFile(f.k.CK, scratch)
		return scratch
	}
	overCK(scratch, f.k.CK, "deep")
	return scratch
}

// viaFile copies v to w through its gob encoding without holding that in memory.
func viaFile(v, w any) {
	dir, err := os.MkdirTemp("", "verif_c27_")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "gob")
	writeGob(file, v)
	readGob(file, w)
}

func writeGob(file string, v any) {
	f, err := os.OpenFile(file, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o600)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(f)
	if err := gob.NewEncoder(w).Encode(v); err != nil {
		panic(err)
	}
	if err := w.Flush(); err != nil {
		panic(err)
	}
	if err := f.Close(); err != nil {
		panic(err)
	}
}

func readGob(file string, v any) {
	f, err := os.Open(file)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if err := gob.NewDecoder(bufio.NewReaderSize(f, 1<<20)).Decode(v); err != nil {
		panic(err)
	}
}

// overCK replaces the contents of a cloud key.
func overCK(dst, src *cloudkey.CloudKey, mode string) {
	switch mode {
	case "replace":
		*dst = *src
	case "entries":
		dst.DecompositionOffset = src.DecompositionOffset
		dst.BlindRotateTestvec = src.BlindRotateTestvec
		copy(dst.KeySwitchingKey, src.KeySwitchingKey)
		copy(dst.BootstrappingKey, src.BootstrappingKey)
	default:
		dst.DecompositionOffset = src.DecompositionOffset
		copy(dst.BlindRotateTestvec.A, src.BlindRotateTestvec.A)
		copy(dst.BlindRotateTestvec.B, src.BlindRotateTestvec.B)
		for i := range dst.KeySwitchingKey {
			copy(dst.KeySwitchingKey[i].P, src.KeySwitchingKey[i].P)
		}
		for i := range dst.BootstrappingKey {
			for j := range dst.BootstrappingKey[i].TRLWEFFT {
				copy(dst.BootstrappingKey[i].TRLWEFFT[j].A.Coeffs, src.BootstrappingKey[i].TRLWEFFT[j].A.Coeffs)
				copy(dst.BootstrappingKey[i].TRLWEFFT[j].B.Coeffs, src.BootstrappingKey[i].TRLWEFFT[j].B.Coeffs)
			}
		}
	}
}

// over replaces the contents of all objects of h by those of d, keeping the objects.
func over(h, d *Data, mode string) {
	overCK(h.CK, d.CK, mode)
	copy(h.SK.KeyLv0, d.SK.KeyLv0)
	copy(h.SK.KeyLv1, d.SK.KeyLv1)
	for i := range h.Bits {
		copy(h.Bits[i].P, d.Bits[i].P)
	}
	for i := range h.Msgs {
		copy(h.Msgs[i].P, d.Msgs[i].P)
	}
	for i := range h.PK.Encryptions {
		copy(h.PK.Encryptions[i].P, d.PK.Encryptions[i].P)
	}
	for i := range h.RK.KeyEncryptions {
		copy(h.RK.KeyEncryptions[i].P, d.RK.KeyEncryptions[i].P)
	}
	copy(h.Lv1.P, d.Lv1.P)
	copy(h.Ring.A, d.Ring.A)
	copy(h.Ring.B, d.Ring.B)
	h.LUT.CopyFrom(d.LUT)
	copy(h.ELUT.Poly.A, d.ELUT.Poly.A)
	copy(h.ELUT.Poly.B, d.ELUT.Poly.B)
	for i := range h.GSW.TRLWE {
		copy(h.GSW.TRLWE[i].A, d.GSW.TRLWE[i].A)
		copy(h.GSW.TRLWE[i].B, d.GSW.TRLWE[i].B)
	}
	for i := range h.GSWFT.TRLWEFFT {
		copy(h.GSWFT.TRLWEFFT[i].A.Coeffs, d.GSWFT.TRLWEFFT[i].A.Coeffs)
		copy(h.GSWFT.TRLWEFFT[i].B.Coeffs, d.GSWFT.TRLWEFFT[i].B.Coeffs)
	}
}

// ---- another process -----------------------------------------------------------------

// Parcel is what the other process receives.
type Parcel struct {
	Level int
	Warm  int // level used first in that process, 0: none
	Case  Case
	Data  *Data
}

func child(path string) {
	var p Parcel
	readGob(path, &p)
	if p.Warm != 0 {
		core.SetLevel(core.Level(p.Warm))
		gates.NOT(gates.Constant(true))
		pb.NewEval()
	}
	core.SetLevel(core.Level(p.Level))
	core.ForceSeeded()
	out := eval(p.Data, p.Case, pb.NewEval(), poly.NewEvaluator(params.GetTRGSWLv1().N))
	if _, err := os.Stdout.Write(enc(out)); err != nil {
		panic(err)
	}
}

func runProc(c *core.Ctx, cs Case) error {
	f := get(c.Level, 0)
	d := f.data(cs)
	want := eval(d, cs, pb.NewEval(), f.pe)
	dir, err := os.MkdirTemp("", "verif_c27_")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	warm := 0
	if cs.Seed%2 == 1 {
		warm = 2
	}
	file := filepath.Join(dir, "parcel")
	writeGob(file, Parcel{Level: int(c.Level), Warm: warm, Case: cs, Data: d})
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self, "-child", file)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		return core.Errf("evaluating %v in another process failed: %v\n%.600s", cs.Ops, err, se.String())
	}
	var got [][]core.Torus
	dec(so.Bytes(), &got)
	c.Count("processes", 1)
	return compare("another process", cs, want, got)
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "-child" {
		child(os.Args[2])
		return
	}
	debug.SetGCPercent(40)
	nt := func(cs Case) bool { return len(cs.Ops) > 0 }
	core.Main(&core.Prop{
		ID:   "C27",
		Rule: fmt.Sprintf("case = 1-10 operations of %d kinds on keys, tables and ciphertexts, evaluated with the originals and with copies made from the exported data (gob, JSON), in another process, and with objects whose contents are overwritten by those of another key pair and back; oracle = bitwise equal results; non-trivial: any operation", len(opKinds)),
		Subs: []*core.Sub{core.NewSub("copy", gen, nt, run), core.NewSub("process", genProc, nt, runProc)},
		Plan: func(tier string) []core.Job {
			n := map[core.Level]int{80: 40, 110: 30, 128: 26, 1: 36, 2: 130}
			np := map[core.Level]int{80: 6, 110: 5, 128: 5, 1: 5, 2: 14}
			f := 1
			if tier == "thorough" {
				f = 10
			}
			var js []core.Job
			for _, l := range []core.Level{128, 110, 1, 80, 2} {
				js = append(js, core.Job{Level: l, Procs: 2, Runs: []core.RunSpec{{Sub: "copy", N: n[l] * f}, {Sub: "process", N: np[l] * f}}})
			}
			return js
		},
		Assume: []string{"both processes run the same binary on the same machine; the library's randomness is seeded for the randomised operations"},
	})
}
