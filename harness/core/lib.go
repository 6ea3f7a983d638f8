package core

import (
	crand "crypto/rand"
	"fmt"
	"math"
	"math/rand/v2"
	"sync"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"pgregory.net/rapid"
)

type Torus = params.Torus
type Level = params.SecurityLevel

// AllLevels are all eleven levels; EvalLevels those with (non-experimental) bootstrapping.
var (
	AllLevels  = []Level{80, 110, 128, 1, 2, 3, 4, 5, 6, 7, 8}
	EvalLevels = []Level{80, 110, 128, 1, 2, 3, 4, 5}
)

// ---- deterministic system randomness ------------------------------------

type drbg struct {
	mu sync.Mutex
	c  *rand.ChaCha8
}

func (d *drbg) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.c.Read(p)
}

func newDRBG(seed uint64) *drbg {
	var s [32]byte
	for i := 0; i < 4; i++ {
		v := splitmix(seed + uint64(i)*0x1234567)
		for j := 0; j < 8; j++ {
			s[i*8+j] = byte(v >> (8 * j))
		}
	}
	return &drbg{c: rand.NewChaCha8(s)}
}

var deterministic bool
var fixtureSeed uint64

func setup(p *Prop, seed uint64) {
	fixtureSeed = seed
	deterministic = !p.RealRandom
	if deterministic {
		crand.Reader = newDRBG(seed)
	}
}

// SeedLib makes the library's randomness a function of seed (unless the
// property works on the real generator).
func SeedLib(seed uint64) {
	if deterministic {
		crand.Reader = newDRBG(splitmix(seed ^ 0xabcdef))
	}
}

// RNG derives a harness generator from a drawn seed.
func RNG(seed uint64) *rand.Rand { return rand.New(rand.NewPCG(seed, 0x5eed)) }

// ---- fixtures --------------------------------------------------------------

// Keys is a key pair of one level.
type Keys struct {
	Level Level
	SK    *key.SecretKey
	CK    *cloudkey.CloudKey
}

var keyCache = map[string]*Keys{}

// SetLevel selects the level.
func SetLevel(l Level) { params.CurrentSecurityLevel = l }

// GetKeys returns the cached key pair (with cloud key) number idx for level l and selects l.
func GetKeys(l Level, idx int) *Keys {
	SetLevel(l)
	k := GetSecret(l, idx)
	if k.CK == nil {
		withSeed(splitmix(fixtureSeed+uint64(l)*31+uint64(idx)+1), func() { k.CK = cloudkey.NewCloudKey(k.SK) })
	}
	return k
}

// GetSecret returns a key pair whose cloud key may be nil, and selects l.
func GetSecret(l Level, idx int) *Keys {
	SetLevel(l)
	id := fmt.Sprintf("%d/%d", l, idx)
	if k, ok := keyCache[id]; ok {
		return k
	}
	k := &Keys{Level: l}
	withSeed(splitmix(fixtureSeed+uint64(l)*131+uint64(idx)*977), func() { k.SK = key.NewSecretKey() })
	keyCache[id] = k
	return k
}

func withSeed(seed uint64, f func()) {
	if !deterministic {
		f()
		return
	}
	old := crand.Reader
	crand.Reader = newDRBG(seed)
	defer func() { crand.Reader = old }()
	f()
}

// ---- exact arithmetic oracles ------------------------------------------------

// Phase returns b - <a,s> of an LWE sample p = (a..., b).
func Phase(p []Torus, s []Torus) Torus {
	n := len(s)
	ph := p[n]
	for i := 0; i < n; i++ {
		ph -= p[i] * s[i]
	}
	return ph
}

// Diff is the signed torus distance a-b in units of the torus (in [-1/2,1/2)).
func Diff(a, b Torus) float64 { return float64(int32(a-b)) / (1 << 32) }

// AbsDiff is |Diff|.
func AbsDiff(a, b Torus) float64 { return math.Abs(Diff(a, b)) }

// F2T is an independent real-to-torus conversion (rounding to nearest).
func F2T(x float64) Torus {
	x -= math.Floor(x)
	return Torus(uint64(math.Round(x*(1<<32))) & 0xffffffff)
}

// MulExact is the negacyclic product mod 2^32, schoolbook.
func MulExact(a, b []Torus) []Torus {
	n := len(a)
	out := make([]Torus, n)
	for i := 0; i < n; i++ {
		ai := a[i]
		if ai == 0 {
			continue
		}
		lo := out[i:]
		bl := b[:n-i]
		for j, v := range bl {
			lo[j] += ai * v
		}
		bh := b[n-i:]
		for j, v := range bh {
			out[j] -= ai * v
		}
	}
	return out
}

// MulBinary multiplies by a 0/1 polynomial s (fast path of MulExact).
func MulBinary(a, s []Torus) []Torus {
	return MulExact(s, a)
}

// RingPhase returns B - A*s.
func RingPhase(c *trlwe.TRLWELv1, s []Torus) []Torus {
	as := MulExact(s, c.A)
	out := make([]Torus, len(as))
	for i := range out {
		out[i] = c.B[i] - as[i]
	}
	return out
}

// Rotate multiplies by X^k per definition.
func Rotate(a []Torus, k int) []Torus {
	n := len(a)
	out := make([]Torus, n)
	for i := range a {
		e := i + k
		q := e / (2 * n)
		e -= q * 2 * n
		if e < 0 {
			e += 2 * n
		}
		if e < n {
			out[e] = a[i]
		} else {
			out[e-n] = -a[i]
		}
	}
	return out
}

// MakeLWE builds an LWE sample of exactly the given phase under s with random mask.
func MakeLWE(r *rand.Rand, s []Torus, phase Torus) []Torus {
	n := len(s)
	p := make([]Torus, n+1)
	b := phase
	for i := 0; i < n; i++ {
		p[i] = Torus(r.Uint32())
		b += p[i] * s[i]
	}
	p[n] = b
	return p
}

// MakeLv0 wraps MakeLWE.
func MakeLv0(r *rand.Rand, s []Torus, phase Torus) *tlwe.TLWELv0 {
	return &tlwe.TLWELv0{P: MakeLWE(r, s, phase)}
}

// MakeRing builds a TRLWE sample of exactly the given phase polynomial.
func MakeRing(r *rand.Rand, s []Torus, phase []Torus) *trlwe.TRLWELv1 {
	n := len(s)
	c := &trlwe.TRLWELv1{A: make([]Torus, n), B: make([]Torus, n)}
	for i := range c.A {
		c.A[i] = Torus(r.Uint32())
	}
	as := MulExact(s, c.A)
	for i := range c.B {
		c.B[i] = as[i] + phase[i]
	}
	return c
}

// Clone copies a slice.
func Clone(a []Torus) []Torus { return append([]Torus(nil), a...) }

// Equal compares slices.
func Equal(a, b []Torus) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Hash is a quick content hash for snapshots.
func Hash(as ...[]Torus) uint64 {
	h := uint64(1469598103934665603)
	for _, a := range as {
		for _, v := range a {
			h = (h ^ uint64(v)) * 1099511628211
			h ^= h >> 29
		}
		h = h*31 + uint64(len(a))
	}
	return h
}

// HashF hashes floats.
func HashF(as ...[]float64) uint64 {
	h := uint64(1469598103934665603)
	for _, a := range as {
		for _, v := range a {
			h = (h ^ math.Float64bits(v)) * 1099511628211
			h ^= h >> 29
		}
	}
	return h
}

// HashCK hashes a whole cloud key.
func HashCK(ck *cloudkey.CloudKey) uint64 {
	h := uint64(ck.DecompositionOffset)
	h = h*1000003 ^ Hash(ck.BlindRotateTestvec.A, ck.BlindRotateTestvec.B)
	for _, e := range ck.KeySwitchingKey {
		h = h*1000003 ^ Hash(e.P)
	}
	for _, e := range ck.BootstrappingKey {
		for _, r := range e.TRLWEFFT {
			h = h*1000003 ^ HashF(r.A.Coeffs, r.B.Coeffs)
		}
	}
	return h
}

// BRIndex is the rotation index selected by an LWE sample: components rounded to
// multiples of 1/(2N). ties is the number of components exactly half way.
func BRIndex(p []Torus, s []Torus, n int) (idx, ties int) {
	nbit := 0
	for 1<<nbit < n {
		nbit++
	}
	sh := 32 - nbit - 1
	half := Torus(1) << (sh - 1)
	rd := func(x Torus) int {
		if x&(half<<1-1) == half {
			ties++
		}
		return int((x+half)>>sh) % (2 * n)
	}
	acc := rd(p[len(s)])
	for i := range s {
		if s[i] != 0 {
			acc -= rd(p[i]) * int(s[i])
		}
	}
	acc %= 2 * n
	if acc < 0 {
		acc += 2 * n
	}
	return acc, ties
}

// TableAt is the negacyclic table entry at rotation index idx in [0,2N).
func TableAt(tab []Torus, idx int) Torus {
	n := len(tab)
	idx %= 2 * n
	if idx < 0 {
		idx += 2 * n
	}
	if idx < n {
		return tab[idx]
	}
	return -tab[idx-n]
}

// ---- generators ---------------------------------------------------------------

// GenTorus draws torus values with boundary emphasis.
func GenTorus() *rapid.Generator[uint32] {
	return rapid.Custom(func(t *rapid.T) uint32 {
		switch Pick(t, "kind", 6) {
		case 0:
			return Choose(t, "special", []uint32{0, 1, 2, 0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff, 0x80000001, 0x40000000, 0xc0000000, 0x20000000, 0xe0000000})
		case 1: // near a power of two
			sh := IntIn(t, "sh", 0, 31)
			d := IntIn(t, "d", -2, 2)
			return uint32(1)<<sh + uint32(int32(d))
		case 2: // all-ones runs
			sh := IntIn(t, "sh", 0, 31)
			return ^uint32(0) << sh
		default:
			return uint32(bitsGen(32).Draw(t, "u"))
		}
	})
}

// bitsGen draws k unbiased bits (rapid's integer generators favour small values).
func bitsGen(k int) *rapid.Generator[uint64] {
	return rapid.Custom(func(t *rapid.T) uint64 {
		var v uint64
		for i := 0; i < k; i++ {
			v <<= 1
			if rapid.Bool().Draw(t, "b") {
				v |= 1
			}
		}
		return v
	})
}

// GenSeed draws a case seed.
func GenSeed(t *rapid.T) uint64 { return bitsGen(28).Draw(t, "seed") }

// Pick draws an (almost) unbiased index below n; shrinks toward 0.
func Pick(t *rapid.T, name string, n int) int {
	k := 6
	for 1<<(k-6) < n {
		k++
	}
	// the high-order part decides, so that shrinking bits moves toward index 0
	return int(bitsGen(k).Draw(t, name) * uint64(n) >> k)
}

// IntIn draws an unbiased integer in [lo, hi].
func IntIn(t *rapid.T, name string, lo, hi int) int { return lo + Pick(t, name, hi-lo+1) }

// Choose draws an unbiased element.
func Choose[T any](t *rapid.T, name string, xs []T) T { return xs[Pick(t, name, len(xs))] }

// FillTorus fills n values from a seed according to a named style.
func FillTorus(style string, seed uint64, n int) []Torus {
	r := RNG(seed)
	out := make([]Torus, n)
	switch style {
	case "zero":
	case "ones":
		for i := range out {
			out[i] = 0xffffffff
		}
	case "min":
		for i := range out {
			out[i] = 0x80000000
		}
	case "max":
		for i := range out {
			out[i] = 0x7fffffff
		}
	case "const":
		v := Torus(r.Uint32())
		for i := range out {
			out[i] = v
		}
	case "extreme":
		sp := []Torus{0, 1, 0xffffffff, 0x80000000, 0x7fffffff, 0x80000001}
		for i := range out {
			out[i] = sp[r.IntN(len(sp))]
		}
	case "sparse":
		k := 1 + r.IntN(4)
		for i := 0; i < k; i++ {
			out[r.IntN(n)] = Torus(r.Uint32())
		}
	case "monomial":
		out[r.IntN(n)] = []Torus{1, 0xffffffff, 0x80000000, Torus(r.Uint32())}[r.IntN(4)]
	case "small":
		for i := range out {
			out[i] = Torus(int32(r.IntN(129) - 64))
		}
	case "pow2":
		for i := range out {
			out[i] = Torus(1)<<r.IntN(32) + Torus(int32(r.IntN(3)-1))
		}
	default: // uniform
		for i := range out {
			out[i] = Torus(r.Uint32())
		}
	}
	return out
}

// MaskStyles of FillMask.
var MaskStyles = []string{"uniform", "spiked", "zero", "spiked", "uniform"}

// FillMask makes an LWE mask: uniform, zero, or uniform with up to 24 coefficients at
// boundary values (0, maxima, rounding boundaries).
func FillMask(r *rand.Rand, style string, n int) []Torus {
	out := make([]Torus, n)
	if style == "zero" {
		return out
	}
	for i := range out {
		out[i] = Torus(r.Uint32())
	}
	if style == "spiked" {
		sp := []Torus{0, 1, 0xffffffff, 0x80000000, 0x7fffffff, 0x80000001, 1 << 21, 1<<21 - 1, 1<<20 - 1, 1 << 20, 1<<19 - 1, 0xfff00000, 0xffe00000, 0xfff00000 - 1, 0xfff80000}
		for i := 0; i < 1+r.IntN(24); i++ {
			pos := r.IntN(n)
			if r.IntN(6) == 0 {
				pos = []int{0, n - 1}[r.IntN(2)]
			}
			out[pos] = sp[r.IntN(len(sp))]
		}
	}
	return out
}

// Styles of FillTorus.
var Styles = []string{"uniform", "uniform2", "zero", "ones", "min", "max", "const", "extreme", "sparse", "monomial", "small", "pow2"}

// GenStyle draws a fill style.
func GenStyle(t *rapid.T, name string) string { return Choose(t, name, Styles) }

// Bits draws n booleans (as ints for compact JSON).
func GenBits(t *rapid.T, n int, name string) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = Pick(t, name, 2)
	}
	return out
}

// Errf is fmt.Errorf.
func Errf(f string, a ...any) error { return fmt.Errorf(f, a...) }

// LevelJobs makes one job per level with the same runs.
func LevelJobs(levels []Level, runs ...RunSpec) []Job {
	var js []Job
	for _, l := range levels {
		js = append(js, Job{Level: l, Runs: runs})
	}
	return js
}

// Scale multiplies run sizes.
func Scale(runs []RunSpec, f float64) []RunSpec {
	var out []RunSpec
	for _, r := range runs {
		n := int(float64(r.N)*f + 0.5)
		if n < 1 {
			n = 1
		}
		out = append(out, RunSpec{r.Sub, n})
	}
	return out
}

// ForceSeeded lets SeedLib work in a process that was not started through Main.
func ForceSeeded() { deterministic = true }
