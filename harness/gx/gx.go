// Package gx holds the gate tables shared by the gate-level checks.
package gx

import (
	"math"
	"math/rand/v2"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"verif/core"
)

type CT = tlwe.TLWELv0

// Gate is a boolean gate with its truth function.
type Gate struct {
	Name  string
	Arity int
	Truth func(a, b, c bool) bool
	Eval  func(a, b, c *CT, ck *cloudkey.CloudKey) *CT
	Boot  bool // result is bootstrapped
	XorTy bool // combines its operands with a factor 2
}

func two(f func(a, b *CT, ck *cloudkey.CloudKey) *CT) func(a, b, c *CT, ck *cloudkey.CloudKey) *CT {
	return func(a, b, c *CT, ck *cloudkey.CloudKey) *CT { return f(a, b, ck) }
}

// Gates lists all gates.
var Gates = []Gate{
	{"NAND", 2, func(a, b, c bool) bool { return !(a && b) }, two(gates.NAND), true, false},
	{"AND", 2, func(a, b, c bool) bool { return a && b }, two(gates.AND), true, false},
	{"OR", 2, func(a, b, c bool) bool { return a || b }, two(gates.OR), true, false},
	{"XOR", 2, func(a, b, c bool) bool { return a != b }, two(gates.XOR), true, true},
	{"XNOR", 2, func(a, b, c bool) bool { return a == b }, two(gates.XNOR), true, true},
	{"NOR", 2, func(a, b, c bool) bool { return !(a || b) }, two(gates.NOR), true, false},
	{"ANDNY", 2, func(a, b, c bool) bool { return !a && b }, two(gates.ANDNY), true, false},
	{"ANDYN", 2, func(a, b, c bool) bool { return a && !b }, two(gates.ANDYN), true, false},
	{"ORNY", 2, func(a, b, c bool) bool { return !a || b }, two(gates.ORNY), true, false},
	{"ORYN", 2, func(a, b, c bool) bool { return a || !b }, two(gates.ORYN), true, false},
	{"MUX", 3, func(a, b, c bool) bool {
		if a {
			return b
		}
		return c
	}, func(a, b, c *CT, ck *cloudkey.CloudKey) *CT { return gates.MUX(a, b, c, ck) }, true, false},
	{"NOT", 1, func(a, b, c bool) bool { return !a }, func(a, b, c *CT, ck *cloudkey.CloudKey) *CT { return gates.NOT(a) }, false, false},
	{"COPY", 1, func(a, b, c bool) bool { return a }, func(a, b, c *CT, ck *cloudkey.CloudKey) *CT { return gates.Copy(a) }, false, false},
}

// Names of all gates.
func Names() []string {
	var s []string
	for _, g := range Gates {
		s = append(s, g.Name)
	}
	return s
}

// BootNames are the bootstrapped gates.
func BootNames() []string {
	var s []string
	for _, g := range Gates {
		if g.Boot {
			s = append(s, g.Name)
		}
	}
	return s
}

// ByName finds a gate.
func ByName(n string) *Gate {
	for i := range Gates {
		if Gates[i].Name == n {
			return &Gates[i]
		}
	}
	return nil
}

// Batch is a batch gate.
type Batch struct {
	Name string
	F    func([][2]*CT, *cloudkey.CloudKey) []*CT
}

// Batches lists the batch gates; Name is the single gate they must agree with.
var Batches = []Batch{
	{"NAND", gates.BatchNAND}, {"AND", gates.BatchAND}, {"OR", gates.BatchOR},
	{"XOR", gates.BatchXOR}, {"NOR", gates.BatchNOR}, {"XNOR", gates.BatchXNOR},
}

// BatchByName finds a batch gate.
func BatchByName(n string) *Batch {
	for i := range Batches {
		if Batches[i].Name == n {
			return &Batches[i]
		}
	}
	return nil
}

// BatchNames lists names.
func BatchNames() []string {
	var s []string
	for _, b := range Batches {
		s = append(s, b.Name)
	}
	return s
}

// Mu is the encoding of a boolean.
func Mu(b bool) core.Torus {
	if b {
		return 1 << 29
	}
	return 7 << 29
}

// Dev is the distance of a ciphertext's phase from the encoding of bit b.
func Dev(p []core.Torus, s []core.Torus, b bool) float64 {
	return math.Abs(core.Diff(core.Phase(p, s), Mu(b)))
}

// Load is the worst-case displacement of the gate's linear combination given the
// operand displacements.
func (g *Gate) Load(d []float64) float64 {
	if !g.Boot {
		return 0
	}
	switch {
	case g.XorTy:
		return math.Max(d[0]+2*d[1], 2*d[0]+d[1])
	case g.Arity == 3:
		return math.Max(d[0]+d[1], d[0]+d[2])
	default:
		return d[0] + d[1]
	}
}

// Margin is the largest load for which the gate must answer correctly at the
// current level: 1/8 minus the rounding to 2N slots.
func Margin() float64 { return 0.125 - core.ModSwitch() }

// Fresh encrypts with the level's default noise.
func Fresh(k *core.Keys, b bool) *CT {
	return tlwe.NewTLWELv0().EncryptBool(b, params.GetTLWELv0().ALPHA, k.SK.KeyLv0)
}

// Crafted builds a ciphertext of bit b with phase displaced by dev. Styles: "uniform"
// mask, "zero" mask, "spiked" (uniform with some boundary-valued coefficients). Fully
// structured masks are not generated: rounding and decomposition errors then add up
// coherently, which is outside the noise model (and has negligible probability).
func Crafted(r *rand.Rand, k *core.Keys, b bool, dev float64, style string) *CT {
	s := k.SK.KeyLv0
	p := make([]core.Torus, len(s)+1)
	copy(p, core.FillMask(r, style, len(s)))
	ph := Mu(b) + core.Torus(int32(dev*(1<<32)))
	for i := range s {
		ph += p[i] * s[i]
	}
	p[len(s)] = ph
	return &CT{P: p}
}

// CheckOut checks a bootstrapped or linear gate output against the expected bit.
func CheckOut(c *core.Ctx, k *core.Keys, what string, out *CT, want bool, tol float64) error {
	if out == nil {
		return core.Errf("%s returned nil", what)
	}
	if len(out.P) != len(k.SK.KeyLv0)+1 {
		return core.Errf("%s returned a ciphertext of length %d, want %d", what, len(out.P), len(k.SK.KeyLv0)+1)
	}
	d := Dev(out.P, k.SK.KeyLv0, want)
	if d > tol {
		return core.Errf("%s: phase is %.5f away from the encoding of %v (bound %.5f); decrypts to %v", what, d, want, tol, out.DecryptBool(k.SK.KeyLv0))
	}
	if got := out.DecryptBool(k.SK.KeyLv0); got != want {
		return core.Errf("%s decrypts to %v, want %v", what, got, want)
	}
	if tol == core.Tol(k.Level) {
		c.Max("max_dev_over_sigma", d/core.Sigma(k.Level))
	}
	return nil
}
