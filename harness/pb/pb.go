// Package pb holds helpers shared by the bootstrapping-level checks.
package pb

import (
	"math/rand/v2"

	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"verif/core"
)

// MaxModulus is the largest message modulus exercised with programmable bootstrapping.
var MaxModulus = map[core.Level]int{80: 5, 110: 5, 128: 5, 1: 5, 2: 8, 3: 16, 4: 32, 5: 32, 6: 64, 7: 64, 8: 64}

// NewEval makes an evaluator for the current level.
func NewEval() *evaluator.Evaluator { return evaluator.NewEvaluator(params.GetTRGSWLv1().N) }

var evals = map[core.Level]*evaluator.Evaluator{}

// Eval is a cached evaluator of the level.
func Eval(l core.Level) *evaluator.Evaluator {
	core.SetLevel(l)
	if e, ok := evals[l]; ok {
		return e
	}
	e := NewEval()
	evals[l] = e
	return e
}

// Encode is message x of modulus m on the torus, x*2^31/m.
func Encode(x, m int) core.Torus {
	x = Mod(x, m)
	return core.F2T(float64(x) / float64(2*m))
}

// Mod is the mathematical remainder.
func Mod(x, m int) int {
	x %= m
	if x < 0 {
		x += m
	}
	return x
}

// InSlot tells whether rotation index idx (of 2N) lies safely inside message x's slot.
func InSlot(idx, x, m, n int) bool {
	d := float64(idx) - float64(x)*float64(n)/float64(m)
	for d >= float64(n) {
		d -= 2 * float64(n)
	}
	for d < -float64(n) {
		d += 2 * float64(n)
	}
	if d < 0 {
		d = -d
	}
	return d <= float64(n)/float64(2*m)-2
}

// CraftIdx builds a ciphertext with the given mask whose blind-rotation index is exactly
// idx; sub in [0,1) places the body inside its rounding cell (0 = lower edge).
func CraftIdx(s []core.Torus, mask []core.Torus, idx, n int, sub float64) *tlwe.TLWELv0 {
	nbit := 0
	for 1<<nbit < n {
		nbit++
	}
	sh := 32 - nbit - 1
	half := core.Torus(1) << (sh - 1)
	p := make([]core.Torus, len(s)+1)
	copy(p, mask)
	acc := idx
	for i := range s {
		if s[i] != 0 {
			acc += int((p[i] + half) >> sh)
		}
	}
	acc = Mod(acc, 2*n)
	cell := core.Torus(1) << sh
	off := core.Torus(sub * float64(cell))
	if off >= cell {
		off = cell - 1
	}
	p[len(s)] = core.Torus(acc)<<sh - half + off
	return &tlwe.TLWELv0{P: p}
}

// Noise draws a small normal displacement in torus units.
func Noise(r *rand.Rand, sigma float64) core.Torus {
	return core.Torus(int32(r.NormFloat64() * sigma * (1 << 32)))
}
