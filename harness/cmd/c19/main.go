// C19: fresh noise has the magnitude and shape the parameter set declares.
package main

import (
	"math"
	"math/rand/v2"
	"slices"

	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"github.com/thedonutfactory/go-tfhe/utils"
	"pgregory.net/rapid"
	"verif/core"
)

const ulp = 1.0 / (1 << 32)

// series collects (noise, plaintext, mask word) samples in order.
type series struct {
	e, p, a []float64
	groups  map[gkey]*group
}

// gkey names a structural position of noise values: a row of a gadget ciphertext, a coefficient, an
// index in a public key (from either end), a residue of the sequence number, a level of a key. The
// declared deviation must hold at every position, not only on average over all of them.
type gkey struct {
	kind string
	a, b int
}

type group struct{ n, sum, sq float64 }

func (s *series) at(e float64, kind string, a, b int) {
	if s.groups == nil {
		s.groups = map[gkey]*group{}
	}
	k := gkey{kind, a, b}
	g := s.groups[k]
	if g == nil {
		g = &group{}
		s.groups[k] = g
	}
	g.n++
	g.sum += e
	g.sq += e * e
}

// judgeGroups applies the two-sided deviation and the mean to every position with enough samples.
// The bounds are the Wilson-Hilferty quantiles of the chi-square distribution at z.
func (s *series) judgeGroups(what string, alpha, slack float64) error {
	if alpha < 20*ulp {
		return nil
	}
	for i, e := range s.e {
		s.at(e, "sequence number mod 2", i%2, 0)
		s.at(e, "sequence number mod 3", i%3, 0)
		s.at(e, "sequence number mod 4", i%4, 0)
		s.at(e, "sequence number mod 16", i%16, 0)
	}
	for k, g := range s.groups {
		if g.n < 8 {
			continue
		}
		if alpha > 100*ulp && math.Sqrt(g.sq/g.n) <= slack {
			return core.Errf("%s: no noise at %s %d,%d (%d samples, declared deviation %.4g)", what, k.kind, k.a, k.b, int(g.n), alpha)
		}
		if g.n < 24 {
			continue
		}
		std := math.Sqrt(g.sq / g.n)
		q := math.Sqrt(2 / (9 * g.n))
		up := math.Pow(1-2/(9*g.n)+z*q, 1.5)
		low := math.Pow(math.Max(0, 1-2/(9*g.n)-z*q), 1.5)
		if std > alpha*up*1.02+slack+ulp {
			return core.Errf("%s: noise deviation %.5g at %s %d,%d over %d samples, declared %.5g", what, std, k.kind, k.a, k.b, int(g.n), alpha)
		}
		if std < alpha*low*0.98-slack-ulp {
			return core.Errf("%s: noise deviation only %.5g at %s %d,%d over %d samples, declared %.5g", what, std, k.kind, k.a, k.b, int(g.n), alpha)
		}
		if m := g.sum / g.n; math.Abs(m) > z*alpha/math.Sqrt(g.n)+slack+ulp {
			return core.Errf("%s: noise is not centred at %s %d,%d: mean %.4g over %d samples, deviation %.4g", what, k.kind, k.a, k.b, m, int(g.n), alpha)
		}
	}
	return nil
}

func (s *series) add(e float64, p, a core.Torus) {
	s.e = append(s.e, e)
	s.p = append(s.p, float64(int32(p))/(1<<31))
	s.a = append(s.a, float64(int32(a))/(1<<31))
}

const z = 7.5

// truncMoments: standard deviation of trunc(sigma*Z) in units (sigma in units).
func truncStd(sigma float64) float64 {
	if sigma > 200 {
		return sigma
	}
	if sigma == 0 {
		return 0
	}
	v := 0.0
	for k := 1; k < int(12*sigma)+3; k++ {
		// P(k <= |x| < k+1)
		pr := math.Erfc(float64(k)/sigma/math.Sqrt2) - math.Erfc(float64(k+1)/sigma/math.Sqrt2)
		v += pr * float64(k) * float64(k)
	}
	return math.Sqrt(v)
}

// judge tests the series against a centred normal of deviation alpha (torus units); slack is an
// additional absolute uncertainty of each sample in torus units.
func (s *series) judge(what string, alpha, slack float64) error {
	n := float64(len(s.e))
	var m, m2, m4, mx, lag, cp, ca, pp, aa, pm, am, inner float64
	for _, e := range s.e {
		m += e
	}
	m /= n
	for i := range s.p {
		pm += s.p[i]
		am += s.a[i]
	}
	pm /= n
	am /= n
	prev := 0.0
	for i, e := range s.e {
		d := e - m
		m2 += d * d
		m4 += d * d * d * d
		mx = math.Max(mx, math.Abs(e))
		if i > 0 {
			lag += d * prev
		}
		prev = d
		cp += d * (s.p[i] - pm)
		ca += d * (s.a[i] - am)
		pp += (s.p[i] - pm) * (s.p[i] - pm)
		aa += (s.a[i] - am) * (s.a[i] - am)
		if math.Abs(e) < alpha {
			inner++
		}
	}
	std := math.Sqrt(m2 / n)
	if alpha == 0 {
		if mx > slack {
			return core.Errf("%s: requested deviation 0 but noise up to %.3g", what, mx)
		}
		return nil
	}
	if math.Abs(m) > z*alpha/math.Sqrt(n)+ulp/2+slack {
		return core.Errf("%s: noise is not centred: mean %.4g over %d samples (deviation %.4g)", what, m, len(s.e), alpha)
	}
	lo, hi := truncStd(alpha/ulp)*ulp, alpha // any rounding rule lies between
	hi = math.Sqrt(hi*hi + ulp*ulp/3)
	rel := z / math.Sqrt(2*n)
	if std > hi*(1+rel)+slack {
		return core.Errf("%s: noise deviation %.5g over %d samples, declared %.5g", what, std, len(s.e), alpha)
	}
	if std < lo*(1-rel)-slack {
		return core.Errf("%s: noise deviation only %.5g over %d samples, declared %.5g", what, std, len(s.e), alpha)
	}
	if mx > 8*alpha+slack+ulp {
		return core.Errf("%s: noise value %.3g, declared deviation %.3g", what, mx, alpha)
	}
	if alpha < 20*ulp {
		return nil // shape not resolvable
	}
	// shape: kurtosis and mass within one deviation
	if k := m4 / n / (std * std * std * std); math.Abs(k-3) > z*math.Sqrt(24/n)*1.3+0.02 {
		return core.Errf("%s: noise is not Gaussian: kurtosis %.3f over %d samples", what, k, len(s.e))
	}
	if f := inner / n; math.Abs(f-0.682689) > z*math.Sqrt(0.2166/n)+0.01 {
		return core.Errf("%s: %.3f of the noise within one deviation, want 0.683", what, f)
	}
	cz := z / math.Sqrt(n) * 1.1
	if r := lag / m2; math.Abs(r) > cz {
		return core.Errf("%s: successive noise values are correlated: %.4f over %d samples", what, r, len(s.e))
	}
	if pp > 0 {
		if r := cp / math.Sqrt(m2*pp); math.Abs(r) > cz {
			return core.Errf("%s: noise is correlated with the plaintext: %.4f", what, r)
		}
	}
	if aa > 0 {
		if r := ca / math.Sqrt(m2*aa); math.Abs(r) > cz {
			return core.Errf("%s: noise is correlated with the mask: %.4f", what, r)
		}
	}
	return nil
}

type Case struct {
	Seed  uint64
	Kind  string
	Alpha float64 // -1: the level's
	Plain string
	Key   string
	Deep  bool // rings: enough samples for every coefficient
	Size  int  // public key size
}

func gen(t *rapid.T, c *core.Ctx) Case {
	cs := Case{Seed: core.GenSeed(t), Kind: core.Choose(t, "kind", []string{"lwe0", "lwe0bool", "lwe0msg", "lwe1", "lwe1bool", "ring", "ringbool", "gadget", "pubkey", "pkenc", "gauss", "gaussvec"}), Plain: core.Choose(t, "plain", []string{"uniform", "zero", "bits"}), Key: core.Choose(t, "key", []string{"gen", "gen", "ones"})}
	cs.Deep = core.Pick(t, "deep", 6) == 0
	cs.Size = core.Choose(t, "size", []int{1, 2, 3, 7, 16, 100, 257, 1000})
	switch core.Pick(t, "ak", 4) {
	case 0, 1:
		cs.Alpha = -1
	case 2:
		cs.Alpha = 0
	default:
		cs.Alpha = math.Ldexp(1, -core.IntIn(t, "exp", 5, 31)) * (1 + float64(core.Pick(t, "man", 16))/16)
	}
	return cs
}

func plain(style string, r *rand.Rand) float64 {
	switch style {
	case "zero":
		return 0
	case "bits":
		return 0.125 * float64(2*r.IntN(2)-1)
	}
	return float64(int32(r.Uint32())) / (1 << 33) // stays representable
}

func run(c *core.Ctx, cs Case) error {
	core.SetLevel(c.Level)
	core.SeedLib(cs.Seed)
	r := core.RNG(cs.Seed)
	sk := key.NewSecretKey()
	if cs.Key == "ones" {
		for i := range sk.KeyLv0 {
			sk.KeyLv0[i] = 1
		}
		for i := range sk.KeyLv1 {
			sk.KeyLv1[i] = 1
		}
	}
	s0, s1 := sk.KeyLv0, sk.KeyLv1
	lvl0 := cs.Kind == "lwe0" || cs.Kind == "lwe0bool" || cs.Kind == "lwe0msg" || cs.Kind == "pubkey" || cs.Kind == "pkenc"
	alpha := cs.Alpha
	if alpha < 0 {
		if lvl0 {
			alpha = params.KSKAlpha()
		} else {
			alpha = params.BSKAlpha()
		}
	}
	n := 12000
	if cs.Deep && (cs.Kind == "ring" || cs.Kind == "ringbool") {
		n = 40 * len(s1)
	}
	if cs.Deep && cs.Kind == "gadget" {
		n = 40 * len(s1) * 2 * params.GetTRGSWLv1().L
	}
	pe := poly.NewEvaluator(params.GetTRGSWLv1().N)
	ser := &series{}
	noise := func(ph, want core.Torus) float64 { return core.Diff(ph, want) }
	slack := 0.0
	switch cs.Kind {
	case "lwe0", "lwe0bool", "lwe0msg":
		for i := 0; i < n; i++ {
			ct := tlwe.NewTLWELv0()
			if i%2 == 0 {
				ct.P[0], ct.P[len(s0)] = 77, 99
			}
			var want core.Torus
			switch cs.Kind {
			case "lwe0":
				p := plain(cs.Plain, r)
				ct.EncryptF64(p, alpha, s0)
				want = core.F2T(p)
			case "lwe0bool":
				b := r.IntN(2) == 1
				ct.EncryptBool(b, alpha, s0)
				want = 1 << 29
				if !b {
					want = -want
				}
			default:
				m := r.IntN(16)
				ct.EncryptLWEMessage(m, 16, alpha, s0)
				want = core.Torus(m) << 27
			}
			ser.add(noise(core.Phase(ct.P, s0), want), want, ct.P[0])
		}
		slack = ulp
	case "lwe1", "lwe1bool":
		for i := 0; i < n; i++ {
			ct := tlwe.NewTLWELv1()
			var want core.Torus
			if cs.Kind == "lwe1" {
				p := plain(cs.Plain, r)
				ct.EncryptF64(p, alpha, s1)
				want = core.F2T(p)
			} else {
				b := r.IntN(2) == 1
				ct.EncryptBool(b, alpha, s1)
				want = 1 << 29
				if !b {
					want = -want
				}
			}
			ser.add(noise(core.Phase(ct.P, s1), want), want, ct.P[0])
		}
		slack = ulp
	case "ring", "ringbool":
		for len(ser.e) < n {
			p := make([]float64, len(s1))
			bs := make([]bool, len(s1))
			want := make([]core.Torus, len(s1))
			for i := range p {
				if cs.Kind == "ring" {
					p[i] = plain(cs.Plain, r)
					want[i] = core.F2T(p[i])
				} else {
					bs[i] = r.IntN(2) == 1
					want[i] = 1 << 29
					if !bs[i] {
						want[i] = -want[i]
					}
				}
			}
			var ct *trlwe.TRLWELv1
			if cs.Kind == "ring" {
				ct = trlwe.NewTRLWELv1().EncryptF64(p, alpha, s1, pe)
			} else {
				ct = trlwe.NewTRLWELv1().EncryptBool(bs, alpha, s1, pe)
			}
			for i, ph := range core.RingPhase(ct, s1) {
				ser.add(noise(ph, want[i]), want[i], ct.A[i])
				if cs.Deep {
					ser.at(ser.e[len(ser.e)-1], "coefficient", i, 0)
				}
			}
		}
		slack = 1.5 * ulp
	case "gadget":
		m := core.Torus(r.IntN(2))
		g := params.GetTRGSWLv1()
		for len(ser.e) < n {
			tg := trgsw.NewTRGSWLv1().EncryptTorus(m, alpha, s1, pe)
			for row, ct := range tg.TRLWE {
				h := core.Torus(1) << (32 - uint32(row%g.L+1)*g.BGBIT)
				for j, ph := range core.RingPhase(ct, s1) {
					var want core.Torus
					if row < g.L {
						want = -(m * h * s1[j])
					} else if j == 0 {
						want = m * h
					}
					ser.add(noise(ph, want), want, ct.A[j])
					ser.at(ser.e[len(ser.e)-1], "row", row, 0)
					if cs.Deep {
						ser.at(ser.e[len(ser.e)-1], "coefficient", j, 0)
						ser.at(ser.e[len(ser.e)-1], "row, coefficient", row, j)
					}
				}
			}
		}
		slack = 1.5 * ulp
	case "pubkey":
		var pk *proxyreenc.PublicKeyLv0
		for len(ser.e) < n {
			if cs.Alpha < 0 {
				pk = proxyreenc.NewPublicKeyLv0(s0)
			} else {
				pk = proxyreenc.NewPublicKeyLv0WithParams(s0, cs.Size, alpha)
			}
			for i, e := range pk.Encryptions {
				ser.add(noise(core.Phase(e.P, s0), 0), 0, e.P[0])
				if i < 32 {
					ser.at(ser.e[len(ser.e)-1], "public key entry", i, 0)
				}
				if j := len(pk.Encryptions) - 1 - i; j < 32 {
					ser.at(ser.e[len(ser.e)-1], "public key entry from the end", j, 0)
				}
			}
		}
		slack = ulp
	case "pkenc":
		pk := &proxyreenc.PublicKeyLv0{} // only the additional noise
		for i := 0; i < n; i++ {
			p := plain(cs.Plain, r)
			ct := pk.EncryptF64(p, alpha)
			ser.add(noise(ct.P[len(s0)], core.F2T(p)), core.F2T(p), 0)
		}
		slack = ulp
	case "gauss", "gaussvec":
		rng := utils.NewRand()
		for len(ser.e) < n {
			if cs.Kind == "gauss" {
				p := plain(cs.Plain, r)
				ser.add(noise(utils.GaussianF64(p, alpha, rng), core.F2T(p)), core.F2T(p), 0)
				ser.add(noise(utils.GaussianTorus(core.F2T(p), alpha, rng), core.F2T(p)), core.F2T(p), 0)
			} else {
				ps := make([]float64, 100)
				for i := range ps {
					ps[i] = plain(cs.Plain, r)
				}
				for i, v := range utils.GaussianF64Vec(ps, alpha, rng) {
					ser.add(noise(v, core.F2T(ps[i])), core.F2T(ps[i]), 0)
				}
			}
		}
		slack = ulp
	}
	c.Class(cs.Kind)
	c.Count("noise samples", float64(len(ser.e)))
	if alpha > 0 && alpha < ulp/4 {
		allZero := true
		for _, e := range ser.e {
			allZero = allZero && math.Abs(e) <= slack
		}
		if allZero && cs.Alpha < 0 {
			if !k2(c.Level) {
				return core.Errf("%s: no noise at all (declared deviation %.3g)", cs.Kind, alpha)
			}
			c.Known("K2")
		}
		for _, e := range ser.e {
			if math.Abs(e) > 8*alpha+slack+2*ulp {
				return core.Errf("%s: noise value %.3g, declared deviation %.3g", cs.Kind, e, alpha)
			}
		}
		return nil
	}
	if err := ser.judge(cs.Kind, alpha, slack); err != nil {
		return err
	}
	c.Count("noise positions judged separately", float64(len(ser.groups)))
	return ser.judgeGroups(cs.Kind, alpha, slack)
}

// k2: the levels of known finding K2.
func k2(l core.Level) bool { return l >= 2 && l <= 8 }

type CKCase struct{ Idx int }

// runCK measures the noise of all entries of a cloud key.
func runCK(c *core.Ctx, cs CKCase) error {
	k := core.GetKeys(c.Level, cs.Idx)
	g := params.GetTRGSWLv1()
	base := 1 << g.BASEBIT
	s0, s1 := k.SK.KeyLv0, k.SK.KeyLv1
	ks := &series{}
	for i := 0; i < g.N; i++ {
		for j := 0; j < g.IKS_T; j++ {
			for d := 1; d < base; d++ {
				e := k.CK.KeySwitchingKey[base*g.IKS_T*i+base*j+d].P
				want := core.Torus(d) * s1[i] << (32 - (j+1)*g.BASEBIT)
				ks.add(core.Diff(core.Phase(e, s0), want), want, e[0])
				x := ks.e[len(ks.e)-1]
				ks.at(x, "level, digit", j, d)
				ks.at(x, "row", i, 0)
				ks.at(x, "key bit", int(s1[i]), 0)
			}
		}
	}
	c.Count("noise samples", float64(len(ks.e)))
	if err := ks.judge("key-switching key", params.KSKAlpha(), ulp); err != nil {
		return err
	}
	if err := ks.judgeGroups("key-switching key", params.KSKAlpha(), ulp); err != nil {
		return err
	}
	bs := &series{}
	pe := poly.NewEvaluator(g.N)
	for i := 0; i < len(s0); i += 4 {
		for row, f := range k.CK.BootstrappingKey[i].TRLWEFFT {
			ct := &trlwe.TRLWELv1{A: pe.ToPoly(f.A).Coeffs, B: pe.ToPoly(f.B).Coeffs}
			h := core.Torus(1) << (32 - uint32(row%g.L+1)*g.BGBIT)
			for j, ph := range core.RingPhase(ct, s1) {
				var want core.Torus
				if row < g.L {
					want = -(s0[i] * h * s1[j])
				} else if j == 0 {
					want = s0[i] * h
				}
				bs.add(core.Diff(ph, want), want, ct.A[j])
				x := bs.e[len(bs.e)-1]
				bs.at(x, "row", row, 0)
				bs.at(x, "coefficient", j, 0)
				bs.at(x, "key bit", int(s0[i]), 0)
				bs.at(x, "gadget ciphertext, row", i, row)
			}
		}
	}
	c.Count("noise samples", float64(len(bs.e)))
	alpha := params.BSKAlpha()
	if alpha < ulp/4 {
		zero := true
		for _, e := range bs.e {
			zero = zero && math.Abs(e) <= 1.5*ulp
			if math.Abs(e) > 4*ulp {
				return core.Errf("bootstrapping key: noise value %.3g, declared deviation %.3g", e, alpha)
			}
		}
		if zero && !k2(c.Level) {
			return core.Errf("bootstrapping key carries no noise at all (declared deviation %.3g)", alpha)
		}
		if zero {
			c.Known("K2")
		}
		return nil
	}
	if err := bs.judge("bootstrapping key", alpha, 1.5*ulp); err != nil {
		return err
	}
	return bs.judgeGroups("bootstrapping key", alpha, 1.5*ulp)
}

// ShapeCase draws many noise values cheaply (zero key, so the noise is read off directly) to judge
// the shape of the distribution including its tails.
type ShapeCase struct {
	Seed uint64
	Kind string
	Exp  int
}

func genShape(t *rapid.T, c *core.Ctx) ShapeCase {
	return ShapeCase{core.GenSeed(t), core.Choose(t, "kind", []string{"torus", "f64", "vec", "ring", "lwe0", "pkenc"}), core.IntIn(t, "exp", 7, 22)}
}

func runShape(c *core.Ctx, cs ShapeCase) error {
	core.SetLevel(c.Level)
	core.SeedLib(cs.Seed)
	alpha := math.Ldexp(1, -cs.Exp)
	n := 1000000
	if cs.Kind == "lwe0" {
		n = 100000
	}
	xs := make([]float64, 0, n+4096)
	add := func(v, want core.Torus) { xs = append(xs, core.Diff(v, want)/alpha) }
	rng := utils.NewRand()
	N := params.GetTRGSWLv1().N
	pe := poly.NewEvaluator(N)
	zero0, zero1 := make([]core.Torus, params.GetTLWELv0().N), make([]core.Torus, N)
	ps := make([]float64, N)
	for i := range ps {
		ps[i] = float64(i%7-3) / 8
	}
	pk := &proxyreenc.PublicKeyLv0{}
	for len(xs) < n {
		switch cs.Kind {
		case "torus":
			add(utils.GaussianTorus(1<<30, alpha, rng), 1<<30)
		case "f64":
			add(utils.GaussianF64(0.25, alpha, rng), 1<<30)
		case "vec":
			for i, v := range utils.GaussianF64Vec(ps, alpha, rng) {
				add(v, core.F2T(ps[i]))
			}
		case "ring":
			for i, v := range trlwe.NewTRLWELv1().EncryptF64(ps, alpha, zero1, pe).B {
				add(v, core.F2T(ps[i]))
			}
		case "lwe0":
			ct := tlwe.NewTLWELv0().EncryptF64(0.25, alpha, zero0)
			add(ct.P[len(zero0)], 1<<30)
		case "pkenc":
			ct := pk.EncryptF64(0.25, alpha)
			add(ct.P[len(zero0)], 1<<30)
		}
	}
	c.Class("shape:" + cs.Kind)
	c.Count("noise samples", float64(len(xs)))
	f := float64(len(xs))
	var m, m2, m3, m4 float64
	tail := [3]float64{}
	for _, x := range xs {
		m += x
	}
	m /= f
	for _, x := range xs {
		d := x - m
		m2 += d * d
		m3 += d * d * d
		m4 += d * d * d * d
		for i := range tail {
			if math.Abs(x) > float64(i+3) {
				tail[i]++
			}
		}
	}
	m2, m3, m4 = m2/f, m3/f, m4/f
	grain := 1.0 / math.Ldexp(1, 32-cs.Exp) // one torus unit in deviations
	if math.Abs(m) > z/math.Sqrt(f)+grain {
		return core.Errf("%s: noise is not centred: mean %.4f deviations over %d samples", cs.Kind, m, len(xs))
	}
	if math.Abs(m2-1) > z*math.Sqrt(2/f)+2*grain {
		return core.Errf("%s: noise variance is %.4f of the requested one over %d samples", cs.Kind, m2, len(xs))
	}
	if sk := m3 / math.Pow(m2, 1.5); math.Abs(sk) > z*math.Sqrt(6/f)*1.1+grain {
		return core.Errf("%s: noise is skewed: %.4f over %d samples", cs.Kind, sk, len(xs))
	}
	if k := m4 / m2 / m2; math.Abs(k-3) > z*math.Sqrt(24/f)*1.3+4*grain {
		return core.Errf("%s: noise is not Gaussian: kurtosis %.4f over %d samples", cs.Kind, k, len(xs))
	}
	for i := range tail {
		want := f * math.Erfc(float64(i+3)/math.Sqrt2)
		slack := z*math.Sqrt(want) + 20 + want*20*grain
		if tail[i] > want+slack || tail[i] < want-slack {
			return core.Errf("%s: %d of %d noise values beyond %d deviations, expected %.1f", cs.Kind, int(tail[i]), len(xs), i+3, want)
		}
	}
	// Kolmogorov-Smirnov distance to the normal distribution (p below 1e-13)
	slices.Sort(xs)
	ks := 0.0
	for i, x := range xs {
		p := 0.5 * math.Erfc(-x/math.Sqrt2)
		ks = math.Max(ks, math.Max(math.Abs(p-float64(i)/f), math.Abs(p-float64(i+1)/f)))
	}
	if ks > 4/math.Sqrt(f)+grain {
		return core.Errf("%s: noise is not Gaussian: distribution function off by %.5f over %d samples", cs.Kind, ks, len(xs))
	}
	return nil
}

func main() {
	core.Main(&core.Prop{
		ID:   "C19",
		Rule: "case = ciphertext kind (12 kinds), deviation (level's, 0, or 2^-31..2^-4), plaintext and key pattern, with at least 12000 noise values recovered exactly; or a whole cloud key; or one million noise values of one source at a power-of-two deviation (skewness, kurtosis, tails beyond 3, 4 and 5 deviations, Kolmogorov-Smirnov distance); oracle = mean, two-sided deviation (truncation to the 32-bit torus modelled), range, kurtosis, central mass, serial correlation, correlation with plaintext and mask, all at 7.5 standard errors; the deviation and the mean also at every structural position separately (gadget row, coefficient, public-key entry from either end, level and digit of the key-switching key, residue of the sequence number); non-trivial: deviation above zero",
		Subs: []*core.Sub{
			core.NewSub("moments", gen, func(cs Case) bool { return cs.Alpha != 0 }, run),
			core.NewSub("shape", genShape, func(ShapeCase) bool { return true }, runShape),
			core.NewSub("cloudkey", func(t *rapid.T, c *core.Ctx) CKCase { return CKCase{core.Pick(t, "idx", 50)} }, func(CKCase) bool { return true }, runCK),
		},
		Plan: func(tier string) []core.Job {
			f := 1
			if tier == "thorough" {
				f = 20
			}
			var js []core.Job
			for _, l := range []core.Level{4, 128, 110, 80, 1, 2, 3} {
				js = append(js, core.Job{Level: l, Runs: []core.RunSpec{{Sub: "cloudkey", N: max(1, f/6)}}})
			}
			for _, l := range core.AllLevels {
				js = append(js, core.Job{Level: l, Procs: 1, Runs: []core.RunSpec{{Sub: "moments", N: 80 * f}, {Sub: "shape", N: 4 * f}}})
			}
			return js
		},
	})
}
