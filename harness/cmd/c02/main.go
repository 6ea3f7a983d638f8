// C02: gate circuits of any shape and depth agree with plaintext evaluation.
package main

import (
	"math"

	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/params"
	"pgregory.net/rapid"
	"verif/core"
	"verif/gx"
)

// Node is a gate on earlier values (indices into inputs ++ nodes).
type Node struct {
	G       string
	A, B, C int
	Set     int `json:",omitempty"` // before the gate, operand A (odd) or B (even) is overwritten in place with a new bit: 1, 2 false; 3, 4 true
}

// Case is a circuit.
type Case struct {
	Shape  string
	Inputs []int
	Dev    []int // displacement of each input's phase, percent of the decision margin (missing: fresh encryption)
	Const  []int `json:",omitempty"` // inputs that are constants instead of encryptions
	Nodes  []Node
	Batch  []int // node positions evaluated together with their successor through a batch gate, when independent
	Seed   uint64
}

var names = gx.Names()

func genNode(t *rapid.T, n int, back int) Node {
	pick := func(nm string) int {
		// favour recent values for depth
		if core.Pick(t, "rec", 2) == 0 && back < n {
			return n - 1 - core.Pick(t, nm, back)
		}
		return core.Pick(t, nm, n)
	}
	g := core.Choose(t, "g", names)
	nd := Node{G: g, A: pick("a"), B: pick("b"), C: pick("c")}
	switch core.Pick(t, "alias", 12) {
	case 0:
		nd.B = nd.A
	case 1:
		nd.C = nd.A
	case 2:
		nd.C = nd.B
	}
	return nd
}

func gen(t *rapid.T, c *core.Ctx) Case {
	max := 26
	if c.Level == 2 {
		max = 60
	}
	if c.Level == 5 {
		max = 16
	}
	if c.Tier == "thorough" {
		max *= 3
	}
	cs := Case{Seed: core.GenSeed(t)}
	switch core.Pick(t, "shape", 5) {
	case 0, 1:
		cs.Shape = "dag"
		cs.Inputs = core.GenBits(t, core.IntIn(t, "ni", 1, 5), "in")
		nn := core.IntIn(t, "nn", 2, max)
		rewrites := core.Pick(t, "rewrites", 2) == 0
		for i := 0; i < nn; i++ {
			nd := genNode(t, len(cs.Inputs)+i, 3)
			if rewrites && core.Pick(t, "rw", 3) == 0 {
				// the same variables hold new values, often under the same gate
				if i > 0 && core.Pick(t, "same", 3) > 0 {
					nd = cs.Nodes[i-1]
				}
				nd.Set = core.IntIn(t, "set", 1, 4)
			}
			cs.Nodes = append(cs.Nodes, nd)
		}
	case 2:
		cs.Shape = "chain"
		cs.Inputs = core.GenBits(t, 2, "in")
		nn := core.IntIn(t, "nn", 4, max)
		g := core.Choose(t, "g", gx.BootNames())
		for i := 0; i < nn; i++ {
			n := 2 + i
			if core.Pick(t, "sw", 4) == 0 {
				g = core.Choose(t, "g", gx.BootNames())
			}
			o := core.Pick(t, "o", 2)
			nd := Node{G: g, A: n - 1, B: o, C: n - 1}
			if core.Pick(t, "flip", 2) == 1 {
				nd.A, nd.B = nd.B, nd.A
			}
			cs.Nodes = append(cs.Nodes, nd)
		}
	case 3:
		cs.Shape = "adder"
		w := core.IntIn(t, "w", 2, max/6+1)
		cs.Inputs = core.GenBits(t, 2*w+1, "in") // a, b, carry-in
		carry := 2 * w
		add := func(g string, a, b, c int) int {
			cs.Nodes = append(cs.Nodes, Node{G: g, A: a, B: b, C: c})
			return len(cs.Inputs) + len(cs.Nodes) - 1
		}
		for i := 0; i < w; i++ {
			x := add("XOR", i, w+i, 0)
			add("XOR", x, carry, 0)
			a1 := add("AND", i, w+i, 0)
			a2 := add("AND", x, carry, 0)
			carry = add("OR", a1, a2, 0)
		}
	case 4:
		cs.Shape = "muxtree"
		cs.Inputs = core.GenBits(t, 7, "in")
		add := func(g string, a, b, c int) int {
			cs.Nodes = append(cs.Nodes, Node{G: g, A: a, B: b, C: c})
			return len(cs.Inputs) + len(cs.Nodes) - 1
		}
		m1 := add("MUX", 4, 0, 1)
		m2 := add("MUX", 4, 2, 3)
		m3 := add("MUX", 5, m1, m2)
		add("XNOR", m3, 6, 0)
	}
	if core.Pick(t, "displaced", 3) > 0 {
		for range cs.Inputs {
			cs.Dev = append(cs.Dev, core.Choose(t, "dev", []int{0, 12, -12, 30, -30, 45, -45, 48, -48}))
		}
	}
	if core.Pick(t, "constants", 3) == 0 {
		for i := 0; i < core.IntIn(t, "nconst", 1, 2); i++ {
			cs.Const = append(cs.Const, core.Pick(t, "const", len(cs.Inputs)))
		}
	}
	nb := core.Pick(t, "nb", 4)
	if core.Pick(t, "allbatch", 4) == 0 {
		nb = len(cs.Nodes)
	}
	for i := 0; i < nb; i++ {
		cs.Batch = append(cs.Batch, core.Pick(t, "bp", len(cs.Nodes)))
	}
	return cs
}

var ckHash = map[core.Level]uint64{}

func run(c *core.Ctx, cs Case) error {
	k := core.GetKeys(c.Level, 0)
	if _, ok := ckHash[c.Level]; !ok {
		ckHash[c.Level] = core.HashCK(k.CK)
	}
	core.SeedLib(cs.Seed)
	var vals []bool
	var cts []*gx.CT
	var hs []uint64
	var depth []int
	push := func(v bool, ct *gx.CT, d int) {
		vals, cts, hs, depth = append(vals, v), append(cts, ct), append(hs, core.Hash(ct.P)), append(depth, d)
	}
	margin := gx.Margin()
	rd := core.RNG(cs.Seed)
	constant := map[int]bool{}
	for _, i := range cs.Const {
		constant[i] = true
		c.Class("constant-input")
	}
	for i, b := range cs.Inputs {
		if constant[i] {
			push(b == 1, gates.Constant(b == 1), 0)
		} else if i < len(cs.Dev) {
			push(b == 1, gx.Crafted(rd, k, b == 1, float64(cs.Dev[i])/100*margin, "uniform"), 0)
		} else {
			push(b == 1, gx.Fresh(k, b == 1), 0)
		}
	}
	if len(cs.Dev) > 0 {
		c.Class("displaced-inputs")
	}
	batch := map[int]bool{}
	for _, b := range cs.Batch {
		batch[b] = true
	}
	limited := func(g *gx.Gate, nd Node) bool {
		d := []float64{gx.Dev(cts[nd.A].P, k.SK.KeyLv0, vals[nd.A]), 0, 0}
		if g.Arity > 1 {
			d[1] = gx.Dev(cts[nd.B].P, k.SK.KeyLv0, vals[nd.B])
		}
		if g.Arity > 2 {
			d[2] = gx.Dev(cts[nd.C].P, k.SK.KeyLv0, vals[nd.C])
		}
		return g.Load(d) > margin
	}
	maxDepth := 0
	var pending *gx.CT // second result of a batch of two
	for i, nd := range cs.Nodes {
		g := gx.ByName(nd.G)
		n := len(vals)
		if nd.A >= n || nd.B >= n || nd.C >= n {
			return core.Errf("bad case")
		}
		if nd.Set > 0 && pending == nil {
			x := nd.A
			if nd.Set%2 == 0 && g.Arity > 1 {
				x = nd.B
			}
			b := nd.Set > 2
			cts[x].EncryptBool(b, params.GetTLWELv0().ALPHA, k.SK.KeyLv0)
			vals[x], hs[x], depth[x] = b, core.Hash(cts[x].P), 0
			c.Class("rewritten-in-place")
		}
		want := g.Truth(vals[nd.A], vals[nd.B], vals[nd.C])
		d := depth[nd.A]
		if g.Arity > 1 && depth[nd.B] > d {
			d = depth[nd.B]
		}
		if g.Arity > 2 && depth[nd.C] > d {
			d = depth[nd.C]
		}
		if g.Boot {
			d++
		}
		lim := limited(g, nd)
		var out *gx.CT
		bg := gx.BatchByName(nd.G)
		switch {
		case pending != nil:
			out, pending = pending, nil
		case batch[i] && bg != nil:
			pairs := [][2]*gx.CT{{cts[nd.A], cts[nd.B]}}
			if i+1 < len(cs.Nodes) && cs.Nodes[i+1].G == nd.G && cs.Nodes[i+1].A < n && cs.Nodes[i+1].B < n && cs.Nodes[i+1].C < n {
				pairs = append(pairs, [2]*gx.CT{cts[cs.Nodes[i+1].A], cts[cs.Nodes[i+1].B]})
			}
			res := bg.F(pairs, k.CK)
			if len(res) != len(pairs) {
				return core.Errf("node %d: batch %s of %d pairs returned %d results", i, nd.G, len(pairs), len(res))
			}
			out = res[0]
			if len(res) > 1 {
				pending = res[1]
			}
			c.Class("batch-node")
		default:
			out = g.Eval(cts[nd.A], cts[nd.B], cts[nd.C], k.CK)
		}
		c.Count("gates", 1)
		if g.Arity > 1 && nd.A == nd.B || g.Arity > 2 && (nd.A == nd.C || nd.B == nd.C) {
			c.Count("aliased_operand_gates", 1)
		}
		if lim {
			c.Count("noise_limited_nodes", 1)
			want = out.DecryptBool(k.SK.KeyLv0)
		}
		tol := core.Tol(c.Level)
		if !g.Boot {
			// linear: exactly the operand's displacement
			tol = gx.Dev(cts[nd.A].P, k.SK.KeyLv0, vals[nd.A]) + 1e-8
		}
		if err := gx.CheckOut(c, k, nd.G, out, want, tol); err != nil {
			return core.Errf("node %d (depth %d) %v", i, d, err)
		}
		push(want, out, d)
		if d > maxDepth {
			maxDepth = d
		}
	}
	for i := range cts {
		if core.Hash(cts[i].P) != hs[i] {
			return core.Errf("value %d (of %d inputs, %d nodes) changed after it was computed", i, len(cs.Inputs), len(cs.Nodes))
		}
	}
	if cs.Shape == "adder" {
		w := (len(cs.Inputs) - 1) / 2
		a, b, s := cs.Inputs[2*w], 0, 0
		for i := 0; i < w; i++ {
			a += cs.Inputs[i] << i
			b += cs.Inputs[w+i] << i
			if cts[2*w+1+5*i+1].DecryptBool(k.SK.KeyLv0) {
				s += 1 << i
			}
		}
		if cts[len(cts)-1].DecryptBool(k.SK.KeyLv0) {
			s += 1 << w
		}
		if s != a+b {
			// only possible without an earlier report if a noise-limited node was skipped
			c.Count("adder_noise_limited", 1)
		}
	}
	if core.HashCK(k.CK) != ckHash[c.Level] {
		return core.Errf("evaluating the circuit changed the cloud key")
	}
	c.Class("shape:" + cs.Shape)
	c.Max("max_depth", float64(maxDepth))
	return nil
}

// RefCase evaluates one gate on several ciphertexts displaced by the same amount in
// either direction.
type RefCase struct {
	Gate  string
	Batch bool
	Bits  []int
	Alias []int     // operand i is the same object as operand Alias[i] (itself: distinct)
	Const int       `json:",omitempty"` // 1+index of an operand that is a constant
	W     []float64 // relative displacement of the distinct operands
	Load  float64   // fraction of the margin
	Seed  uint64
}

const refReps = 5 // per direction

func genRef(t *rapid.T, c *core.Ctx) RefCase {
	cs := RefCase{Gate: core.Choose(t, "g", gx.BootNames()), Seed: core.GenSeed(t), Load: core.Choose(t, "load", []float64{0.98, 0.98, 0.9})}
	cs.Batch = core.Pick(t, "batch", 2) == 0 && gx.BatchByName(cs.Gate) != nil
	pats := [][]int{{0, 1, 2}, {0, 0, 2}}
	if gx.ByName(cs.Gate).Arity == 3 {
		pats = [][]int{{0, 1, 2}, {0, 0, 2}, {0, 1, 0}, {0, 1, 1}, {0, 0, 0}}
	}
	cs.Alias = core.Choose(t, "alias", pats)
	for i := 0; i < 3; i++ {
		cs.W = append(cs.W, core.Choose(t, "w", []float64{1, 1, -1, 0}))
		cs.Bits = append(cs.Bits, core.Pick(t, "bit", 2))
	}
	if cs.W[0] == 0 && (cs.W[1] == 0 || cs.Alias[1] == 0) {
		cs.W[0] = 1
	}
	if core.Pick(t, "constant", 4) == 0 {
		// one operand is a constant, the others carry the noise
		cs.Alias = []int{0, 1, 2}
		cs.Const = 1
	}
	return cs
}

// runRef: with a constant operand, every position and value of the constant, gate by gate
// and (where there is one) through the batch form.
func runRef(c *core.Ctx, cs RefCase) error {
	if cs.Const == 0 {
		return runRef1(c, cs)
	}
	n := gx.ByName(cs.Gate).Arity
	for pos := 0; pos < n; pos++ {
		for bit := 0; bit < 2; bit++ {
			for _, batch := range []bool{false, true} {
				if batch && (!cs.Batch || gx.BatchByName(cs.Gate) == nil) {
					continue
				}
				v := cs
				v.Const, v.Batch = pos+1, batch
				v.Bits = append([]int(nil), cs.Bits...)
				v.Bits[pos] = bit
				v.W = []float64{1, 1, 1}
				v.W[pos] = 0
				if err := runRef1(c, v); err != nil {
					return core.Errf("operand %d the constant %d: %v", pos, bit, err)
				}
			}
		}
	}
	return nil
}

// runRef1: the mean output error must not follow the displacement of the inputs.
func runRef1(c *core.Ctx, cs RefCase) error {
	k := core.GetKeys(c.Level, 0)
	core.SeedLib(cs.Seed)
	r := core.RNG(cs.Seed)
	g := gx.ByName(cs.Gate)
	var bits [3]bool
	w := make([]float64, 3)
	for i := 0; i < g.Arity; i++ {
		bits[i] = cs.Bits[cs.Alias[i]] == 1
		w[i] = cs.W[cs.Alias[i]]
	}
	aw := []float64{math.Abs(w[0]), math.Abs(w[1]), math.Abs(w[2])}
	scale := cs.Load * gx.Margin() / g.Load(aw)
	for _, x := range aw {
		if x*scale > 0.108 {
			scale = 0.108 / x
		}
	}
	want := g.Truth(bits[0], bits[1], bits[2])
	var mean [2]float64
	for dir := 0; dir < 2; dir++ {
		var in [][3]*gx.CT
		for rep := 0; rep < refReps; rep++ {
			var a [3]*gx.CT
			for i := 0; i < g.Arity; i++ {
				if cs.Alias[i] != i {
					a[i] = a[cs.Alias[i]]
					continue
				}
				if cs.Const == i+1 {
					a[i] = gates.Constant(bits[i])
					continue
				}
				a[i] = gx.Crafted(r, k, bits[i], w[i]*scale*float64(1-2*dir), "uniform")
			}
			in = append(in, a)
		}
		var out []*gx.CT
		if cs.Batch {
			var pairs [][2]*gx.CT
			for _, a := range in {
				pairs = append(pairs, [2]*gx.CT{a[0], a[1]})
			}
			out = gx.BatchByName(cs.Gate).F(pairs, k.CK)
			if len(out) != len(pairs) {
				return core.Errf("Batch%s of %d pairs returned %d results", cs.Gate, len(pairs), len(out))
			}
		} else {
			for _, a := range in {
				out = append(out, g.Eval(a[0], a[1], a[2], k.CK))
			}
		}
		for i, o := range out {
			if err := gx.CheckOut(c, k, cs.Gate, o, want, core.Tol(c.Level)); err != nil {
				return core.Errf("ciphertext %d, inputs displaced within the margin: %v", i, err)
			}
			mean[dir] += core.Diff(core.Phase(o.P, k.SK.KeyLv0), gx.Mu(want)) / refReps
		}
	}
	d := math.Abs(mean[0] - mean[1])
	bound := 6.5 * core.Sigma(c.Level) * math.Sqrt(2.0/refReps)
	c.Max("max_refresh_diff_over_sigma", d/(core.Sigma(c.Level)*math.Sqrt(2.0/refReps)))
	c.Class("refresh:" + cs.Gate)
	if cs.Const > 0 {
		c.Class("refresh-constant")
	}
	if cs.Batch {
		c.Class("refresh-batch")
	}
	if d > bound {
		return core.Errf("%s (batch %v, operand aliasing %v): moving the inputs by +-%.4f moves the result's mean error by %.4f over %d ciphertexts each (bound %.4f): the result's noise is not refreshed", cs.Gate, cs.Batch, cs.Alias[:g.Arity], scale, d, refReps, bound)
	}
	return nil
}

func main() {
	rs := core.NewSub("refresh", genRef, func(cs RefCase) bool { return true }, runRef)
	s := core.NewSub("circuit", gen, func(cs Case) bool { return len(cs.Nodes) >= 3 }, run)
	core.Main(&core.Prop{
		ID:   "C02",
		Rule: "case = circuit (random DAG, chain, ripple-carry adder, mux tree; some nodes through batch gates) with inputs, at one level; every node compared with plaintext evaluation and the phase bound, all values and the key re-hashed at the end; plus refresh cases: one gate (single or batch, every aliasing of its operands, or one operand a constant) on ciphertexts displaced both ways, whose mean output error must not follow the displacement; non-trivial: at least 3 gates",
		Subs: []*core.Sub{s, rs},
		Plan: func(tier string) []core.Job {
			n := map[core.Level]int{80: 22, 110: 16, 128: 16, 1: 18, 2: 30, 3: 18, 4: 14, 5: 14}
			nr := map[core.Level]int{80: 16, 110: 8, 128: 6, 1: 8, 2: 140, 3: 16, 4: 4, 5: 2}
			var js []core.Job
			f := 1
			if tier == "thorough" {
				f = 4
			}
			for _, l := range []core.Level{128, 5, 110, 4, 1, 3, 80, 2, 128, 128} {
				js = append(js, core.Job{Level: l, Procs: 1, Runs: []core.RunSpec{{Sub: "circuit", N: n[l] * f}, {Sub: "refresh", N: nr[l] * f}}})
			}
			return js
		},
		Assume: []string{"nodes whose operands' exact summed displacement exceeds the decision margin are counted as noise-limited and not judged"},
	})
}
