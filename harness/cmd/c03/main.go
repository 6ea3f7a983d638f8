// C03: batch gates equal the element-wise gate for any batch and schedule.
package main

import (
	"fmt"
	"runtime"
	"sync"

	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"pgregory.net/rapid"
	"verif/core"
	"verif/gx"
)

// Call is one batch call.
type Call struct {
	Gate  string
	Size  int
	Share int // 0: all fresh, k>0: operands drawn from a pool of k ciphertexts, k<0: structured sharing between neighbouring pairs
	Seed  uint64
}

// Case is a history of batch calls, run in rounds; calls of one round run concurrently.
type Case struct {
	Rounds [][]Call
	Procs  int
	GC     bool
	Single bool // single gates between rounds
}

func genCall(t *rapid.T, c *core.Ctx, sizes []int) Call {
	return Call{Gate: core.Choose(t, "gate", gx.BatchNames()), Size: core.Choose(t, "size", sizes), Share: core.Choose(t, "share", []int{0, 0, 1, 2, 5, -1, -2, -3, -4, -5, -6, -7}), Seed: core.GenSeed(t)}
}

func gen(t *rapid.T, c *core.Ctx) Case {
	cs := Case{Procs: core.Choose(t, "procs", []int{1, 2, 3, 4, 8, 16}), GC: core.Pick(t, "gc", 4) == 0, Single: core.Pick(t, "single", 3) == 0}
	sizes := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 15, 16, 17}
	for r := 0; r < core.IntIn(t, "rounds", 1, 3); r++ {
		var round []Call
		for k := 0; k < core.Choose(t, "par", []int{1, 1, 1, 2, 3}); k++ {
			round = append(round, genCall(t, c, sizes))
		}
		cs.Rounds = append(cs.Rounds, round)
	}
	return cs
}

func genBig(t *rapid.T, c *core.Ctx) Case {
	sizes := []int{24, 31, 32, 33, 40, 63, 64, 65}
	if c.Level == 2 {
		// whole blocks of any chunking, one more or less, and anything between
		sizes = append(sizes, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513)
		for i := 0; i < 2; i++ {
			sizes = append(sizes, core.IntIn(t, "n1", 18, 64), core.IntIn(t, "n2", 65, 129), core.IntIn(t, "n3", 65, 129), core.IntIn(t, "n4", 130, 280))
		}
	}
	return Case{Procs: core.Choose(t, "procs", []int{2, 4, 8, 16}), Rounds: [][]Call{{genCall(t, c, sizes)}}}
}

// genStorm makes rounds of several concurrent calls of one and the same gate
func genStorm(t *rapid.T, c *core.Ctx) Case {
	cs := Case{Procs: core.Choose(t, "procs", []int{3, 4, 8, 16})}
	g := core.Choose(t, "gate", gx.BatchNames())
	for r := 0; r < core.IntIn(t, "rounds", 1, 2); r++ {
		var round []Call
		for i := 0; i < core.IntIn(t, "par", 2, 6); i++ {
			round = append(round, Call{Gate: g, Size: core.IntIn(t, "size", 1, 24), Share: core.Choose(t, "share", []int{0, 0, 0, 3, -1}), Seed: core.GenSeed(t)})
		}
		cs.Rounds = append(cs.Rounds, round)
	}
	return cs
}

type live struct {
	call Call
	res  []*gx.CT
	want []bool
	hash []uint64
	lim  []bool
}

func doCall(k *core.Keys, call Call, margin float64) (*live, error) {
	r := core.RNG(call.Seed)
	g := gx.ByName(call.Gate)
	lv := &live{call: call}
	var pool []*gx.CT
	var poolBits []bool
	for i := 0; i < call.Share; i++ {
		b := r.IntN(2) == 1
		pool, poolBits = append(pool, core.MakeLv0(r, k.SK.KeyLv0, gx.Mu(b))), append(poolBits, b)
	}
	pairs := make([][2]*gx.CT, call.Size)
	var allBits [][2]bool
	var inHash []uint64
	for i := range pairs {
		var bits [2]bool
		for j := 0; j < 2; j++ {
			if call.Share > 0 {
				q := r.IntN(call.Share)
				pairs[i][j], bits[j] = pool[q], poolBits[q]
			} else {
				b := r.IntN(2) == 1
				// displaced within a fifth of the margin
				dev := (r.Float64()*2 - 1) * margin / 5
				pairs[i][j], bits[j] = core.MakeLv0(r, k.SK.KeyLv0, gx.Mu(b)+core.Torus(int32(dev*(1<<32)))), b
			}
		}
		if i > 0 {
			prev, pb := pairs[i-1], allBits[i-1]
			switch call.Share {
			case -1: // chain: (x0,x1),(x1,x2),...
				pairs[i][0], bits[0] = prev[1], pb[1]
			case -2: // reversed chain: (x1,x0),(x2,x1),...
				pairs[i][1], bits[1] = prev[0], pb[0]
			case -3: // one first operand for all
				pairs[i][0], bits[0] = prev[0], pb[0]
			case -4: // one second operand for all
				pairs[i][1], bits[1] = prev[1], pb[1]
			case -5: // every other pair is its neighbour swapped
				if i%2 == 1 {
					pairs[i], bits = [2]*gx.CT{prev[1], prev[0]}, [2]bool{pb[1], pb[0]}
				}
			case -6: // every other pair repeats its neighbour
				if i%2 == 1 {
					pairs[i], bits = prev, pb
				}
			case -7: // equal contents in distinct objects
				if i%2 == 1 {
					pairs[i][0], bits[0] = &gx.CT{P: core.Clone(prev[0].P)}, pb[0]
				}
			}
		}
		allBits = append(allBits, bits)
		for j := 0; j < 2; j++ {
			inHash = append(inHash, core.Hash(pairs[i][j].P))
		}
		lv.want = append(lv.want, g.Truth(bits[0], bits[1], false))
	}
	pc := append([][2]*gx.CT(nil), pairs...)
	lv.res = gx.BatchByName(call.Gate).F(pairs, k.CK)
	if len(lv.res) != call.Size {
		return nil, core.Errf("Batch%s of %d pairs returned %d results", call.Gate, call.Size, len(lv.res))
	}
	for i := range pairs {
		for j := 0; j < 2; j++ {
			if pairs[i][j] != pc[i][j] || core.Hash(pairs[i][j].P) != inHash[2*i+j] {
				return nil, core.Errf("Batch%s modified input pair %d", call.Gate, i)
			}
		}
	}
	return lv, nil
}

func (lv *live) check(c *core.Ctx, k *core.Keys, first bool) error {
	seen := map[*core.Torus]int{}
	for i, ct := range lv.res {
		if first {
			if err := gx.CheckOut(c, k, "Batch"+lv.call.Gate, ct, lv.want[i], core.Tol(k.Level)); err != nil {
				return core.Errf("element %d of %d: %v", i, lv.call.Size, err)
			}
			if j, dup := seen[&ct.P[0]]; dup {
				return core.Errf("Batch%s results %d and %d share memory", lv.call.Gate, j, i)
			}
			seen[&ct.P[0]] = i
			lv.hash = append(lv.hash, core.Hash(ct.P))
		} else if core.Hash(ct.P) != lv.hash[i] {
			return core.Errf("result %d of an earlier Batch%s (size %d) changed later", i, lv.call.Gate, lv.call.Size)
		}
	}
	return nil
}

func run(c *core.Ctx, cs Case) error {
	k := core.GetKeys(c.Level, 0)
	old := runtime.GOMAXPROCS(cs.Procs)
	defer runtime.GOMAXPROCS(old)
	margin := gx.Margin()
	var all []*live
	for _, round := range cs.Rounds {
		lvs := make([]*live, len(round))
		errs := make([]error, len(round))
		var wg sync.WaitGroup
		for i := range round {
			wg.Add(1)
			f := func(i int) {
				defer wg.Done()
				lvs[i], errs[i] = doCall(k, round[i], margin)
			}
			if len(round) == 1 {
				f(i)
			} else {
				go f(i)
			}
		}
		wg.Wait()
		for i := range round {
			if errs[i] != nil {
				return errs[i]
			}
			c.Class("size:" + bucket(round[i].Size))
			c.Class(fmt.Sprintf("share:%d", round[i].Share))
			c.Class("batch:" + round[i].Gate)
			c.Count("elements", float64(round[i].Size))
			if err := lvs[i].check(c, k, true); err != nil {
				return err
			}
		}
		if len(round) > 1 {
			c.Class("concurrent-batches")
		}
		if cs.GC {
			runtime.GC()
			runtime.GC()
		}
		if cs.Single && len(lvs[0].res) > 0 {
			out := gx.ByName("NAND").Eval(lvs[0].res[0], lvs[0].res[0], nil, k.CK)
			if err := gx.CheckOut(c, k, "NAND after batch", out, !lvs[0].want[0], core.Tol(k.Level)); err != nil {
				return err
			}
		}
		for _, lv := range all {
			if err := lv.check(c, k, false); err != nil {
				return err
			}
		}
		all = append(all, lvs...)
	}
	return nil
}

func bucket(n int) string {
	switch {
	case n <= 2:
		return []string{"0", "1", "2"}[n]
	case n <= 8:
		return "3-8"
	case n <= 17:
		return "9-17"
	case n <= 65:
		return "18-65"
	}
	return ">65"
}

// RotCase: the batch rotation primitive with an arbitrary table.
type RotCase struct {
	Size int
	Seed uint64
}

func runRot(c *core.Ctx, cs RotCase) error {
	k := core.GetKeys(c.Level, 0)
	r := core.RNG(cs.Seed)
	n := len(k.SK.KeyLv1)
	tv := trlwe.NewTRLWELv1()
	copy(tv.B, core.FillTorus("uniform", r.Uint64(), n))
	var src []*gx.CT
	var want []core.Torus
	var tie []bool
	for i := 0; i < cs.Size; i++ {
		p := core.FillTorus("uniform", r.Uint64(), len(k.SK.KeyLv0)+1)
		src = append(src, &gx.CT{P: p})
		idx, ties := core.BRIndex(p, k.SK.KeyLv0, n)
		want, tie = append(want, core.TableAt(tv.B, idx)), append(tie, ties > 0)
	}
	first := trgsw.BatchBlindRotate(src, tv, k.CK.BootstrappingKey, k.CK.DecompositionOffset)
	if len(first) != cs.Size {
		return core.Errf("BatchBlindRotate of %d returned %d", cs.Size, len(first))
	}
	var hs []uint64
	for i, f := range first {
		ph := core.Phase(trlwe.SampleExtractIndex(f, 0).P, k.SK.KeyLv1)
		if d := core.AbsDiff(ph, want[i]); d > core.Tol(c.Level) && !tie[i] {
			return core.Errf("BatchBlindRotate element %d of %d: phase off by %.5f", i, cs.Size, d)
		}
		hs = append(hs, core.Hash(f.A, f.B))
	}
	_ = trgsw.BatchBlindRotate(src, tv, k.CK.BootstrappingKey, k.CK.DecompositionOffset)
	for i, f := range first {
		if core.Hash(f.A, f.B) != hs[i] {
			return core.Errf("rotation result %d of %d changed when the next batch ran", i, cs.Size)
		}
	}
	return nil
}

func main() {
	nt := func(cs Case) bool {
		for _, r := range cs.Rounds {
			for _, x := range r {
				if x.Size > 1 {
					return true
				}
			}
		}
		return false
	}
	core.Main(&core.Prop{
		ID:   "C03",
		Rule: "case = rounds of batch gate calls (sizes 0..513, shared or fresh operands, several concurrent calls per round, of different gates or all of one gate, GOMAXPROCS 1..16, GC and single gates between) plus raw batch rotations on random tables; non-trivial: some batch has more than one element",
		Subs: []*core.Sub{
			core.NewSub("history", gen, nt, run),
			core.NewSub("big", genBig, nt, run),
			core.NewSub("storm", genStorm, nt, run),
			core.NewSub("rotate", func(t *rapid.T, c *core.Ctx) RotCase {
				return RotCase{core.Choose(t, "size", []int{0, 1, 2, 3, 5, 8, 9, 13}), core.GenSeed(t)}
			}, func(cs RotCase) bool { return cs.Size > 1 }, runRot),
		},
		Plan: func(tier string) []core.Job {
			var js []core.Job
			f := 1
			if tier == "thorough" {
				f = 8
			}
			n := map[core.Level]int{80: 12, 110: 8, 128: 10, 1: 8, 2: 34, 3: 10, 4: 8, 5: 4}
			for _, l := range []core.Level{128, 2, 5, 110, 4, 1, 3, 80, 2} {
				big, storm := 1, 1
				if l == 2 {
					big, storm = 24, 24
				}
				js = append(js, core.Job{Level: l, Runs: []core.RunSpec{{Sub: "history", N: n[l] * f}, {Sub: "rotate", N: 1 + n[l]*f/5}, {Sub: "storm", N: storm * f}, {Sub: "big", N: big * f}}})
			}
			return js
		},
	})
}
