// C18: keys, masks and noise are fresh, independent and unpredictable.

//go:debug randseednop=0
package main

import (
	"encoding/binary"
	"fmt"
	"math"
	mbits "math/bits"
	mrand "math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"pgregory.net/rapid"
	"verif/core"
)

type triple [12]byte

// windows of three consecutive mask words; a repetition among k windows has
// probability about k^2/2^97.
func windows(mask []core.Torus, step int, f func(triple)) {
	for i := 0; i+3 <= len(mask); i += step {
		var t triple
		binary.LittleEndian.PutUint32(t[0:], uint32(mask[i]))
		binary.LittleEndian.PutUint32(t[4:], uint32(mask[i+1]))
		binary.LittleEndian.PutUint32(t[8:], uint32(mask[i+2]))
		f(t)
	}
}

// keyWindows of 96 key bits.
func keyWindows(s []core.Torus, f func(triple)) {
	for i := 0; i+96 <= len(s); i += 96 {
		var t triple
		for j := 0; j < 96; j++ {
			t[j/8] |= byte(s[i+j]&1) << (j % 8)
		}
		f(t)
	}
}

// produce makes one object of the given kind and reports its masks.
func produce(kind string, p bool, alpha float64, sk *key.SecretKey, pk *proxyreenc.PublicKeyLv0, pe *poly.Evaluator, mask func(kind string, m []core.Torus), keys func(s []core.Torus)) {
	switch kind {
	case "lwe0":
		mask(kind, tlwe.NewTLWELv0().EncryptBool(p, alpha, sk.KeyLv0).P[:len(sk.KeyLv0)])
	case "lwe1":
		mask(kind, tlwe.NewTLWELv1().EncryptBool(p, alpha, sk.KeyLv1).P[:len(sk.KeyLv1)])
	case "msg":
		v := 0
		if p {
			v = 3
		}
		mask(kind, tlwe.NewTLWELv0().EncryptLWEMessage(v, 8, alpha, sk.KeyLv0).P[:len(sk.KeyLv0)])
	case "ring":
		bs := make([]bool, len(sk.KeyLv1))
		for i := range bs {
			bs[i] = p
		}
		mask(kind, trlwe.NewTRLWELv1().EncryptBool(bs, alpha, sk.KeyLv1, pe).A)
	case "gadget":
		for i, r := range trgsw.NewTRGSWLv1().EncryptTorus(0, alpha, sk.KeyLv1, pe).TRLWE {
			mask(fmt.Sprintf("gadget row %d", i), r.A)
		}
	case "pubkey":
		for _, e := range proxyreenc.NewPublicKeyLv0WithParams(sk.KeyLv0, 3, alpha).Encryptions {
			mask(kind, e.P[:len(sk.KeyLv0)])
		}
	case "pkenc":
		mask(kind, pk.EncryptBool(p, alpha).P[:len(sk.KeyLv0)])
	case "secret":
		k := key.NewSecretKey()
		keys(k.KeyLv0)
		keys(k.KeyLv1)
	}
}

var kinds = []string{"lwe0", "lwe0", "lwe1", "msg", "ring", "gadget", "pubkey", "pkenc", "secret"}

type HistCase struct {
	Ops  []string
	P    []int
	Par  int // goroutines
	Seed int64
	Reps int
}

func genHist(t *rapid.T, c *core.Ctx) HistCase {
	cs := HistCase{Par: core.Choose(t, "par", []int{1, 1, 4, 16}), Seed: int64(core.IntIn(t, "seed", -2, 40)), Reps: core.IntIn(t, "reps", 2, 4)}
	n := core.IntIn(t, "n", 1, 8)
	for i := 0; i < n; i++ {
		cs.Ops = append(cs.Ops, core.Choose(t, "op", kinds))
		cs.P = append(cs.P, core.Pick(t, "p", 2))
	}
	return cs
}

type fixture struct {
	sk *key.SecretKey
	pk *proxyreenc.PublicKeyLv0
}

var fx = map[core.Level]*fixture{}

func getFx(l core.Level) *fixture {
	f := fx[l]
	if f == nil {
		f = &fixture{sk: key.NewSecretKey()}
		f.pk = proxyreenc.NewPublicKeyLv0WithParams(f.sk.KeyLv0, 96, 1e-6)
		fx[l] = f
	}
	return f
}

// runHist repeats the history Reps times after reseeding the global generator, in Par
// goroutines at once: no mask window may ever repeat.
func runHist(c *core.Ctx, cs HistCase) error {
	core.SetLevel(c.Level)
	f := getFx(c.Level)
	seen := map[triple]string{}
	var mu sync.Mutex
	var bad error
	total := 0
	add := func(id string) func(triple) {
		return func(t triple) {
			total++
			if old, ok := seen[t]; ok && bad == nil {
				bad = core.Errf("%s and %s share three consecutive random words (%x)", old, id, t)
			}
			seen[t] = id
		}
	}
	for rep := 0; rep < cs.Reps; rep++ {
		mrand.Seed(cs.Seed)
		var wg sync.WaitGroup
		for g := 0; g < cs.Par; g++ {
			wg.Add(1)
			work := func() {
				defer wg.Done()
				pe := poly.NewEvaluator(params.GetTRGSWLv1().N)
				for i, op := range cs.Ops {
					id := fmt.Sprintf("%s (repetition %d, goroutine %d, operation %d)", op, rep, g, i)
					produce(op, cs.P[i] == 1, 1e-6, f.sk, f.pk, pe, func(k string, m []core.Torus) {
						mu.Lock()
						windows(m, 1, add(id))
						mu.Unlock()
					}, func(s []core.Torus) {
						mu.Lock()
						keyWindows(s, add(id))
						mu.Unlock()
					})
				}
			}
			if cs.Par == 1 {
				work()
			} else {
				go work()
			}
		}
		wg.Wait()
	}
	if cs.Par > 1 {
		c.Class("concurrent")
	}
	c.Count("mask windows", float64(total))
	return bad
}

type BirthCase struct{ Kind string }

// runBirth looks for repeated masks among very many encryptions (a generator with few
// distinct states repeats).
func runBirth(c *core.Ctx, cs BirthCase) error {
	core.SetLevel(c.Level)
	f := getFx(c.Level)
	n := 1 << 18
	if cs.Kind == "secret" {
		n = 1 << 16
	}
	if c.Tier == "thorough" {
		n *= 4
	}
	pe := poly.NewEvaluator(params.GetTRGSWLv1().N)
	seen := make(map[triple]struct{}, n)
	dup := 0
	add := func(t triple) {
		if _, ok := seen[t]; ok {
			dup++
		}
		seen[t] = struct{}{}
	}
	for i := 0; i < n; i++ {
		produce(cs.Kind, i%2 == 0, 1e-6, f.sk, f.pk, pe, func(_ string, m []core.Torus) { windows(m[:3], 1, add) }, func(s []core.Torus) { keyWindows(s[:96], add) })
	}
	c.Count("birthday samples", float64(n))
	if dup > 0 {
		return core.Errf("%d repeated masks among %d %s samples", dup, n, cs.Kind)
	}
	return nil
}

type StatCase struct {
	Kind string
	P    int
}

const z = 8.0 // deviations; about 4e6 counters per run: false alarm below 1e-8

// runStat checks that every bit of every mask position (and every key bit) is balanced and
// uncorrelated with its neighbours and with the previous object.
func runStat(c *core.Ctx, cs StatCase) error {
	core.SetLevel(c.Level)
	f := getFx(c.Level)
	pe := poly.NewEvaluator(params.GetTRGSWLv1().N)
	n := 1500
	var ones, nb, pv []int32
	var prev []core.Torus
	cnt, bits := 0, 32
	// cross-bit correlations pooled over positions: bit b of word i with bit b' of word i+lag
	lags := []int{0, 1, 2, 3, 4, 8, 16}
	crossN := 64
	if cs.Kind == "secret" {
		lags = lags[:0]
		for l := 1; l <= 64; l++ {
			lags = append(lags, l)
		}
		crossN = 1500
	}
	cross := make([][32][32]int32, len(lags))
	crossTot := make([]int, len(lags))
	type acc struct{ n, sum float64 }
	weights := map[string]*acc{}
	weigh := func(name string, w, size int) {
		a := weights[name]
		if a == nil {
			a = &acc{}
			weights[name] = a
		}
		a.n++
		a.sum += float64((2*w-size)*(2*w-size)) / float64(size)
	}
	take := func(m []core.Torus) {
		if bits == 32 {
			tot := 0
			for _, v := range m {
				w := mbits.OnesCount32(uint32(v))
				weigh("a mask word", w, 32)
				tot += w
			}
			weigh("a mask", tot, 32*len(m))
		}
		if cnt < crossN {
			for q, lag := range lags {
				for i := 0; i+lag < len(m); i++ {
					v, w := uint32(m[i]), uint32(m[i+lag])
					if bits == 1 {
						cross[q][0][0] += int32(v ^ w)
						continue
					}
					for r := 0; r < 32; r++ {
						x := v ^ (w<<r | w>>(32-r))
						for b := range cross[q][r] {
							cross[q][r][b] += int32(x >> b & 1)
						}
					}
				}
				crossTot[q] += len(m) - lag
			}
		}
		if ones == nil {
			ones, nb, pv = make([]int32, len(m)*bits), make([]int32, len(m)*bits), make([]int32, len(m)*bits)
		}
		for i, v := range m {
			w := v
			if i > 0 {
				w ^= m[i-1]
			} else {
				w ^= m[len(m)-1]
			}
			var u core.Torus
			if prev != nil {
				u = v ^ prev[i]
			}
			for b := 0; b < bits; b++ {
				ones[i*bits+b] += int32(v >> b & 1)
				nb[i*bits+b] += int32(w >> b & 1)
				pv[i*bits+b] += int32(u >> b & 1)
			}
		}
		prev = core.Clone(m)
		cnt++
	}
	var packed [][]uint64 // secret keys: the samples of each position, 64 to a word
	if cs.Kind == "secret" {
		bits = 1
		n = 6000
		for cnt < n {
			k := key.NewSecretKey()
			for _, s := range [][]core.Torus{k.KeyLv0, k.KeyLv1} {
				for i, v := range s {
					if v > 1 {
						return core.Errf("key coefficient %d is %d", i, v)
					}
				}
				for size := 2; size <= len(s); size *= 2 {
					name := fmt.Sprintf("%d key bits", size)
					for i := 0; i+size <= len(s); i += size {
						w := 0
						for _, v := range s[i : i+size] {
							w += int(v)
						}
						weigh(name, w, size)
					}
				}
				w := 0
				for _, v := range s {
					w += int(v)
				}
				weigh(fmt.Sprintf("a key of %d bits", len(s)), w, len(s))
			}
			all := append(core.Clone(k.KeyLv0), k.KeyLv1...)
			if packed == nil {
				packed = make([][]uint64, len(all))
				for i := range packed {
					packed[i] = make([]uint64, (n+63)/64)
				}
			}
			for i, v := range all {
				packed[i][cnt/64] |= uint64(v) << (cnt % 64)
			}
			take(all)
		}
	} else {
		for cnt < n {
			produce(cs.Kind, cs.P == 1, 1e-6, f.sk, f.pk, pe, func(_ string, m []core.Torus) { take(m) }, nil)
		}
	}
	// the number of ones in every aligned block varies as that of independent bits
	for name, w := range weights {
		if d := w.sum/w.n - 1; math.Abs(d) > z*math.Sqrt(2/w.n) {
			return core.Errf("%s: the number of ones in %s varies %.4f times as much as that of independent bits (%d samples)", cs.Kind, name, 1+d, int(w.n))
		}
	}
	// every two key bits, of either level, are uncorrelated
	for i := range packed {
		for j := 0; j < i; j++ {
			diff := 0
			for w, x := range packed[i] {
				diff += mbits.OnesCount64(x ^ packed[j][w])
			}
			if d := float64(diff) - float64(cnt)/2; math.Abs(d) > (z+1)*math.Sqrt(float64(cnt))/2 {
				return core.Errf("key bits %d and %d (counting level 0 first) differ in %d of %d keys", j, i, diff, cnt)
			}
		}
	}
	if packed != nil {
		c.Count("key bit pairs", float64(len(packed)*(len(packed)-1)/2))
	}
	dev := z * math.Sqrt(float64(cnt)) / 2
	var tot [3]float64
	for i := range ones {
		for q, cn := range []int32{ones[i], nb[i], pv[i]} {
			m := cnt
			if q == 2 {
				m--
			}
			d := float64(cn) - float64(m)/2
			tot[q] += d
			if math.Abs(d) > dev+1 {
				what := []string{"is set", "differs from its neighbour's", "changes from one sample to the next"}[q]
				return core.Errf("%s: bit %d of position %d %s %d times in %d samples", cs.Kind, i%bits, i/bits, what, cn, m)
			}
		}
	}
	for q := range tot {
		if math.Abs(tot[q]) > z*math.Sqrt(float64(cnt)*float64(len(ones)))/2+float64(cnt) {
			return core.Errf("%s: total bit balance off by %.0f over %d bits (statistic %d)", cs.Kind, tot[q], cnt*len(ones), q)
		}
	}
	for q, lag := range lags {
		for r := 0; r < bits; r++ {
			for b := 0; b < bits; b++ {
				if lag == 0 && r == 0 {
					continue
				}
				if d := float64(cross[q][r][b]) - float64(crossTot[q])/2; math.Abs(d) > z*math.Sqrt(float64(crossTot[q]))/2+1 {
					return core.Errf("%s: bit %d of a random word and bit %d of the word %d positions later differ %d times of %d", cs.Kind, b, (b-r+32)%32, lag, cross[q][r][b], crossTot[q])
				}
			}
		}
	}
	c.Count("bit counters", float64(3*len(ones)))
	return nil
}

type PredCase struct {
	Kind string
	Unit int
}

// runPredict tries to recompute the first mask words from a math/rand generator seeded with
// the clock, the process id or a small number.
func runPredict(c *core.Ctx, cs PredCase) error {
	core.SetLevel(c.Level)
	f := getFx(c.Level)
	pe := poly.NewEvaluator(params.GetTRGSWLv1().N)
	var got []core.Torus
	var bitsGot []core.Torus
	best0, best1 := int64(0), int64(math.MaxInt64)
	for i := 0; i < 20; i++ { // keep the shortest call
		var m, kb []core.Torus
		t0 := time.Now().UnixNano()
		produce(cs.Kind, true, 1e-6, f.sk, f.pk, pe, func(_ string, v []core.Torus) {
			if m == nil {
				m = v[:4]
			}
		}, func(s []core.Torus) {
			if kb == nil {
				kb = s[:96]
			}
		})
		t1 := time.Now().UnixNano()
		if t1-t0 < best1-best0 {
			best0, best1 = t0, t1
			got, bitsGot = core.Clone(m), core.Clone(kb)
		}
	}
	if best1-best0 > 100000 {
		best1 = best0 + 100000
	}
	try := func(seed int64) bool {
		g := mrand.New(mrand.NewSource(seed))
		if got != nil {
			return g.Uint32() == uint32(got[0]) && g.Uint32() == uint32(got[1])
		}
		for _, b := range bitsGot {
			if g.Intn(2) != int(b) {
				return false
			}
		}
		return true
	}
	n := 0
	chk := func(seed int64, what string) error {
		n++
		if try(seed) {
			return core.Errf("%s: random words are those of math/rand seeded with %s %d", cs.Kind, what, seed)
		}
		return nil
	}
	for s := best0; s <= best1; s++ {
		if err := chk(s, "the clock (ns)"); err != nil {
			return err
		}
	}
	for s := best0/1000 - 1; s <= best1/1000+1; s++ {
		if err := chk(s, "the clock (us)"); err != nil {
			return err
		}
	}
	for s := best0/1000000 - 50; s <= best1/1000000; s++ {
		if err := chk(s, "the clock (ms)"); err != nil {
			return err
		}
	}
	for s := best0/1000000000 - 30; s <= best1/1000000000; s++ {
		if err := chk(s, "the clock (s)"); err != nil {
			return err
		}
	}
	for s := int64(-1); s < 1000; s++ {
		if err := chk(s, "the number"); err != nil {
			return err
		}
	}
	if err := chk(int64(os.Getpid()), "the process id"); err != nil {
		return err
	}
	c.Count("candidate seeds", float64(n))
	return nil
}

type ProcCase struct{ Runs int }

// child prints the mask windows of a fixed history.
func child(level string) {
	var l int
	fmt.Sscan(level, &l)
	core.SetLevel(core.Level(l))
	sk := key.NewSecretKey()
	fixed := &key.SecretKey{KeyLv0: make([]core.Torus, len(sk.KeyLv0)), KeyLv1: make([]core.Torus, len(sk.KeyLv1))}
	keyWindows(sk.KeyLv0, func(t triple) { fmt.Printf("secret %x\n", t) })
	keyWindows(sk.KeyLv1, func(t triple) { fmt.Printf("secret %x\n", t) })
	pk := proxyreenc.NewPublicKeyLv0WithParams(fixed.KeyLv0, 64, 0)
	pe := poly.NewEvaluator(params.GetTRGSWLv1().N)
	for _, k := range kinds {
		produce(k, true, 1e-6, fixed, pk, pe, func(_ string, m []core.Torus) {
			windows(m, 3, func(t triple) { fmt.Printf("%s %x\n", k, t) })
		}, func(s []core.Torus) {
			keyWindows(s, func(t triple) { fmt.Printf("%s %x\n", k, t) })
		})
	}
}

func runProc(c *core.Ctx, cs ProcCase) error {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	seen := map[string]string{}
	for r := 0; r < cs.Runs; r++ {
		out, err := exec.Command(self, "-child", fmt.Sprint(int(c.Level))).Output()
		if err != nil {
			return core.Errf("fresh process failed: %v", err)
		}
		for _, line := range strings.Split(strings.TrimSpace(string(out)), "\n") {
			k, v, _ := strings.Cut(line, " ")
			if old, ok := seen[v]; ok {
				return core.Errf("%s in process %d repeats random words of %s", k, r, old)
			}
			seen[v] = fmt.Sprintf("%s in process %d", k, r)
		}
	}
	c.Count("processes", float64(cs.Runs))
	return nil
}

type CKCase struct{ Seed int }

// runCK: all masks of a cloud key are distinct, also against a second key and the
// public key made at the same time.
func runCK(c *core.Ctx, cs CKCase) error {
	core.SetLevel(c.Level)
	sk := getFx(c.Level).sk
	cks := make([]*cloudkey.CloudKey, 2)
	var wg sync.WaitGroup
	for i := range cks {
		wg.Add(1)
		go func() { defer wg.Done(); cks[i] = cloudkey.NewCloudKey(sk) }()
	}
	wg.Wait()
	seen := map[triple]string{}
	var bad error
	pe := poly.NewEvaluator(params.GetTRGSWLv1().N)
	base := 1 << params.GetTRGSWLv1().BASEBIT
	n0 := params.GetTLWELv0().N
	add := func(m []core.Torus, id string) {
		for _, off := range []int{0, len(m)/2 - 1, len(m) - 3} {
			windows(m[off:off+3], 1, func(t triple) {
				if old, ok := seen[t]; ok && bad == nil {
					bad = core.Errf("%s and %s share random words", old, id)
				}
				seen[t] = id
			})
		}
	}
	tg := params.GetTRGSWLv1()
	for k, ck := range cks {
		if err := entries(c, fmt.Sprintf("cloud key %d key-switching key", k), ck.KeySwitchingKey, base, tg.IKS_T, sk.KeyLv1, sk.KeyLv0, params.KSKAlpha()); err != nil {
			return err
		}
		for i, e := range ck.KeySwitchingKey {
			if i%base != 0 {
				add(e.P[:n0], fmt.Sprintf("cloud key %d key-switching entry %d", k, i))
			}
		}
		for i, b := range ck.BootstrappingKey {
			for r, row := range b.TRLWEFFT {
				a := pe.ToPoly(row.A).Coeffs
				add(a[1:], fmt.Sprintf("cloud key %d bootstrapping entry %d row %d", k, i, r))
			}
		}
	}
	// bootstrapping key: rows are not small combinations of others
	for k, ck := range cks {
		var ms [][]core.Torus
		rows := len(ck.BootstrappingKey[0].TRLWEFFT)
		for i, b := range ck.BootstrappingKey {
			if i >= 96 {
				break
			}
			for _, row := range b.TRLWEFFT {
				ms = append(ms, pe.ToPoly(row.A).Coeffs[len(sk.KeyLv1)-3:])
			}
		}
		n, err := linear(ms, func(i int) string {
			return fmt.Sprintf("cloud key %d: bootstrapping entry %d row %d's mask", k, i/rows, i%rows)
		}, 2*rows)
		c.Count("mask relations tried", float64(n))
		if err != nil {
			return err
		}
	}
	c.Count("cloud key masks", float64(len(seen)/3))
	return bad
}

// linear looks for entries that are small combinations of other entries: masks that are
// u*x + v*y + w*z of up to three entries nearby (small integers) are not fresh. idx gives
// each entry's place; a chance hit has probability below 2^-50.
func linear(masks [][]core.Torus, names func(int) string, window int) (int, error) {
	tab := make(map[triple]int, len(masks))
	n := 0
	for i, m := range masks {
		dup := -1
		windows(m[:3], 1, func(t triple) {
			if j, ok := tab[t]; ok {
				dup = j
			}
			tab[t] = i
		})
		if dup >= 0 {
			return n, core.Errf("%s equals %s", names(i), names(dup))
		}
	}
	comb := func(u core.Torus, x []core.Torus, v core.Torus, y []core.Torus) triple {
		var t triple
		for q := 0; q < 3; q++ {
			binary.LittleEndian.PutUint32(t[4*q:], uint32(u*x[q]+v*y[q]))
		}
		n++
		return t
	}
	// left-hand multiples (an entry that is half, a third of another is found from the other side)
	step := 1 + len(masks)*(12+10*window)/1000000 // every step-th entry when there are too many
	for i, x := range masks {
		if (i+i/step)%step != 0 { // drifts, so that every digit is met
			continue
		}
		for _, u := range []int32{-1, 2, -2, 3, -3, 4, -4, 8, -8, 16} {
			t := comb(core.Torus(u), x, 0, x)
			if j, ok := tab[t]; ok {
				return n, core.Errf("%s is %d times %s", names(j), u, names(i))
			}
		}
		for d := 1; d <= window && i+d < len(masks); d++ {
			y := masks[i+d]
			for _, w := range [][2]int32{{1, 1}, {1, -1}, {-1, 1}, {-1, -1}, {2, 1}, {1, 2}, {2, -1}, {-1, 2}, {4, 1}, {1, 4}} {
				t := comb(core.Torus(w[0]), x, core.Torus(w[1]), y)
				if j, ok := tab[t]; ok {
					return n, core.Errf("%s is %d times %s plus %d times %s", names(j), w[0], names(i), w[1], names(i+d))
				}
			}
		}
	}
	return n, nil
}

// entries checks the encryptions of a key-switching or re-encryption key, in which entry 0
// of each group of base is unused: no mask is trivial, no mask repeats, none is a small
// combination of others, and the noise of different entries is not correlated.
func entries(c *core.Ctx, what string, cts []*tlwe.TLWELv0, base, t int, from, to []core.Torus, alpha float64) error {
	n0 := len(to)
	var masks [][]core.Torus
	var noise []float64
	var at []int
	for i, e := range cts {
		if i%base == 0 {
			continue
		}
		m := e.P[:n0]
		zero, same := 0, 0
		for q, v := range m {
			if v == 0 {
				zero++
			}
			if q > 0 && v == m[q-1] {
				same++
			}
		}
		if zero > 2+n0/20 || same > 2+n0/20 {
			return core.Errf("%s: entry %d (digit %d of level %d, key coefficient %d) has %d zero and %d repeated mask coefficients of %d", what, i, i%base, i/base%t, from[i/(base*t)], zero, same, n0)
		}
		masks = append(masks, m)
		at = append(at, i)
		k, j, b := i%base, i/base%t, i/(base*t)
		want := core.F2T(float64(k) * float64(from[b]) / math.Pow(2, float64((j+1)*bitlen(base))))
		noise = append(noise, core.Diff(core.Phase(e.P, to), want))
	}
	n, err := linear(masks, func(i int) string { return fmt.Sprintf("%s: entry %d's mask", what, at[i]) }, min(2*base, 10))
	c.Count("mask relations tried", float64(n))
	if err != nil {
		return err
	}
	if alpha > 0 {
		v := 0.0
		for _, e := range noise {
			v += e * e
		}
		v /= float64(len(noise))
		for lag := 1; lag <= 2*base*t && lag < len(noise)/4; lag++ {
			sum := 0.0
			for i := lag; i < len(noise); i++ {
				sum += noise[i] * noise[i-lag]
			}
			if zz := sum / (v * math.Sqrt(float64(len(noise)-lag))); math.Abs(zz) > 8.5 {
				return core.Errf("%s: the noise of entries %d apart is correlated (%.1f deviations)", what, lag, zz)
			}
		}
	}
	return nil
}

func bitlen(base int) int {
	b := 0
	for 1<<b < base {
		b++
	}
	return b
}

type ProxyCase struct {
	Kind    string
	BaseBit int
	T       int
	Alpha   float64
	From    string
}

func genProxy(t *rapid.T, c *core.Ctx) ProxyCase {
	cs := ProxyCase{Kind: core.Choose(t, "kind", []string{"sym", "sym", "asym", "symdef", "asymdef", "pk", "pkdef"}), BaseBit: core.IntIn(t, "bb", 1, 4), T: core.IntIn(t, "t", 1, 6)}
	core.SetLevel(c.Level)
	if size := params.GetTRGSWLv1().IKS_T << params.GetTRGSWLv1().BASEBIT; size > 200 && cs.Kind == "symdef" || size > 50 && cs.Kind == "asymdef" {
		cs.Kind = cs.Kind[:len(cs.Kind)-3] // default key too large for this tier
	}
	if cs.BaseBit*cs.T > 12 {
		cs.T = 12 / cs.BaseBit
	}
	cs.Alpha = core.Choose(t, "alpha", []float64{0, 1e-8, 1e-6})
	cs.From = core.Choose(t, "from", []string{"gen", "gen", "zeros", "ones"})
	return cs
}

func runProxy(c *core.Ctx, cs ProxyCase) error {
	core.SetLevel(c.Level)
	f := getFx(c.Level)
	to := f.sk.KeyLv0
	from := key.NewSecretKey().KeyLv0
	for i := range from {
		switch cs.From {
		case "zeros":
			from[i] = 0
		case "ones":
			from[i] = 1
		}
	}
	if strings.HasPrefix(cs.Kind, "pk") {
		pk := proxyreenc.NewPublicKeyLv0WithParams(to, 250, cs.Alpha)
		window := 250
		if cs.Kind == "pkdef" {
			pk = proxyreenc.NewPublicKeyLv0(to)
			window = 30
		}
		var ms [][]core.Torus
		for _, e := range pk.Encryptions {
			ms = append(ms, e.P[:len(to)])
		}
		n, err := linear(ms, func(i int) string { return fmt.Sprintf("public key: entry %d's mask", i) }, window)
		c.Count("mask relations tried", float64(n))
		c.Class("public key entries")
		return err
	}
	var rk *proxyreenc.ProxyReencryptionKey
	alpha := cs.Alpha
	bb, tt := cs.BaseBit, cs.T
	switch cs.Kind {
	case "sym":
		rk = proxyreenc.NewProxyReencryptionKeySymmetricWithParams(from, to, alpha, bb, tt)
	case "asym":
		rk = proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(from, f.pk, alpha, bb, tt)
		alpha = 0
	case "symdef":
		rk = proxyreenc.NewProxyReencryptionKeySymmetric(from, to)
		alpha = params.KSKAlpha()
		bb, tt = params.GetTRGSWLv1().BASEBIT, params.GetTRGSWLv1().IKS_T
	default:
		rk = proxyreenc.NewProxyReencryptionKeyAsymmetric(from, f.pk)
		alpha = 0
		bb, tt = params.GetTRGSWLv1().BASEBIT, params.GetTRGSWLv1().IKS_T
	}
	if rk.Base != 1<<bb || rk.T != tt || len(rk.KeyEncryptions) != rk.Base*tt*len(from) {
		return core.Errf("%s key: base %d, %d levels, %d entries; want base %d, %d levels", cs.Kind, rk.Base, rk.T, len(rk.KeyEncryptions), 1<<bb, tt)
	}
	c.Class("re-encryption key: " + cs.Kind)
	return entries(c, cs.Kind+" re-encryption key", rk.KeyEncryptions, rk.Base, tt, from, to, alpha)
}

type NoiseCase struct {
	Kind string
	Par  int
}

// runNoise: noise values do not repeat between ciphertexts and are not zero.
func runNoise(c *core.Ctx, cs NoiseCase) error {
	core.SetLevel(c.Level)
	f := getFx(c.Level)
	n := 600
	if cs.Kind == "ring" {
		n = 2
	}
	const alpha = 0.02 // deviation 8.6e7 units: about 6e-4 expected repetitions among 600
	var mu sync.Mutex
	seen := map[core.Torus]int{}
	dup, total := 0, 0
	rec := func(e core.Torus) {
		mu.Lock()
		if seen[e] > 0 {
			dup++
		}
		seen[e]++
		total++
		mu.Unlock()
	}
	var wg sync.WaitGroup
	per := (n + cs.Par - 1) / cs.Par
	for g := 0; g < cs.Par; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			pe := poly.NewEvaluator(params.GetTRGSWLv1().N)
			for i := 0; i < per; i++ {
				switch cs.Kind {
				case "lwe0":
					rec(core.Phase(tlwe.NewTLWELv0().EncryptF64(0, alpha, f.sk.KeyLv0).P, f.sk.KeyLv0))
				case "lwe1":
					rec(core.Phase(tlwe.NewTLWELv1().EncryptF64(0, alpha, f.sk.KeyLv1).P, f.sk.KeyLv1))
				case "pkenc":
					pk := &proxyreenc.PublicKeyLv0{}
					rec(core.Phase(pk.EncryptF64(0, alpha).P, f.sk.KeyLv0))
				case "ring":
					ct := trlwe.NewTRLWELv1().EncryptF64(make([]float64, len(f.sk.KeyLv1)), alpha, f.sk.KeyLv1, pe)
					for _, e := range core.RingPhase(ct, f.sk.KeyLv1) {
						rec(e)
					}
				}
			}
		}()
	}
	wg.Wait()
	c.Count("noise samples", float64(total))
	exp := float64(total) * float64(total) / 2 / (2 * math.Sqrt(math.Pi) * alpha * (1 << 32))
	if float64(dup) > 8+20*exp {
		return core.Errf("%s: %d repeated noise values among %d (%.3g expected)", cs.Kind, dup, total, exp)
	}
	return nil
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "-child" {
		child(os.Args[2])
		return
	}
	core.Main(&core.Prop{
		ID:         "C18",
		RealRandom: true,
		Rule:       "case = history of key generations and encryptions (LWE, ring, gadget, public key, public-key encryption, integer message), repeated after reseeding the global generator and in several goroutines, with the real system generator; oracles: no repeated 96-bit window of random words, birthday search, per-bit balance and correlation, prediction from clock/small seeds, comparison of fresh processes, masks of every cloud-key and re-encryption-key entry (none trivial, none repeated, none a small combination of others), correlation and repetition of noise; every case is non-trivial",
		Assume:     []string{"outputs come from the real system generator, so reruns see other samples; all thresholds have false-alarm probability below 1e-7 per run"},
		Subs: []*core.Sub{
			core.NewSub("history", genHist, func(HistCase) bool { return true }, runHist),
			core.NewSub("birthday", func(t *rapid.T, c *core.Ctx) BirthCase {
				return BirthCase{core.Choose(t, "kind", []string{"lwe0", "lwe0", "secret"})}
			}, func(BirthCase) bool { return true }, runBirth),
			core.NewSub("balance", func(t *rapid.T, c *core.Ctx) StatCase {
				return StatCase{core.Choose(t, "kind", []string{"lwe0", "lwe1", "msg", "ring", "pkenc", "secret", "secret"}), core.Pick(t, "p", 2)}
			}, func(StatCase) bool { return true }, runStat),
			core.NewSub("predict", func(t *rapid.T, c *core.Ctx) PredCase {
				return PredCase{Kind: core.Choose(t, "kind", kinds)}
			}, func(PredCase) bool { return true }, runPredict),
			core.NewSub("processes", func(t *rapid.T, c *core.Ctx) ProcCase { return ProcCase{core.IntIn(t, "runs", 2, 4)} }, func(ProcCase) bool { return true }, runProc),
			core.NewSub("cloudkey", func(t *rapid.T, c *core.Ctx) CKCase { return CKCase{core.Pick(t, "s", 1000)} }, func(CKCase) bool { return true }, runCK),
			core.NewSub("proxy", genProxy, func(ProxyCase) bool { return true }, runProxy),
			core.NewSub("noise", func(t *rapid.T, c *core.Ctx) NoiseCase {
				return NoiseCase{core.Choose(t, "kind", []string{"lwe0", "lwe1", "pkenc", "ring"}), core.Choose(t, "par", []int{1, 2, 8})}
			}, func(NoiseCase) bool { return true }, runNoise),
		},
		Plan: func(tier string) []core.Job {
			f := 1
			if tier == "thorough" {
				f = 15
			}
			var js []core.Job
			for _, l := range core.AllLevels {
				js = append(js, core.Job{Level: l, Procs: 2, Runs: []core.RunSpec{{Sub: "processes", N: 2}, {Sub: "proxy", N: 4 * f}, {Sub: "noise", N: 10 * f}, {Sub: "predict", N: 6 * f}, {Sub: "history", N: 30 * f}, {Sub: "balance", N: 5 * f}}})
			}
			for _, l := range []core.Level{128, 80, 2} {
				js = append(js, core.Job{Level: l, Runs: []core.RunSpec{{Sub: "cloudkey", N: 1}, {Sub: "birthday", N: 2}}})
			}
			return js
		},
	})
}
