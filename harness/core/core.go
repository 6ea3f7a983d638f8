// Package core is the small framework shared by all property checks: it drives
// rapid generators, counts and classifies the generated cases, writes the shrunk
// failing case as a replay file, and replays such a file without rapid.
package core

import (
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/thedonutfactory/go-tfhe/params"
	"pgregory.net/rapid"
)

// Ctx is passed to generators and runners.
type Ctx struct {
	Level   params.SecurityLevel // level of the current job (0 = none)
	Tier    string
	Seed    uint64 // job seed
	classes map[string]int
	counts  map[string]float64
	known   map[string]int
	quiet   bool // true while shrinking: do not count
}

// Class counts a case class (for the generator distribution in the evidence).
func (c *Ctx) Class(name string) {
	if !c.quiet && c.classes != nil {
		c.classes[name]++
	}
}

// Count adds to a named counter.
func (c *Ctx) Count(name string, v float64) {
	if !c.quiet {
		c.counts[name] += v
	}
}

// Max keeps a maximum.
func (c *Ctx) Max(name string, v float64) {
	if !c.quiet {
		if old, ok := c.counts[name]; !ok || v > old {
			c.counts[name] = v
		}
	}
}

// Known records an occurrence of a finding listed in known_findings.json.
func (c *Ctx) Known(id string) {
	c.known[id]++
}

// Sub is one generated check of a property.
type Sub struct {
	Name   string
	Shrink time.Duration
	gen    func(t *rapid.T, c *Ctx) any
	run    func(c *Ctx, cs any) error
	triv   func(cs any) bool
	decode func(b []byte) (any, error)
}

// NewSub builds a Sub: gen draws a JSON-serialisable case, nontrivial is the
// non-triviality rule, run executes the case against the library and its oracle.
func NewSub[C any](name string, gen func(t *rapid.T, c *Ctx) C, nontrivial func(C) bool, run func(c *Ctx, cs C) error) *Sub {
	return &Sub{
		Name:   name,
		Shrink: 20 * time.Second,
		gen:    func(t *rapid.T, c *Ctx) any { return gen(t, c) },
		run:    func(c *Ctx, cs any) error { return run(c, cs.(C)) },
		triv:   func(cs any) bool { return !nontrivial(cs.(C)) },
		decode: func(b []byte) (any, error) {
			var v C
			err := json.Unmarshal(b, &v)
			return v, err
		},
	}
}

// RunSpec asks for N cases of a sub-check.
type RunSpec struct {
	Sub string
	N   int
}

// Job is what one process runs.
type Job struct {
	Level params.SecurityLevel
	Runs  []RunSpec
	Procs int  // GOMAXPROCS (0: default)
	Race  bool // run under the race detector
}

// Prop is a property check.
type Prop struct {
	ID         string
	Rule       string // how cases are made and what is non-trivial
	Subs       []*Sub
	Plan       func(tier string) []Job
	RealRandom bool // leave crypto/rand alone
	Assume     []string
}

func (p *Prop) sub(name string) *Sub {
	for _, s := range p.Subs {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// Replay is the replay file format.
type Replay struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Level    int             `json:"level"`
	Seed     uint64          `json:"seed"`
	Tier     string          `json:"tier"`
	Procs    int             `json:"procs"`
	Race     bool            `json:"race,omitempty"`
	Case     json.RawMessage `json:"case"`
	Error    string          `json:"error"`
}

type result struct {
	Evaluations int                        `json:"evaluations"`
	Nontrivial  []string                   `json:"nontrivial"` // hashes
	Classes     map[string]int             `json:"classes"`
	Counts      map[string]float64         `json:"counts"`
	Known       map[string]int             `json:"known"`
	Samples     map[string]json.RawMessage `json:"samples"`
	PerSub      map[string]int             `json:"per_sub"`
	Violation   string                     `json:"violation"`
	Truncated   bool                       `json:"truncated"`
	Wall        float64                    `json:"wall"`
	SubWall     map[string]float64         `json:"sub_wall"`
}

type tbStub struct {
	name   string
	failed bool
	log    strings.Builder
}
type tbStop struct{}

func (t *tbStub) Helper()                   {}
func (t *tbStub) Name() string              { return t.name }
func (t *tbStub) Logf(f string, a ...any)   { fmt.Fprintf(&t.log, f+"\n", a...) }
func (t *tbStub) Log(a ...any)              { fmt.Fprintln(&t.log, a...) }
func (t *tbStub) Skipf(f string, a ...any)  { panic(tbStop{}) }
func (t *tbStub) Skip(a ...any)             { panic(tbStop{}) }
func (t *tbStub) SkipNow()                  { panic(tbStop{}) }
func (t *tbStub) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tbStub) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tbStub) Fatalf(f string, a ...any) { t.Errorf(f, a...); t.FailNow() }
func (t *tbStub) Fatal(a ...any)            { t.Error(a...); t.FailNow() }
func (t *tbStub) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *tbStub) Fail()                     { t.failed = true }
func (t *tbStub) Failed() bool              { return t.failed }

// protect runs f, turning a panic into an error.
func protect(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return f()
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 30 {
		lines = lines[:30]
	}
	return strings.Join(lines, "\n")
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func hashName(s string) uint64 {
	h := sha256.Sum256([]byte(s))
	var v uint64
	for i := 0; i < 8; i++ {
		v = v<<8 | uint64(h[i])
	}
	return v
}

// Main is the entry point of a property binary.
func Main(p *Prop) {
	testing.Init()
	list := flag.Bool("list", false, "print the number of jobs and exit")
	tier := flag.String("tier", "quick", "quick or thorough")
	jobIdx := flag.Int("job", 0, "job index")
	seed := flag.Uint64("seed", 1, "seed")
	out := flag.String("out", "", "result file")
	replayOut := flag.String("replayout", "", "replay file written on failure")
	inflight := flag.String("inflight", "", "file holding the case being executed")
	deadline := flag.Float64("deadline", 500, "stop generating after this many seconds")
	replay := flag.String("replay", "", "replay this file and exit")
	only := flag.String("only", "", "run only this sub-check")
	scale := flag.Float64("scale", 1, "scale case counts")
	repeat := flag.Int("repeat", 1, "replay repetitions")
	flag.Parse()
	// rapid derives the fail-file location from the working directory: it is disabled
	must(flag.Set("rapid.nofailfile", "true"))

	if *list {
		type ji struct {
			Level int
			Runs  []RunSpec
			Race  bool
		}
		var js []ji
		for _, j := range p.Plan(*tier) {
			js = append(js, ji{int(j.Level), j.Runs, j.Race})
		}
		b, _ := json.Marshal(map[string]any{"jobs": js, "rule": p.Rule, "assume": p.Assume})
		fmt.Println(string(b))
		return
	}

	newCtx := func(level params.SecurityLevel, sd uint64, tier string) *Ctx {
		return &Ctx{Level: level, Tier: tier, Seed: sd, classes: map[string]int{}, counts: map[string]float64{}, known: map[string]int{}}
	}

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		must(err)
		var rp Replay
		must(json.Unmarshal(b, &rp))
		s := p.sub(rp.Sub)
		if s == nil {
			fmt.Fprintln(os.Stderr, "unknown sub", rp.Sub)
			os.Exit(2)
		}
		cs, err := s.decode(rp.Case)
		must(err)
		if rp.Procs > 0 {
			runtime.GOMAXPROCS(rp.Procs)
		}
		setup(p, rp.Seed)
		c := newCtx(params.SecurityLevel(rp.Level), rp.Seed, rp.Tier)
		for i := 0; i < *repeat; i++ {
			if rp.Level != 0 {
				params.CurrentSecurityLevel = params.SecurityLevel(rp.Level)
			}
			if err := protect(func() error { return s.run(c, cs) }); err != nil {
				fmt.Printf("REPLAY-FAIL property=%s sub=%s: %v\n", p.ID, rp.Sub, err)
				os.Exit(1)
			}
		}
		fmt.Printf("REPLAY-OK property=%s sub=%s\n", p.ID, rp.Sub)
		return
	}

	jobs := p.Plan(*tier)
	job := jobs[*jobIdx]
	jobSeed := splitmix(*seed*1000003 + uint64(*jobIdx)*7919 + hashName(p.ID))
	if job.Procs > 0 {
		runtime.GOMAXPROCS(job.Procs)
	}
	setup(p, jobSeed)
	c := newCtx(job.Level, jobSeed, *tier)
	res := &result{Samples: map[string]json.RawMessage{}, PerSub: map[string]int{}, SubWall: map[string]float64{}}
	seen := map[string]bool{}
	start := time.Now()
	violated := false

	for _, rs := range job.Runs {
		if *only != "" && rs.Sub != *only {
			continue
		}
		s := p.sub(rs.Sub)
		if s == nil {
			fmt.Fprintln(os.Stderr, "unknown sub in plan:", rs.Sub)
			os.Exit(2)
		}
		n := int(float64(rs.N)**scale + 0.5)
		if n < 1 {
			n = 1
		}
		subStart := time.Now()
		sd := splitmix(jobSeed ^ hashName(s.Name))
		if sd == 0 {
			sd = 1
		}
		must(flag.Set("rapid.checks", fmt.Sprint(n)))
		must(flag.Set("rapid.seed", fmt.Sprint(sd)))
		must(flag.Set("rapid.shrinktime", s.Shrink.String()))
		failing := false
		var lastErr error
		var lastCase []byte
		tb := &tbStub{name: p.ID + "_" + s.Name}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(tbStop); !ok {
						panic(r)
					}
				}
			}()
			rapid.Check(tb, func(t *rapid.T) {
				if !failing && time.Since(start).Seconds() > *deadline {
					res.Truncated = true
					_ = rapid.Uint64().Draw(t, "truncated")
					return
				}
				if job.Level != 0 {
					params.CurrentSecurityLevel = job.Level
				}
				cs := s.gen(t, c)
				b, err := json.Marshal(cs)
				must(err)
				// run exactly what a replay would run: the decoded JSON
				dec, err := s.decode(b)
				must(err)
				c.quiet = failing
				if !failing {
					res.Evaluations++
					res.PerSub[s.Name]++
					if !s.triv(dec) {
						h := sha256.Sum256(append([]byte(s.Name+":"+fmt.Sprint(int(job.Level))+":"), b...))
						k := fmt.Sprintf("%x", h[:8])
						if !seen[k] {
							seen[k] = true
							res.Nontrivial = append(res.Nontrivial, k)
							if _, ok := res.Samples[s.Name]; !ok && len(b) < 3000 {
								res.Samples[s.Name] = b
							}
						}
					}
				}
				if *inflight != "" {
					rp, _ := json.Marshal(Replay{p.ID, s.Name, int(job.Level), jobSeed, *tier, job.Procs, job.Race, b, "process died while running this case"})
					_ = os.WriteFile(*inflight, rp, 0o644)
				}
				if err := protect(func() error { return s.run(c, dec) }); err != nil {
					failing = true
					lastErr, lastCase = err, b
					t.Fatalf("violation: %s", firstLine(err.Error()))
				}
			})
		}()
		res.SubWall[s.Name] += time.Since(subStart).Seconds()
		if lastErr != nil {
			violated = true
			res.Violation = fmt.Sprintf("%s/%s level=%d: %v", p.ID, s.Name, int(job.Level), lastErr)
			if *replayOut != "" {
				rp, _ := json.MarshalIndent(Replay{p.ID, s.Name, int(job.Level), jobSeed, *tier, job.Procs, job.Race, lastCase, lastErr.Error()}, "", " ")
				must(os.WriteFile(*replayOut, rp, 0o644))
			}
			fmt.Println("FAIL", res.Violation)
			break
		} else if tb.failed {
			fmt.Fprintln(os.Stderr, "rapid:", tb.log.String())
			os.Exit(2)
		}
	}
	if *inflight != "" {
		_ = os.Remove(*inflight)
	}
	res.Classes, res.Counts, res.Known = c.classes, c.counts, c.known
	res.Wall = time.Since(start).Seconds()
	sort.Strings(res.Nontrivial)
	if *out != "" {
		b, err := json.Marshal(res)
		must(err)
		must(os.WriteFile(*out, b, 0o644))
	} else {
		b, _ := json.MarshalIndent(struct {
			E, D int
			K    map[string]int
			C    map[string]float64
			Cl   map[string]int
			W    float64
			SW   map[string]float64
		}{res.Evaluations, len(res.Nontrivial), res.Known, res.Counts, res.Classes, res.Wall, res.SubWall}, "", " ")
		fmt.Println(string(b))
	}
	if violated {
		os.Exit(1)
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(2)
	}
}
