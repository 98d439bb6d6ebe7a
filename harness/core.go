package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Rng is a seeded source for every choice the harness makes.
type Rng struct{ *rand.Rand }

func NewRng(seed uint64, tags ...any) *Rng {
	h := sha256.Sum256([]byte(fmt.Sprint(seed, tags)))
	var a, b uint64
	for i := 0; i < 8; i++ {
		a = a<<8 | uint64(h[i])
		b = b<<8 | uint64(h[8+i])
	}
	return &Rng{rand.New(rand.NewPCG(a, b))}
}

func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}
func (r *Rng) Bool() bool { return r.Uint32()&1 == 1 }

// Chance returns true with probability p.
func (r *Rng) Chance(p float64) bool { return r.Float64() < p }
func (r *Rng) Sub(tags ...any) *Rng  { return NewRng(r.Uint64(), tags...) }

// Violation is one refutation of the property under check.
type Violation struct {
	Key     string   `json:"key"`    // stable identity of what fails
	Detail  string   `json:"detail"` // this occurrence
	Witness []string `json:"witness,omitempty"`
}

// Check collects what the monitors of one property observed.
type Check struct {
	Prop string
	Tier string
	Seed uint64

	mu           sync.Mutex
	evals        int64
	distinct     map[string]bool
	counters     map[string]int64
	samples      []string
	sampleKinds  map[string]int
	viol         []Violation
	violKeys     map[string]int
	known        map[string]string
	inconclusive []string
	assumptions  []string
}

func NewCheck(prop, tier string, seed uint64) *Check {
	return &Check{Prop: prop, Tier: tier, Seed: seed, distinct: map[string]bool{}, counters: map[string]int64{},
		sampleKinds: map[string]int{}, violKeys: map[string]int{}, known: map[string]string{}}
}

func (c *Check) Thorough() bool { return c.Tier == "thorough" }

// Scale picks the number of cases for the tier.
func (c *Check) Scale(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Eval records one evaluation of the oracle. sig identifies the case; an empty one is trivial.
func (c *Check) Eval(sig string) {
	c.mu.Lock()
	c.evals++
	if sig != "" {
		h := sha256.Sum256([]byte(sig))
		c.distinct[hex.EncodeToString(h[:10])] = true
	}
	c.mu.Unlock()
}

// Sample keeps a few written-out cases of each kind.
func (c *Check) Sample(kind, text string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.sampleKinds[kind] >= 2 || len(c.samples) >= 40 {
		return
	}
	c.sampleKinds[kind]++
	if len(text) > 600 {
		text = text[:600] + "..."
	}
	c.samples = append(c.samples, kind+": "+text)
}

func (c *Check) Count(name string, n int) {
	c.mu.Lock()
	c.counters[name] += int64(n)
	c.mu.Unlock()
}

func (c *Check) Violate(key, detail string, witness ...string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.violKeys[key]++
	if c.violKeys[key] > 3 {
		return
	}
	c.viol = append(c.viol, Violation{Key: key, Detail: detail, Witness: witness})
}

func (c *Check) Inconclusive(what string) {
	c.mu.Lock()
	c.inconclusive = append(c.inconclusive, what)
	c.mu.Unlock()
}

// Parallel runs f for every i in [0,n) on the given number of workers, each with its own seed.
func (c *Check) Parallel(name string, n, workers int, f func(i int, r *Rng)) {
	var next int64 = -1
	var wg sync.WaitGroup
	if workers > n {
		workers = n
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				func() {
					defer func() {
						if e := recover(); e != nil {
							st := string(debug.Stack())
							k := strings.Index(st, "panic(")
							if k < 0 {
								k = 0
							}
							z, m := strings.Index(st[k:], "\nzRep/"), strings.Index(st[k:], "\nmain.")
							if z >= 0 && (m < 0 || z < m) {
								c.Violate("panic in "+name, fmt.Sprintf("case %d: %v", i, e), st)
							} else {
								c.Inconclusive(fmt.Sprintf("%s case %d: the harness failed: %v %s", name, i, e, oneLine(st[k:], 600)))
							}
						}
					}()
					f(i, NewRng(c.Seed, c.Prop, name, i))
				}()
			}
		}()
	}
	wg.Wait()
}

// try runs f and reports whether it panicked.
func try(f func()) (panicked bool, what string) {
	defer func() {
		if e := recover(); e != nil {
			panicked, what = true, fmt.Sprint(e)
		}
	}()
	f()
	return
}

type knownFinding struct{ prop, key, text string }

// loadKnown reads the committed list of known findings. Only "finding:" lines suppress anything.
func loadKnown(path string) (res []knownFinding) {
	data, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=C03 key=[...] text
		var k knownFinding
		rest := strings.TrimPrefix(l, "finding: property=")
		i := strings.Index(rest, " key=[")
		j := strings.Index(rest, "] ")
		if i < 0 || j < i {
			continue
		}
		k.prop, k.key, k.text = rest[:i], rest[i+len(" key=["):j], rest[j+2:]
		res = append(res, k)
	}
	return
}

// Finish writes the evidence and prints the verdict. It returns the exit code.
func (c *Check) Finish(out *os.File, verif string, rule string, start time.Time) int {
	known := loadKnown(filepath.Join(verif, "known_findings.txt"))
	var real []Violation
	printed := map[string]bool{}
	for _, v := range c.viol {
		listed := false
		for _, k := range known {
			if k.prop == c.Prop && k.key == v.Key {
				listed = true
				if !printed[k.key] {
					fmt.Fprintf(out, "KNOWN-FINDING: property=%s %s: %s\n", c.Prop, k.key, k.text)
					printed[k.key] = true
				}
			}
		}
		if !listed {
			real = append(real, v)
		}
	}
	code := 0
	os.MkdirAll(filepath.Join(verif, "replays"), 0o755)
	for i, v := range real {
		if i >= 20 {
			fmt.Fprintf(out, "... and %d more\n", len(real)-i)
			break
		}
		code = 1
		path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%d.json", c.Prop, i))
		data, _ := json.MarshalIndent(map[string]any{"property": c.Prop, "seed": c.Seed, "tier": c.Tier, "violation": v}, "", " ")
		os.WriteFile(path, data, 0o644)
		fmt.Fprintf(out, "%s: %s\n", v.Key, oneLine(v.Detail, 400))
		fmt.Fprintf(out, "VIOLATION property=%s replay=%s\n", c.Prop, path)
	}
	// a run that observed nothing, or could not decide a good part of its cases, is no verdict
	noVerdict := ""
	if code == 0 {
		if c.evals == 0 || len(c.distinct) < 3 {
			noVerdict = "observed nothing"
		}
		if int64(len(c.inconclusive))*4 > c.evals && len(c.inconclusive) > 2 {
			noVerdict = fmt.Sprintf("%d inconclusive of %d", len(c.inconclusive), c.evals)
		}
	}
	obs := []string{}
	for k := range c.counters {
		obs = append(obs, k)
	}
	sort.Strings(obs)
	counters := map[string]int64{}
	for _, k := range obs {
		counters[k] = c.counters[k]
	}
	if c.samples == nil {
		c.samples = []string{"none"}
	}
	ev := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": c.evals, "distinct_nontrivial": len(c.distinct), "rule": rule,
			"samples": c.samples, "observed": counters, "inconclusive": c.inconclusive,
			"known_findings_seen": len(printed),
		},
		"assumptions": c.assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(real),
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", c.Prop+".json"), data, 0o644); err != nil {
		fmt.Fprintln(out, "cannot write evidence:", err)
		return 2
	}
	if noVerdict != "" {
		fmt.Fprintf(out, "%s: no verdict: %s %s\n", c.Prop, noVerdict, oneLine(strings.Join(c.inconclusive, "; "), 300))
		return 2
	}
	fmt.Fprintf(out, "%s: %d evaluations, %d distinct, %d violations, %d inconclusive, %.1f s\n", c.Prop, c.evals,
		len(c.distinct), len(real), len(c.inconclusive), time.Since(start).Seconds())
	return code
}

func oneLine(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " | ")
	if len(s) > n {
		s = s[:n] + "..."
	}
	return s
}
