package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"sync"
)

// decide compares one decision of the code under test with what the oracle says.
func (c *Check) decide(kind, sig string, got, want bool, key, detail string) bool {
	c.Eval(kind + "|" + sig)
	c.Count(kind, 1)
	c.Sample(kind, oneLine(detail, 300))
	if got != want {
		c.Violate(key, fmt.Sprintf("%s: got %v, want %v: %s", kind, got, want, oneLine(detail, 800)))
	}
	return got == want
}

// accepts runs a verifier; a panic counts as a refusal.
func accepts(f func() bool) (ok bool) {
	if pan, _ := try(func() { ok = f() }); pan {
		return false
	}
	return
}

func hexs(b []byte) string {
	if len(b) > 40 {
		return hex.EncodeToString(b[:16]) + ".." + hex.EncodeToString(b[len(b)-8:]) + fmt.Sprintf("(%d)", len(b))
	}
	return hex.EncodeToString(b)
}

// Pool collects values that have to be pairwise different, and looks at how they are distributed.
type Pool struct {
	mu   sync.Mutex
	c    *Check
	what string
	seen map[string]string
	vals []*big.Int
}

func (c *Check) NewPool(what string) *Pool {
	return &Pool{c: c, what: what, seen: map[string]string{}}
}

// Add notes a value; where tells its origin.
func (p *Pool) Add(v *big.Int, where string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	k := v.Text(62)
	p.c.Eval(p.what + "|" + k)
	p.c.Count(p.what, 1)
	if w, ok := p.seen[k]; ok {
		p.c.Violate(p.what+" is used twice", fmt.Sprintf("%s in %s and %s", v.Text(16), w, where))
	}
	p.seen[k] = where
	p.vals = append(p.vals, v)
}

// Wide checks that the absolute values look uniform up to 2^bits: with n values, at least one has about all the
// bits, none is much smaller, and the leading bytes vary. The bounds fail by chance less often than once in 10^11.
func (p *Pool) Wide(bits int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	n := len(p.vals)
	if n == 0 {
		return
	}
	max, tops := 0, map[uint64]bool{}
	min := 1 << 30
	for _, v := range p.vals {
		l := v.BitLen()
		if l > max {
			max = l
		}
		if l < min {
			min = l
		}
		a := new(big.Int).Abs(v)
		if l > 24 {
			tops[new(big.Int).Rsh(a, uint(bits-20)).Uint64()&0xfffff] = true
		}
	}
	p.c.Eval(fmt.Sprint(p.what, " distribution ", n))
	if max < bits-int(40/float64(n))-1 {
		p.c.Violate(p.what+" is too narrow", fmt.Sprintf("largest of %d values has %d bits instead of %d", n, max, bits))
	}
	if min < bits-44-int(math.Log2(float64(n))) {
		p.c.Violate(p.what+" is too small at times", fmt.Sprintf("smallest of %d values has %d bits of %d", n, min, bits))
	}
	if n >= 20 && len(tops) < n*3/4 {
		p.c.Violate(p.what+" does not vary", fmt.Sprintf("%d leading parts in %d values", len(tops), n))
	}
	if n >= 128 {
		p.bitsLocked(bits)
	}
}

// bitsLocked checks that every bit but the leading ones is set in about half of the values.
func (p *Pool) bitsLocked(bits int) {
	n := float64(len(p.vals))
	for b := 0; b < bits-8; b++ {
		k := 0.0
		for _, v := range p.vals {
			k += float64(new(big.Int).Abs(v).Bit(b))
		}
		if math.Abs(k-n/2) > 4.2*math.Sqrt(n) { // 8.4 sigma
			p.c.Violate(p.what+" has a biased bit", fmt.Sprintf("bit %d is set in %.0f of %.0f values", b, k, n))
			return
		}
	}
}

// chiOK tests counts for uniformity. The bound is generous: df + 12*sqrt(2*df) + 40.
func chiOK(counts []int) (float64, bool) {
	n := 0
	for _, k := range counts {
		n += k
	}
	e := float64(n) / float64(len(counts))
	x := 0.0
	for _, k := range counts {
		x += (float64(k) - e) * (float64(k) - e) / e
	}
	df := float64(len(counts) - 1)
	return x, x < df+12*math.Sqrt(2*df)+40
}

func flip(b []byte, bit int) []byte {
	if len(b) == 0 {
		return []byte{1}
	}
	r := append([]byte{}, b...)
	r[bit/8%len(b)] ^= 1 << (bit % 8)
	return r
}

func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
