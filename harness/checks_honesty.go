package main

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"zRep/primitive/fujiokam"
	"zRep/proto"
	"zRep/util"
)

func init() {
	register("C15", "one evaluation is one honesty proof judged by the code under test, one drawn challenge, or one attack on the exchange between a client program and the coordinator; distinct by the numbers involved", runC15)
}

const nPrf = 480

var two = big.NewInt(2)

// fj is a proof of the generators made without the code under test.
type fj struct {
	N, H   *big.Int
	G      [6]*big.Int
	alpha  [6]*big.Int
	s      []*big.Int
	pub    []*big.Int
	p1, q1 *big.Int // the prime factors of N
}

func ne(N, b, e *big.Int) *big.Int {
	if r := new(big.Int).Exp(b, e, N); r != nil {
		return r
	}
	return new(big.Int)
}

var (
	primesMu sync.Mutex
	primes   []*big.Int
)

// safePrime returns one of the 512-bit safe primes made in advance.
func safePrime(i int) *big.Int {
	primesMu.Lock()
	defer primesMu.Unlock()
	if primes == nil {
		data, err := os.ReadFile(filepath.Join(verifDir, "harness", "data", "safeprimes.txt"))
		if err != nil {
			panic(err)
		}
		for _, l := range strings.Fields(string(data)) {
			v, _ := new(big.Int).SetString(l, 10)
			primes = append(primes, v)
		}
	}
	return primes[i%len(primes)]
}

// newFJ makes generators with exponents of abits bits. Small exponents are as good as large ones and much faster.
func newFJ(r *Rng, abits int) *fj {
	k := r.IntN(100)
	f := &fj{p1: safePrime(2 * k), q1: safePrime(2*k + 1)}
	f.N = new(big.Int).Mul(f.p1, f.q1)
	h := new(big.Int).Mod(bi(r.Bytes(128)), f.N)
	f.H = ne(f.N, h, two)
	for i := range f.G {
		f.alpha[i] = bi(r.Bytes((abits + 7) / 8))
		if r.Bool() {
			f.alpha[i].Neg(f.alpha[i])
		}
		f.G[i] = ne(f.N, f.H, f.alpha[i])
	}
	return f
}

// prove draws the secrets.
func (f *fj) prove(r *Rng, sbits int) {
	f.s, f.pub = make([]*big.Int, nPrf), make([]*big.Int, nPrf)
	for i := range f.s {
		f.s[i] = bi(r.Bytes((sbits + 7) / 8))
		f.pub[i] = ne(f.N, f.H, f.s[i])
	}
}

// pretend adapts the proof for generator k, whose logarithm is not known, to the bits that it guesses.
func (f *fj) pretend(k int, guess []bool) {
	inv := new(big.Int).ModInverse(f.G[k], f.N)
	f.alpha[k] = new(big.Int)
	for i := k * 80; i < k*80+80; i++ {
		if guess[i] {
			f.pub[i] = new(big.Int).Mul(f.pub[i], inv)
			f.pub[i].Mod(f.pub[i], f.N)
		}
	}
}

func (f *fj) answer(bits []bool) []*big.Int {
	res := make([]*big.Int, nPrf)
	for i, b := range bits {
		res[i] = new(big.Int).Set(f.s[i])
		if b {
			res[i].Add(res[i], f.alpha[i/80])
		}
	}
	return res
}

// base is what a client makes of the parameters.
func (f *fj) base() *fujiokam.FujiOkamBase {
	return foFromParams(f.params(map[string]interface{}{}))
}

func (f *fj) params(ps map[string]interface{}) map[string]interface{} {
	ps["n"], ps["h1"] = f.N.Bytes(), f.H.Bytes()
	for i, g := range f.G {
		ps[fmt.Sprint("g", i+1)] = g.Bytes()
	}
	if f.pub != nil {
		ps["honesty_prf"] = util.ProtobufEncodeBigIntList(f.pub)
	}
	return ps
}

func checkHonesty(b *fujiokam.FujiOkamBase, ans []*big.Int, bits []bool, pub []*big.Int) bool {
	return accepts(func() bool { return b.CheckAllGnHonesty(ans, bits, pub) == 0 })
}

func honestyBits(kind int, r *Rng) []bool {
	b := make([]bool, nPrf)
	switch kind {
	case 0:
	case 1:
		for i := range b {
			b[i] = true
		}
	case 2:
		b[r.IntN(nPrf)] = true
	case 3:
		k := r.IntN(6)
		for i := k * 80; i < k*80+80; i++ {
			b[i] = true
		}
	default:
		for i := range b {
			b[i] = r.Bool()
		}
	}
	return b
}

func copyInts(l []*big.Int) []*big.Int { return append([]*big.Int{}, l...) }

func honestyPrimitives(c *Check) {
	secrets := c.NewPool("honesty secret")
	alphas := c.NewPool("honesty exponent")
	moduli := c.NewPool("modulus")
	nBases := c.Scale(4, 12)
	// the coordinator's own generators and proofs
	c.Parallel("own", nBases*c.Scale(6, 10), 8, func(i int, r *Rng) {
		b := getFO(i % nBases)
		id := fmt.Sprint("own", i)
		ps := map[string]interface{}{"n": b.N.Bytes()}
		for k, g := range []*fujiokam.Point{b.G1, b.G2, b.G3, b.G4, b.G5, b.G6, b.H1} {
			ps[[]string{"g1", "g2", "g3", "g4", "g5", "g6", "h1"}[k]] = g.ToBinary()
		}
		cb := foFromParams(ps)
		sec, pub := b.GenerateAllGnHonestyProof()
		wire := util.ProtobufDecodeBigIntList(util.ProtobufEncodeBigIntList(pub))
		for k, s := range sec {
			secrets.Add(s, fmt.Sprint(id, k))
		}
		bits := honestyBits(i/nBases, r)
		if i/nBases == 5 {
			bits = cb.ChallengeAllGnHonesty()
		}
		bits = util.ProtobufDecodeBoolList(util.ProtobufEncodeBoolList(bits))
		ans := b.AnswerAllGnHonesty(bits, sec, pub)
		ans = util.ProtobufDecodeBigIntList(util.ProtobufEncodeBigIntList(ans))
		c.decide("honest proof", id, checkHonesty(cb, ans, bits, wire), true, "an honest proof is refused", fmt.Sprint("base ", i%nBases, " challenge kind ", i/nBases))
		for k := range bits {
			want := new(big.Int).Set(pub[k])
			if bits[k] {
				want.Mul(want, bi(ps[fmt.Sprint("g", k/80+1)].([]byte))).Mod(want, b.N)
			}
			if ne(b.N, b.H1.ToBigInt(), ans[k]).Cmp(want) != 0 {
				c.Violate("an honest answer is wrong", fmt.Sprint("base ", i%nBases, " position ", k, " bit ", bits[k]))
			}
		}
		if i < nBases {
			moduli.Add(b.N, id)
			a0 := b.AnswerAllGnHonesty(make([]bool, nPrf), sec, pub)
			a1 := b.AnswerAllGnHonesty(honestyBits(1, r), sec, pub)
			for k := 0; k < 6; k++ {
				alphas.Add(new(big.Int).Sub(a1[80*k], a0[80*k]), id)
			}
		}
		// a client that asks for the whole of it must not be able to predict what another one is told
		if i/nBases == 4 {
			for _, k := range []int{r.IntN(nPrf), r.IntN(nPrf), r.IntN(80)} {
				bad := copyInts(ans)
				bad[k] = new(big.Int).Add(ans[k], one)
				c.decide("one wrong answer (own proof)", fmt.Sprint(id, k), checkHonesty(cb, bad, bits, wire), false, "a proof with a wrong answer is accepted", fmt.Sprint("position ", k))
			}
		}
	})
	secrets.Wide(getFO(0).N.BitLen())
	alphas.Wide(getFO(0).N.BitLen() + 80)
	// every position, every kind of wrong answer
	kinds := []string{"one more", "one less", "answer for the other bit", "zero", "negated", "answer of the next position", "twice", "modulus added", "secret of another proof"}
	per := c.Scale(3, len(kinds))
	c.Parallel("wrong answer", nPrf, 8, func(i int, r *Rng) {
		f := newFJ(r, 80)
		f.prove(r, 64)
		b := f.base()
		bits := honestyBits(9, r)
		ans := f.answer(bits)
		c.decide("honest proof, small numbers", fmt.Sprint(i), checkHonesty(b, ans, bits, f.pub), true, "an honest proof is refused", fmt.Sprint("position ", i))
		for j := 0; j < per; j++ {
			kind := kinds[(i+j)%len(kinds)]
			if per < len(kinds) && j == 0 {
				kind = kinds[2]
			}
			bad := copyInts(ans)
			v := new(big.Int)
			switch kind {
			case "one more":
				v.Add(ans[i], one)
			case "one less":
				v.Sub(ans[i], one)
			case "answer for the other bit":
				if bits[i] {
					v.Sub(ans[i], f.alpha[i/80])
				} else {
					v.Add(ans[i], f.alpha[i/80])
				}
			case "negated":
				v.Neg(ans[i])
			case "answer of the next position":
				v.Set(ans[(i+1)%nPrf])
			case "twice":
				v.Add(ans[i], ans[i])
			case "modulus added":
				v.Add(ans[i], f.N)
			case "secret of another proof":
				v = bi(r.Bytes(8))
			}
			bad[i] = v
			if ne(f.N, f.H, v).Cmp(ne(f.N, f.H, ans[i])) == 0 {
				continue // as good as the right one
			}
			c.decide("one wrong answer: "+kind, fmt.Sprint(i, kind), checkHonesty(b, bad, bits, f.pub), false, "a proof with a wrong answer is accepted", fmt.Sprint(kind, " at position ", i, " bit ", bits[i]))
		}
		// an answer fits one bit only
		fl := append([]bool{}, bits...)
		fl[i] = !fl[i]
		c.decide("challenge with one other bit", fmt.Sprint(i), checkHonesty(b, ans, fl, f.pub), false, "a proof with a wrong answer is accepted", fmt.Sprint("bit ", i, " is the other one"))
		pub := copyInts(f.pub)
		pub[i] = ne(f.N, f.H, bi(r.Bytes(9)))
		c.decide("one other commitment", fmt.Sprint(i), checkHonesty(b, ans, bits, pub), false, "a proof with a wrong answer is accepted", fmt.Sprint("public value ", i, " is another one"))
	})
	// generators whose logarithm the prover does not know: it guesses the challenge, and is wrong once
	c.Parallel("dishonest generator", nPrf*2, 8, func(i int, r *Rng) {
		f := newFJ(r, 80)
		k, pos := i/2/80, i/2
		kind := "minus"
		G := new(big.Int)
		switch (i/2 + i) % 4 {
		case 0: // outside of the squares, with both Jacobi symbols equal to -1
			G.Sub(f.N, f.G[k])
		case 1: // outside of them, whatever it is
			kind = "non-residue"
			for {
				G.Mod(bi(r.Bytes(128)), f.N)
				if big.Jacobi(G, f.p1) != big.Jacobi(G, f.q1) {
					break
				}
			}
		case 2: // of order 2 only
			kind = "root of one"
			G.Sub(f.N, one)
		case 3:
			kind = "unknown"
			G.Mod(bi(r.Bytes(128)), f.N)
		}
		f.G[k] = G
		f.prove(r, 64)
		bits := honestyBits(9, r)
		guess := append([]bool{}, bits...)
		bits[pos] = i%2 == 1
		guess[pos] = !bits[pos]
		f.pretend(k, guess)
		c.decide("dishonest generator: "+kind, fmt.Sprint(i), checkHonesty(f.base(), f.answer(bits), bits, f.pub), false, "a generator outside of the group passes",
			fmt.Sprintf("generator %d (%s), the prover guessed all bits but that of position %d, which is %v", k+1, kind, pos, bits[pos]))
	})
	// a common generator, or modulus, with which everything is a proof
	c.Parallel("degenerate", c.Scale(64, 400), 8, func(i int, r *Rng) {
		f := newFJ(r, 80)
		f.prove(r, 64)
		kind := []string{"h is zero", "h and a generator share a factor with the modulus", "modulus one", "h is a multiple of one factor", "short lists", "empty lists", "zero generator", "small modulus"}[i%8]
		bits := honestyBits(9, r)
		if i/8%2 == 0 {
			bits = make([]bool, nPrf)
			if i/16%2 == 0 {
				bits = honestyBits(1, r)
			}
		}
		ans := f.answer(bits)
		zero := func() {
			for k := range f.pub {
				f.pub[k] = ne(f.N, f.H, f.s[k])
			}
		}
		crt := func() *big.Int { // 0 mod p, random mod q
			x := new(big.Int).Mul(f.p1, new(big.Int).Mod(bi(r.Bytes(60)), f.q1))
			return x.Mod(x, f.N)
		}
		switch kind {
		case "h is zero":
			f.H = new(big.Int)
			zero()
		case "h is a multiple of one factor", "h and a generator share a factor with the modulus":
			f.H = crt()
			f.H = ne(f.N, f.H, two)
			for k := range f.G {
				g := ne(f.N, f.H, f.alpha[k].Abs(f.alpha[k]))
				if kind[2] == 'i' { // anything modulo p
					add := new(big.Int).Mul(f.q1, new(big.Int).Mod(bi(r.Bytes(60)), f.p1))
					g.Add(g, add).Mod(g, f.N)
				}
				f.G[k] = g
			}
			if kind[2] != 'i' {
				f.G[i/8%6] = new(big.Int) // zero is no power of anything but zero
				f.G[i/8%6].Add(f.G[i/8%6], f.p1)
			}
			zero()
			ans = f.answer(bits)
		case "modulus one":
			f.N = big.NewInt(1)
			zero()
		case "small modulus":
			// so small that the random numbers of a request are smaller than what they are to hide
			f.p1, f.q1 = big.NewInt(int64([]int{23, 47, 59, 83}[r.IntN(4)])), big.NewInt(107)
			f.N = new(big.Int).Mul(f.p1, f.q1)
			f.H = big.NewInt(4)
			for k := range f.G {
				f.G[k] = ne(f.N, f.H, f.alpha[k])
			}
			zero()
		case "zero generator":
			f.G[r.IntN(6)] = new(big.Int)
			if i/8%2 == 0 {
				bits = honestyBits(1, r)
				ans = f.answer(bits)
			}
		}
		b := f.base()
		switch kind {
		case "short lists":
			n := []int{479, 400, 479, 240}[i/8%4]
			c.decide(kind, fmt.Sprint(i), checkHonesty(b, ans[:n:n], bits[:n:n], f.pub[:n:n]), false, "an incomplete proof is accepted", fmt.Sprint(n))
			c.decide(kind, fmt.Sprint(i, "a"), checkHonesty(b, ans[:n:n], bits, f.pub), false, "an incomplete proof is accepted", fmt.Sprint("answers: ", n))
			c.decide(kind, fmt.Sprint(i, "p"), checkHonesty(b, ans, bits, f.pub[:n:n]), false, "an incomplete proof is accepted", fmt.Sprint("public values: ", n))
			return
		case "empty lists":
			c.decide(kind, fmt.Sprint(i), checkHonesty(b, nil, bits, f.pub), false, "an incomplete proof is accepted", "no answers")
			c.decide(kind, fmt.Sprint(i, "p"), checkHonesty(b, nil, bits, nil), false, "an incomplete proof is accepted", "nothing but bits")
			c.decide(kind, fmt.Sprint(i, "q"), checkHonesty(b, ans, bits, nil), false, "an incomplete proof is accepted", "no public values")
			return
		}
		c.decide("degenerate parameters: "+kind, fmt.Sprint(i), checkHonesty(b, ans, bits, f.pub), false, "degenerate parameters pass", kind)
	})
	// challenges
	n := c.Scale(600, 4000)
	chal := make([][]bool, n)
	b := newFJ(NewRng(c.Seed, "challenge"), 64).base()
	for i := range chal {
		chal[i] = b.ChallengeAllGnHonesty()
		if len(chal[i]) != nPrf {
			c.Violate("a challenge has a wrong length", fmt.Sprint(len(chal[i])))
			return
		}
	}
	judgeChallenges(c, "drawn challenge", chal)
}

// judgeChallenges looks whether challenges could have been predicted. Chance makes it fail less often than once in 10^9.
func judgeChallenges(c *Check, what string, chal [][]bool) {
	seen := map[string]bool{}
	n := float64(len(chal))
	for i, b := range chal {
		k := fmt.Sprint(b)
		c.Eval(what + k)
		c.Count(what, 1)
		if seen[k] {
			c.Violate("a challenge is drawn twice", fmt.Sprint(what, " ", i))
		}
		seen[k] = true
		ones := 0
		for _, x := range b {
			if x {
				ones++
			}
		}
		if math.Abs(float64(ones)-240) > 8.5*math.Sqrt(120) {
			c.Violate("a challenge is not random", fmt.Sprintf("%s %d has %d ones", what, i, ones))
		}
		// half by half and step by step, so that repetitions within one show
		for _, d := range []int{1, 2, 7, 8, 16, 32, 64, 80, 160, 240} {
			same := 0
			for k := 0; k+d < nPrf; k++ {
				if b[k] == b[k+d] {
					same++
				}
			}
			m := float64(nPrf - d)
			if math.Abs(float64(same)-m/2) > 4.2*math.Sqrt(m) {
				c.Violate("a challenge is not random", fmt.Sprintf("%s %d: %d of %.0f bits equal the ones %d further on", what, i, same, m, d))
			}
		}
		for j := 0; j < i && j < 40; j++ {
			same := 0
			for k := range b {
				if b[k] == chal[j][k] {
					same++
				}
			}
			if math.Abs(float64(same)-240) > 8.5*math.Sqrt(120) {
				c.Violate("a challenge can be predicted from another one", fmt.Sprintf("%ss %d and %d agree in %d bits", what, j, i, same))
			}
		}
	}
	if n < 100 {
		return
	}
	for k := 0; k < nPrf; k++ {
		for d := 0; d < 6; d++ {
			ones := 0.0
			for _, b := range chal {
				x := b[k]
				if d > 0 {
					x = x != b[(k+[]int{0, 1, 2, 8, 80, 240}[d])%nPrf]
				}
				if x {
					ones++
				}
			}
			if math.Abs(ones-n/2) > 4.2*math.Sqrt(n) {
				c.Violate("a challenge is not random", fmt.Sprintf("bit %d (%d) of %ss is set %.0f times in %.0f", k, d, what, ones, n))
			}
		}
	}
}

// honestyAtk stands between client programs and the coordinator.
type honestyAtk struct {
	s    *Sim
	mu   sync.Mutex
	plan map[string]string // what is done to a client
	fake map[string]*fj    // parameters sent to a client instead of the coordinator's
	sent map[string][]bool // its last challenge
	orig map[string]*Msg   // its CONFIRMATION
	ans  map[string]*Msg
	over map[string]bool
	drop map[string]bool
}

var honestyPlans = []string{"generator", "answer", "held", "pretender", "second", "predicted", "own", "degenerate", "other's answer", "lists"}

func (a *honestyAtk) intercept(m *Msg) []*Msg {
	if m.Bad || m.Ev == nil {
		return []*Msg{m}
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	s, r := a.s, a.s.rng
	alter := func(to string, typ int, ps map[string]interface{}, what string) []*Msg {
		s.hostile(what)
		return []*Msg{{From: "C", To: to, Ev: ev(typ, ps), Bad: true, Tag: what, When: m.When}}
	}
	switch m.Type() {
	case proto.CLIENT_REGISTER_CONFIRMATION:
		plan := a.plan[m.To]
		if m.From != "C" || plan == "" || a.orig[m.To] != nil {
			break
		}
		a.orig[m.To] = m
		switch plan {
		case "generator":
			ps, what := badGenerator(m.Ev.Params, r)
			return alter(m.To, m.Type(), ps, what)
		case "pretender", "own", "degenerate":
			f := newFJ(NewRng(r.Uint64(), "fj"), 1100)
			f.prove(r, 1024)
			if plan == "pretender" {
				k := r.IntN(6)
				f.G[k] = new(big.Int).Mod(bi(r.Bytes(128)), f.N)
				f.pretend(k, honestyBits([]int{0, 1, 9}[r.IntN(3)], r))
			}
			if plan == "degenerate" {
				f.degenerate(r)
			}
			a.fake[m.To] = f
			return alter(m.To, m.Type(), f.params(clone(m.Ev.Params)), "parameters of our own: "+plan)
		}
	case proto.GN_HONESTY_CHALLENGE:
		bits := util.ProtobufDecodeBoolList(m.B("honesty_chal"))
		a.sent[m.From] = bits
		if f := a.fake[m.From]; f != nil {
			m.DSeq = -1 // not delivered
			return []*Msg{{From: "C", To: m.From, Bad: true, Tag: "answer of our own", When: m.When,
				Ev: ev(proto.GN_HONESTY_ANSWER, map[string]interface{}{"honesty_ans": util.ProtobufEncodeBigIntList(f.answer(bits))})}}
		}
	case proto.GN_HONESTY_ANSWER:
		if m.From != "C" || a.over[m.To] {
			break
		}
		a.ans[m.To] = m
		ans := copyInts(util.ProtobufDecodeBigIntList(m.B("honesty_ans")))
		switch a.plan[m.To] {
		case "held":
			a.over[m.To] = true
			m.DSeq = -1
			return nil
		case "answer":
			a.over[m.To] = true
			k := r.IntN(len(ans))
			ans[k] = new(big.Int).Add(ans[k], big.NewInt(int64(1-2*r.IntN(2))))
			return alter(m.To, m.Type(), map[string]interface{}{"honesty_ans": util.ProtobufEncodeBigIntList(ans)}, "one wrong answer")
		case "lists":
			a.over[m.To] = true
			ans = ans[:[]int{0, 80, 400, 479}[r.IntN(4)]]
			return alter(m.To, m.Type(), map[string]interface{}{"honesty_ans": util.ProtobufEncodeBigIntList(ans)}, "an incomplete answer")
		case "other's answer":
			a.over[m.To] = true
			for n, o := range a.ans {
				if n != m.To {
					return alter(m.To, m.Type(), clone(o.Ev.Params), "another client's answer")
				}
			}
			ans[r.IntN(len(ans))] = new(big.Int)
			return alter(m.To, m.Type(), map[string]interface{}{"honesty_ans": util.ProtobufEncodeBigIntList(ans)}, "one wrong answer")
		}
	case proto.REQUEST_BRIDGES:
		if a.drop[m.From] {
			m.DSeq = -1
			return nil
		}
	}
	return []*Msg{m}
}

// badGenerator alters one generator of the coordinator's.
func badGenerator(params map[string]interface{}, r *Rng) (map[string]interface{}, string) {
	ps := clone(params)
	N := bi(ps["n"].([]byte))
	k := fmt.Sprint("g", 1+r.IntN(6))
	g := bi(ps[k].([]byte))
	what := ""
	switch r.IntN(4) {
	case 0:
		g.Sub(N, g)
		what = "minus generator"
	case 1:
		g.Mod(bi(r.Bytes(128)), N)
		what = "unknown generator"
	case 2:
		g.Mul(g, two).Mod(g, N)
		what = "generator times two"
	case 3:
		g.Mul(g, bi(ps["h1"].([]byte))).Mod(g, N)
		what = "generator times h"
	}
	ps[k] = g.Bytes()
	return ps, what
}

// degenerate parameters, for which the answers of an honest prover verify.
func (f *fj) degenerate(r *Rng) {
	again := func() {
		for k := range f.pub {
			f.pub[k] = ne(f.N, f.H, f.s[k])
		}
	}
	for k := range f.alpha {
		f.alpha[k].Abs(f.alpha[k])
	}
	switch r.IntN(3) {
	case 0:
		f.H = new(big.Int)
		again()
	case 1:
		f.H = new(big.Int).Mod(new(big.Int).Mul(f.p1, bi(r.Bytes(60))), f.N)
		for k := range f.G {
			g := ne(f.N, f.H, f.alpha[k])
			f.G[k] = g.Add(g, new(big.Int).Mul(f.q1, new(big.Int).Mod(bi(r.Bytes(60)), f.p1))).Mod(g, f.N)
		}
		again()
	case 2:
		f.p1, f.q1 = big.NewInt(59), big.NewInt(107)
		f.N = new(big.Int).Mul(f.p1, f.q1)
		f.H = big.NewInt(4)
		for k := range f.G {
			f.G[k] = ne(f.N, f.H, f.alpha[k])
		}
		again()
	}
}

// asks lets the client program ask for a bridge, and tells whether it does.
func (a *honestyAtk) asks(c *Cl, n int) bool {
	n0 := len(a.s.w.Find(0, proto.REQUEST_BRIDGES, c.name, ""))
	c.k.Type(fmt.Sprintf("get %d", n))
	c.k.Digested()
	a.s.w.Settle()
	return len(a.s.w.Find(0, proto.REQUEST_BRIDGES, c.name, "")) > n0
}

func (a *honestyAtk) must(c *Cl, plan, stage string, want bool) {
	got := a.asks(c, 1+a.s.rng.IntN(3))
	a.s.c.Count(fmt.Sprintf("%s, %s: requests=%v", plan, stage, want), 1)
	a.s.c.Eval(fmt.Sprint(a.s.w.Name, c.name, plan, stage))
	if got && !want {
		a.s.miss("C15", "a client makes a request without a proof of the parameters", "%s, plan %s, %s", c.name, plan, stage)
	}
	if !got && want && !c.k.proc.Dead() {
		a.s.miss("C15", "a client makes no request although the parameters are proved", "%s, plan %s, %s", c.name, plan, stage)
	}
	if c.k.proc.Dead() && want {
		a.s.miss("C15", "a client ends although the parameters are proved", "%s, plan %s, %s: %s", c.name, plan, stage, strings.Join(c.k.proc.Tail(12), " | "))
	}
}

func (a *honestyAtk) act(c *Cl) {
	s := a.s
	plan := a.plan[c.name]
	a.drop[c.name] = true
	s.w.WaitFor(c.name+" to be confirmed", func() bool {
		return len(s.w.match(0, proto.CLIENT_REGISTER_CONFIRMATION, "C", c.name)) > 0
	})
	s.w.Settle()
	c.k.Digested()
	s.w.Settle()
	toClient := func(typ int, ps map[string]interface{}, what string) {
		s.bad(what, "C", c.name, typ, ps)
		s.w.Settle()
		c.k.Digested()
		s.w.Settle()
	}
	switch plan {
	case "generator", "answer", "pretender", "degenerate", "other's answer", "lists":
		a.must(c, plan, "after the proof", false)
		if plan == "answer" && a.ans[c.name] != nil && !c.k.proc.Dead() {
			// it may not be fooled by another wrong one either
			ans := copyInts(util.ProtobufDecodeBigIntList(a.ans[c.name].B("honesty_ans")))
			ans[s.rng.IntN(nPrf)] = big.NewInt(1)
			toClient(proto.GN_HONESTY_ANSWER, map[string]interface{}{"honesty_ans": util.ProtobufEncodeBigIntList(ans)}, "one wrong answer, again")
			a.must(c, plan, "after another wrong answer", false)
		}
	case "own":
		a.must(c, plan, "after the proof", true)
	case "held":
		a.must(c, plan, "before the answer", false)
		if a.ans[c.name] == nil {
			return
		}
		toClient(proto.GN_HONESTY_ANSWER, clone(a.ans[c.name].Ev.Params), "the answer that was held")
		a.must(c, plan, "after the answer", true)
	case "second":
		if s.rng.Bool() {
			a.must(c, plan, "after the first proof", true)
		}
		ps, what := badGenerator(a.orig[c.name].Ev.Params, s.rng)
		if s.rng.Bool() {
			what = "the same parameters"
			ps = clone(a.orig[c.name].Ev.Params)
		}
		toClient(proto.CLIENT_REGISTER_CONFIRMATION, ps, "second confirmation: "+what)
		a.must(c, plan, "after the second confirmation", false)
		if !c.k.proc.Dead() {
			toClient(proto.GN_HONESTY_ANSWER, clone(a.ans[c.name].Ev.Params), "the first answer again")
			a.must(c, plan, "after the first answer again", false)
		}
	case "predicted":
		// a second proof, for parameters of our own, that fits the first challenge
		a.mu.Lock()
		guess := append([]bool{}, a.sent[c.name]...)
		f := newFJ(NewRng(s.rng.Uint64(), "fj"), 1100)
		f.prove(s.rng, 1024)
		k := s.rng.IntN(6)
		f.G[k] = new(big.Int).Mod(bi(s.rng.Bytes(128)), f.N)
		f.pretend(k, guess)
		a.fake[c.name] = f
		a.mu.Unlock()
		toClient(proto.CLIENT_REGISTER_CONFIRMATION, f.params(clone(a.orig[c.name].Ev.Params)), "a proof that fits the first challenge")
		a.must(c, plan, "after the second proof", false)
	}
}

// coordinator asks for more answers than there are proofs.
func (a *honestyAtk) coordinator(s *Sim) {
	r := s.rng
	answers := func(c string) int { return len(s.w.Find(0, proto.GN_HONESTY_ANSWER, "C", c)) }
	chal := func(kind, from string, bits []bool) {
		s.bad("challenge: "+kind, from, "C", proto.GN_HONESTY_CHALLENGE, map[string]interface{}{"honesty_chal": util.ProtobufEncodeBoolList(bits)})
	}
	other := func(b []bool) []bool {
		res := append([]bool{}, b...)
		for i := range res {
			res[i] = !res[i]
		}
		return res
	}
	for _, c := range s.cls {
		if c.m == nil || c.m.bits == nil || c.left {
			continue
		}
		s.w.Settle()
		n0 := answers(c.name)
		chal("the same again", c.name, c.m.bits)
		chal("all bits the other way", c.name, other(c.m.bits))
		chal("random", c.name, honestyBits(9, r))
		for k := 0; k < 3; k++ {
			chal("one sided", c.name, honestyBits(k, r))
		}
		for _, o := range s.cls {
			if o.m != nil && o != c {
				chal("another client's", c.name, o.m.bits)
			}
		}
		s.w.Settle()
		if n := answers(c.name) - n0; n > 0 {
			s.miss("C15", "a proof is used for more than one challenge", "%s: %d further answers", c.name, n)
		}
		// the key again, and then another key at the same address
		s.bad("registration: the same key again", c.name, "C", proto.CLIENT_REGISTER_CONTROLLERSIDE, map[string]interface{}{"public_key": pad64(c.m.pk)})
		s.w.Settle()
		chal("after registering again", c.name, other(c.m.bits))
		s.w.Settle()
		if n := answers(c.name) - n0; n > 0 {
			s.miss("C15", "a proof is used for more than one challenge", "%s: %d further answers after registering the same key again", c.name, n)
		}
	}
}

// again registers further keys at the addresses of clients and asks for what is said about their parameters.
func (a *honestyAtk) again(s *Sim) {
	for i, c := range s.cls {
		if c.m == nil || c.left {
			continue
		}
		for k := 0; k < 3; k++ {
			for j := 0; j < 1+(i+k)%2; j++ {
				s.hostile("another key at the same address")
				s.w.Send(c.name, "C", ev(proto.CLIENT_REGISTER_CONTROLLERSIDE, map[string]interface{}{"public_key": pad64(gexp(grpG, sv(randSec())))}), "another key")
			}
			s.w.Settle()
			bits := honestyBits(9, s.rng)
			for j := 0; j < 3; j++ {
				s.w.Send(c.name, "C", ev(proto.GN_HONESTY_CHALLENGE, map[string]interface{}{"honesty_chal": util.ProtobufEncodeBoolList(bits)}), "challenge")
				for l := range bits {
					bits[l] = !bits[l]
				}
			}
			s.w.Settle()
		}
	}
}

// scanHonesty looks at everything that the coordinator of a world has said about its parameters.
func scanHonesty(c *Check, s *Sim, publics map[string]string, sentBits *[][]bool) {
	type conf struct {
		pub  []*big.Int
		used int
	}
	w := s.w
	open := map[string][]*conf{}
	pow := map[string]string{} // H^answer -> where
	type revealed struct {
		bit bool
		in  int
	}
	told := map[string]revealed{}
	var N, H *big.Int
	var G [6]*big.Int
	challenges := map[string][][]bool{}
	var all []*big.Int
	for _, m := range w.Log {
		if m.Ev == nil {
			continue
		}
		if m.Type() == proto.GN_HONESTY_CHALLENGE {
			bits := util.ProtobufDecodeBoolList(m.B("honesty_chal"))
			challenges[m.From] = append(challenges[m.From], bits)
			if strings.HasPrefix(m.From, "k") && !m.Bad {
				*sentBits = append(*sentBits, bits)
			}
		}
		if m.From != "C" || m.Bad {
			continue
		}
		switch m.Type() {
		case proto.CLIENT_REGISTER_CONFIRMATION:
			n, h := bi(m.B("n")), bi(m.B("h1"))
			if N != nil && (n.Cmp(N) != 0 || h.Cmp(H) != 0) {
				s.miss("C15", "clients are told different parameters", "%v", m)
				continue
			}
			N, H = n, h
			for i := range G {
				G[i] = bi(m.B(fmt.Sprint("g", i+1)))
			}
			pub := util.ProtobufDecodeBigIntList(m.B("honesty_prf"))
			if len(pub) != nPrf {
				s.miss("C15", "a proof has a wrong length", "%d", len(pub))
				continue
			}
			for i, v := range pub {
				k := hx(v)
				if o, ok := publics[k]; ok {
					s.miss("C15", "a value of a proof is used twice", "%s position %d and %s", m, i, o)
				}
				publics[k] = fmt.Sprint(w.Name, " ", m.To, " position ", i)
			}
			c.Count("public values of proofs", len(pub))
			open[m.To] = append(open[m.To], &conf{pub: pub})
		case proto.GN_HONESTY_ANSWER:
			ans := util.ProtobufDecodeBigIntList(m.B("honesty_ans"))
			c.Count("answers on the wire", 1)
			var f *conf
			bits := make([]bool, nPrf)
			for _, o := range open[m.To] {
				if N == nil || len(ans) != nPrf {
					break
				}
				ok := true
				for i, v := range ans {
					p := ne(N, H, v)
					if p.Cmp(o.pub[i]) == 0 {
						bits[i] = false
					} else if x := new(big.Int).Mul(o.pub[i], G[i/80]); p.Cmp(x.Mod(x, N)) == 0 {
						bits[i] = true
					} else {
						ok = false
						break
					}
				}
				if ok {
					f = o
					break
				}
			}
			if f == nil {
				s.miss("C15", "the coordinator's answer fits none of its proofs", "%v", m)
				continue
			}
			f.used++
			if f.used > 1 {
				s.miss("C15", "a proof is used for more than one challenge", "%v", m)
			}
			asked := false
			for _, b := range challenges[m.To] {
				same := len(b) == len(bits)
				for i := 0; same && i < len(b); i++ {
					same = b[i] == bits[i]
				}
				asked = asked || same
			}
			if !asked {
				s.miss("C15", "the coordinator answers a challenge that nobody has sent", "%v", m)
			}
			c.Eval(fmt.Sprint(w.Name, "answer", m.Seq))
			for i, v := range ans {
				k := hx(f.pub[i])
				if t, ok := told[k]; ok && t.bit != bits[i] {
					s.miss("C15", "two answers reveal the exponent of a generator", "generator %d, messages %d and %d", i/80+1, t.in, m.Seq)
				}
				told[k] = revealed{bits[i], m.Seq}
				p := ne(N, H, v)
				pow[hx(p)] = fmt.Sprint(m.To, " position ", i)
				all = append(all, p)
			}
		}
	}
	if N == nil {
		return
	}
	// the difference of two numbers, or a number itself, is the exponent of a generator
	for k := range G {
		inv := new(big.Int).ModInverse(G[k], N)
		if inv == nil {
			s.miss("C15", "a generator shares a factor with the modulus", "g%d", k+1)
			continue
		}
		if _, ok := pow[hx(G[k])]; ok {
			s.miss("C15", "an answer is the exponent of a generator", "g%d: %s", k+1, pow[hx(G[k])])
		}
		for _, p := range all {
			q := new(big.Int).Mul(p, inv)
			if o, ok := pow[hx(q.Mod(q, N))]; ok {
				s.miss("C15", "two answers reveal the exponent of a generator", "g%d: one at %s, the other at %s", k+1, o, pow[hx(p)])
				break
			}
		}
	}
	c.Count("pairs of answers compared", len(all)*6)
	// the factors of the modulus
	for _, m := range w.Log {
		if m.Ev == nil || m.From != "C" || m.Bad {
			continue
		}
		for k, x := range m.Ev.Params {
			b, ok := x.([]byte)
			if !ok || len(b) < 40 || len(b) > 300 {
				continue
			}
			v := bi(b)
			for _, y := range []*big.Int{v, new(big.Int).Add(new(big.Int).Add(v, v), one)} {
				if d := new(big.Int).GCD(nil, nil, y, N); d.Cmp(one) != 0 && d.Cmp(N) != 0 {
					s.miss("C15", "a message has a factor of the modulus", "%s of %v", k, m)
				}
			}
			c.Count("numbers compared with the modulus", 1)
		}
	}
}

func runC15(c *Check) {
	honestyPrimitives(c)
	publics := map[string]string{}
	var sent [][]bool
	var mu sync.Mutex
	c.RunWorlds(1, c.Scale(7, 40), 8, func(i int, r *Rng, ctrl bool) WorldCfg {
		a := &honestyAtk{plan: map[string]string{}, fake: map[string]*fj{}, sent: map[string][]bool{}, orig: map[string]*Msg{}, ans: map[string]*Msg{},
			over: map[string]bool{}, drop: map[string]bool{}}
		cfg := WorldCfg{Servers: 1 + i%2, Models: 2, Rounds: 1, Chal: true, Play: defaultPlay}
		cfg.Play.Posts, cfg.Play.Requests = 2, 1
		cfg.Setup = func(s *Sim) {
			a.s = s
			s.icept = a.intercept
		}
		cfg.Round = func(s *Sim) {
			switch s.round {
			case 0:
				// one client program that nothing is done to, and others
				plans := []string{""}
				if !ctrl {
					for k := 0; k < 3; k++ {
						plans = append(plans, honestyPlans[(3*i+k)%len(honestyPlans)])
					}
				}
				for _, p := range plans {
					n0 := len(s.w.Find(0, proto.CLIENT_REGISTER_CONFIRMATION, "C", ""))
					name := fmt.Sprintf("k%d", s.w.count("k"))
					a.mu.Lock()
					a.plan[name] = p
					a.mu.Unlock()
					cl := s.AddReal()
					if cl.name != name {
						s.w.fault("name of a client")
					}
					if p != "" {
						cl.dead, cl.k.proc.quit = true, true
					}
					s.w.WaitFor(name+" to be confirmed", func() bool {
						return len(s.w.match(0, proto.CLIENT_REGISTER_CONFIRMATION, "C", "")) > n0
					})
				}
				s.w.Settle()
				if !ctrl {
					a.coordinator(s)
				}
			case 1:
				for _, cl := range s.cls {
					if a.plan[cl.name] != "" {
						a.act(cl)
					}
				}
			}
		}
		cfg.End = func(s *Sim) {
			if !ctrl {
				n := len(s.mm)
				a.again(s)
				s.mm = s.mm[:n] // the referee does not expect these
			}
			mu.Lock()
			defer mu.Unlock()
			scanHonesty(c, s, publics, &sent)
		}
		return cfg
	})
	judgeChallenges(c, "sent challenge", sent)
}
