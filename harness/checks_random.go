package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"sync"

	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/random"
)

func init() {
	register("C10", "one evaluation is one random value, recovered with the keys that the harness holds or read from a message of a real process, compared with all others of its kind in all runs, or one pair of signatures or proofs of which the secret is solved for; distinct by the value or the pair", runC10)
	register("C23", "one evaluation is one blinded value of one request, or one guess of the reputation tested on one request; distinct by the value", runC23)
}

// ---------------------------------------------------------------------------------------------------------------
// small discrete logarithms: none of the values that have to be random is a small power

type bsgs struct {
	mod, base, back *big.Int
	baby            map[string]int
	m               int
}

// newBSGS finds exponents up to about m*m, of either sign.
func newBSGS(base, mod *big.Int, m int) *bsgs {
	b := &bsgs{mod: mod, base: base, baby: map[string]int{}, m: m}
	x := big.NewInt(1)
	for i := 0; i < m; i++ {
		if _, ok := b.baby[string(x.Bytes())]; !ok {
			b.baby[string(x.Bytes())] = i
		}
		x = new(big.Int).Mul(x, base)
		x.Mod(x, mod)
	}
	b.back = new(big.Int).ModInverse(x, mod) // base^-m
	return b
}

func (b *bsgs) find(v *big.Int, steps int) (int, bool) {
	if b.back == nil {
		return 0, false
	}
	x := new(big.Int).Mod(v, b.mod)
	for i := 0; i < steps; i++ {
		if k, ok := b.baby[string(x.Bytes())]; ok {
			return i*b.m + k, true
		}
		x.Mul(x, b.back).Mod(x, b.mod)
	}
	return 0, false
}

// small finds v = base^e or base^-e.
func (b *bsgs) small(v *big.Int, steps int) (int, bool) {
	if e, ok := b.find(v, steps); ok {
		return e, true
	}
	if w := new(big.Int).ModInverse(v, b.mod); w != nil {
		if e, ok := b.find(w, steps); ok {
			return -e, true
		}
	}
	return 0, false
}

// ---------------------------------------------------------------------------------------------------------------
// signatures

// A sigRec is a signature that somebody made.
type sigRec struct {
	T, c, r *big.Int
	where   string
	m       string
}

// keySigs are the signatures of one private key, possibly on several generators.
type keySigs struct {
	who   string
	pk    *big.Int // standard generator to the private key
	base  *big.Int // or this one
	sigs  []sigRec
	bases []*big.Int
}

// solve tries to compute the private key from each pair of signatures whose nonces are equal, opposite, or differ by
// little, and reports a key that is found.
func (k *keySigs) solve(c *Check) {
	deltas := []int64{0, 1, -1}
	// same nonce: the most frequent mistake; other relations are tried on the neighbours only
	n := len(k.sigs)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n && j < i+60; j++ {
			a, b := k.sigs[i], k.sigs[j]
			dc := new(big.Int).Sub(b.c, a.c)
			sc := new(big.Int).Add(b.c, a.c)
			ds := deltas
			if j > i+2 {
				ds = deltas[:1]
			}
			for _, d := range ds {
				// r = v - x c, so r1 - r2 = v1 - v2 + x (c2 - c1)
				if inv := new(big.Int).ModInverse(new(big.Int).Mod(dc, grpQ), grpQ); inv != nil {
					x := new(big.Int).Sub(a.r, b.r)
					x.Add(x, big.NewInt(d)).Mul(x, inv).Mod(x, grpQ)
					k.try(c, x, "nonces that differ by "+fmt.Sprint(d), a, b)
				}
			}
			if j <= i+2 {
				// v1 = -v2: r1 + r2 = -x (c1 + c2)
				if inv := new(big.Int).ModInverse(new(big.Int).Mod(sc, grpQ), grpQ); inv != nil {
					x := new(big.Int).Add(a.r, b.r)
					x.Neg(x).Mul(x, inv).Mod(x, grpQ)
					k.try(c, x, "opposite nonces", a, b)
				}
			}
		}
	}
	for _, a := range k.sigs {
		// the nonce is the key, or a small number
		if inv := new(big.Int).ModInverse(new(big.Int).Mod(new(big.Int).Sub(one, a.c), grpQ), grpQ); inv != nil {
			k.try(c, new(big.Int).Mod(new(big.Int).Mul(a.r, inv), grpQ), "the key as nonce", a, a)
		}
		for v := int64(-2); v <= 2; v++ {
			if inv := new(big.Int).ModInverse(new(big.Int).Mod(a.c, grpQ), grpQ); inv != nil {
				x := new(big.Int).Sub(big.NewInt(v), a.r)
				k.try(c, x.Mul(x, inv).Mod(x, grpQ), "a small nonce", a, a)
			}
		}
	}
}

func (k *keySigs) try(c *Check, x *big.Int, how string, a, b sigRec) {
	c.Eval("")
	c.Count("attempts to compute a private key", 1)
	if gexp(k.base, x).Cmp(k.pk) == 0 {
		c.Violate("a private key is computed from signatures", fmt.Sprintf("key of %s with %s: %s and %s", k.who, how, a.where, b.where))
	}
}

// ---------------------------------------------------------------------------------------------------------------
// requests

type reqView struct {
	ind, d      int // d: reputation left, or -1 when unknown
	fo          *fujiokam.FujiOkamBase
	ped         [2]*big.Int // GT, HT
	FOCommd     *big.Int
	PCommd      *big.Int
	PCommind    *big.Int
	rind        *big.Int
	nn          *fujiokam.ARGnonneg
	eq          *pedersen_fujiokam.ARGequal
	e           *big.Int
	sig         []byte
	nym         *big.Int
	where       string
	world       string
	repu        int
	rFO, rd, rP *big.Int // known for our own
}

func viewReq(ps map[string]interface{}, fo *fujiokam.FujiOkamBase) (v *reqView, err string) {
	_, err = try(func() {
		b := func(k string) []byte { return ps[k].([]byte) }
		v = &reqView{fo: fo, d: -1, FOCommd: bi(b("FOCommd")), PCommd: bi(b("PCommd")), PCommind: bi(b("PCommind")), rind: bi(b("rind")),
			sig: b("signature"), nym: bi(b("nym")), ind: ps["ind"].(int)}
		v.nn = util.DecodeARGnonneg(b("arg_nonneg"))
		v.eq = util.DecodeARGequal(b("arg_equal"))
		v.e = nnHash(15, v.FOCommd, v.nn.C, v.nn.Cr, v.nn.Commitrx)
	})
	return
}

// related reports pairs among the responses of one argument whose difference is a multiple of the challenge: then the
// same randomness has blinded two values.
func (v *reqView) related(c *Check) {
	names := []string{"X_", "A_", "B_", "D_", "R_", "R"}
	vals := []*big.Int{v.nn.X_, v.nn.A_, v.nn.B_, v.nn.D_, v.nn.R_, v.nn.R}
	for i := range vals {
		for j := 0; j < i; j++ {
			// small combinations of the two, which then say something about the values
			for m := int64(1); m <= 3; m++ {
				for n := int64(-3); n <= 3; n++ {
					if n == 0 {
						continue
					}
					d := new(big.Int).Add(mulI(vals[i], big.NewInt(m)), mulI(vals[j], big.NewInt(n)))
					c.Eval("")
					c.Count("pairs of responses of one argument", 1)
					d.Mod(d, v.e)
					if d.BitLen() < 100 || new(big.Int).Sub(v.e, d).BitLen() < 100 {
						c.Violate("two values of one argument are blinded by related numbers", fmt.Sprintf("%d %s %+d %s: %s", m, names[i], n, names[j], v.where))
					}
				}
			}
		}
	}
	d := new(big.Int).Sub(v.eq.S1, v.eq.S3)
	if d.Mod(d, v.eq.C).Sign() == 0 {
		c.Violate("two values of one argument are blinded by the same number", "S1 and S3: "+v.where)
	}
	if v.d >= 0 {
		// S2 blinded like S1: then it gives the randomness of the commitment away
		inv := new(big.Int).ModInverse(new(big.Int).Mod(v.eq.C, grpQ), grpQ)
		if inv != nil && v.ped[0] != nil {
			t1 := new(big.Int).Sub(v.eq.S1, mulI(v.eq.C, big.NewInt(int64(v.d))))
			for _, t := range []*big.Int{t1, new(big.Int), negI(t1)} {
				r := new(big.Int).Sub(v.eq.S2, t)
				r.Mul(r, inv).Mod(r, grpQ)
				c.Eval("")
				if commitVal(v.ped[0], v.ped[1], big.NewInt(int64(v.d)), r).Cmp(v.PCommd) == 0 {
					c.Violate("the opening of a commitment is computed from a request", v.where)
				}
			}
		}
	}
}

// pairwise solves for the secrets of two requests of one client.
func (v *reqView) pairwise(c *Check, w *reqView) {
	type resp struct {
		name           string
		s1, s2, c1, c2 *big.Int
	}
	for _, p := range []resp{
		{"X_", v.nn.X_, w.nn.X_, v.e, w.e}, {"A_", v.nn.A_, w.nn.A_, v.e, w.e}, {"B_", v.nn.B_, w.nn.B_, v.e, w.e}, {"D_", v.nn.D_, w.nn.D_, v.e, w.e},
		{"R", v.nn.R, w.nn.R, v.e, w.e}, {"R_", v.nn.R_, w.nn.R_, v.e, w.e},
		{"S1", v.eq.S1, w.eq.S1, v.eq.C, w.eq.C}, {"S3", v.eq.S3, w.eq.S3, v.eq.C, w.eq.C},
	} {
		c.Count("pairs of requests solved", 1)
		c.Eval("")
		dc := new(big.Int).Sub(p.c1, p.c2)
		ds := new(big.Int).Sub(p.s1, p.s2)
		if dc.Sign() == 0 {
			c.Violate("two arguments have the same challenge", v.where+" and "+w.where)
			continue
		}
		if new(big.Int).Mod(ds, dc).Sign() == 0 || ds.BitLen() < p.s1.BitLen()-100 {
			c.Violate("two arguments are blinded by the same number", fmt.Sprintf("%s: %s and %s", p.name, v.where, w.where))
		}
	}
	// commitments with the same randomness differ by a small power of the generator
	n := v.fo.N
	for _, p := range [][3]*big.Int{{v.FOCommd, w.FOCommd, bi(v.fo.G1.ToBinary())}, {v.nn.Commitrx, w.nn.Commitrx, bi(v.fo.G1.ToBinary())}} {
		inv := new(big.Int).ModInverse(p[1], n)
		if inv == nil || v.fo.N.Cmp(w.fo.N) != 0 {
			continue
		}
		q := new(big.Int).Mul(p[0], inv)
		q.Mod(q, n)
		if e, ok := newBSGS(p[2], n, 64).small(q, 4); ok {
			c.Violate("two commitments have the same randomness", fmt.Sprintf("difference %d: %s and %s", e, v.where, w.where))
		}
	}
}

// ---------------------------------------------------------------------------------------------------------------

// A sample of the values that a request shows, by kind, for one class of reputations.
type reqSample map[string][]*big.Int

func (m reqSample) add(v *reqView) {
	put := func(k string, x *big.Int) { m[k] = append(m[k], x) }
	put("FOCommd", v.FOCommd)
	put("PCommd", v.PCommd)
	put("PCommind", v.PCommind)
	put("rind", v.rind)
	put("Commitrx", v.nn.Commitrx)
	put("C", v.nn.C)
	put("Cr", v.nn.Cr)
	put("R", v.nn.R)
	put("X_", v.nn.X_)
	put("A_", v.nn.A_)
	put("B_", v.nn.B_)
	put("D_", v.nn.D_)
	put("R_", v.nn.R_)
	put("c", v.eq.C)
	put("S1", v.eq.S1)
	put("S2", v.eq.S2)
	put("S3", v.eq.S3)
	// what the quotients by the challenges look like
	q := func(a, b *big.Int) *big.Int { return new(big.Int).Quo(a, b) }
	put("X_/e", q(v.nn.X_, v.e))
	put("A_/e", q(v.nn.A_, v.e))
	put("B_/e", q(v.nn.B_, v.e))
	put("D_/e", q(v.nn.D_, v.e))
	put("S1/c", q(v.eq.S1, v.eq.C))
	put("X_ mod e", new(big.Int).Mod(v.nn.X_, v.e))
	put("S1 mod c", new(big.Int).Mod(v.eq.S1, v.eq.C))
}

// tell compares two samples kind by kind: sign, size, leading part, low bits.
func (c *Check) tell(what string, a, b reqSample) {
	for k := range a {
		n, m := float64(len(a[k])), float64(len(b[k]))
		if n < 20 || m < 20 {
			continue
		}
		lim := math.Sqrt(14 * (n + m) / (n * m)) // 2 exp(-28) by chance
		for name, f := range map[string]func(x *big.Int) float64{
			"value": squash,
			"size":  func(x *big.Int) float64 { return float64(x.BitLen()) },
			"low bits": func(x *big.Int) float64 {
				return float64(new(big.Int).And(new(big.Int).Abs(x), big.NewInt(0xff)).Int64())
			},
			"parity": func(x *big.Int) float64 { return float64(x.Bit(0)) },
		} {
			var xs, ys []float64
			for _, x := range a[k] {
				xs = append(xs, f(x))
			}
			for _, y := range b[k] {
				ys = append(ys, f(y))
			}
			c.Eval(what + k + name)
			c.Count("comparisons of distributions", 1)
			if d := ksDiscrete(xs, ys); d > lim {
				c.Violate("requests of different reputations can be told apart", fmt.Sprintf("%s: %s of %s, distance %.2f of %.0f and %.0f values (limit %.2f)", what, name, k, d, n, m, lim))
			}
		}
	}
}

// squash maps a number to one that keeps the order, also of those beyond the range of floats.
func squash(x *big.Int) float64 {
	l := x.BitLen()
	if l == 0 {
		return 0
	}
	a := new(big.Int).Abs(x)
	s := l - 52
	var f float64
	if s > 0 {
		f = float64(new(big.Int).Rsh(a, uint(s)).Uint64()) / (1 << 52)
	} else {
		f = float64(a.Uint64()) / float64(uint64(1)<<uint(l))
	}
	return float64(x.Sign()) * (float64(l) + f)
}

// ksDiscrete treats ties right.
func ksDiscrete(a, b []float64) float64 {
	sort.Float64s(a)
	sort.Float64s(b)
	i, j, d := 0, 0, 0.0
	for i < len(a) || j < len(b) {
		var x float64
		switch {
		case i == len(a):
			x = b[j]
		case j == len(b):
			x = a[i]
		default:
			x = math.Min(a[i], b[j])
		}
		for i < len(a) && a[i] == x {
			i++
		}
		for j < len(b) && b[j] == x {
			j++
		}
		d = math.Max(d, math.Abs(float64(i)/float64(len(a))-float64(j)/float64(len(b))))
	}
	return d
}

// opens decides whether a further value in a request is the reputation that is left, or opens a commitment to it.
func (v *reqView) opens(x interface{}) bool {
	var n *big.Int
	switch x := x.(type) {
	case int:
		n = big.NewInt(int64(x))
	case []byte:
		n = bi(x)
	case string:
		n, _ = new(big.Int).SetString(x, 10)
	}
	if n == nil {
		return false
	}
	D := big.NewInt(int64(v.d))
	if n.IsInt64() && (n.Cmp(D) == 0 || n.Int64() == int64(v.d+v.ind)) {
		return true
	}
	f := algOf(v.fo)
	for _, r := range []*big.Int{n, negI(n)} {
		if v.ped[0] != nil && commitVal(v.ped[0], v.ped[1], new(big.Int).Mod(D, grpQ), new(big.Int).Mod(r, grpQ)).Cmp(v.PCommd) == 0 {
			return true
		}
		if r.BitLen() < 8192 && f.mul(f.prod(f.G1, D), f.prod(f.H1, r)).Cmp(v.FOCommd) == 0 {
			return true
		}
	}
	return false
}

// guess tests every small remaining reputation on a request: none may fit, the right one included.
func (v *reqView) guess(c *Check, h *bsgs, deep bool) {
	f := algOf(v.fo)
	for d := int64(-2); d < 48; d++ {
		D := big.NewInt(d)
		c.Eval("")
		c.Count("guesses tested", 1)
		hit := func(what string) {
			c.Violate("a guess of the reputation can be tested", fmt.Sprintf("%s at %d, right is %d: %s", what, d, v.d, v.where))
		}
		// the blindings that a guess leaves over have to be wide
		for _, p := range []struct {
			name string
			x    *big.Int
			bits int
		}{
			{"X_ - d e", new(big.Int).Sub(v.nn.X_, mulI(D, v.e)), 1000},
			{"A_ - d e", new(big.Int).Sub(v.nn.A_, mulI(D, v.e)), 1000},
			{"S1 - d c", new(big.Int).Sub(v.eq.S1, mulI(D, v.eq.C)), 330},
			{"X_", v.nn.X_, 1000}, {"A_", v.nn.A_, 1000}, {"B_", v.nn.B_, 1000}, {"D_", v.nn.D_, 1000},
		} {
			if p.x.BitLen() < p.bits {
				hit(p.name)
			}
			if d != 0 && new(big.Int).Mod(p.x, v.e).Sign() == 0 {
				hit(p.name + " is a multiple of the challenge")
			}
		}
		if deep || d == int64(v.d) {
			// the commitments do not become small powers
			if e, ok := h.small(f.mul(v.FOCommd, f.prod(f.G1, negI(D))), 4); ok {
				hit(fmt.Sprint("FOCommd with randomness ", e))
			}
			if v.ped[0] != nil {
				if e, ok := newBSGS(v.ped[1], grpP, 128).small(gmul(v.PCommd, ginv(gexp(v.ped[0], new(big.Int).Mod(D, grpQ)))), 4); ok {
					hit(fmt.Sprint("PCommd with randomness ", e))
				}
				// with the randomness of the part that is opened
				for _, r := range []*big.Int{v.rind, new(big.Int).Sub(grpQ, v.rind)} {
					if commitVal(v.ped[0], v.ped[1], new(big.Int).Mod(D, grpQ), r).Cmp(v.PCommd) == 0 {
						hit("PCommd with rind")
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------------------------------------------------------

// A ledger collects the random values that the processes of all runs show.
type ledger struct {
	c     *Check
	mu    sync.Mutex
	pools map[string]*Pool
	keys  map[string]*keySigs
	reqs  map[string][]*reqView
	std   *bsgs
	mods  []*big.Int
}

func newLedger(c *Check) *ledger {
	return &ledger{c: c, pools: map[string]*Pool{}, keys: map[string]*keySigs{}, reqs: map[string][]*reqView{}, std: newBSGS(grpG, grpP, 1024)}
}

func (l *ledger) add(pool string, v *big.Int, where string) {
	l.mu.Lock()
	p := l.pools[pool]
	if p == nil {
		p = l.c.NewPool(pool)
		l.pools[pool] = p
	}
	l.mu.Unlock()
	p.Add(v, where)
}

// power notes a value that has to be a power of the generator that nobody can guess.
func (l *ledger) power(v *big.Int, where string) {
	l.add("power of the generator", v, where)
	l.c.Count("logarithms looked for", 1)
	if e, ok := l.std.small(v, 64); ok {
		l.c.Violate("a secret is a small number", fmt.Sprintf("%d: %s", e, where))
	}
}

func (l *ledger) key(who string, pk, base *big.Int) *keySigs {
	l.mu.Lock()
	defer l.mu.Unlock()
	k := l.keys[who]
	if k == nil {
		k = &keySigs{who: who, pk: pk, base: base}
		l.keys[who] = k
	}
	return k
}

func (l *ledger) sign(who string, pk, base, keyOnBase, sigBase *big.Int, sig []byte, where string) {
	T, ch, r, ok := sigT(sig, keyOnBase, sigBase)
	if !ok {
		return
	}
	l.add("nonce point of a signature", T, where)
	if sigBase.Cmp(grpG) == 0 {
		if e, ok := l.std.small(T, 16); ok {
			l.c.Violate("a secret is a small number", fmt.Sprintf("nonce %d: %s", e, where))
		}
	}
	k := l.key(who, pk, base)
	l.mu.Lock()
	k.sigs = append(k.sigs, sigRec{T: T, c: ch, r: r, where: where})
	l.mu.Unlock()
}

// chunks notes the parts of a proof, but neither those known from elsewhere, which belong to the statement, nor those
// that the proof has more than twice: the first parts of all pairs, which are equal.
func (l *ledger) chunks(pool string, data []byte, where string, known map[string]bool) {
	var vs []*big.Int
	count := map[string]int{}
	for i := 0; i+64 <= len(data); i += 64 {
		v := bi(data[i : i+64])
		count[string(v.Bytes())]++
		vs = append(vs, v)
	}
	var rest []*big.Int
	for _, v := range vs {
		if k := string(v.Bytes()); count[k] <= 2 && !known[k] {
			rest = append(rest, v)
		}
	}
	l.once(pool, rest, where)
}

// once notes the values of one message, of which some may be equal.
func (l *ledger) once(pool string, vs []*big.Int, where string) {
	seen := map[string]bool{}
	for _, v := range vs {
		if !seen[string(v.Bytes())] {
			seen[string(v.Bytes())] = true
			l.add(pool, v, where)
		}
	}
}

// take reads the messages of a run.
func (l *ledger) take(s *Sim) {
	w := s.w
	w.mu.Lock()
	log := append([]*Msg{}, w.Log...)
	w.mu.Unlock()
	sort.SliceStable(log, func(i, j int) bool { return log[i].DSeq < log[j].DSeq })
	G := grpG
	if s.coordPK != nil {
		l.power(s.coordPK, w.Name+" key of the coordinator")
	}
	first := map[string]bool{}
	last := map[string]*big.Int{}
	known := map[string]bool{string(grpG.Bytes()): true}
	for _, m := range log {
		if m.Ev == nil {
			continue
		}
		for _, f := range []string{"keys", "vals", "xbar", "ybar"} {
			if v, ok := m.Ev.Params[f].([]byte); ok {
				ps, _ := pointList(v)
				for _, x := range ps {
					known[string(x.Bytes())] = true
				}
			}
		}
		for _, f := range []string{"g", "public_key", "GT", "HT", "h"} {
			if v, ok := m.Ev.Params[f].([]byte); ok {
				known[string(bi(v).Bytes())] = true
			}
		}
	}
	for _, m := range log {
		if m.Ev == nil || m.Bad || m.DSeq <= 0 {
			continue
		}
		at := fmt.Sprintf("%s #%d %s", w.Name, m.Seq, evName[m.Type()])
		real := m.From == "C" || m.From[0] == 's' || m.From[0] == 'k'
		try(func() {
			switch m.Type() {
			case proto.SERVER_REGISTER, proto.CLIENT_REGISTER_CONTROLLERSIDE:
				l.power(bi(m.B("public_key")), at+" key of "+m.From)
			case proto.SERVER_REGISTER_REPLY:
				if !first["fo"] {
					first["fo"] = true
					n := bi(m.B("n"))
					l.add("modulus", n, at)
					l.mu.Lock()
					l.mods = append(l.mods, n)
					l.mu.Unlock()
					for _, g := range []string{"g1", "g2", "g3", "g4", "g5", "g6", "h1"} {
						l.add("commitment generator", bi(m.B(g)), at+" "+g)
					}
				}
			case proto.UPDATE_PEDERSEN_H:
				if m.To == "C" {
					l.power(bi(m.B("h")), at)
				}
			case proto.CLIENT_REGISTER_SERVERSIDE:
				if m.From == "C" {
					l.add("commitment", bi(m.B("pcomm")), at)
				} else {
					l.add("pseudonym of a registration", bi(m.B("public_key")), at)
				}
			case proto.INIT_PEDERSEN_R:
				l.add("commitment randomness", bi(m.B("r")), at)
			case proto.BCAST_PEDERSEN_RDIFF:
				id := fmt.Sprint("rdiff", s.w.Name, string(m.B("rDiffs")))
				if !first[id] {
					first[id] = true
					rs, _ := secretList(m.B("rDiffs"))
					for _, r := range rs {
						l.add("commitment randomness", r, at)
					}
				}
			case proto.ANNOUNCEMENT, proto.ROUND_END:
				if m.From == "C" || m.From[0] != 's' {
					return
				}
				if m.Type() == proto.ANNOUNCEMENT {
					// a server keeps its round key for all tables of one round
					g := bi(m.B("g"))
					if last[m.From] == nil || last[m.From].Cmp(g) != 0 {
						l.add("power of the generator", g, at+" g")
					}
					last[m.From] = g
					if m.To == "C" {
						G = g
					}
				} else {
					delete(last, m.From)
				}
				l.add("base of the commitments", bi(m.B("GT")), at+" GT")
				l.add("base of the commitments", bi(m.B("HT")), at+" HT")
				pk := bi(m.B("public_key"))
				xb, _ := pointList(m.B("xbar"))
				for _, x := range xb {
					l.power(gmul(x, ginv(pk)), at+" re-encryption")
				}
				yb, _ := pointList(m.B("ybar"))
				for _, y := range yb {
					l.add("re-encrypted pseudonym", y, at)
				}
				ks, _ := pointList(m.B("keys"))
				vs, _ := pointList(m.B("vals"))
				if m.Type() == proto.ANNOUNCEMENT {
					for _, k := range ks {
						l.add("pseudonym on its way", k, at)
					}
				}
				l.once("commitment", vs, at)
				l.chunks("part of a shuffle proof", m.B("proof"), at, known)
			case proto.CLIENT_REGISTER_CONFIRMATION:
				for _, x := range util.ProtobufDecodeBigIntList(m.B("honesty_prf")) {
					l.add("value of an honesty proof", x, at)
				}
			case proto.GN_HONESTY_CHALLENGE:
				l.add("challenge of a client", bi(m.B("honesty_chal")), at)
			case proto.POST_BRIDGE, proto.REQUEST_BRIDGES, proto.VOTE:
				if m.To != "C" {
					return
				}
				c := s.clientOf(m.From)
				if c == nil || c.pk == nil {
					return
				}
				l.sign(w.Name+" "+m.From, c.pk, grpG, bi(m.B("nym")), G, m.B("signature"), at)
				if m.Type() != proto.REQUEST_BRIDGES {
					return
				}
				l.add("commitment randomness", bi(m.B("rind")), at)
				if fo := s.fo(); fo != nil {
					if v, _ := viewReq(m.Ev.Params, fo); v != nil {
						v.where, v.world = at, w.Name
						if n, ok := m.Note.(int); ok {
							v.d = n
						}
						v.ped[0], v.ped[1] = s.pedAt(m)
						l.request(w.Name+" "+m.From, v)
						if real {
							l.c.Count("requests of real clients", 1)
						}
					}
				}
			case proto.GOT_SIGNS:
				if m.To == "C" {
					for _, p := range pairs(m) {
						l.sign(w.Name+" "+m.From, s.srvKeys[m.From], grpG, s.srvKeys[m.From], grpG, []byte(p[1]), at)
					}
				} else if s.coordPK != nil {
					who := w.Name + " coordinator"
					l.sign(who, s.coordPK, grpG, s.coordPK, grpG, m.B("signature"), at)
					sigs := util.Decode2DByteArray(m.B("signatures"))
					l.sign(who, s.coordPK, grpG, s.coordPK, grpG, sigs[len(sigs)-1], at+" certificate")
				}
			}
		})
	}
}

// fo is the commitment base of the run.
func (s *Sim) fo() *fujiokam.FujiOkamBase {
	for _, c := range s.cls {
		if c.m != nil && c.m.fo != nil {
			return c.m.fo
		}
	}
	return nil
}

// pedAt finds the bases of the round in which a message was sent.
func (s *Sim) pedAt(m *Msg) (GT, HT *big.Int) {
	for _, t := range s.w.Find(0, proto.ANNOUNCEMENT, "", "C") {
		if t.DSeq > 0 && t.DSeq < m.DSeq && !t.Bad {
			GT, HT = bi(t.B("GT")), bi(t.B("HT"))
		}
	}
	return
}

func (l *ledger) request(who string, v *reqView) {
	for _, p := range []struct {
		pool string
		x    *big.Int
	}{{"FO commitment", v.FOCommd}, {"FO commitment", v.nn.Commitrx}, {"commitment of an argument", v.nn.C}, {"commitment of an argument", v.nn.Cr},
		{"response X_", v.nn.X_}, {"response A_", v.nn.A_}, {"response B_", v.nn.B_}, {"response D_", v.nn.D_}, {"response R", v.nn.R}, {"response R_", v.nn.R_},
		{"challenge c", v.eq.C}, {"response S1", v.eq.S1}, {"response S2", v.eq.S2}, {"response S3", v.eq.S3},
		{"difference of commitments", v.PCommd}, {"commitment to the number", v.PCommind}} {
		l.add(p.pool, p.x, v.where)
	}
	l.mu.Lock()
	l.reqs[who] = append(l.reqs[who], v)
	l.mu.Unlock()
}

// solve runs all computations of secrets.
func (l *ledger) solve() {
	var ks []*keySigs
	for _, k := range l.keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].who < ks[j].who })
	l.c.Parallel("keys", len(ks), 8, func(i int, r *Rng) { ks[i].solve(l.c) })
	var rs [][]*reqView
	for _, k := range l.reqs {
		rs = append(rs, k)
	}
	l.c.Parallel("requests", len(rs), 8, func(i int, r *Rng) {
		for a, v := range rs[i] {
			v.related(l.c)
			for b := a + 1; b < len(rs[i]) && b < a+12; b++ {
				v.pairwise(l.c, rs[i][b])
			}
		}
	})
	for i, n := range l.mods {
		for _, o := range l.mods[:i] {
			l.c.Eval("")
			if new(big.Int).GCD(nil, nil, n, o).Cmp(one) != 0 {
				l.c.Violate("two moduli have a common factor", n.Text(16))
			}
		}
		l.factor(n)
	}
	for _, n := range []string{"response X_", "response A_", "response B_", "response D_"} {
		if p := l.pools[n]; p != nil {
			p.Wide(getFO(0).RandomRadius.BitLen())
		}
	}
	if p := l.pools["response S1"]; p != nil {
		p.Wide(400)
	}
	for _, n := range []string{"commitment randomness", "response S2"} {
		if p := l.pools[n]; p != nil {
			p.Wide(grpQ.BitLen())
		}
	}
}

// factor tries the usual ways to factor a bad modulus.
func (l *ledger) factor(n *big.Int) {
	l.c.Eval("modulus " + n.Text(62))
	bad := func(how string) { l.c.Violate("a modulus is factored", how+": "+n.Text(16)) }
	if n.ProbablyPrime(20) {
		bad("it is a prime")
	}
	s := new(big.Int).Sqrt(n)
	if new(big.Int).Mul(s, s).Cmp(n) == 0 {
		bad("it is a square")
	}
	// factors that are close
	a := new(big.Int).Add(s, one)
	for i := 0; i < 20000; i++ {
		b2 := new(big.Int).Sub(new(big.Int).Mul(a, a), n)
		b := new(big.Int).Sqrt(b2)
		if new(big.Int).Mul(b, b).Cmp(b2) == 0 {
			bad("its factors are close")
			break
		}
		a.Add(a, one)
	}
	// small factors, and p-1
	x := big.NewInt(3)
	for p := int64(2); p < 3000; p++ {
		if big.NewInt(p).ProbablyPrime(5) {
			if new(big.Int).Mod(n, big.NewInt(p)).Sign() == 0 {
				bad(fmt.Sprint("factor ", p))
			}
			for q := p; q < 1<<20; q *= p {
				x.Exp(x, big.NewInt(p), n)
			}
		}
	}
	if g := new(big.Int).GCD(nil, nil, new(big.Int).Sub(x, one), n); g.Cmp(one) > 0 && g.Cmp(n) < 0 {
		bad("p-1")
	}
}

// ---------------------------------------------------------------------------------------------------------------

// primitives makes many of everything with keys that we know, and recovers the randomness.
func (l *ledger) primitives() {
	c := l.c
	for i := 0; i < 4; i++ {
		getFO(i)
	}
	prefix := make([]byte, 8192)
	for i := range prefix {
		prefix[i] = byte(i * 7)
	}
	keys := make([]*big.Int, 6)
	for i := range keys {
		keys[i] = sv(randSec())
	}
	c.Parallel("signatures", c.Scale(480, 6000), 8, func(i int, r *Rng) {
		x := keys[r.IntN(len(keys))]
		// equal messages, and such that share a long beginning or end
		var msg []byte
		switch r.IntN(4) {
		case 0:
			msg = []byte("the same message")
		case 1:
			msg = cat(prefix[:64<<r.IntN(8)], []byte{byte(i), byte(i >> 8)})
		case 2:
			msg = cat([]byte{byte(i), byte(i >> 8)}, prefix[:64<<r.IntN(8)])
		default:
			msg = r.Bytes(r.IntN(300))
		}
		base := grpG
		g := suite.Point().Base()
		if r.Bool() {
			e := keys[r.IntN(len(keys))]
			base = gexp(grpG, e)
			g = pt(base)
		}
		sig := util.ElGamalSign(suite, random.Stream, msg, sec(x), g)
		where := fmt.Sprintf("signature %d", i)
		ch, rr := bi(sig[:64]), bi(sig[64:])
		v := new(big.Int).Mul(x, ch)
		v.Add(v, rr).Mod(v, grpQ)
		l.add("nonce of a signature", v, where)
		l.sign("key "+fmt.Sprint(x), gexp(grpG, x), grpG, gexp(base, x), base, sig, where)
	})
	l.pools["nonce of a signature"].Wide(grpQ.BitLen())
	c.Parallel("encryptions", c.Scale(160, 2000), 8, func(i int, r *Rng) {
		x := keys[i%2]
		K, C, _ := util.ElGamalEncrypt(suite, pt(gexp(grpG, x)), suite.Point().Base())
		l.power(pv(K), fmt.Sprint("encryption ", i))
		l.add("masked message", pv(C), fmt.Sprint("encryption ", i))
		b := pedersen.CreateBase()
		l.power(pv(b.HT), fmt.Sprint("second base ", i))
		r1, r2 := sec(big.NewInt(5)), pt(gexp(grpG, keys[0]))
		C1, rc := b.Commit(r1)
		l.add("commitment randomness", sv(rc), fmt.Sprint("commitment ", i))
		l.add("commitment", pv(C1), fmt.Sprint("commitment ", i))
		_, E := b.Randomize(r2)
		l.add("commitment randomness", sv(E), fmt.Sprint("randomisation ", i))
	})
	// arguments of requests
	c.Parallel("requests made", c.Scale(200, 2400), 8, func(i int, r *Rng) {
		d := []int{0, 0, 1, 2, 5, 40}[i%6]
		who := i % 8
		v := l.ownRequest(i, who, d, r)
		l.request(fmt.Sprint("own ", who), v)
		f := fmt.Sprint("request ", i)
		l.add("FO randomness", v.rFO, f)
		D := big.NewInt(int64(v.d))
		l.add("blinding t1", new(big.Int).Sub(v.eq.S1, mulI(D, v.eq.C)), f)
		t2 := new(big.Int).Sub(v.eq.S2, mulI(v.rd, v.eq.C))
		l.add("blinding t2", t2.Mod(t2, grpQ), f)
		l.add("blinding t3", new(big.Int).Sub(v.eq.S3, mulI(v.rFO, v.eq.C)), f)
		l.add("blinding rx", new(big.Int).Sub(v.nn.X_, mulI(D, v.e)), f)
		l.add("blinding rrx", new(big.Int).Sub(v.nn.R, mulI(v.rFO, v.e)), f)
	})
	R := getFO(0).RandomRadius.BitLen()
	l.pools["FO randomness"].Wide(R)
	l.pools["blinding t1"].Wide(400)
	l.pools["blinding t2"].Wide(grpQ.BitLen())
	l.pools["blinding rx"].Wide(R)
}

// ownRequest makes a request as the client program does.
func (l *ledger) ownRequest(i, who, d int, r *Rng) *reqView {
	fo := getFO(who % 4)
	if i%2 == 0 {
		fo = foFromParams(foParams(fo))
	}
	ped := pedersen.CreateBase()
	ind := r.IntN(6)
	x := d + ind
	comm, rc := ped.Commit(suite.Secret().SetInt64(int64(x)))
	sk := randSec()
	G := pt(gexp(grpG, sv(randSec())))
	nym := suite.Point().Mul(G, sk)
	ps, parts := makeRequest(ped, fo, x, ind, rc, comm, mustBin(nym.MarshalBinary()), sk, G)
	v, err := viewReq(ps, fo)
	if v == nil || err != "" {
		panic("request: " + err)
	}
	v.d, v.repu, v.rFO, v.rd, v.rP = d, x, parts.rFO, parts.rd, sv(rc)
	v.ped = [2]*big.Int{pv(ped.GT), pv(ped.HT)}
	v.where = fmt.Sprintf("request %d for %d with reputation %d", i, ind, x)
	return v
}

// probe lets the servers of a run that is over process tables on the generator, so that their exponents show.
func (l *ledger) probe(s *Sim, n int) {
	w := s.w
	w.Settle()
	rounds := 0
	s.icept = func(m *Msg) []*Msg { // the answers go no further
		m.Bad, m.DSeq = true, -1
		return nil
	}
	if len(s.chain) > 1 {
		n = 1 // this server would accept the table of the end from its successor only, with a proof
	}
	for i := 0; i < n; i++ {
		pts := []*big.Int{}
		for k := 0; k < 3; k++ {
			pts = append(pts, gexp(grpG, big.NewInt(int64(2+k))))
		}
		srv := s.chain[0]
		out := s.inject(&Msg{From: "C", To: srv.name, Bad: true, Tag: "probe", Ev: ev(proto.ANNOUNCEMENT, map[string]interface{}{
			"keys": encPts(pts), "vals": encPts([]*big.Int{grpG, grpG, grpG}), "GT": pad64(grpG), "HT": pad64(gexp(grpG, big.NewInt(7)))})})
		for _, m := range out {
			if m.Ev == nil || m.Type() != proto.ANNOUNCEMENT {
				continue
			}
			at := fmt.Sprintf("%s probe %d of %s", w.Name, i, srv.name)
			if i > 0 { // the first is that of the round which the coordinator has opened
				l.power(bi(m.B("g")), at+" round key")
			} else if e, ok := l.std.small(bi(m.B("g")), 64); ok {
				l.c.Violate("a secret is a small number", fmt.Sprintf("%d: %s round key", e, at))
			}
			l.power(bi(m.B("GT")), at+" exponent")
			rounds++
			// and back, which ends the round of the server
			back := s.inject(&Msg{From: "C", To: srv.name, Bad: true, Tag: "probe", Ev: ev(proto.ROUND_END, map[string]interface{}{
				"keys": m.B("keys"), "vals": encPts([]*big.Int{grpG, grpG, grpG}), "GT": pad64(grpG), "HT": pad64(gexp(grpG, big.NewInt(7))), "is_start": true})})
			for _, o := range back {
				if o.Ev != nil && o.Type() == proto.ROUND_END {
					l.power(bi(o.B("GT")), at+" exponent of the end")
					rounds++
				}
			}
		}
	}
	if rounds == 0 {
		s.c.Inconclusive(w.Name + ": no answer to a probe")
	}
	s.c.Count("tables on the generator", rounds)
}

// noteReqs records the reputation that is left at the time of each request.
func (s *Sim) noteReqs(m *Msg) []*Msg {
	if m.Ev != nil && !m.Bad && m.To == "C" && m.Type() == proto.REQUEST_BRIDGES {
		s.mu.Lock()
		if c := s.clientOf(m.From); c != nil {
			if ind, ok := m.Ev.Params["ind"].(int); ok {
				m.Note = c.x - ind
			}
		}
		s.mu.Unlock()
	}
	return []*Msg{m}
}

func runC10(c *Check) {
	l := newLedger(c)
	outs := c.RunWorlds(c.Scale(8, 40), 0, 12, func(i int, r *Rng, ctrl bool) WorldCfg {
		play := defaultPlay
		play.Posts, play.Requests, play.VoteP = 4, 3, 0.9
		cfg := WorldCfg{Servers: []int{1, 2, 1, 3}[i%4], Models: 2, Reals: 2 - i%2, Late: 1, Rounds: c.Scale(2, 5), Play: play, Chal: true}
		cfg.Setup = func(s *Sim) { s.icept = s.noteReqs }
		cfg.End = func(s *Sim) { l.probe(s, c.Scale(8, 24)) }
		return cfg
	})
	for _, o := range outs {
		if o.s != nil {
			l.take(o.s)
		}
	}
	l.primitives()
	l.solve()
}

func runC23(c *Check) {
	l := newLedger(c)
	// requests of our own, of clients with little and with much left
	classes := []int{0, 1, 2, 5, 17, 60, 1000, 1 << 20}
	samples := make([]reqSample, len(classes))
	for i := range samples {
		samples[i] = reqSample{}
	}
	for i := 0; i < 4; i++ {
		getFO(i)
	}
	hs := make([]*bsgs, 4)
	for i := range hs {
		f := algOf(getFO(i))
		hs[i] = newBSGS(f.H1, f.N, 256)
	}
	var mu sync.Mutex
	n := c.Scale(96, 600)
	pools := map[string]*Pool{}
	for _, k := range []string{"randomness of FOCommd", "randomness of PCommd", "blinding of X_", "blinding of S1", "blinding of S2", "blinding of S3", "blinding of R", "response R_", "A_", "B_", "D_"} {
		pools[k] = c.NewPool(k)
	}
	c.Parallel("own requests", n*len(classes), 8, func(i int, r *Rng) {
		k := i % len(classes)
		v := l.ownRequest(i, i/len(classes), classes[k], r)
		D := big.NewInt(int64(v.d))
		pools["randomness of FOCommd"].Add(v.rFO, v.where)
		pools["randomness of PCommd"].Add(v.rd, v.where)
		pools["blinding of X_"].Add(new(big.Int).Sub(v.nn.X_, mulI(D, v.e)), v.where)
		pools["blinding of S1"].Add(new(big.Int).Sub(v.eq.S1, mulI(D, v.eq.C)), v.where)
		t2 := new(big.Int).Sub(v.eq.S2, mulI(v.rd, v.eq.C))
		pools["blinding of S2"].Add(t2.Mod(t2, grpQ), v.where)
		pools["blinding of S3"].Add(new(big.Int).Sub(v.eq.S3, mulI(v.rFO, v.eq.C)), v.where)
		pools["blinding of R"].Add(new(big.Int).Sub(v.nn.R, mulI(v.rFO, v.e)), v.where)
		pools["response R_"].Add(v.nn.R_, v.where)
		pools["A_"].Add(v.nn.A_, v.where)
		pools["B_"].Add(v.nn.B_, v.where)
		pools["D_"].Add(v.nn.D_, v.where)
		if i%8 == 0 {
			v.guess(c, hs[(i/len(classes))%4], i%64 == 0)
		}
		for _, p := range []struct {
			name               string
			resp, chal, secret *big.Int
		}{{"S2", v.eq.S2, v.eq.C, v.rd}, {"S3", v.eq.S3, v.eq.C, v.rFO}, {"R", v.nn.R, v.e, v.rFO}} {
			c.Eval("")
			c.Count("secrets compared with quotients", 1)
			q := new(big.Int).Quo(p.resp, p.chal)
			if q.Sub(q, p.secret).BitLen() < p.secret.BitLen()-48 {
				c.Violate("a response divided by the challenge tells the leading bits of a secret", p.name+": "+v.where)
			}
		}
		v.related(c)
		mu.Lock()
		samples[k].add(v)
		mu.Unlock()
	})
	R := getFO(0).RandomRadius.BitLen()
	for k, bits := range map[string]int{"randomness of FOCommd": R, "blinding of X_": R, "A_": R, "B_": R, "D_": R, "blinding of S1": 400, "blinding of S3": R + 256 + 80,
		"blinding of R": R + 256 + 80, "response R_": R + 256 + 80, "randomness of PCommd": grpQ.BitLen(), "blinding of S2": grpQ.BitLen()} {
		pools[k].Wide(bits)
	}
	for k := 1; k < len(classes); k++ {
		c.tell(fmt.Sprintf("%d and %d left", classes[0], classes[k]), samples[0], samples[k])
		c.tell(fmt.Sprintf("%d and %d left", classes[k-1], classes[k]), samples[k-1], samples[k])
	}
	openRequests(c)
	// requests of the client program
	fields := map[string]bool{}
	for _, k := range []string{"ind", "nym", "signature", "FOCommd", "PCommd", "PCommind", "rind", "arg_nonneg", "arg_equal"} {
		fields[k] = true
	}
	outs := c.RunWorlds(c.Scale(5, 24), 0, 12, func(i int, r *Rng, ctrl bool) WorldCfg {
		play := defaultPlay
		play.Posts, play.Requests, play.VoteP, play.Up = 3, 5, 1, []float64{1, 0.2, 0.6}[i%3]
		cfg := WorldCfg{Servers: 1 + i%2, Models: 2, Reals: 3, Rounds: c.Scale(3, 5), Play: play}
		cfg.Setup = func(s *Sim) { s.icept = s.noteReqs }
		return cfg
	})
	for _, o := range outs {
		if o.s == nil {
			continue
		}
		s := o.s
		fo := s.fo()
		if fo == nil {
			continue
		}
		f := algOf(fo)
		h := newBSGS(f.H1, f.N, 256)
		byClient := map[string][]*reqView{}
		var vs []*reqView
		for _, m := range s.w.Find(0, proto.REQUEST_BRIDGES, "", "C") {
			d, ok := m.Note.(int)
			if m.From[0] != 'k' || !ok {
				continue
			}
			v, err := viewReq(m.Ev.Params, fo)
			at := fmt.Sprintf("%s #%d", s.w.Name, m.Seq)
			if v == nil {
				c.Violate("a request cannot be read", at+": "+err)
				continue
			}
			v.d, v.where = d, at
			v.ped[0], v.ped[1] = s.pedAt(m)
			for k, x := range m.Ev.Params {
				c.Eval("")
				if !fields[k] && v.opens(x) {
					c.Violate("a request says what it has to hide", at+": "+k)
				}
			}
			vs = append(vs, v)
			byClient[m.From] = append(byClient[m.From], v)
		}
		c.Count("requests of client programs", len(vs))
		c.Parallel("requests of "+s.w.Name, len(vs), 8, func(i int, r *Rng) {
			vs[i].guess(c, h, i%4 == 0)
			vs[i].related(c)
			c.Eval(vs[i].where + vs[i].FOCommd.Text(62))
		})
		for _, l := range byClient {
			for a := range l {
				for b := a + 1; b < len(l) && b < a+8; b++ {
					l[a].pairwise(c, l[b])
				}
			}
		}
	}
}

// ---------------------------------------------------------------------------------------------------------------

// An openGroup is a group modulo a number of 1024 bits, in which discrete logarithms are easy.
type openGroup struct {
	n, h, order *big.Int
	qs          []int64 // the distinct primes of the order
	tabs        map[int64]*bsgs
}

func newOpenGroup(r *Rng) *openGroup {
	var small []int64
	for q := int64(1009); len(small) < 400; q += 2 {
		if big.NewInt(q).ProbablyPrime(10) {
			small = append(small, q)
		}
	}
	g := &openGroup{n: big.NewInt(1), order: big.NewInt(1)}
	used := map[int64]bool{}
	for g.n.BitLen() < 1000 {
		// a prime 2 q1 ... q9 + 1 with fresh small primes
		p, mine := big.NewInt(2), []int64{}
		for len(mine) < 9 {
			q := small[r.IntN(len(small))]
			if !used[q] {
				used[q] = true
				mine = append(mine, q)
				p.Mul(p, big.NewInt(q))
			}
		}
		p.Add(p, one)
		if !p.ProbablyPrime(20) {
			for _, q := range mine {
				delete(used, q)
			}
			continue
		}
		g.n.Mul(g.n, p)
		g.qs = append(g.qs, mine...)
		for _, q := range mine {
			g.order.Mul(g.order, big.NewInt(q))
		}
	}
search:
	for {
		x := new(big.Int).Mod(bi(r.Bytes(140)), g.n)
		if x.Sign() == 0 || new(big.Int).GCD(nil, nil, x, g.n).Cmp(one) != 0 {
			continue
		}
		g.h = new(big.Int).Exp(x, big.NewInt(2), g.n)
		for _, q := range g.qs {
			if new(big.Int).Exp(g.h, new(big.Int).Quo(g.order, big.NewInt(q)), g.n).Cmp(one) == 0 {
				continue search
			}
		}
		g.tabs = map[int64]*bsgs{}
		for _, q := range g.qs {
			g.tabs[q] = newBSGS(new(big.Int).Exp(g.h, new(big.Int).Quo(g.order, big.NewInt(q)), g.n), g.n, 64)
		}
		return g
	}
}

// log finds the exponent of a power of h.
func (g *openGroup) log(v *big.Int) *big.Int {
	res, mod := new(big.Int), big.NewInt(1)
	for _, q := range g.qs {
		Q := big.NewInt(q)
		e := new(big.Int).Quo(g.order, Q)
		k, ok := g.tabs[q].find(new(big.Int).Exp(v, e, g.n), 100)
		if !ok {
			return nil
		}
		// res = k mod q
		d := new(big.Int).Sub(big.NewInt(int64(k)), res)
		d.Mul(d, new(big.Int).ModInverse(new(big.Int).Mod(mod, Q), Q)).Mod(d, Q)
		res.Add(res, d.Mul(d, mod))
		mod.Mul(mod, Q)
	}
	return res
}

// openRequests makes requests with parameters under which all blindings show, and compares them.
func openRequests(c *Check) {
	var mu sync.Mutex
	pools := map[string]*Pool{}
	groups := make([]*openGroup, 4)
	c.Parallel("open groups", len(groups), 4, func(i int, r *Rng) { groups[i] = newOpenGroup(r) })
	c.Parallel("requests on open groups", c.Scale(240, 2000), 8, func(i int, r *Rng) {
		g := groups[i%len(groups)]
		fo := fujiokam.CreateMinimumBase(suite, g.n)
		pt1 := func(x *big.Int) *fujiokam.Point { return fo.Point().FromBinary(x.Bytes()) }
		fo.G1, fo.G2, fo.G3, fo.G4, fo.G5, fo.G6, fo.H1 = pt1(one), pt1(one), pt1(one), pt1(one), pt1(one), pt1(one), pt1(g.h)
		ped := pedersen.CreateBase()
		d := []int{0, 1, 3, 12, 30}[r.IntN(5)]
		comm, rc := ped.Commit(suite.Secret().SetInt64(int64(d)))
		sk := randSec()
		ps, parts := makeRequest(ped, fo, d, 0, rc, comm, pad64(grpG), sk, suite.Point().Base())
		v, err := viewReq(ps, fo)
		if v == nil {
			panic("request: " + err)
		}
		D := big.NewInt(int64(d))
		where := fmt.Sprintf("request %d with %d left", i, d)
		mod := func(x *big.Int) *big.Int { return new(big.Int).Mod(x, g.order) }
		type val struct {
			name string
			x    *big.Int
		}
		var vals []val
		for _, p := range []val{{"randomness of FOCommd", v.FOCommd}, {"randomness of C", v.nn.C}, {"randomness of Cr", v.nn.Cr}, {"randomness of Commitrx", v.nn.Commitrx}} {
			x := g.log(p.x)
			if x == nil {
				c.Inconclusive(where + ": " + p.name + " is no power of h")
				return
			}
			vals = append(vals, val{p.name, x})
			mu.Lock()
			if pools[p.name] == nil {
				pools[p.name] = c.NewPool(p.name)
			}
			mu.Unlock()
			// the place in the group, as a number of 900 bits
			pools[p.name].Add(new(big.Int).Quo(new(big.Int).Lsh(x, 900), g.order), where)
		}
		if mod(parts.rFO).Cmp(vals[0].x) != 0 {
			c.Inconclusive(where + ": wrong logarithm")
			return
		}
		vals = append(vals, val{"blinding of X_", mod(new(big.Int).Sub(v.nn.X_, mulI(D, v.e)))}, val{"blinding of S1", mod(new(big.Int).Sub(v.eq.S1, mulI(D, v.eq.C)))},
			val{"blinding of S3", mod(new(big.Int).Sub(v.eq.S3, mulI(parts.rFO, v.eq.C)))}, val{"R", mod(v.nn.R)}, val{"R_", mod(v.nn.R_)}, val{"X_", mod(v.nn.X_)})
		for a := int64(-12); a <= 12; a++ { // the squares sum up to at most 121
			A := mulI(big.NewInt(a), v.e)
			for _, p := range []val{{"A_", v.nn.A_}, {"B_", v.nn.B_}, {"D_", v.nn.D_}} {
				vals = append(vals, val{fmt.Sprintf("blinding of %s for %d", p.name, a), mod(new(big.Int).Sub(p.x, A))})
			}
		}
		c.Eval(where + vals[0].x.Text(62))
		for j := 1; j < len(vals); j++ {
			for k := 0; k < j && k < 4; k++ {
				c.Count("pairs of blindings of one request", 1)
				diff, sum := mod(new(big.Int).Sub(vals[j].x, vals[k].x)), mod(new(big.Int).Add(vals[j].x, vals[k].x))
				for _, z := range []*big.Int{diff, sum} {
					if z.BitLen() < 64 || new(big.Int).Sub(g.order, z).BitLen() < 64 {
						c.Violate("two blindings of a request are related", fmt.Sprintf("%s and %s: %s", vals[j].name, vals[k].name, where))
					}
				}
			}
		}
	})
	for _, p := range pools {
		p.Wide(900)
	}
}
