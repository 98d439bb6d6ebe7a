package main

import (
	"math/big"

	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/util"
)

// Requests for more bridges than the reputation behind them, as made by somebody who follows all but one of the
// verifier's conditions.

// threeSquares writes 4x+1 as a sum of three squares, also for large x.
func threeSquares(x *big.Int, r *Rng) (a, b, d *big.Int) {
	n := addI(mulI(big.NewInt(4), x), one)
	lim := new(big.Int).Sqrt(n)
	for i := 0; ; i++ {
		a = new(big.Int).Mod(bi(r.Bytes(len(lim.Bytes())+8)), addI(lim, one))
		a.SetBit(a, 0, 0)
		p := new(big.Int).Sub(n, mulI(a, a)) // 1 modulo 4
		if p.Sign() < 0 {
			continue
		}
		if p.Cmp(one) == 0 {
			return a, big.NewInt(1), new(big.Int)
		}
		if p.Sign() == 0 || !p.ProbablyPrime(12) {
			continue
		}
		// a root of -1, then Euclid
		s := new(big.Int).ModSqrt(new(big.Int).Sub(p, one), p)
		if s == nil {
			continue
		}
		u, v := new(big.Int).Set(p), s
		root := new(big.Int).Sqrt(p)
		for v.Cmp(root) > 0 {
			u, v = v, new(big.Int).Mod(u, v)
		}
		w := new(big.Int).Sub(p, mulI(v, v))
		q := new(big.Int).Sqrt(w)
		if mulI(q, q).Cmp(w) == 0 {
			return a, v, q
		}
	}
}

// proveNN makes a non-negative argument for any x, as the prover of the program does for small ones.
func proveNN(f *foAlg, x, rc, cx *big.Int, r *Rng) *fujiokam.ARGnonneg {
	a, b, d := threeSquares(x, r)
	rx, ra, rb, rd, rr, r0, rrx := f.rnd(r), f.rnd(r), f.rnd(r), f.rnd(r), f.rnd(r), f.rnd(r), f.rnd(r)
	delta := mulI(big.NewInt(4), rx)
	for _, p := range [][2]*big.Int{{a, ra}, {b, rb}, {d, rd}} {
		delta.Sub(delta, mulI(big.NewInt(2), mulI(p[0], p[1])))
	}
	sq := negI(addI(mulI(ra, ra), mulI(rb, rb), mulI(rd, rd)))
	C := f.prod(f.G2, x, f.G3, a, f.G4, b, f.G5, d, f.G6, delta, f.H1, r0)
	Cr := f.prod(f.G2, rx, f.G3, ra, f.G4, rb, f.G5, rd, f.G6, sq, f.H1, rr)
	crx := f.commit(rx, rrx)
	e := nnHash(15, cx, C, Cr, crx)
	resp := func(v, w *big.Int) *big.Int { return addI(mulI(v, e), w) }
	return &fujiokam.ARGnonneg{Commitrx: crx, C: C, Cr: Cr, R: resp(rc, rrx), X_: resp(x, rx), A_: resp(a, ra), B_: resp(b, rb), D_: resp(d, rd), R_: resp(r0, rr)}
}

// proveEq makes an equality argument about any integer y, negative or large.
func proveEq(GT, HT *big.Int, f *foAlg, pc, rp, fc, y, rf *big.Int, r *Rng) *pedersen_fujiokam.ARGequal {
	t1 := new(big.Int).Rsh(bi(r.Bytes(50)), 1)
	t2, t3 := secVal(r), f.rnd(r)
	T1, T2 := commitVal(GT, HT, t1, t2), f.commit(t1, t3)
	c := eqHash(15, pc, fc, T1, T2)
	return &pedersen_fujiokam.ARGequal{C: c, S1: addI(mulI(c, y), t1), S2: new(big.Int).Mod(addI(mulI(c, rp), t2), grpQ), S3: addI(mulI(c, rf), t3)}
}

var overClaims = []string{
	"the number raised",
	"the number raised, committed anew",
	"the number raised, both commitments made anew",
	"a difference of one's own choice",
	"a negative difference with another's non-negative argument",
	"a negative difference with a forged non-negative argument",
	"a non-negative number in place of the difference",
	"the difference modulo the group order",
	"the number with 32 more bits",
	"the difference and the number committed under other bases",
}

// overClaim makes an unsigned request for more than x bridges. Its kind tells which condition it gets around.
func (q *reqCase) overClaim(kind string, r *Rng) map[string]interface{} {
	GT, HT := pv(q.ped.GT), pv(q.ped.HT)
	f := algOf(q.base)
	f.R = new(big.Int).Lsh(one, 590)
	low := r.IntN(q.x + 1)
	ps, _ := q.make(low)
	delete(ps, "signature")
	ind := q.x + 1 + r.IntN(4)
	if r.IntN(6) == 0 {
		ind = []int{q.x + 100, 1 << 20, 1<<31 - 1}[r.IntN(3)]
	}
	rind := secVal(r)
	PCommind := commitVal(GT, HT, big.NewInt(int64(ind)), rind)
	PCommd := gmul(q.comm, ginv(PCommind))
	rd := new(big.Int).Mod(new(big.Int).Sub(q.r, rind), grpQ)
	d := big.NewInt(int64(q.x - ind))
	fc := func(y *big.Int) (*big.Int, *big.Int) {
		rf := f.rnd(r)
		return f.commit(y, rf), rf
	}
	full := func(PCommd, rd, y *big.Int, nn *big.Int) {
		// an equality argument about y, and a non-negative argument about nn
		ps["ind"], ps["PCommind"], ps["PCommd"], ps["rind"] = ind, pad64(PCommind), pad64(PCommd), util.EncodeSecret(sec(rind))
		c, rf := fc(y)
		ps["FOCommd"] = c.Bytes()
		ps["arg_equal"] = util.EncodeARGequal(proveEq(GT, HT, f, PCommd, rd, c, y, rf, r))
		c2, rf2 := c, rf
		if nn.Cmp(y) != 0 {
			c2, rf2 = fc(nn)
		}
		ps["arg_nonneg"] = util.EncodeARGnonneg(proveNN(f, nn, rf2, c2, r))
	}
	small := big.NewInt(int64(r.IntN(5)))
	switch kind {
	case "the number raised":
		ps["ind"] = ind
	case "the number raised, committed anew":
		ps["ind"], ps["PCommind"], ps["rind"] = ind, pad64(PCommind), util.EncodeSecret(sec(rind))
	case "the number raised, both commitments made anew":
		ps["ind"], ps["PCommind"], ps["PCommd"], ps["rind"] = ind, pad64(PCommind), pad64(PCommd), util.EncodeSecret(sec(rind))
	case "a difference of one's own choice":
		rd = secVal(r)
		full(commitVal(GT, HT, small, rd), rd, small, small)
	case "a negative difference with another's non-negative argument":
		full(PCommd, rd, d, small)
	case "a negative difference with a forged non-negative argument":
		full(PCommd, rd, d, small)
		c, a := nnForge(f, nnForgeries[r.IntN(len(nnForgeries))], 15, d, r)
		_ = c
		ps["arg_nonneg"] = util.EncodeARGnonneg(a)
	case "a non-negative number in place of the difference":
		full(PCommd, rd, small, small)
	case "the difference modulo the group order":
		y := addI(d, grpQ)
		full(PCommd, rd, y, y)
	case "the number with 32 more bits":
		ps["ind"] = low + (1+r.IntN(3))<<32
	case "the difference and the number committed under other bases":
		PCommind = commitVal(HT, GT, big.NewInt(int64(ind)), rind)
		PCommd = gmul(q.comm, ginv(PCommind))
		full(PCommd, rd, small, small)
	default:
		panic(kind)
	}
	return ps
}
