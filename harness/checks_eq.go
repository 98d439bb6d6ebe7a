package main

import (
	"fmt"
	"math/big"

	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/util"
)

func init() {
	register("C12", "one evaluation is one equality argument offered to the verifier: honest ones, ones with a part or a commitment changed, and forgeries for different integers by provers that use every freedom a weakened hash, range or membership test would leave", runC12)
}

type eqCtx struct {
	ped    *pedersen.PedersenBase
	fo     *fujiokam.FujiOkamBase
	f      *foAlg
	GT, HT *big.Int
}

func newEq(i int, r *Rng) *eqCtx {
	fo := getFO(i % 4)
	p, GT, HT := pedBase(i, r)
	return &eqCtx{p, fo, algOf(fo), GT, HT}
}

func (e *eqCtx) verify(pc, fc *big.Int, a *pedersen_fujiokam.ARGequal) bool {
	return accepts(func() bool {
		b := util.DecodeARGequal(util.EncodeARGequal(a))
		return pedersen_fujiokam.VerifyEqual(e.ped, e.fo, pt(pc), e.fo.Point().SetBigInt(new(big.Int).Set(fc)), b)
	})
}

// eqHash is a challenge over a subset of (PComm, FOComm, T1, T2) in that order.
func eqHash(mask int, pc, fc, T1, T2 *big.Int) *big.Int {
	h := suite.Hash()
	for i, b := range [][]byte{pad64(pc), fc.Bytes(), pad64(T1), T2.Bytes()} {
		if mask>>i&1 == 1 {
			h.Write(b)
		}
	}
	return new(big.Int).SetBytes(h.Sum(nil))
}

var eqForgeries = []string{"different numbers", "equal modulo the group order", "equal modulo the group order, twice", "negative response", "T1 not hashed", "T2 not hashed",
	"the Pedersen commitment not hashed", "commitment zero", "commitment with a factor of the modulus", "wide blinding", "response of the other number", "only the first", "only the second"}

func (q *eqCtx) forge(kind string, mask int, r *Rng) (pc, fc *big.Int, a *pedersen_fujiokam.ARGequal) {
	f := q.f
	x, y := big.NewInt(int64(r.IntN(9))), big.NewInt(int64(20+r.IntN(9)))
	if r.Bool() {
		x, y = y, x
	}
	rp, rf := secVal(r), f.rnd(r)
	t1 := new(big.Int).Rsh(bi(r.Bytes(50)), 1)
	t2, t3 := secVal(r), f.rnd(r)
	u := new(big.Int).Rsh(bi(r.Bytes(50)), 1)
	modq := func(v *big.Int) *big.Int { return new(big.Int).Mod(v, grpQ) }
	resp := func(c, v, w *big.Int) *big.Int { return addI(mulI(c, v), w) }
	switch kind {
	case "equal modulo the group order":
		y = addI(x, grpQ)
	case "equal modulo the group order, twice":
		y = addI(x, mulI(grpQ, big.NewInt(-1-int64(r.IntN(3)))))
	}
	pc, fc = commitVal(q.GT, q.HT, x, rp), f.commit(y, rf)
	T1, T2 := commitVal(q.GT, q.HT, t1, t2), f.commit(t1, t3)
	switch kind {
	case "different numbers", "equal modulo the group order", "equal modulo the group order, twice", "response of the other number":
		c := eqHash(mask, pc, fc, T1, T2)
		s := resp(c, y, t1)
		if kind == "response of the other number" {
			s = resp(c, x, t1)
		}
		return pc, fc, &pedersen_fujiokam.ARGequal{C: c, S1: s, S2: modq(resp(c, rp, t2)), S3: resp(c, rf, t3)}
	case "wide blinding":
		// a blinding that hides the multiple of the group order
		y = addI(x, mulI(grpQ, big.NewInt(int64(1+r.IntN(3)))))
		t1 = new(big.Int).Lsh(bi(r.Bytes(60)), uint(300+r.IntN(400)))
		fc, T1, T2 = f.commit(y, rf), commitVal(q.GT, q.HT, t1, t2), f.commit(t1, t3)
		c := eqHash(mask, pc, fc, T1, T2)
		return pc, fc, &pedersen_fujiokam.ARGequal{C: c, S1: resp(c, y, t1), S2: modq(resp(c, rp, t2)), S3: resp(c, rf, t3)}
	case "negative response":
		y = addI(x, mulI(grpQ, big.NewInt(-1)))
		t1 = negI(t1)
		fc, T1, T2 = f.commit(y, rf), commitVal(q.GT, q.HT, t1, t2), f.commit(t1, t3)
		c := eqHash(mask, pc, fc, T1, T2)
		return pc, fc, &pedersen_fujiokam.ARGequal{C: c, S1: resp(c, y, t1), S2: modq(resp(c, rp, t2)), S3: resp(c, rf, t3)}
	case "T1 not hashed", "only the second":
		if kind == "only the second" {
			T1 = gexp(grpG, u)
		}
		c := eqHash(mask, pc, fc, T1, T2)
		return pc, fc, &pedersen_fujiokam.ARGequal{C: c, S1: resp(c, y, t1), S2: modq(u), S3: resp(c, rf, t3)}
	case "T2 not hashed", "only the first":
		if kind == "only the first" {
			T2 = f.rndElem(r)
		}
		c := eqHash(mask, pc, fc, T1, T2)
		return pc, fc, &pedersen_fujiokam.ARGequal{C: c, S1: resp(c, x, t1), S2: modq(resp(c, rp, t2)), S3: f.rnd(r)}
	case "the Pedersen commitment not hashed":
		// T1 is about another blinding than T2; the Pedersen commitment follows from the responses
		T1 = commitVal(q.GT, q.HT, u, t2)
		c := eqHash(mask, pc, fc, T1, T2)
		s1, s2 := resp(c, y, t1), secVal(r)
		inv := new(big.Int).ModInverse(modq(c), grpQ)
		if inv == nil {
			inv = one
		}
		pc = gexp(gmul(commitVal(q.GT, q.HT, s1, s2), ginv(T1)), inv)
		return pc, fc, &pedersen_fujiokam.ARGequal{C: c, S1: s1, S2: s2, S3: resp(c, rf, t3)}
	case "commitment zero", "commitment with a factor of the modulus":
		fc = new(big.Int)
		if kind != "commitment zero" {
			fc = addI(q.fo.P, q.fo.P, one)
			fc.Mul(fc, big.NewInt(int64(1+r.IntN(100)))).Mod(fc, q.f.N)
		}
		for _, T2 = range []*big.Int{new(big.Int), one} {
			c := eqHash(mask, pc, fc, T1, T2)
			a = &pedersen_fujiokam.ARGequal{C: c, S1: resp(c, x, t1), S2: modq(resp(c, rp, t2)), S3: t3}
			if q.verify(pc, fc, a) {
				return pc, fc, a
			}
		}
		return pc, fc, a
	}
	panic(kind)
}

func runC12(c *Check) {
	for i := 0; i < 4; i++ {
		getFO(i)
	}
	c.Parallel("honest", c.Scale(160, 3000), 8, func(i int, r *Rng) {
		q := newEq(i, r)
		f := q.f
		x := big.NewInt(int64(i % 120))
		switch i % 10 {
		case 7:
			x = big.NewInt(int64(r.IntN(1 << 30)))
		case 8:
			x = new(big.Int).Rsh(new(big.Int).SetUint64(r.Uint64()), uint(1+r.IntN(40)))
		}
		pcp, rp := q.ped.Commit(sec(x))
		fcp, rf := q.fo.Commit(x)
		pc, fc := pv(pcp), bi(fcp.ToBinary())
		id := fmt.Sprint(pc, fc)
		d := fmt.Sprintf("x=%v PComm=%.12s.. FOComm=%.12s..", x, pc.Text(16), fc.Text(16))
		var arg *pedersen_fujiokam.ARGequal
		if pan, what := try(func() { arg = pedersen_fujiokam.ProveEqual(q.ped, q.fo, sec(x), pcp, rp, fcp, rf) }); pan {
			c.Violate("the prover of equality fails", d+" "+what)
			return
		}
		c.decide("honest argument", id, q.verify(pc, fc, arg), true, "an honest equality argument does not verify", d)
		bad := func(kind string, pc, fc *big.Int, a *pedersen_fujiokam.ARGequal) {
			c.decide("changed: "+kind, id, q.verify(pc, fc, a), false, "an equality argument verifies after a change of "+kind, d)
		}
		cp := func() *pedersen_fujiokam.ARGequal {
			return &pedersen_fujiokam.ARGequal{C: addI(arg.C), S1: addI(arg.S1), S2: addI(arg.S2), S3: addI(arg.S3)}
		}
		for k, name := range []string{"C", "S1", "S2", "S3"} {
			for o, op := range []func(v *big.Int) *big.Int{
				func(v *big.Int) *big.Int { return addI(v, one) },
				func(v *big.Int) *big.Int { return addI(v, negI(one)) },
				func(v *big.Int) *big.Int { return negI(v) },
				func(v *big.Int) *big.Int { return mulI(v, big.NewInt(2)) },
				func(v *big.Int) *big.Int { return new(big.Int) },
				func(v *big.Int) *big.Int { return new(big.Int).Rsh(v, 1) },
				func(v *big.Int) *big.Int { return addI(v, f.N) },
				func(v *big.Int) *big.Int { return addI(v, new(big.Int).Lsh(one, 256)) },
				func(v *big.Int) *big.Int { return addI(v, grpQ) },
			} {
				if name == "S2" && o == 8 {
					continue // the same number modulo the order of its group
				}
				a := cp()
				p := []**big.Int{&a.C, &a.S1, &a.S2, &a.S3}[k]
				old := *p
				*p = op(old)
				if (*p).Cmp(old) != 0 {
					bad("part "+name, pc, fc, a)
				}
			}
		}
		var arg2 *pedersen_fujiokam.ARGequal
		try(func() { arg2 = pedersen_fujiokam.ProveEqual(q.ped, q.fo, sec(x), pcp, rp, fcp, rf) })
		for k := 0; k < 4; k++ {
			a := cp()
			*[]**big.Int{&a.C, &a.S1, &a.S2, &a.S3}[k] = []*big.Int{arg2.C, arg2.S1, arg2.S2, arg2.S3}[k]
			bad(fmt.Sprint("part from another argument ", k), pc, fc, a)
		}
		// other commitments
		p2, _ := q.ped.Commit(sec(x))
		f2, _ := q.fo.Commit(x)
		bad("the Pedersen commitment, same number", pv(p2), fc, arg)
		bad("the Fujisaki-Okamoto commitment, same number", pc, bi(f2.ToBinary()), arg)
		bad("the Pedersen commitment, one more", gmul(pc, q.GT), fc, arg)
		bad("the Pedersen commitment, other randomness", gmul(pc, q.HT), fc, arg)
		bad("the Fujisaki-Okamoto commitment, one more", pc, f.mul(fc, f.G1), arg)
		bad("the Fujisaki-Okamoto commitment, other randomness", pc, f.mul(fc, f.H1), arg)
		bad("the Pedersen commitment, inverse", ginv(pc), fc, arg)
		bad("the Fujisaki-Okamoto commitment, inverse", pc, f.inv(fc), arg)
		bad("the Fujisaki-Okamoto commitment, minus", pc, new(big.Int).Sub(f.N, fc), arg)
		bad("the Fujisaki-Okamoto commitment, zero", pc, new(big.Int), arg)
		bad("the Fujisaki-Okamoto commitment, one", pc, big.NewInt(1), arg)
		bad("the Pedersen commitment, identity", big.NewInt(1), fc, arg)
		bad("both commitments, one more", gmul(pc, q.GT), f.mul(fc, f.G1), arg)
		// other bases
		q2 := *q
		q2.ped = &pedersen.PedersenBase{Suite: suite, GT: pt(q.HT), HT: pt(q.GT)}
		c.decide("changed: the bases swapped", id, q2.verify(pc, fc, arg), false, "an equality argument verifies for other bases", d)
		q2.ped = &pedersen.PedersenBase{Suite: suite, GT: pt(gmul(q.GT, q.GT)), HT: pt(gmul(q.HT, q.HT))}
		c.decide("changed: the Pedersen bases", id, q2.verify(pc, fc, arg), false, "an equality argument verifies for other bases", d)
		q2 = *q
		q2.fo = getFO((i + 1) % 4)
		c.decide("changed: the Fujisaki-Okamoto base", id, q2.verify(pc, fc, arg), false, "an equality argument verifies for other bases", d)
		// the code's own prover with commitments to different numbers
		y := addI(x, big.NewInt(int64(1+r.IntN(5))))
		fy, rfy := q.fo.Commit(y)
		for k, w := range []*big.Int{x, y} {
			var a *pedersen_fujiokam.ARGequal
			try(func() { a = pedersen_fujiokam.ProveEqual(q.ped, q.fo, sec(w), pcp, rp, fy, rfy) })
			if a != nil {
				c.decide("the prover run on different numbers", fmt.Sprint(id, k), q.verify(pc, bi(fy.ToBinary()), a), false, "an equality argument is made for different numbers", d)
			}
		}
	})
	c.Parallel("forgeries", c.Scale(1000, 20000), 8, func(i int, r *Rng) {
		q := newEq(i, r)
		kind := eqForgeries[i%len(eqForgeries)]
		masks := []int{15}
		switch kind {
		case "T1 not hashed":
			masks = []int{11, 3, 8, 9, 10}
		case "T2 not hashed":
			masks = []int{7, 3, 4, 5, 6}
		case "the Pedersen commitment not hashed":
			masks = []int{14, 12, 4, 8}
		case "equal modulo the group order", "wide blinding":
			masks = []int{15, 14, 13, 12}
		}
		for _, m := range masks {
			pc, fc, a := q.forge(kind, m, r)
			c.decide("forgery: "+kind, fmt.Sprint(i, m, pc), q.verify(pc, fc, a), false, "an equality argument is forged: "+kind, fmt.Sprintf("PComm=%.12s..", pc.Text(16)))
		}
	})
}
