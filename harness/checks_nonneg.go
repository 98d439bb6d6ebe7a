package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"

	"zRep/primitive/fujiokam"
	"zRep/util"
)

func init() {
	register("C11", "one evaluation is one non-negative argument offered to the verifier: honest ones for many values and bases, honest ones with one part or the commitment changed, and forgeries for negative numbers by provers that use every freedom a weakened hash or equation would leave", runC11)
}

// foAlg is the arithmetic of a Fujisaki-Okamoto base, done here.
type foAlg struct {
	N                          *big.Int
	G1, G2, G3, G4, G5, G6, H1 *big.Int
	R                          *big.Int // half the range of the randomness
}

func algOf(b *fujiokam.FujiOkamBase) *foAlg {
	n := func(p *fujiokam.Point) *big.Int { return bi(p.ToBinary()) }
	return &foAlg{N: b.N, G1: n(b.G1), G2: n(b.G2), G3: n(b.G3), G4: n(b.G4), G5: n(b.G5), G6: n(b.G6), H1: n(b.H1), R: b.RandomRadius}
}

// prod is the product of powers modulo N; negative exponents are fine.
func (f *foAlg) prod(be ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for i := 0; i+1 < len(be); i += 2 {
		t := new(big.Int).Exp(be[i], be[i+1], f.N)
		if t == nil {
			return new(big.Int)
		}
		r.Mul(r, t).Mod(r, f.N)
	}
	return r
}
func (f *foAlg) inv(x *big.Int) *big.Int {
	r := new(big.Int).ModInverse(x, f.N)
	if r == nil {
		return new(big.Int)
	}
	return r
}
func (f *foAlg) mul(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, f.N) }
func (f *foAlg) rnd(r *Rng) *big.Int {
	v := new(big.Int).Mod(bi(r.Bytes(160)), new(big.Int).Lsh(f.R, 1))
	return v.Sub(v, f.R)
}
func (f *foAlg) commit(x, r *big.Int) *big.Int { return f.prod(f.G1, x, f.H1, r) }

func mulI(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func addI(v ...*big.Int) *big.Int {
	r := new(big.Int)
	for _, x := range v {
		r.Add(r, x)
	}
	return r
}
func negI(a *big.Int) *big.Int { return new(big.Int).Neg(a) }

// deltaOf is e(4x'+e)-a'^2-b'^2-d'^2.
func deltaOf(e, x, a, b, d *big.Int) *big.Int {
	t := mulI(e, addI(mulI(big.NewInt(4), x), e))
	for _, v := range []*big.Int{a, b, d} {
		t.Sub(t, mulI(v, v))
	}
	return t
}

// nnHash is a challenge over the given parts, a subset of those in the argument, in their order.
func nnHash(mask int, parts ...*big.Int) *big.Int {
	h := sha256.New()
	for i, p := range parts {
		if mask>>i&1 == 1 {
			h.Write(p.Bytes())
		}
	}
	return new(big.Int).SetBytes(h.Sum(nil))
}

func nnRecommit(f *foAlg, cx *big.Int, x_, R, e *big.Int) *big.Int {
	// commitrx for which the second equation holds
	return f.mul(f.prod(f.G1, x_, f.H1, R), f.inv(f.prod(cx, e)))
}

func nnRhs(f *foAlg, e, x, a, b, d, r *big.Int) *big.Int {
	return f.prod(f.G2, x, f.G3, a, f.G4, b, f.G5, d, f.G6, deltaOf(e, x, a, b, d), f.H1, r)
}

func verifyNN(base *fujiokam.FujiOkamBase, cx *big.Int, arg *fujiokam.ARGnonneg) bool {
	return accepts(func() bool {
		// over the wire, as in a request
		a := util.DecodeARGnonneg(util.EncodeARGnonneg(arg))
		return base.VerifyNonneg(base.Point().SetBigInt(new(big.Int).Set(cx)), a)
	})
}

func copyNN(a *fujiokam.ARGnonneg) *fujiokam.ARGnonneg {
	n := func(x *big.Int) *big.Int { return new(big.Int).Set(x) }
	return &fujiokam.ARGnonneg{Commitrx: n(a.Commitrx), C: n(a.C), Cr: n(a.Cr), R: n(a.R), X_: n(a.X_), A_: n(a.A_), B_: n(a.B_), D_: n(a.D_), R_: n(a.R_)}
}

func nnParts(a *fujiokam.ARGnonneg) []**big.Int {
	return []**big.Int{&a.Commitrx, &a.C, &a.Cr, &a.R, &a.X_, &a.A_, &a.B_, &a.D_, &a.R_}
}

var nnNames = []string{"Commitrx", "C", "Cr", "R", "X_", "A_", "B_", "D_", "R_"}

// nnForge makes an argument for the negative number x in each of the ways that would work if the challenge did not
// depend on one of its inputs, or an equation was not checked.
func nnForge(f *foAlg, kind string, mask int, x *big.Int, r *Rng) (cx *big.Int, arg *fujiokam.ARGnonneg) {
	rc := f.rnd(r)
	cx = f.commit(x, rc)
	a, b, d := big.NewInt(int64(r.IntN(9))), big.NewInt(int64(r.IntN(9))), big.NewInt(int64(1+r.IntN(9)))
	rx, ra, rb, rd, rr, r0, rrx := f.rnd(r), f.rnd(r), f.rnd(r), f.rnd(r), f.rnd(r), f.rnd(r), f.rnd(r)
	honest := func(xx *big.Int) (C, Cr *big.Int) {
		// what an honest prover would commit to for xx, with 4xx+1 = a^2+b^2+d^2
		delta := mulI(big.NewInt(4), rx)
		for _, p := range [][2]*big.Int{{a, ra}, {b, rb}, {d, rd}} {
			delta.Sub(delta, mulI(big.NewInt(2), mulI(p[0], p[1])))
		}
		sq := negI(addI(mulI(ra, ra), mulI(rb, rb), mulI(rd, rd)))
		return f.prod(f.G2, xx, f.G3, a, f.G4, b, f.G5, d, f.G6, delta, f.H1, r0), f.prod(f.G2, rx, f.G3, ra, f.G4, rb, f.G5, rd, f.G6, sq, f.H1, rr)
	}
	crx := f.commit(rx, rrx)
	resp := func(e, v, w *big.Int) *big.Int { return addI(mulI(v, e), w) }
	switch kind {
	case "run the prover on a negative number":
		C, Cr := honest(x)
		e := nnHash(mask, cx, C, Cr, crx)
		return cx, &fujiokam.ARGnonneg{Commitrx: crx, C: C, Cr: Cr, R: resp(e, rc, rrx), X_: resp(e, x, rx), A_: resp(e, a, ra), B_: resp(e, b, rb), D_: resp(e, d, rd), R_: resp(e, r0, rr)}
	case "the commitment to the blinding last":
		// an argument about another, non-negative number
		a, b, d = new(big.Int), new(big.Int), big.NewInt(1) // 4*0+1
		C, Cr := honest(new(big.Int))
		e := nnHash(mask, cx, C, Cr, new(big.Int))
		X_, R := resp(e, new(big.Int), rx), f.rnd(r)
		return cx, &fujiokam.ARGnonneg{Commitrx: nnRecommit(f, cx, X_, R, e), C: C, Cr: Cr, R: R, X_: X_, A_: resp(e, a, ra), B_: resp(e, b, rb), D_: resp(e, d, rd), R_: resp(e, r0, rr)}
	case "Cr last":
		C, _ := honest(x)
		e := nnHash(mask, cx, C, new(big.Int), crx)
		X_, A_, B_, D_, R_ := resp(e, x, rx), f.rnd(r), f.rnd(r), f.rnd(r), f.rnd(r)
		Cr := f.mul(nnRhs(f, e, X_, A_, B_, D_, R_), f.inv(f.prod(C, e)))
		return cx, &fujiokam.ARGnonneg{Commitrx: crx, C: C, Cr: Cr, R: resp(e, rc, rrx), X_: X_, A_: A_, B_: B_, D_: D_, R_: R_}
	case "C last":
		Cr := f.prod(f.G2, rx, f.H1, rr)
		e := nnHash(mask, cx, new(big.Int), Cr, crx)
		// G6 exponent: e(4(xe+rx)+e) - e^2(a^2+b^2+d^2) = e*t
		t := addI(mulI(e, addI(mulI(big.NewInt(4), x), one, negI(addI(mulI(a, a), mulI(b, b), mulI(d, d))))), mulI(big.NewInt(4), rx))
		C := f.prod(f.G2, x, f.G3, a, f.G4, b, f.G5, d, f.G6, t, f.H1, r0)
		return cx, &fujiokam.ARGnonneg{Commitrx: crx, C: C, Cr: Cr, R: resp(e, rc, rrx), X_: resp(e, x, rx), A_: mulI(a, e), B_: mulI(b, e), D_: mulI(d, e), R_: resp(e, r0, rr)}
	case "only the second equation":
		C, Cr := f.rndElem(r), f.rndElem(r)
		e := nnHash(mask, cx, C, Cr, crx)
		return cx, &fujiokam.ARGnonneg{Commitrx: crx, C: C, Cr: Cr, R: resp(e, rc, rrx), X_: resp(e, x, rx), A_: f.rnd(r), B_: f.rnd(r), D_: f.rnd(r), R_: f.rnd(r)}
	case "only the first equation":
		a, b, d = new(big.Int), new(big.Int), big.NewInt(1)
		C, Cr := honest(new(big.Int))
		e := nnHash(mask, cx, C, Cr, crx)
		return cx, &fujiokam.ARGnonneg{Commitrx: crx, C: C, Cr: Cr, R: resp(e, rc, rrx), X_: resp(e, new(big.Int), rx), A_: resp(e, a, ra), B_: resp(e, b, rb), D_: resp(e, d, rd), R_: resp(e, r0, rr)}
	case "two numbers":
		// the first equation about 0, the second about x, with the same blinding
		a, b, d = new(big.Int), new(big.Int), big.NewInt(1)
		C, Cr := honest(new(big.Int))
		e := nnHash(mask, cx, C, Cr, crx)
		return cx, &fujiokam.ARGnonneg{Commitrx: crx, C: C, Cr: Cr, R: resp(e, rc, rrx), X_: resp(e, x, rx), A_: resp(e, a, ra), B_: resp(e, b, rb), D_: resp(e, d, rd), R_: resp(e, r0, rr)}
	case "zeros":
		z := func() *big.Int { return new(big.Int) }
		return []*big.Int{cx, z()}[r.IntN(2)], &fujiokam.ARGnonneg{Commitrx: z(), C: z(), Cr: z(), R: z(), X_: z(), A_: z(), B_: z(), D_: z(), R_: z()}
	}
	// units: everything trivial
	u := func() *big.Int { return big.NewInt(1) }
	z := func() *big.Int { return new(big.Int) }
	return []*big.Int{cx, u()}[r.IntN(2)], &fujiokam.ARGnonneg{Commitrx: u(), C: u(), Cr: u(), R: z(), X_: z(), A_: z(), B_: z(), D_: z(), R_: z()}
}

func (f *foAlg) rndElem(r *Rng) *big.Int {
	return new(big.Int).Exp(bi(r.Bytes(160)), big.NewInt(2), f.N)
}

var nnForgeries = []string{"run the prover on a negative number", "the commitment to the blinding last", "Cr last", "C last", "only the second equation",
	"only the first equation", "two numbers", "zeros", "units"}

func nnValues(c *Check) (res []int64) {
	for v := int64(0); v <= int64(c.Scale(70, 400)); v++ {
		res = append(res, v)
	}
	for _, v := range []int64{100, 127, 128, 255, 256, 257, 500, 511, 512, 729, 1000, 1023, 1024, 2000} {
		if c.Thorough() || v <= 1024 {
			res = append(res, v)
		}
	}
	return
}

func runC11(c *Check) {
	for i := 0; i < 4; i++ {
		getFO(i)
	}
	vals := nnValues(c)
	var blind [7]*Pool
	for k, n := range []string{"blinding of x", "blinding of a", "blinding of b"} {
		blind[k] = c.NewPool(n)
	}
	c.Parallel("honest", len(vals)*2, 8, func(i int, r *Rng) {
		x := vals[i%len(vals)]
		base := getFO(i % 4)
		if i%2 == 1 {
			base = foFromParams(foParams(base)) // as the verifier has it
		}
		f := algOf(base)
		X := big.NewInt(x)
		cx, rc := base.Commit(X)
		id := fmt.Sprint(x, " ", cx.String())
		d := fmt.Sprintf("x=%d N=%.12s..", x, base.N.Text(16))
		c.decide("commitment", id, bi(cx.ToBinary()).Cmp(f.commit(X, rc)) == 0, true, "a Fujisaki-Okamoto commitment is not g^x h^r", d)
		var arg *fujiokam.ARGnonneg
		if pan, what := try(func() { arg = base.ProveNonneg(X, cx, rc) }); pan {
			c.Violate("the prover fails on a non-negative number", d+" "+what)
			return
		}
		cv := bi(cx.ToBinary())
		c.decide("honest argument", id, verifyNN(base, cv, arg), true, "an honest non-negative argument does not verify", d)
		if x == 0 {
			blind[0].Add(arg.X_, id)
			blind[1].Add(arg.A_, id)
			blind[2].Add(arg.B_, id)
		}
		bad := func(kind string, base *fujiokam.FujiOkamBase, cx *big.Int, a *fujiokam.ARGnonneg) {
			c.decide("changed: "+kind, id, verifyNN(base, cx, a), false, "a non-negative argument verifies after a change of "+kind, d)
		}
		if i%3 != 0 && !c.Thorough() {
			return
		}
		for k, name := range nnNames {
			ops := []func(v *big.Int) *big.Int{
				func(v *big.Int) *big.Int { return addI(v, one) },
				func(v *big.Int) *big.Int { return addI(v, negI(one)) },
				func(v *big.Int) *big.Int { return negI(v) },
				func(v *big.Int) *big.Int { return mulI(v, big.NewInt(2)) },
				func(v *big.Int) *big.Int { return new(big.Int) },
				func(v *big.Int) *big.Int { return addI(v, base.N) },
				func(v *big.Int) *big.Int { return new(big.Int).Sub(base.N, v) },
				func(v *big.Int) *big.Int { return f.mul(v, f.G1) },
				func(v *big.Int) *big.Int { return f.mul(v, f.H1) },
				func(v *big.Int) *big.Int { return new(big.Int).Rsh(v, 1) },
			}
			for o, op := range ops {
				if !c.Thorough() && (o+k+i)%3 != 0 {
					continue
				}
				a := copyNN(arg)
				p := nnParts(a)[k]
				old := *p
				*p = op(old)
				if (*p).Cmp(old) == 0 {
					continue
				}
				bad("part "+name, base, cv, a)
			}
		}
		// transplanted parts of another argument about the same commitment
		var arg2 *fujiokam.ARGnonneg
		try(func() { arg2 = base.ProveNonneg(X, cx, rc) })
		for k, name := range nnNames {
			a := copyNN(arg)
			*nnParts(a)[k] = *nnParts(arg2)[k]
			bad("part "+name+" from another argument", base, cv, a)
		}
		// other commitments
		o, ro := base.Commit(X)
		bad("the commitment, same value", base, bi(o.ToBinary()), arg)
		_ = ro
		o, _ = base.Commit(negI(addI(X, one)))
		bad("the commitment, negative value", base, bi(o.ToBinary()), arg)
		bad("the commitment, one more", base, f.mul(cv, f.G1), arg)
		bad("the commitment, one less", base, f.mul(cv, f.inv(f.G1)), arg)
		bad("the commitment, inverse", base, f.inv(cv), arg)
		bad("the commitment, minus", base, new(big.Int).Sub(f.N, cv), arg)
		bad("the commitment, zero", base, new(big.Int), arg)
		bad("the commitment, one", base, big.NewInt(1), arg)
		bad("the base", getFO((i+1)%4), cv, arg)
		// roles of the squares
		a := copyNN(arg)
		a.A_, a.D_ = a.D_, a.A_
		bad("the order of the squares", base, cv, a)
	})
	// negative numbers: the prover refuses, and forgeries fail
	c.Parallel("forgeries", c.Scale(400, 6000), 8, func(i int, r *Rng) {
		base := getFO(i % 4)
		f := algOf(base)
		x := big.NewInt(-int64(1 + r.IntN(12)))
		if r.IntN(5) == 0 {
			x = negI(new(big.Int).Lsh(one, uint(r.IntN(500))))
		}
		kind := nnForgeries[i%len(nnForgeries)]
		// the full challenge, and the one that a weakened code may use
		masks := []int{15}
		switch kind {
		case "the commitment to the blinding last":
			masks = []int{7, 6, 5, 3}
		case "Cr last":
			masks = []int{11, 10, 9, 3}
		case "C last":
			masks = []int{13, 12, 9, 5}
		case "run the prover on a negative number", "two numbers", "only the first equation", "only the second equation":
			masks = []int{15, 14, 7, 11, 13}
		}
		for _, m := range masks {
			cx, arg := nnForge(f, kind, m, x, r)
			c.decide("forgery: "+kind, fmt.Sprint(i, m, cx), verifyNN(base, cx, arg), false, "a non-negative argument is forged: "+kind, fmt.Sprintf("x=%v", x))
		}
		if i%4 == 0 {
			cx, rc := base.Commit(x)
			var arg *fujiokam.ARGnonneg
			pan, _ := try(func() { arg = base.ProveNonneg(x, cx, rc) })
			c.decide("prover on a negative number", fmt.Sprint(i), !pan && arg != nil && verifyNN(base, bi(cx.ToBinary()), arg), false, "the prover makes an argument for a negative number", x.String())
		}
	})
}

// foParams are the public parameters as the coordinator sends them.
func foParams(b *fujiokam.FujiOkamBase) map[string]interface{} {
	return map[string]interface{}{"n": b.N.Bytes(), "g1": b.G1.ToBinary(), "g2": b.G2.ToBinary(), "g3": b.G3.ToBinary(), "g4": b.G4.ToBinary(),
		"g5": b.G5.ToBinary(), "g6": b.G6.ToBinary(), "h1": b.H1.ToBinary()}
}
