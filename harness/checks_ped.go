package main

import (
	"fmt"
	"math/big"

	"zRep/primitive/pedersen"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
)

func init() {
	register("C16", "one evaluation is one commitment, sum, difference, re-randomisation or verification compared with modular arithmetic done independently, over directed and random values, openings and bases", runC16)
}

func pedBase(i int, r *Rng) (*pedersen.PedersenBase, *big.Int, *big.Int) {
	b := pedersen.CreateBaseFromSuite(suite)
	switch i % 4 {
	case 1:
		b = pedersen.CreateBase()
	case 2:
		b = &pedersen.PedersenBase{Suite: suite, GT: pt(gexp(grpG, bi(r.Bytes(80)))), HT: pt(gexp(grpG, bi(r.Bytes(80))))}
	case 3: // as the servers make it: every one raises the minimum base to its own power
		b = pedersen.CreateMinimalBaseFromSuite(suite)
		for k := 0; k < 1+r.IntN(3); k++ {
			b.HT = suite.Point().Mul(b.HT, sec(bi(r.Bytes(80))))
		}
	}
	return b, pv(b.GT), pv(b.HT)
}

var pedVals = []int64{0, 1, -1, 2, -2, 5, -5, 6, 127, 128, 255, 256, 257, -256, 65535, 65536, 1 << 31, -(1 << 31), 1<<63 - 1, -(1 << 62)}

func pedVal(i int, r *Rng) *big.Int {
	if i%3 != 0 {
		return big.NewInt(pedVals[r.IntN(len(pedVals))])
	}
	switch r.IntN(4) {
	case 0:
		return new(big.Int).Sub(grpQ, big.NewInt(int64(r.IntN(10)+1)))
	case 1:
		return new(big.Int).Lsh(one, uint(r.IntN(510)))
	}
	return new(big.Int).Mod(bi(r.Bytes(80)), grpQ)
}

func runC16(c *Check) {
	all := c.NewPool("commitment")
	rs := c.NewPool("commitment randomness")
	es := c.NewPool("re-randomisation exponent")
	c.Parallel("pedersen", c.Scale(3000, 60000), 8, func(i int, r *Rng) {
		b, GT, HT := pedBase(i, r)
		id := fmt.Sprint(i, GT, HT)
		is := func(kind string, p abstract.Point, x, rr *big.Int) {
			var got *big.Int
			pan, what := try(func() { got = pv(p) })
			c.decide(kind, id, !pan && got.Cmp(commitVal(GT, HT, x, rr)) == 0, true, kind+" is not what it should be",
				fmt.Sprintf("x=%v r=%.12s.. GT=%.12s.. HT=%.12s.. %s", x, rr.Text(16), GT.Text(16), HT.Text(16), what))
		}
		ver := func(kind string, x, rr *big.Int, p abstract.Point, want bool) {
			got := accepts(func() bool { return b.Verify(sec(x), sec(rr), p) })
			c.decide(kind, id, got, want, "verification of a commitment: "+kind, fmt.Sprintf("x=%v r=%.12s..", x, rr.Text(16)))
		}
		x, y := pedVal(i, r), pedVal(i+1, r)
		cx, rx := b.Commit(sec(x))
		cy, ry := b.Commit(sec(y))
		all.Add(pv(cx), id)
		all.Add(pv(cy), id)
		rs.Add(sv(rx), id)
		rs.Add(sv(ry), id)
		is("commitment to x", cx, x, sv(rx))
		is("commitment to y", cy, y, sv(ry))
		given := pedVal(i+2, r)
		is("commitment with a given opening", b.CommitWithR(sec(x), sec(given)), x, given)
		is("sum", b.Add(cx, cy), new(big.Int).Add(x, y), new(big.Int).Add(sv(rx), sv(ry)))
		is("difference", b.Sub(cx, cy), new(big.Int).Sub(x, y), new(big.Int).Sub(sv(rx), sv(ry)))
		is("difference, the other way", b.Sub(cy, cx), new(big.Int).Sub(y, x), new(big.Int).Sub(sv(ry), sv(rx)))
		is("operand after use", cx, x, sv(rx))
		is("operand after use", cy, y, sv(ry))
		// many votes, one after the other
		sum, sx, sr := b.Add(cx, b.CommitWithR(sec(new(big.Int)), sec(new(big.Int)))), new(big.Int).Set(x), sv(rx)
		for k := 0; k < 5; k++ {
			d := big.NewInt(int64(r.IntN(7) - 3))
			cd, rd := b.Commit(sec(d))
			sum = b.Add(sum, cd)
			sx.Add(sx, d)
			sr.Add(sr, sv(rd))
		}
		is("running sum", sum, sx, sr)
		ver("running sum opens", sx, sr, sum, true)
		ver("own opening", x, sv(rx), cx, true)
		ver("sum opens", new(big.Int).Add(x, y), new(big.Int).Add(sv(rx), sv(ry)), b.Add(cx, cy), true)
		ver("difference opens", new(big.Int).Sub(x, y), new(big.Int).Sub(sv(rx), sv(ry)), b.Sub(cx, cy), true)
		for _, d := range []int64{1, -1, 2, 1 << 32, int64(1 + r.IntN(1000))} {
			o := new(big.Int).Add(x, big.NewInt(d))
			ver("other value", o, sv(rx), cx, false)
			ver("other randomness", x, new(big.Int).Add(sv(rx), big.NewInt(d)), cx, false)
		}
		if x.Sign() != 0 {
			ver("negated value", new(big.Int).Neg(x), sv(rx), cx, false)
			ver("negated opening", new(big.Int).Neg(x), new(big.Int).Neg(sv(rx)), cx, false)
		}
		if new(big.Int).Mod(x, grpQ).Cmp(sv(rx)) != 0 {
			ver("value and randomness swapped", sv(rx), x, cx, false)
		}
		ver("another commitment", x, sv(rx), cy, false)
		if x.Sign() != 0 {
			ver("only the randomness", new(big.Int), sv(rx), cx, false)
		}
		ver("only the value", x, new(big.Int), cx, false)
		// re-randomisation: the same power on the commitment and both bases
		c2, E := b.Randomize(cx)
		es.Add(sv(E), id)
		c.decide("re-randomisation", id, pv(c2).Cmp(gexp(pv(cx), sv(E))) == 0, true, "a re-randomised commitment is not its power", fmt.Sprint("E=", sv(E)))
		GT, HT = gexp(GT, sv(E)), gexp(HT, sv(E))
		b = &pedersen.PedersenBase{Suite: suite, GT: pt(GT), HT: pt(HT)}
		is("re-randomised commitment", c2, x, sv(rx))
		ver("re-randomised commitment opens", x, sv(rx), c2, true)
		ver("re-randomised commitment, other value", new(big.Int).Add(x, one), sv(rx), c2, false)
		ver("commitment under new bases", x, sv(rx), cx, false)
		// numbers to secrets and back
		for _, v := range []*big.Int{x, y, new(big.Int).Neg(sv(rx)), new(big.Int).Add(grpQ, x)} {
			w := new(big.Int).Mod(v, grpQ)
			s1, s2 := util.BigIntToSecret(suite, v), pedersen_fujiokam.BigIntToSecret(suite, v)
			c.decide("number to secret", id+v.Text(62), sv(s1).Cmp(w) == 0 && sv(s2).Cmp(w) == 0 && util.SecretToBigInt(s1).Cmp(w) == 0 &&
				pedersen_fujiokam.SecretToBigInt(s2).Cmp(w) == 0, true, "a number is not turned into the secret of that value", v.String())
		}
	})
	rs.Wide(grpQ.BitLen())
	es.Wide(grpQ.BitLen())
	all.Wide(grpP.BitLen())
}
