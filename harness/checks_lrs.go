package main

import (
	"bytes"
	"fmt"
	"math/big"

	"zRep/primitive/lrs"

	"github.com/dedis/crypto/abstract"
)

func init() {
	register("C13", "one evaluation is one ring signature verified, linked or looked at: honest ones by every member of rings of many sizes, ones with a part, the message or the ring changed, and forgeries by outsiders and by members who want not to be linked", runC13)
}

var lrsP1 = new(big.Int).Sub(grpP, one)

type ring struct {
	base *lrs.LRSBase
	g    *big.Int
	n    int
	x, y []*big.Int
	m    []byte
}

func newRing(i int, r *Rng) *ring {
	g := []*big.Int{grpG, big.NewInt(4), new(big.Int).Exp(bi(r.Bytes(80)), big.NewInt(2), grpP)}[i%3]
	k := &ring{base: lrs.CreateBase(g), g: g, n: []int{1, 2, 3, 4, 5, 7, 10}[i%7]}
	for j := 0; j < k.n; j++ {
		x := secVal(r)
		for x.BitLen() < 10 {
			x = secVal(r)
		}
		if r.IntN(3) == 0 {
			x = new(big.Int).Mod(bi(r.Bytes(80)), grpQ)
		}
		k.x = append(k.x, x)
		k.y = append(k.y, new(big.Int).Exp(g, x, grpP))
	}
	k.m = sigMessages(r.IntN(20), r)
	return k
}

func (k *ring) points() (res []abstract.Point) {
	for _, y := range k.y {
		res = append(res, pt(y))
	}
	return
}

func lrsVerify(base *lrs.LRSBase, m []byte, n, pi int, s *lrs.Signature, y []*big.Int) bool {
	a := accepts(func() bool { return base.VerifyHelper(m, n, pi, s, y) })
	if a {
		return true
	}
	// the same over the wire
	return accepts(func() bool {
		return base.VerifyHelper(m, n, pi, lrs.ProtobufDecodeSignature(lrs.ProtobufEncodeSignature(s)), y)
	})
}

func copyRS(s *lrs.Signature) *lrs.Signature {
	r := &lrs.Signature{Y0: new(big.Int).Set(s.Y0)}
	for _, v := range s.S {
		r.S = append(r.S, new(big.Int).Set(v))
	}
	for _, v := range s.C {
		r.C = append(r.C, new(big.Int).Set(v))
	}
	return r
}

// hashes over subsets of the inputs, for forgers of weakened variants
func (k *ring) h(maskM, maskL bool) *big.Int {
	H := suite.Hash()
	if maskM {
		H.Write(k.m)
	}
	d := H.Sum(nil)
	H = suite.Hash()
	H.Write(d)
	if maskL {
		for _, y := range k.y {
			H.Write(y.Bytes())
		}
	}
	v := new(big.Int).SetBytes(H.Sum(nil))
	return v.Exp(v, big.NewInt(2), grpP)
}

// forge runs a prover without (or with) a private key. mask tells which inputs the challenge covers:
// 1 ring, 2 tag, 4 message, 8 first commitments, 16 second commitments.
func (k *ring) forge(kind string, mask int, r *Rng) *lrs.Signature {
	h := k.h(true, true)
	rq := func() *big.Int { return new(big.Int).Mod(bi(r.Bytes(80)), lrsP1) }
	pi := r.IntN(k.n)
	s, c := make([]*big.Int, k.n), make([]*big.Int, k.n)
	for j := range s {
		s[j], c[j] = rq(), rq()
	}
	xt := rq() // the exponent of the tag
	if kind == "member, honest tag" || kind == "member, linked tag" {
		xt = k.x[pi]
	}
	y0 := new(big.Int).Exp(h, xt, grpP)
	switch kind {
	case "member, negated tag":
		y0 = new(big.Int).Sub(grpP, new(big.Int).Exp(h, k.x[pi], grpP))
	case "member, zero tag":
		y0 = new(big.Int)
	case "member, tag one":
		y0 = big.NewInt(1)
	}
	z := func(b, y, s, c *big.Int) *big.Int {
		return gmulP(new(big.Int).Exp(b, s, grpP), new(big.Int).Exp(y, c, grpP))
	}
	rr := rq()
	var z1, z2 [][]byte
	for j := range s {
		if j == pi {
			z1 = append(z1, new(big.Int).Exp(k.g, rr, grpP).Bytes())
			z2 = append(z2, new(big.Int).Exp(h, rr, grpP).Bytes())
		} else {
			z1 = append(z1, z(k.g, k.y[j], s[j], c[j]).Bytes())
			z2 = append(z2, z(h, y0, s[j], c[j]).Bytes())
		}
	}
	var buf bytes.Buffer
	if mask&1 != 0 {
		for _, y := range k.y {
			buf.Write(y.Bytes())
		}
	}
	if mask&2 != 0 {
		buf.Write(y0.Bytes())
	}
	if mask&4 != 0 {
		buf.Write(k.m)
	}
	if mask&8 != 0 {
		buf.Write(bytes.Join(z1, nil))
	}
	if mask&16 != 0 {
		buf.Write(bytes.Join(z2, nil))
	}
	H := suite.Hash()
	H.Write(buf.Bytes())
	e := new(big.Int).Mod(new(big.Int).SetBytes(H.Sum(nil)), lrsP1)
	for j := range c {
		if j != pi {
			e.Sub(e, c[j]).Mod(e, lrsP1)
		}
	}
	if kind != "random challenges" {
		c[pi] = e
	}
	x := k.x[pi]
	if kind == "outsider" || kind == "outsider, second equation only" {
		x = xt // knows only the exponent of the tag
	}
	s[pi] = new(big.Int).Mod(new(big.Int).Sub(rr, new(big.Int).Mul(c[pi], x)), lrsP1)
	if kind == "random responses" {
		s[pi] = rq()
	}
	return &lrs.Signature{Y0: y0, S: s, C: c}
}

func gmulP(a, b *big.Int) *big.Int { v := new(big.Int).Mul(a, b); return v.Mod(v, grpP) }

var lrsForgeries = []string{"outsider", "outsider, second equation only", "member, other tag", "member, negated tag", "member, zero tag", "member, tag one", "random challenges", "random responses"}

func runC13(c *Check) {
	sp := c.NewPool("response of a ring signature")
	cp := c.NewPool("challenge of a ring signature")
	np := c.NewPool("nonce of a ring signature")
	c.Parallel("rings", c.Scale(210, 5000), 8, func(i int, r *Rng) {
		k := newRing(i, r)
		pi := r.IntN(k.n)
		var sig, again *lrs.Signature
		d := fmt.Sprintf("ring of %d, signer %d, message %s, generator %.8s..", k.n, pi, hexs(k.m), k.g.Text(16))
		if pan, what := try(func() {
			if i%2 == 0 {
				sig = k.base.SignHelper(k.m, k.n, pi, k.x[pi], k.y)
			} else {
				sig = k.base.Sign(k.m, k.n, pi, sec(k.x[pi]), k.points())
			}
			again = k.base.SignHelper(k.m, k.n, pi, k.x[pi], k.y)
		}); pan {
			c.Violate("ring signing fails", d+" "+what)
			return
		}
		id := fmt.Sprint(sig.Y0, sig.S)
		ok := func(s *lrs.Signature) bool { return lrsVerify(k.base, k.m, k.n, pi, s, k.y) }
		c.decide("honest signature", id, ok(sig), true, "an honest ring signature does not verify", d)
		c.decide("honest signature, points", id, accepts(func() bool { return k.base.Verify(k.m, k.n, (pi+1)%k.n, sig, k.points()) }), true, "an honest ring signature does not verify", d)
		c.decide("honest signature, decoded", id, accepts(func() bool {
			return k.base.VerifyHelper(k.m, k.n, 0, lrs.ProtobufDecodeSignature(lrs.ProtobufEncodeSignature(sig)), k.y)
		}), true, "an honest ring signature does not verify", d)
		bad := func(kind string, m []byte, y []*big.Int, s *lrs.Signature) {
			c.decide("changed: "+kind, id, lrsVerify(k.base, m, len(y), pi, s, y), false, "a ring signature verifies after a change of "+kind, d)
		}
		// message
		if len(k.m) > 0 {
			for t := 0; t < 3; t++ {
				bad("the message", flip(k.m, r.IntN(len(k.m)*8)), k.y, sig)
			}
			bad("the message, shortened", k.m[:len(k.m)-1], k.y, sig)
			bad("the message, shortened in front", k.m[1:], k.y, sig)
		}
		bad("the message, longer", append(append([]byte{}, k.m...), 0), k.y, sig)
		bad("the message, longer in front", append([]byte{0}, k.m...), k.y, sig)
		// ring
		cpY := func() []*big.Int { return append([]*big.Int{}, k.y...) }
		stranger := new(big.Int).Exp(k.g, bi(r.Bytes(80)), grpP)
		for j := 0; j < k.n; j++ {
			y := cpY()
			y[j] = stranger
			bad("a member of the ring", k.m, y, sig)
		}
		if k.n > 1 {
			y := cpY()
			a, b := r.IntN(k.n), r.IntN(k.n)
			if y[a].Cmp(y[b]) != 0 {
				y[a], y[b] = y[b], y[a]
				bad("the order of the ring", k.m, y, sig)
			}
			y = cpY()[:k.n-1]
			bad("the size of the ring", k.m, y, sig)
			s := copyRS(sig)
			s.S, s.C = s.S[:k.n-1], s.C[:k.n-1]
			bad("the size of ring and signature", k.m, y, s)
			bad("the number of parts", k.m, k.y, s)
		}
		bad("the ring, one added", k.m, append(cpY(), stranger), sig)
		{
			s := copyRS(sig)
			s.S, s.C = append(s.S, new(big.Int)), append(s.C, new(big.Int))
			bad("the number of parts, zeros added", k.m, k.y, s)
			bad("the ring, one added with zeros", k.m, append(cpY(), stranger), s)
			// n told apart from the ring
			c.decide("changed: the ring cut", id, accepts(func() bool { return k.base.VerifyHelper(k.m, k.n, 0, sig, append(cpY(), stranger)) }) && k.n > 0, false,
				"a ring signature verifies for a larger ring", d)
		}
		// parts: responses, challenges, the tag
		for j := 0; j < k.n; j++ {
			for o, dv := range []*big.Int{one, negI(one), big.NewInt(2), new(big.Int).Lsh(one, uint(r.IntN(500)))} {
				if (o+j+i)%2 == 0 {
					s := copyRS(sig)
					s.S[j].Add(s.S[j], dv)
					bad("a response", k.m, k.y, s)
				}
				s := copyRS(sig)
				s.C[j].Add(s.C[j], dv)
				bad("a challenge", k.m, k.y, s)
			}
			s := copyRS(sig)
			s.S[j], s.C[j] = s.C[j], s.S[j]
			bad("response and challenge swapped", k.m, k.y, s)
			s = copyRS(sig)
			s.S[j] = new(big.Int)
			bad("a response, zero", k.m, k.y, s)
			s = copyRS(sig)
			s.C[j].Mul(s.C[j], big.NewInt(2))
			if s.C[j].Sign() != 0 {
				bad("a challenge, doubled", k.m, k.y, s)
			}
			if k.n > 1 {
				// the sum stays the same
				s = copyRS(sig)
				s.C[j].Add(s.C[j], one)
				s.C[(j+1)%k.n].Sub(s.C[(j+1)%k.n], one)
				bad("two challenges", k.m, k.y, s)
				s = copyRS(sig)
				s.C[j], s.C[(j+1)%k.n] = s.C[(j+1)%k.n], s.C[j]
				bad("the order of challenges", k.m, k.y, s)
				s = copyRS(sig)
				s.S[j], s.S[(j+1)%k.n] = s.S[(j+1)%k.n], s.S[j]
				bad("the order of responses", k.m, k.y, s)
			}
		}
		// the tag: a signer who does not want to be linked
		for _, t := range []*big.Int{new(big.Int).Sub(grpP, sig.Y0), addI(sig.Y0, grpP), ginv(sig.Y0), negI(sig.Y0), gmulP(sig.Y0, sig.Y0), new(big.Int), one, addI(sig.Y0, one),
			new(big.Int).Sub(sig.Y0, grpP), lrsP1} {
			s := copyRS(sig)
			s.Y0 = new(big.Int).Set(t)
			if t.Cmp(sig.Y0) != 0 {
				bad("the tag", k.m, k.y, s)
			}
		}
		// ... with challenges of the signer's choice, until one fits a sign
		for t := 0; t < 4; t++ {
			alt := k.forge("member, negated tag", 31, r)
			if ok(alt) && !lrs.Linkable(sig, alt) {
				c.decide("negated tag", id, true, false, "a member can sign twice without being linked", d)
			} else {
				c.decide("negated tag", id+fmt.Sprint(t), false, false, "", d)
			}
		}
		// links
		c.decide("linked: same signer", id, lrs.Linkable(sig, again) && lrs.Linkable(again, sig) && ok(again), true, "two signatures of one member are not linked", d)
		c.decide("fresh", id, fmt.Sprint(sig.S) == fmt.Sprint(again.S) || fmt.Sprint(sig.C) == fmt.Sprint(again.C), false, "two ring signatures are the same", d)
		var s3 *lrs.Signature
		try(func() { s3 = k.base.SignHelper(k.m, k.n, pi, new(big.Int).Add(k.x[pi], grpQ), k.y) })
		if s3 != nil && ok(s3) {
			c.decide("linked: same signer, other exponent", id, lrs.Linkable(sig, s3), true, "two signatures of one member are not linked", d)
		}
		for j := 0; j < k.n && j < 4; j++ {
			if k.y[j].Cmp(k.y[pi]) == 0 {
				continue
			}
			var o *lrs.Signature
			try(func() { o = k.base.SignHelper(k.m, k.n, j, k.x[j], k.y) })
			if o == nil {
				c.Violate("ring signing fails", d)
				continue
			}
			c.decide("every member can sign", fmt.Sprint(id, j), ok(o), true, "an honest ring signature does not verify", d)
			c.decide("linked: other signer", fmt.Sprint(id, j), lrs.Linkable(sig, o), false, "signatures of two members are linked", d)
		}
		// signing for a place with another member's key, or with no member's key
		if k.n > 1 && k.y[(pi+1)%k.n].Cmp(k.y[pi]) != 0 {
			var o *lrs.Signature
			try(func() { o = k.base.SignHelper(k.m, k.n, pi, k.x[(pi+1)%k.n], k.y) })
			if o != nil {
				c.decide("key of another place", id, ok(o), false, "a ring signature verifies that was made with a wrong key", d)
			}
		}
		var o *lrs.Signature
		try(func() { o = k.base.SignHelper(k.m, k.n, pi, new(big.Int).Mod(bi(r.Bytes(80)), grpQ), k.y) })
		if o != nil {
			c.decide("no member's key", id, ok(o), false, "a ring signature verifies that was made with a wrong key", d)
		}
		// other messages and rings: no link
		msgs := [][]byte{cat(k.m, []byte("x")), cat([]byte("x"), k.m), cat(k.m, k.m, []byte{0})}
		if len(k.m) > 0 {
			msgs = append(msgs, flip(k.m, 0), flip(k.m, 8*len(k.m)-1), flip(k.m, 4*len(k.m)))
		}
		for vi, m2 := range msgs {
			try(func() {
				o := k.base.SignHelper(m2, k.n, pi, k.x[pi], k.y)
				c.decide("linked: other message", fmt.Sprint(id, vi), lrs.Linkable(sig, o), false, "signatures on different messages are linked", d)
			})
		}
		// rings that share all members but one, at any place, or are longer or shorter
		other := func(kind string, y []*big.Int, at int) {
			try(func() {
				o := k.base.SignHelper(k.m, len(y), at, k.x[pi], y)
				c.decide("linked: "+kind, id, lrs.Linkable(sig, o), false, "signatures for different rings are linked", d)
			})
		}
		same := func() []*big.Int { return append([]*big.Int{}, k.y...) }
		other("ring with a member before", append([]*big.Int{stranger}, k.y...), pi+1)
		other("ring with a member after", append(same(), stranger), pi)
		for i := range k.y {
			if i != pi {
				y := same()
				y[i] = stranger
				if i == 0 || i == k.n-1 || i == pi-1 || i == pi+1 || i == k.n/2 {
					other(fmt.Sprintf("ring with member %d replaced", i), y, pi)
				}
			}
		}
		if pi < k.n-1 {
			other("ring without the last member", same()[:k.n-1], pi)
		}
		if pi > 0 {
			other("ring without the first member", same()[1:], pi-1)
		}
		// anonymity: the tag is not a known power of anybody's key
		for _, a := range [][2]bool{{true, true}, {true, false}, {false, true}} {
			H := suite.Hash()
			if a[0] {
				H.Write(k.m)
			}
			dm := H.Sum(nil)
			L := []byte{}
			if a[1] {
				for _, y := range k.y {
					L = append(L, y.Bytes()...)
				}
			}
			H = suite.Hash()
			H.Write(dm)
			H.Write(L)
			d1 := H.Sum(nil)
			H = suite.Hash()
			H.Write(k.m)
			H.Write(L)
			d2 := H.Sum(nil)
			for _, e := range []*big.Int{bi(d1), bi(d2), bi(dm), mulI(bi(d1), big.NewInt(2)), mulI(bi(d1), bi(d1)), one} {
				for j, y := range k.y {
					t := new(big.Int).Exp(y, e, grpP)
					c.decide("the signer from the tag", fmt.Sprint(id, j), t.Cmp(sig.Y0) == 0, false, "the tag tells who signed", d)
				}
			}
		}
		for j := range sig.S {
			sp.Add(sig.S[j], id)
			if j != pi && k.n > 2 {
				cp.Add(sig.C[j], id)
			}
		}
		np.Add(new(big.Int).Mod(addI(sig.S[pi], mulI(sig.C[pi], k.x[pi])), lrsP1), id)
		np.Add(new(big.Int).Mod(addI(again.S[pi], mulI(again.C[pi], k.x[pi])), lrsP1), id+"'")
	})
	sp.Wide(512)
	cp.Wide(512)
	np.Wide(512)
	// the place of the signer must not show in the parts
	var low, all [2]int
	c.Parallel("places", c.Scale(300, 3000), 8, func(i int, r *Rng) {
		k := newRing(2, r)
		s := k.base.SignHelper(k.m, k.n, 1, k.x[1], k.y)
		c.mu.Lock()
		for j := range s.S {
			w := 0
			if j == 1 {
				w = 1
			}
			for _, v := range []*big.Int{s.S[j], s.C[j]} {
				all[w]++
				if v.BitLen() < 510 {
					low[w]++
				}
			}
		}
		c.mu.Unlock()
		c.Eval(fmt.Sprint("place", s.Y0))
	})
	f0, f1 := float64(low[0])/float64(all[0]), float64(low[1])/float64(all[1])
	if d := f0 - f1; d > 0.3 || d < -0.3 {
		c.Violate("the parts of a ring signature tell who signed", fmt.Sprintf("small numbers at the signer's place: %.3f, at others: %.3f", f1, f0))
	}
	c.Count("parts compared by place", all[0]+all[1])
	c.Parallel("forgeries", c.Scale(800, 16000), 8, func(i int, r *Rng) {
		k := newRing(i, r)
		kind := lrsForgeries[i%len(lrsForgeries)]
		masks := []int{31, 30, 29, 27}
		switch kind {
		case "outsider", "outsider, second equation only":
			masks = []int{31, 23, 22, 21, 19, 15}
		case "member, other tag":
			masks = []int{31, 15, 14, 13, 11, 29}
		}
		for _, m := range masks {
			s := k.forge(kind, m, r)
			got := lrsVerify(k.base, k.m, k.n, 0, s, k.y)
			c.decide("forgery: "+kind, fmt.Sprint(i, m, s.Y0), got, false, "a ring signature is forged: "+kind, fmt.Sprintf("ring of %d", k.n))
		}
	})
}
