package main

import (
	"bytes"
	"fmt"
	"math/big"

	"zRep/util"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/random"
)

func init() {
	register("C09", "one evaluation is one verification or decryption whose outcome the oracle knows: honest ones, and ones after a single change of the message, key, generator or signature, over directed and random messages, keys and generators", runC09)
}

// sigMessages are directed and random messages.
func sigMessages(i int, r *Rng) []byte {
	sizes := []int{0, 1, 2, 15, 16, 17, 31, 32, 33, 55, 56, 63, 64, 65, 127, 128, 129, 135, 136, 200, 500, 1000, 4096}
	m := r.Bytes(sizes[i%len(sizes)])
	switch r.IntN(4) {
	case 0:
		for k := range m {
			m[k] = 0
		}
	case 1:
		if len(m) > 2 {
			m[0], m[len(m)-1] = 0, 0
		}
	}
	return m
}

func sigKeys(i int, r *Rng) abstract.Secret {
	switch i % 9 {
	case 0:
		return sec(big.NewInt(1))
	case 1:
		return sec(new(big.Int).Sub(grpQ, one))
	case 2:
		return sec(big.NewInt(2))
	case 3:
		return sec(new(big.Int).Rsh(grpQ, 1))
	}
	return sec(bi(r.Bytes(80)))
}

// sigGens gives the generator as an argument (nil for the default one) and as a number.
func sigGens(i int, r *Rng) (abstract.Point, *big.Int) {
	switch i % 4 {
	case 0:
		return nil, grpG
	case 1:
		return pt(grpG), grpG
	case 2:
		g := new(big.Int).Exp(bi(r.Bytes(80)), big.NewInt(2), grpP)
		return pt(g), g
	}
	g := big.NewInt(4)
	return pt(g), g
}

func verify(m []byte, pk, g *big.Int, sig []byte) bool {
	return accepts(func() bool { return util.ElGamalVerify(suite, m, pt(pk), sig, pt(g)) == nil })
}

func runC09(c *Check) {
	n := c.Scale(600, 20000)
	c.Parallel("signatures", n, 8, func(i int, r *Rng) {
		m := sigMessages(i, r)
		sk := sigKeys(r.IntN(40), r)
		ga, g := sigGens(i, r)
		pk := gexp(g, sv(sk))
		var sig []byte
		if pan, what := try(func() { sig = util.ElGamalSign(suite, random.Stream, m, sk, ga) }); pan {
			c.Violate("signing fails", fmt.Sprintf("message of %d bytes: %s", len(m), what))
			return
		}
		desc := fmt.Sprintf("message %s key %.8s.. generator %.8s.. signature %s", hexs(m), pk.Text(16), g.Text(16), hexs(sig))
		id := fmt.Sprintf("%x", sig)
		ok := accepts(func() bool { return util.ElGamalVerify(suite, m, pt(pk), sig, ga) == nil })
		c.decide("honest signature", id, ok, true, "an honest signature does not verify", desc)
		c.decide("honest signature, generator given", id, verify(m, pk, g, sig), true, "an honest signature does not verify", desc)
		bad := func(kind string, m []byte, pk, g *big.Int, sig []byte) {
			c.decide(kind, id, verify(m, pk, g, sig), false, "a signature verifies after a change of "+kind, desc)
		}
		// the message
		for k := 0; k < 6 && len(m) > 0; k++ {
			b := r.IntN(len(m) * 8)
			if k == 0 {
				b = 0
			}
			if k == 1 {
				b = len(m)*8 - 1
			}
			if k == 2 {
				b = (len(m) - 1) * 8
			}
			bad("message bit", flip(m, b), pk, g, sig)
		}
		bad("message, zero appended", append(append([]byte{}, m...), 0), pk, g, sig)
		bad("message, zero prepended", append([]byte{0}, m...), pk, g, sig)
		bad("message, doubled", cat(m, m, []byte("x")), pk, g, sig)
		if len(m) > 0 {
			bad("message, cut at the end", m[:len(m)-1], pk, g, sig)
			bad("message, cut at the start", m[1:], pk, g, sig)
			bad("message, empty", nil, pk, g, sig)
		}
		if len(m) > 16 {
			o := append([]byte{}, m...)
			o[1] ^= 1
			o[2] ^= 1
			bad("message, two bits", o, pk, g, sig)
			o = append(append([]byte{}, m[len(m)/2:]...), m[:len(m)/2]...)
			if !bytes.Equal(o, m) {
				bad("message, halves swapped", o, pk, g, sig)
			}
			bad("message, first block only", m[:16], pk, g, sig)
		}
		// the key
		bad("key, random", m, gexp(g, bi(r.Bytes(80))), g, sig)
		bad("key, times generator", m, gmul(pk, g), g, sig)
		if sv(sk).Cmp(big.NewInt(1)) != 0 && new(big.Int).Sub(grpQ, sv(sk)).Cmp(sv(sk)) != 0 {
			bad("key, inverse", m, ginv(pk), g, sig)
		}
		bad("key, squared", m, gmul(pk, pk), g, sig)
		if g.Cmp(pk) != 0 {
			bad("key, the generator", m, g, g, sig)
		}
		bad("key, identity", m, one, g, sig)
		// the generator
		bad("generator, random", m, pk, gexp(g, bi(r.Bytes(80))), sig)
		bad("generator, squared", m, pk, gmul(g, g), sig)
		bad("generator, inverse", m, pk, ginv(g), sig)
		if g.Cmp(grpG) != 0 {
			nilOK := accepts(func() bool { return util.ElGamalVerify(suite, m, pt(pk), sig, nil) == nil })
			c.decide("generator, default", id, nilOK, false, "a signature verifies after a change of the generator", desc)
		}
		// the signature
		for k := 0; k < 24; k++ {
			b := r.IntN(len(sig) * 8)
			if k < 4 {
				b = []int{0, 7, len(sig)*8 - 1, len(sig)*4 - 1}[k]
			}
			bad("signature bit", m, pk, g, flip(sig, b))
		}
		h := len(sig) / 2
		bad("signature, halves swapped", m, pk, g, cat(sig[h:], sig[:h]))
		bad("signature, cut by one", m, pk, g, sig[:len(sig)-1])
		bad("signature, half", m, pk, g, sig[:h])
		bad("signature, byte appended", m, pk, g, cat(sig, []byte{0}))
		bad("signature, doubled", m, pk, g, cat(sig, sig))
		bad("signature, empty", m, pk, g, nil)
		bad("signature, zeros", m, pk, g, make([]byte, len(sig)))
		if len(sig) == 128 {
			cc, rr := bi(sig[:64]), bi(sig[64:])
			for _, s2 := range [][2]*big.Int{{new(big.Int).Add(cc, grpQ), rr}, {cc, new(big.Int).Add(rr, grpQ)},
				{cc, new(big.Int).Sub(grpQ, rr)}, {new(big.Int).Sub(grpQ, cc), rr}, {cc, new(big.Int).Mod(new(big.Int).Add(rr, one), grpQ)},
				{new(big.Int).Mod(new(big.Int).Add(cc, one), grpQ), rr}, {new(big.Int), rr}, {cc, new(big.Int)}} {
				if s2[0].BitLen() <= 512 && s2[1].BitLen() <= 512 {
					bad("signature, other numbers", m, pk, g, cat(pad64(s2[0]), pad64(s2[1])))
				}
			}
		}
		// a forger that does not know the key, and uses parts of signatures of others on the same message
		sk2 := sec(bi(r.Bytes(80)))
		var other, again []byte
		try(func() {
			other = util.ElGamalSign(suite, random.Stream, m, sk2, ga)
			again = util.ElGamalSign(suite, random.Stream, cat(m, []byte{1}), sk, ga)
		})
		bad("signer", m, pk, g, other)
		bad("signed message", m, pk, g, again)
		if len(other) == 128 && len(sig) == 128 {
			bad("signature, mixed with another signer's", m, pk, g, cat(other[:64], sig[64:]))
			bad("signature, mixed with another signer's", m, pk, g, cat(sig[:64], other[64:]))
			bad("signature, mixed with another message's", m, pk, g, cat(again[:64], sig[64:]))
			bad("signature, mixed with another message's", cat(m, []byte{1}), pk, g, cat(sig[:64], again[64:]))
			// the challenge of one's own signature, and any response
			bad("signature, random response", m, pk, g, cat(other[:64], pad64(new(big.Int).Mod(bi(r.Bytes(80)), grpQ))))
			bad("signature, random", m, pk, g, cat(pad64(new(big.Int).Mod(bi(r.Bytes(80)), grpQ)), pad64(new(big.Int).Mod(bi(r.Bytes(80)), grpQ))))
		}
		// a signature made with the key for one generator does not count for another one
		ga2 := pt(gexp(g, big.NewInt(77)))
		var sg []byte
		try(func() { sg = util.ElGamalSign(suite, random.Stream, m, sk, ga2) })
		bad("generator used by the signer", m, pk, g, sg)
	})
	// encryption
	c.Parallel("encryption", c.Scale(1500, 30000), 8, func(i int, r *Rng) {
		sk := sigKeys(i, r)
		if i%9 == 0 {
			sk = sec(new(big.Int).SetUint64(r.Uint64() | 1))
		}
		pk := gexp(grpG, sv(sk))
		M := new(big.Int).Exp(bi(r.Bytes(80)), big.NewInt(2), grpP)
		switch i % 7 {
		case 0:
			M = big.NewInt(1)
		case 1:
			M = grpG
		case 2:
			M = pk
		}
		pan, what := try(func() {
			K, C, _ := util.ElGamalEncrypt(suite, pt(pk), pt(M))
			got := pv(util.ElGamalDecrypt(suite, sk, K, C))
			d := fmt.Sprintf("M=%.8s.. K=%.8s..", M.Text(16), pv(K).Text(16))
			c.decide("decryption", pv(K).Text(62), got.Cmp(M) == 0, true, "decryption does not give back the plaintext", d)
			wrong := pv(util.ElGamalDecrypt(suite, sec(new(big.Int).Add(sv(sk), one)), K, C))
			c.decide("decryption with another key", pv(K).Text(62), wrong.Cmp(M) == 0, false, "decryption with another key gives the plaintext", d)
			wrong = pv(util.ElGamalDecrypt(suite, sec(bi(r.Bytes(80))), K, C))
			c.decide("decryption with a random key", pv(K).Text(62), wrong.Cmp(M) == 0, false, "decryption with another key gives the plaintext", d)
			c.decide("ciphertext", pv(K).Text(62), pv(C).Cmp(M) == 0 || !isElem(pv(K)) || !isElem(pv(C)), false, "a ciphertext shows its plaintext", d)
		})
		if pan {
			c.Violate("encryption fails", what)
		}
	})
}
