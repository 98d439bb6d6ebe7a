package main

import (
	"fmt"
	"math/big"

	"zRep/cmd/bridge"
	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
)

// reqCase is one honest client in front of a verifier.
type reqCase struct {
	ped  *pedersen.PedersenBase
	fo   int
	base *fujiokam.FujiOkamBase
	x    int
	r    *big.Int
	comm *big.Int
	sk   abstract.Secret
	g    abstract.Point
	nym  []byte
}

func newReqCase(r *Rng, fo, x int) *reqCase {
	el := func() *big.Int { return gexp(grpG, new(big.Int).SetBytes(r.Bytes(70))) }
	q := &reqCase{fo: fo, base: getFO(fo), x: x, sk: randSec()}
	GT, HT, g := el(), el(), el()
	q.ped = &pedersen.PedersenBase{Suite: suite, GT: pt(GT), HT: pt(HT)}
	q.r = new(big.Int).Mod(new(big.Int).SetBytes(r.Bytes(70)), grpQ)
	q.comm = commitVal(GT, HT, big.NewInt(int64(x)), q.r)
	q.g = pt(g)
	q.nym = pad64(gexp(g, sv(q.sk)))
	return q
}

func (q *reqCase) make(ind int) (map[string]interface{}, *reqParts) {
	return makeRequest(q.ped, q.base, q.x, ind, sec(q.r), pt(q.comm), q.nym, q.sk, q.g)
}

// verify does with a request what coordinator and servers do, after the way over the wire.
func (q *reqCase) verify(ps map[string]interface{}) bool {
	return accepts(func() bool {
		e, err := decodeEvent(encodeEvent(ev(proto.REQUEST_BRIDGES, ps)))
		if err != nil {
			return false
		}
		return bridge.VerifyInd(e.Params, pt(q.comm), suite, q.ped, q.base)
	})
}

func honestRequests(c *Check) {
	var xs []int
	for x := 0; x <= c.Scale(40, 130); x++ {
		xs = append(xs, x)
	}
	for _, x := range []int{63, 64, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 100000} {
		xs = append(xs, x)
	}
	if c.Thorough() {
		xs = append(xs, 1<<20, 1<<24+7, 1<<28+1)
	}
	c.Parallel("honest request", len(xs), 8, func(i int, r *Rng) {
		x := xs[i]
		inds := map[int]bool{0: true, x: true, r.IntN(x + 1): true}
		if x > 0 {
			inds[1], inds[x-1] = true, true
		}
		for k := 0; k < c.Scale(0, 6); k++ {
			inds[r.IntN(x+1)] = true
		}
		q := newReqCase(r, i%c.Scale(3, 6), x)
		for ind := range inds {
			ps, _ := q.make(ind)
			c.decide("honest request", fmt.Sprint(x, ind, q.fo), q.verify(ps), true, "an honest request is refused",
				fmt.Sprintf("reputation %d, number %d, base %d", x, ind, q.fo))
			ok := accepts(func() bool {
				e, _ := decodeEvent(encodeEvent(ev(proto.REQUEST_BRIDGES, ps)))
				return util.ElGamalVerify(suite, bridge.MessageOfRequestBridges(e.Params), pt(bi(q.nym)), e.Params["signature"].([]byte), q.g) == nil
			})
			c.decide("honest signed request", fmt.Sprint(x, ind, q.fo), ok, true, "an honest request's signature is refused", fmt.Sprintf("reputation %d, number %d", x, ind))
		}
	})
}
