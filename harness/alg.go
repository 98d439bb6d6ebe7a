package main

import (
	"bytes"
	"encoding/gob"
	"math/big"
	"sync"

	"zRep/cmd/bridge"
	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

// The group, computed with math/big only: the oracles do not rely on the code under test.
var (
	suite   = nist.NewAES128SHA256QR512()
	grpP, _ = new(big.Int).SetString("10198267722357351868598076141027380280417188309231803909918464305012113541414604537422741096561285049775792035177041672305646773132014126091142862443826263", 10)
	grpQ    = new(big.Int).Rsh(grpP, 1)
	grpG    = new(big.Int).SetBytes(mustBin(suite.Point().Base().MarshalBinary()))
	one     = big.NewInt(1)
)

func mustBin(b []byte, err error) []byte {
	if err != nil {
		panic(err)
	}
	return b
}

func bi(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

func pv(p abstract.Point) *big.Int  { return bi(mustBin(p.MarshalBinary())) }
func sv(s abstract.Secret) *big.Int { return bi(mustBin(s.MarshalBinary())) }

func gexp(b, e *big.Int) *big.Int {
	return new(big.Int).Exp(b, new(big.Int).Mod(e, grpQ), grpP)
}
func gmul(a, b *big.Int) *big.Int {
	r := new(big.Int).Mul(a, b)
	return r.Mod(r, grpP)
}
func ginv(a *big.Int) *big.Int { return new(big.Int).ModInverse(a, grpP) }

// isElem tells whether x is an element of the group.
func isElem(x *big.Int) bool {
	return x.Sign() > 0 && x.Cmp(grpP) < 0 && big.Jacobi(x, grpP) == 1
}

// commitVal is GT^x * HT^r.
func commitVal(GT, HT, x, r *big.Int) *big.Int { return gmul(gexp(GT, x), gexp(HT, r)) }

// pt makes a point from a number, without any check.
func pt(x *big.Int) abstract.Point {
	p := suite.Point()
	b := x.Bytes()
	try(func() { p.UnmarshalBinary(b) }) // a value outside of the group is stored all the same
	return p
}
func sec(x *big.Int) abstract.Secret {
	s := suite.Secret().(*nist.Int)
	s.V.Mod(x, s.M)
	return s
}

func randSec() abstract.Secret { return suite.Secret().Pick(random.Stream) }

// pad64 is the canonical encoding of a group element.
func pad64(x *big.Int) []byte {
	b := x.Bytes()
	return append(make([]byte, 64-len(b)), b...)
}

var (
	listMu    sync.Mutex
	listCache = map[string][]*big.Int{} // callers do not change the lists
)

// pointList decodes a list from the wire. It does not use the code under test beyond its documented format.
func pointList(data []byte) (res []*big.Int, ok bool) {
	key := string(data)
	listMu.Lock()
	if l, ok := listCache[key]; ok {
		listMu.Unlock()
		return l, true
	}
	listMu.Unlock()
	defer func() {
		if ok {
			listMu.Lock()
			if len(listCache) > 3000 {
				listCache = map[string][]*big.Int{}
			}
			listCache[key] = res
			listMu.Unlock()
		}
	}()
	pan, _ := try(func() {
		for _, p := range util.ProtobufDecodePointList(data) {
			res = append(res, pv(p))
		}
	})
	return res, !pan
}

func secretList(data []byte) (res []*big.Int, ok bool) {
	pan, _ := try(func() {
		for _, p := range util.ProtobufDecodeSecretList(data) {
			res = append(res, sv(p))
		}
	})
	return res, !pan
}

// sigT recomputes the nonce commitment of a signature: base^r * key^c.
func sigT(sig []byte, key, base *big.Int) (T, c, r *big.Int, ok bool) {
	if len(sig) != 128 {
		return nil, nil, nil, false
	}
	c, r = bi(sig[:64]), bi(sig[64:])
	return gmul(gexp(base, r), gexp(key, c)), c, r, true
}

func gobBytes(v any) []byte {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(v); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// foFromParams rebuilds the Fujisaki-Okamoto base that the coordinator sends.
func foFromParams(ps map[string]interface{}) *fujiokam.FujiOkamBase {
	b := fujiokam.CreateMinimumBase(suite, bi(ps["n"].([]byte)))
	g := func(k string) *fujiokam.Point { return b.Point().FromBinary(ps[k].([]byte)) }
	b.G1, b.G2, b.G3, b.G4, b.G5, b.G6, b.H1 = g("g1"), g("g2"), g("g3"), g("g4"), g("g5"), g("g6"), g("h1")
	return b
}

// reqParts are the secrets behind an honest request.
type reqParts struct {
	ind, d   int
	rind, rd *big.Int
	rFO      *big.Int
	FOCommd  *fujiokam.Point
	PCommd   *big.Int
}

// makeRequest does what the client program does for "get ind".
func makeRequest(ped *pedersen.PedersenBase, fo *fujiokam.FujiOkamBase, x, ind int, r abstract.Secret, PCommr abstract.Point,
	nym []byte, sk abstract.Secret, g abstract.Point) (map[string]interface{}, *reqParts) {
	d := x - ind
	PCommind, rind := ped.Commit(suite.Secret().SetInt64(int64(ind)))
	PCommd := ped.Sub(PCommr, PCommind)
	FOCommd, rFO := fo.Commit(big.NewInt(int64(d)))
	nonneg := fo.ProveNonneg(big.NewInt(int64(d)), FOCommd, rFO)
	rd := suite.Secret().Sub(r, rind)
	eq := pedersen_fujiokam.ProveEqual(ped, fo, suite.Secret().SetInt64(int64(d)), PCommd, rd, FOCommd, rFO)
	ps := map[string]interface{}{
		"ind": ind, "nym": nym, "FOCommd": FOCommd.ToBinary(), "PCommd": util.EncodePoint(PCommd), "PCommind": util.EncodePoint(PCommind),
		"rind": util.EncodeSecret(rind), "arg_nonneg": util.EncodeARGnonneg(nonneg), "arg_equal": util.EncodeARGequal(eq),
	}
	signRequest(ps, sk, g)
	return ps, &reqParts{ind: ind, d: d, rind: sv(rind), rd: sv(rd), rFO: rFO, FOCommd: FOCommd, PCommd: pv(PCommd)}
}

func signRequest(ps map[string]interface{}, sk abstract.Secret, g abstract.Point) {
	ps["signature"] = util.ElGamalSign(suite, random.Stream, bridge.MessageOfRequestBridges(ps), sk, g)
}

func clone(ps map[string]interface{}) map[string]interface{} {
	r := map[string]interface{}{}
	for k, v := range ps {
		if b, ok := v.([]byte); ok {
			v = append([]byte{}, b...)
		}
		r[k] = v
	}
	return r
}

func ev(typ int, ps map[string]interface{}) *proto.Event {
	return &proto.Event{EventType: typ, Params: ps}
}

// foPool hands out parameter bases made by the code under test, with their secret primes.
type foPoolT struct {
	mu    sync.Mutex
	bases []*fujiokam.FujiOkamBase
}

var foPool foPoolT

func newFO() *fujiokam.FujiOkamBase {
	for {
		b := fujiokam.CreateBaseFromSuite(suite)
		if b.P == nil || b.Q == nil || b.P.Cmp(b.Q) != 0 {
			return b
		}
	}
}

// getFO returns base number i, made once.
func getFO(i int) *fujiokam.FujiOkamBase {
	foPool.mu.Lock()
	defer foPool.mu.Unlock()
	for len(foPool.bases) <= i {
		foPool.bases = append(foPool.bases, newFO())
	}
	return foPool.bases[i]
}

func ptList(xs ...*big.Int) (res []abstract.Point) {
	for _, x := range xs {
		res = append(res, pt(x))
	}
	return
}
