package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/random"
)

func init() {
	register("C05", "one evaluation is one request offered to the verifier, or one hostile post, request or signing request sent to a running coordinator or server: nothing may be assigned or signed for it; distinct by its kind and content", runC05)
}

var reqFields = []string{"ind", "nym", "FOCommd", "PCommd", "PCommind", "rind", "arg_nonneg", "arg_equal"}

// proofFields are what the verifier of the number looks at.
var proofFields = []string{"ind", "FOCommd", "PCommd", "PCommind", "rind", "arg_nonneg", "arg_equal"}

func sameField(k string, a, b interface{}) bool {
	x, ok1 := a.([]byte)
	y, ok2 := b.([]byte)
	if ok1 != ok2 {
		return false
	}
	if !ok1 {
		return a == b
	}
	if bytes.Equal(x, y) {
		return true
	}
	// the same content in another encoding is not a change
	same := false
	try(func() {
		switch k {
		case "arg_nonneg":
			p, q := nnParts(util.DecodeARGnonneg(x)), nnParts(util.DecodeARGnonneg(y))
			same = true
			for i := range p {
				same = same && (*p[i]).Cmp(*q[i]) == 0
			}
		case "arg_equal":
			p, q := util.DecodeARGequal(x), util.DecodeARGequal(y)
			same = p.C.Cmp(q.C) == 0 && p.S1.Cmp(q.S1) == 0 && p.S3.Cmp(q.S3) == 0 &&
				new(big.Int).Mod(p.S2, grpQ).Cmp(new(big.Int).Mod(q.S2, grpQ)) == 0
		case "rind":
			same = new(big.Int).Mod(bi(x), grpQ).Cmp(new(big.Int).Mod(bi(y), grpQ)) == 0
		default:
			same = bi(x).Cmp(bi(y)) == 0
		}
	})
	return same
}

func runC05(c *Check) {
	dishonestRequests(c)
	c.RunWorlds(1, c.Scale(7, 40), 12, func(i int, r *Rng, ctrl bool) WorldCfg {
		play := defaultPlay
		play.Posts = 3
		play.Up = []float64{0.8, 0.4}[i%2]
		play.MaxInd = i%3 == 0
		cfg := WorldCfg{Servers: 1 + i%3, Models: 3 + r.IntN(2), Late: 0, Rounds: c.Scale(3, 6), Play: play}
		cfg.Round = func(s *Sim) {
			if s.round > 0 {
				s.attackAuth(ctrl)
			}
		}
		return cfg
	})
}

// dishonestRequests offers forged, mixed and altered requests to the function that coordinator and servers verify with.
func dishonestRequests(c *Check) {
	for i := 0; i < 3; i++ {
		getFO(i)
	}
	c.Parallel("claim of more", c.Scale(240, 4000), 8, func(i int, r *Rng) {
		kind := overClaims[i%len(overClaims)]
		x := []int{0, 1, 2, 5, 5, 9, 30, 100}[(i/len(overClaims))%8]
		q := newReqCase(r, i%3, x)
		if i%20 == 0 {
			// an honest claim by the harness' own provers, to know that they follow the program
			f := algOf(q.base)
			f.R = new(big.Int).Lsh(one, 590)
			ps, parts := q.make(r.IntN(x + 1))
			d := big.NewInt(int64(parts.d))
			fcv := bi(parts.FOCommd.ToBinary())
			ps["arg_equal"] = util.EncodeARGequal(proveEq(pv(q.ped.GT), pv(q.ped.HT), f, parts.PCommd, parts.rd, fcv, d, parts.rFO, r))
			ps["arg_nonneg"] = util.EncodeARGnonneg(proveNN(f, d, parts.rFO, fcv, r))
			if q.verify(ps) {
				c.Count("the harness' own honest proofs accepted", 1)
			}
		}
		ps := q.overClaim(kind, r)
		c.decide("claim: "+kind, fmt.Sprint(i, " ", ps["ind"], hexs(ps["PCommind"].([]byte))), q.verify(ps), false, "a request beyond the reputation is accepted: "+kind,
			fmt.Sprintf("reputation %d, number %d", x, ps["ind"]))
	})
	c.Parallel("mixed", c.Scale(6, 40), 8, func(i int, r *Rng) {
		// two requests: of one client, of two clients under the same bases, or of one client in two rounds
		x := 3 + r.IntN(6)
		q1 := newReqCase(r, i%3, x)
		how := []string{"of one client", "of two clients", "of two rounds", "for the same number"}[i%4]
		a, b := r.IntN(x), 0
		b = a + 1 + r.IntN(x-a)
		q2 := *q1
		switch how {
		case "of two clients":
			o := newReqCase(r, i%3, x+r.IntN(5))
			q2.sk, q2.r, q2.x = o.sk, o.r, o.x
			q2.comm = commitVal(pv(q2.ped.GT), pv(q2.ped.HT), big.NewInt(int64(q2.x)), q2.r)
			q2.nym = pad64(gexp(pv(q2.g), sv(q2.sk)))
		case "of two rounds":
			o := newReqCase(r, i%3, x)
			q2 = *o
			q2.sk = q1.sk
			q2.nym = pad64(gexp(pv(q2.g), sv(q2.sk)))
		case "for the same number":
			b = a
		}
		p1, _ := q1.make(a)
		p2, _ := q2.make(b)
		for m := 0; m < 1<<len(proofFields); m++ {
			ps := clone(p1)
			all1, all2 := true, true
			var from []string
			for k, f := range proofFields {
				if m>>k&1 == 1 {
					ps[f] = p2[f]
					from = append(from, f)
				}
				all1 = all1 && sameField(f, ps[f], p1[f])
				all2 = all2 && sameField(f, ps[f], p2[f])
			}
			// against the first client's commitment
			want := all1 || all2 && (how == "of one client" || how == "for the same number")
			c.decide("mixed fields "+how, fmt.Sprint(i, m), q1.verify(ps), want, "a request mixed from two is accepted or a whole one refused", how+": "+strings.Join(from, ","))
		}
	})
	c.Parallel("altered", c.Scale(24, 300), 8, func(i int, r *Rng) {
		x := []int{5, 0, 7, 12}[i%4]
		q := newReqCase(r, i%3, x)
		ind := r.IntN(x + 1)
		ps, _ := q.make(ind)
		try1 := func(kind, field string, v interface{}) {
			if v != nil && sameField(field, v, ps[field]) {
				return
			}
			o := clone(ps)
			if v == nil {
				delete(o, field)
			} else {
				o[field] = v
			}
			c.decide("altered: "+kind, fmt.Sprint(i, field, kind, v), q.verify(o), false, "an altered request is accepted: "+field+", "+kind, fmt.Sprintf("reputation %d, number %d", x, ind))
		}
		for _, n := range []int{1, 2, -1, 256, 65536, 1 << 31, 1 << 32, -(1 << 32), 1 << 62, -2*ind - 1} {
			try1("number", "ind", ind+n)
		}
		for _, f := range proofFields {
			try1("missing", f, nil)
			try1("mistyped", f, "text")
			b, ok := ps[f].([]byte)
			if !ok {
				try1("mistyped", f, []byte{byte(ind)})
				continue
			}
			try1("empty", f, []byte{})
			for k := 0; k < 10; k++ {
				try1("one bit", f, flip(b, r.IntN(len(b)*8)))
			}
			try1("one byte less", f, b[:len(b)-1])
			try1("shifted", f, append([]byte{1}, b...))
			try1("zeros", f, make([]byte, len(b)))
			for _, g := range proofFields {
				if o, ok := ps[g].([]byte); ok && g != f {
					try1("taken from "+g, f, o)
				}
			}
		}
		for _, f := range []string{"PCommind", "PCommd"} {
			v := bi(ps[f].([]byte))
			try1("inverse", f, pad64(ginv(v)))
			try1("times a base", f, pad64(gmul(v, pv(q.ped.GT))))
			try1("times the other base", f, pad64(gmul(v, pv(q.ped.HT))))
			try1("one", f, pad64(one))
		}
		// commitment of another pseudonym
		for k, o := range []*big.Int{gmul(q.comm, pv(q.ped.GT)), gmul(q.comm, pv(q.ped.HT)), ginv(q.comm), one, gmul(q.comm, ginv(pv(q.ped.GT)))} {
			q2 := *q
			q2.comm = o
			c.decide("other commitment", fmt.Sprint(i, k), q2.verify(ps), false, "a request is accepted under another commitment", fmt.Sprintf("reputation %d, number %d, commitment %d", x, ind, k))
		}
		q2 := *q
		q2.base = getFO((q.fo + 1) % 3)
		c.decide("other base", fmt.Sprint(i), q2.verify(ps), false, "a request is accepted under another base", "")
	})
}

// reqOf puts a model client into the place of a requester.
func (s *Sim) reqOf(c *Cl) *reqCase {
	return &reqCase{ped: c.m.Ped(), base: c.m.fo, x: c.m.x, r: c.m.r, comm: c.m.comm(), sk: c.m.sk, g: c.m.G(), nym: pad64(c.m.nym)}
}

// assignedFor counts the groups of assignments that the coordinator has made.
func (s *Sim) assignedFor() int {
	n := 0
	for _, m := range s.w.Find(s.rr.start, proto.SIGN_ASSIGNMENTS, "C", "") {
		if len(s.servers) > 0 && m.To == s.servers[0].name {
			n++
		}
	}
	return n
}

// attackAuth makes every kind of unauthorised post, request and signing request in the current round.
func (s *Sim) attackAuth(ctrl bool) {
	mem := s.models()
	var able []*Cl
	for _, c := range mem {
		if c.m.x >= 0 {
			able = append(able, c)
		}
	}
	if len(able) < 2 {
		return
	}
	r := s.rng
	A := able[r.IntN(len(able))]
	B := able[0]
	for B == A {
		B = able[r.IntN(len(able))]
	}
	s.w.Settle()
	if !ctrl {
		s.attackPostAuth(A, B)
	}
	// bridges to be had
	for _, p := range []*Cl{A, B} {
		for k := 0; k < 4; k++ {
			p.m.Post(s.addr())
		}
	}
	s.w.Settle()
	if ctrl {
		return
	}
	s.attackReqAuth(A, B)
	s.attackSignAuth(A, B)
	// what is left is still to be had by an honest request
	if A.m.x > 0 {
		n0 := s.assignedFor()
		A.m.Request(1)
		s.w.Settle()
		if s.assignedFor() > n0 {
			s.c.Count("honest request served after the attacks", 1)
		}
	}
}

func (s *Sim) signPost(ps map[string]interface{}, c *Cl) {
	ps["signature"] = util.ElGamalSign(suite, random.Stream, bridge.MessageOfPostBridge(ps), c.m.sk, c.m.G())
}

// otherNyms are pseudonyms that A must not act under, with what is known of them.
func (s *Sim) otherNyms(A, B *Cl) map[string][]byte {
	r := s.rng
	nyms := map[string][]byte{
		"another client's pseudonym": pad64(B.m.nym),
		"the identity":               pad64(one),
		"nothing":                    {},
		"a random element":           pad64(elem(r)),
		"no element":                 pad64(new(big.Int).Sub(grpP, A.m.nym)),
		"the generator":              pad64(s.tab.G),
		"the long-term key":          pad64(A.pk),
		"one's own with a byte more": append(pad64(A.m.nym), 0),
		"one's own with zeros":       append([]byte{0, 0}, pad64(A.m.nym)...),
		"one's own plus the modulus": new(big.Int).Add(A.m.nym, grpP).Bytes(),
		"the inverse of one's own":   pad64(ginv(A.m.nym)),
	}
	for _, k := range s.tab.Keys {
		known := false
		for _, c := range s.cls {
			known = known || c.nym != nil && c.nym.Cmp(k) == 0
		}
		if !known {
			nyms["a fake client's pseudonym"] = pad64(k)
			break
		}
	}
	if len(s.tabs) > 1 {
		old := s.tabs[len(s.tabs)-2]
		nyms["one's own of the last round"] = pad64(gexp(old.G, sv(A.m.sk)))
	}
	return nyms
}

func sorted[T any](m map[string]T) (res []string) {
	for k := range m {
		res = append(res, k)
	}
	// insertion keeps it simple
	for i := range res {
		for j := i; j > 0 && res[j] < res[j-1]; j-- {
			res[j], res[j-1] = res[j-1], res[j]
		}
	}
	return
}

func (s *Sim) attackPostAuth(A, B *Cl) {
	if A.m.x <= 0 {
		return
	}
	r := s.rng
	bads := map[string]map[string]interface{}{}
	mk := func(kind string, f func(ps map[string]interface{})) {
		ps := map[string]interface{}{"bridge_addr": s.addr(), "nym": pad64(A.m.nym)}
		f(ps)
		bads[kind] = ps
	}
	for kind, nym := range s.otherNyms(A, B) {
		nym := nym
		mk("post under "+kind, func(ps map[string]interface{}) { ps["nym"] = nym; s.signPost(ps, A) })
	}
	self := randSec()
	mk("post under a pseudonym made for it", func(ps map[string]interface{}) {
		ps["nym"] = pad64(gexp(s.tab.G, sv(self)))
		ps["signature"] = util.ElGamalSign(suite, random.Stream, bridge.MessageOfPostBridge(ps), self, A.m.G())
	})
	mk("post under the identity, signed for it", func(ps map[string]interface{}) {
		ps["nym"] = pad64(one)
		ps["signature"] = util.ElGamalSign(suite, random.Stream, bridge.MessageOfPostBridge(ps), suite.Secret().Zero(), A.m.G())
	})
	mk("post signed over the base point", func(ps map[string]interface{}) {
		ps["signature"] = util.ElGamalSign(suite, random.Stream, bridge.MessageOfPostBridge(ps), A.m.sk, nil)
	})
	mk("post under the long-term key, signed with it", func(ps map[string]interface{}) {
		ps["nym"] = pad64(A.pk)
		ps["signature"] = util.ElGamalSign(suite, random.Stream, bridge.MessageOfPostBridge(ps), A.m.sk, nil)
	})
	mk("post signed by another client", func(ps map[string]interface{}) { s.signPost(ps, B) })
	mk("post with the signature of another post", func(ps map[string]interface{}) {
		o := clone(ps)
		o["bridge_addr"] = s.addr()
		s.signPost(o, A)
		ps["signature"] = o["signature"]
	})
	mk("post with a boundary moved", func(ps map[string]interface{}) {
		s.signPost(ps, A)
		ps["bridge_addr"] = ps["bridge_addr"].(string) + string(ps["nym"].([]byte)[:1])
		ps["nym"] = ps["nym"].([]byte)[1:]
	})
	mk("post with the other boundary moved", func(ps map[string]interface{}) {
		s.signPost(ps, A)
		a := ps["bridge_addr"].(string)
		ps["bridge_addr"], ps["nym"] = a[:len(a)-1], append([]byte{a[len(a)-1]}, ps["nym"].([]byte)...)
	})
	for _, k := range []int{1, 63, 64, 127} {
		k := k
		mk(fmt.Sprint("post with a signature altered at ", k), func(ps map[string]interface{}) {
			s.signPost(ps, A)
			ps["signature"] = flip(ps["signature"].([]byte), k*8+r.IntN(8))
		})
	}
	for _, n := range []int{0, 1, 64, 127} {
		n := n
		mk(fmt.Sprint("post with a signature of length ", n), func(ps map[string]interface{}) {
			s.signPost(ps, A)
			ps["signature"] = ps["signature"].([]byte)[:n]
		})
	}
	mk("post with a zero signature", func(ps map[string]interface{}) { ps["signature"] = make([]byte, 128) })
	mk("post without a signature", func(ps map[string]interface{}) {})
	mk("post with an altered address", func(ps map[string]interface{}) {
		s.signPost(ps, A)
		ps["bridge_addr"] = ps["bridge_addr"].(string) + "0"
	})
	if len(s.tabs) > 1 {
		old := s.tabs[len(s.tabs)-2]
		mk("post as in the last round", func(ps map[string]interface{}) {
			ps["nym"] = pad64(gexp(old.G, sv(A.m.sk)))
			ps["signature"] = util.ElGamalSign(suite, random.Stream, bridge.MessageOfPostBridge(ps), A.m.sk, pt(old.G))
		})
		mk("post signed over the last round's generator", func(ps map[string]interface{}) {
			ps["signature"] = util.ElGamalSign(suite, random.Stream, bridge.MessageOfPostBridge(ps), A.m.sk, pt(old.G))
		})
	}
	late := s.AddModel()
	late.m.Register()
	s.w.Settle()
	if late.m.nym != nil && late.m.r != nil {
		mk("post of a client that comes with the next round", func(ps map[string]interface{}) {
			ps["nym"] = pad64(late.m.nym)
			ps["signature"] = util.ElGamalSign(suite, random.Stream, bridge.MessageOfPostBridge(ps), late.m.sk, A.m.G())
		})
	}
	// all of them; then nobody can be given anything
	base := s.assignedFor()
	for _, kind := range sorted(bads) {
		s.bad(kind, A.name, "C", proto.POST_BRIDGE, bads[kind])
	}
	s.w.Settle()
	s.w.SendBad(A.name, "C", ev(proto.REQUEST_BRIDGES, mustReq(A, 1)), "honest request, nothing posted")
	s.w.Settle()
	if s.assignedFor() == base {
		return
	}
	// some post was taken: which
	var addrs []string
	for _, m := range s.w.Find(s.rr.start, proto.SIGN_ASSIGNMENTS, "C", "") {
		try(func() {
			for _, a := range bridge.DecodeAssignmentList(m.B("assignments")) {
				addrs = append(addrs, a.Addr)
			}
		})
	}
	for _, kind := range sorted(bads) {
		for _, a := range addrs {
			if bads[kind]["bridge_addr"] == a {
				s.miss("C05", "an unauthorised post is taken", "%s", kind)
			}
		}
	}
	s.miss("C05", "a bridge is assigned that nobody has properly posted", "%q", addrs)
}

func mustReq(c *Cl, n int) map[string]interface{} {
	ps, _ := c.m.reqParams(n)
	return ps
}

func (s *Sim) attackReqAuth(A, B *Cl) {
	r := s.rng
	q := s.reqOf(A)
	// expect sends a request and sees that nothing is assigned
	expect := func(kind string, ps map[string]interface{}) {
		n0 := s.assignedFor()
		s.bad(kind, A.name, "C", proto.REQUEST_BRIDGES, ps)
		s.w.Settle()
		if s.assignedFor() != n0 {
			s.miss("C05", "bridges are assigned on an unauthorised request", "%s (reputation %d, number %v)", kind, q.x, ps["ind"])
		}
	}
	sign := func(ps map[string]interface{}) map[string]interface{} {
		signRequest(ps, A.m.sk, A.m.G())
		return ps
	}
	for _, kind := range overClaims {
		expect("request: "+kind, sign(q.overClaim(kind, r)))
	}
	// nothing is used up: all of these are copies of one honest request
	low := r.IntN(q.x + 1)
	if q.x > 0 && low == 0 {
		low = 1
	}
	hon, _ := q.make(low)
	if low > 0 {
		for kind, nym := range s.otherNyms(A, B) {
			ps := clone(hon)
			ps["nym"] = nym
			expect("request under "+kind, clone(ps)) // with the signature of one's own
			expect("request signed under "+kind, sign(ps))
		}
		// another client's proof under one's own name and the other way round
		if B.m.x > 0 {
			ob, _ := s.reqOf(B).make(1)
			ps := clone(ob)
			ps["nym"] = hon["nym"]
			expect("request with another client's proof", sign(ps))
			ps = clone(ob)
			expect("request of another client signed by oneself", sign(ps))
			ps = clone(hon)
			ps["nym"] = ob["nym"]
			signRequest(ps, B.m.sk, B.m.G())
			expect("request of another client with one's own proof", ps)
			ps = clone(ob)
			ps["signature"] = hon["signature"]
			expect("request with the signature of another request", ps)
		}
		for _, f := range reqFields {
			vals := map[string]interface{}{}
			if b, ok := hon[f].([]byte); ok {
				vals["one bit"] = flip(b, r.IntN(len(b)*8))
				vals["a leading zero"] = append([]byte{0}, b...)
				vals["a byte more"] = append(append([]byte{}, b...), byte(r.IntN(256)))
				vals["empty"] = []byte{}
				vals["mistyped"] = "text"
			} else {
				vals["one more"] = low + 1
				vals["another number"] = low - 1
				vals["32 more bits"] = low + 1<<32
				vals["mistyped"] = fmt.Sprint(low)
			}
			for _, kind := range sorted(vals) {
				ps := clone(hon)
				ps[f] = vals[kind]
				expect("request with "+f+" altered: "+kind, ps)
			}
			ps := clone(hon)
			delete(ps, f)
			expect("request without "+f, ps)
		}
		for i := 1; i+1 < len(reqFields); i++ {
			// the end of one field moved into the next; the signed bytes are the same
			a, b := hon[reqFields[i]].([]byte), hon[reqFields[i+1]].([]byte)
			ps := clone(hon)
			ps[reqFields[i]], ps[reqFields[i+1]] = a[:len(a)-1], append([]byte{a[len(a)-1]}, b...)
			expect("request with a boundary moved after "+reqFields[i], ps)
			ps = clone(hon)
			ps[reqFields[i]], ps[reqFields[i+1]] = append(append([]byte{}, a...), b[0]), b[1:]
			expect("request with a boundary moved before "+reqFields[i+1], ps)
		}
		sigs := map[string]interface{}{"zero": make([]byte, 128), "empty": []byte{}, "missing": nil,
			"over the base point":      util.ElGamalSign(suite, random.Stream, bridge.MessageOfRequestBridges(hon), A.m.sk, nil),
			"by another client":        util.ElGamalSign(suite, random.Stream, bridge.MessageOfRequestBridges(hon), B.m.sk, A.m.G()),
			"of other bytes":           util.ElGamalSign(suite, random.Stream, hon["nym"].([]byte), A.m.sk, A.m.G()),
			"with a byte more":         append(append([]byte{}, hon["signature"].([]byte)...), 0),
			"altered in the challenge": flip(hon["signature"].([]byte), r.IntN(512)),
			"altered in the response":  flip(hon["signature"].([]byte), 512+r.IntN(512)),
			"too short":                hon["signature"].([]byte)[:127],
		}
		for _, kind := range sorted(sigs) {
			ps := clone(hon)
			ps["signature"] = sigs[kind]
			if sigs[kind] == nil {
				delete(ps, "signature")
			}
			expect("request with a signature "+kind, ps)
		}
	}
	for _, n := range []int{-1, -1 << 31, -1 << 63, -5} {
		ps := clone(hon)
		ps["ind"] = n
		expect("request for a negative number", sign(ps))
	}
	{
		// a true proof of a negative number brings nothing either
		neg := -1 - r.IntN(4)
		ps, _ := q.make(neg)
		expect("request for a negative number, proved", ps)
	}
	// requests of earlier rounds, also made out to the current pseudonym
	olds := 0
	for _, m := range s.w.Find(0, proto.REQUEST_BRIDGES, "", "C") {
		if m.Seq > s.rr.start || m.Bad || olds >= 6 || r.Chance(0.4) {
			continue
		}
		olds++
		expect("request of an earlier round", clone(m.Ev.Params))
		ps := clone(m.Ev.Params)
		ps["nym"] = pad64(A.m.nym)
		expect("request of an earlier round signed anew", sign(ps))
		if c := s.clientOf(m.From); c != nil && c.m != nil && c.m.nym != nil {
			ps = clone(m.Ev.Params)
			ps["nym"] = pad64(c.m.nym)
			signRequest(ps, c.m.sk, c.m.G())
			expect("request of an earlier round signed anew by its maker", ps)
		}
	}
	// a client that is not in the table yet, with a true proof under its first commitment
	for _, c := range s.cls {
		if c.m != nil && c.since < 0 && c.m.r != nil && c.m.nym != nil && c.m.fo != nil {
			ped := A.m.Ped()
			n := &reqCase{ped: ped, base: c.m.fo, x: 5, r: c.m.r, comm: commitVal(pv(ped.GT), pv(ped.HT), big.NewInt(5), c.m.r), sk: c.m.sk, g: A.m.G(), nym: pad64(c.m.nym)}
			ps, _ := n.make(1 + r.IntN(5))
			expect("request of a client that comes with the next round", ps)
		}
	}
	// a pseudonym made for it, with a commitment made for it
	{
		ped := A.m.Ped()
		n := &reqCase{ped: ped, base: A.m.fo, x: 9, r: secVal(r), sk: randSec(), g: A.m.G()}
		n.comm = commitVal(pv(ped.GT), pv(ped.HT), big.NewInt(9), n.r)
		n.nym = pad64(gexp(s.tab.G, sv(n.sk)))
		ps, _ := n.make(3)
		expect("request under a pseudonym made for it", ps)
		n.nym, n.sk = pad64(A.m.nym), A.m.sk
		ps, _ = n.make(3)
		expect("request with a commitment of one's own making", ps)
	}
}

// attackSignAuth asks servers to sign assignments that no request covers, as a coordinator that is not trusted would.
func (s *Sim) attackSignAuth(A, B *Cl) {
	r := s.rng
	q := s.reqOf(A)
	srv := s.servers[r.IntN(len(s.servers))]
	// what the server answers is kept from the coordinator
	var replies []*Msg
	old := s.icept
	s.icept = func(m *Msg) []*Msg {
		if m.From == srv.name && m.To == "C" && m.Type() == proto.GOT_SIGNS {
			replies = append(replies, m)
			return nil
		}
		return []*Msg{m}
	}
	defer func() { s.icept = old }()
	asg := func(n int, nymR, nym *big.Int) []byte {
		l := []bridge.Assignment{}
		for i := 0; i < n; i++ {
			l = append(l, bridge.Assignment{NymR: pt(nymR), Addr: s.addr(), Nym: pt(nym)})
		}
		return bridge.EncodeAssignmentList(l)
	}
	signed := func(ps map[string]interface{}) int {
		n0 := len(replies)
		s.w.Queue(&Msg{From: "C", To: srv.name, Ev: ev(proto.SIGN_ASSIGNMENTS, ps), Bad: true, Tag: "spoofed"})
		s.w.Settle()
		n := 0
		for _, m := range replies[n0:] {
			n += len(pairs(m))
		}
		return n
	}
	refuse := func(kind string, ps map[string]interface{}) {
		s.hostile(kind)
		if n := signed(ps); n > 0 {
			s.miss("C05,C08", "a server signs assignments that no request covers", "%s: %d signatures", kind, n)
		}
	}
	with := func(ps map[string]interface{}, a []byte) map[string]interface{} {
		ps = clone(ps)
		delete(ps, "signature")
		ps["assignments"] = a
		return ps
	}
	// the honest case has to work, or the others mean nothing
	low := r.IntN(q.x + 1)
	hon, _ := q.make(low)
	if low > 0 {
		if n := signed(with(hon, asg(low, A.m.nym, B.m.nym))); n == low {
			s.c.Count("honest signing requests served", 1)
		}
	}
	for _, kind := range overClaims {
		ps := q.overClaim(kind, r)
		n := q.x + 1
		if i := ps["ind"].(int); i < n {
			n = i
		}
		refuse("signing request: "+kind, with(ps, asg(max(n, 1), A.m.nym, B.m.nym)))
	}
	refuse("signing request with one assignment too many", with(hon, asg(low+1, A.m.nym, B.m.nym)))
	refuse("signing request with many assignments too many", with(hon, asg(low+9, A.m.nym, B.m.nym)))
	if low > 0 {
		refuse("signing request for another requester", with(hon, asg(low, B.m.nym, A.m.nym)))
		mixed := bridge.DecodeAssignmentList(asg(low, A.m.nym, B.m.nym))
		mixed[r.IntN(low)].NymR = pt(B.m.nym)
		refuse("signing request with one assignment for another requester", with(hon, bridge.EncodeAssignmentList(mixed)))
		for kind, nym := range s.otherNyms(A, B) {
			ps := with(hon, asg(low, A.m.nym, B.m.nym))
			ps["nym"] = nym
			v := bi(nym)
			if v.Cmp(A.m.nym) == 0 || kind == "one's own plus the modulus" {
				continue
			}
			refuse("signing request under "+kind, ps)
			if isElem(v) {
				ps = with(hon, asg(low, v, B.m.nym))
				ps["nym"] = nym
				refuse("signing request with assignments under "+kind, ps)
			}
		}
		for _, f := range proofFields {
			ps := with(hon, asg(low, A.m.nym, B.m.nym))
			delete(ps, f)
			refuse("signing request without "+f, ps)
			if b, ok := hon[f].([]byte); ok {
				for k := 0; k < 2; k++ {
					v := flip(b, r.IntN(len(b)*8))
					if sameField(f, b, v) {
						continue
					}
					ps = with(hon, asg(low, A.m.nym, B.m.nym))
					ps[f] = v
					refuse("signing request with "+f+" altered", ps)
				}
			}
		}
		if B.m.x > 0 {
			ob, _ := s.reqOf(B).make(1)
			ps := with(ob, asg(1, A.m.nym, B.m.nym))
			refuse("signing request with another client's proof for one's own assignment", ps)
			ps = with(ob, asg(1, A.m.nym, B.m.nym))
			ps["nym"] = hon["nym"]
			refuse("signing request with another client's proof under one's own pseudonym", ps)
		}
		// assignments for a number that is one lower than the proof says, with the number lowered too
		ps := with(hon, asg(low, A.m.nym, B.m.nym))
		ps["ind"] = low - 1
		refuse("signing request with the number lowered", ps)
	}
	for _, n := range []int{-1, -1 << 40} {
		ps, _ := q.make(-1)
		ps = with(ps, asg(1, A.m.nym, B.m.nym))
		ps["ind"] = n
		refuse("signing request for a negative number", ps)
	}
	// those of earlier rounds
	n := 0
	for _, m := range s.w.Find(0, proto.SIGN_ASSIGNMENTS, "C", srv.name) {
		if m.Seq > s.rr.start || m.Bad || n >= 4 || r.Chance(0.4) {
			continue
		}
		n++
		refuse("signing request of an earlier round", clone(m.Ev.Params))
		ps := clone(m.Ev.Params)
		ps["nym"] = pad64(A.m.nym)
		ps["assignments"] = asg(1, A.m.nym, B.m.nym)
		refuse("signing request of an earlier round under a new pseudonym", ps)
	}
	// the coordinator still gets what it needs
	s.w.Settle()
}
