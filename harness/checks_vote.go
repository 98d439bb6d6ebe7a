package main

import (
	"bytes"
	"fmt"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/random"
)

func init() {
	register("C07", "one evaluation is one round of one world, or one hostile vote in it: the announced changes and the openings of the next table are compared with the honest votes that were delivered; distinct by the message sequence, or by the kind of the vote", runC07)
}

// voteAtk makes hostile votes. Within a round all of them have the same sign, so that their effects cannot cancel.
type voteAtk struct {
	s     *Sim
	dir   int
	old   []oldCert
	icept bool
	seen  int
	kept  map[string][][]byte // assignment -> further valid signatures by servers (one list per server in chain order)
}

type oldCert struct {
	c    *Cl
	cert Cert
	nym  []byte
	g    abstract.Point
	vote map[string]interface{}
}

func runC07(c *Check) {
	c.RunWorlds(1, c.Scale(9, 48), 12, func(i int, r *Rng, ctrl bool) WorldCfg {
		play := defaultPlay
		play.Posts = 3
		play.VoteP = 0.55
		cfg := WorldCfg{Servers: 1 + i%3, Models: 3 + r.IntN(2), Reals: i % 2, Late: 0, Rounds: c.Scale(3, 6), Play: play}
		if i%4 == 3 {
			cfg.Models, cfg.Play.OneProvider, cfg.Play.MaxInd = 4, 12, true
		}
		cfg.Setup = func(s *Sim) {
			a := &voteAtk{s: s, dir: 1 - 2*(i%2)}
			s.icept = a.intercept
			s.attack = func(stage string) {
				if ctrl || s.round == 0 {
					return
				}
				switch stage {
				case "start":
					a.dir = 1 - 2*s.rng.IntN(2)
					a.icept = true
				case "assigned":
					a.forged()
				case "voted":
					a.icept = false
					a.again()
					a.forged()
					a.keep()
				}
			}
		}
		return cfg
	})
}

func sigs2D(b []byte) (l [][]byte) {
	try(func() { l = util.Decode2DByteArray(b) })
	return
}

func enc2D(l [][]byte) []byte { return util.Encode2DByteArray(l) }

func (a *voteAtk) send(kind string, from string, ps map[string]interface{}) {
	a.s.bad("vote "+kind, from, "C", proto.VOTE, ps)
}

// make signs a vote with c's key.
func (a *voteAtk) make(c *Cl, nym, assignment, sigs []byte, fb int) map[string]interface{} {
	ps := map[string]interface{}{"nym": nym, "assignment": assignment, "signatures": sigs, "feedback": fb}
	a.sign(ps, c.m.sk, c.m.G())
	return ps
}

func (a *voteAtk) sign(ps map[string]interface{}, sk abstract.Secret, g abstract.Point) {
	ps["signature"] = util.ElGamalSign(suite, random.Stream, bridge.MessageOfVote(ps), sk, g)
}

// intercept accompanies honest votes by altered copies.
func (a *voteAtk) intercept(m *Msg) []*Msg {
	if !a.icept || m.Bad || m.To != "C" || m.Type() != proto.VOTE || m.Ev == nil {
		return []*Msg{m}
	}
	s := a.s
	var res []*Msg
	alt := func(kind string, f func(ps map[string]interface{})) {
		ps := clone(m.Ev.Params)
		pan, _ := try(func() { f(ps) })
		if pan {
			return
		}
		s.hostile("vote intercepted: " + kind)
		res = append(res, &Msg{From: m.From, To: "C", Ev: ev(proto.VOTE, ps), Bad: true, Tag: "intercepted: " + kind, When: m.When})
	}
	fb, _ := m.Ev.Params["feedback"].(int)
	if -fb == a.dir {
		alt("turned", func(ps map[string]interface{}) { ps["feedback"] = -fb })
	}
	for _, k := range []int{1 << 32, 1 << 40, 256} {
		alt("larger value", func(ps map[string]interface{}) { ps["feedback"] = fb + k*a.dir })
	}
	// transplanted to other certificates of the same and of other requesters
	for _, c := range s.cls {
		for _, o := range s.CertsOf(c) {
			if fb != a.dir || bytes.Equal(o.Assignment, m.B("assignment")) {
				continue
			}
			alt("moved to another certificate", func(ps map[string]interface{}) {
				ps["assignment"], ps["signatures"] = o.Assignment, o.Signatures
			})
			alt("moved to another assignment", func(ps map[string]interface{}) { ps["assignment"] = o.Assignment })
			if c.nym != nil {
				alt("moved to another pseudonym", func(ps map[string]interface{}) {
					ps["assignment"], ps["signatures"], ps["nym"] = o.Assignment, o.Signatures, pad64(c.nym)
				})
			}
		}
	}
	if fb == a.dir {
		alt("signature cut", func(ps map[string]interface{}) {
			b := ps["signature"].([]byte)
			ps["signature"] = b[:len(b)-1]
		})
		alt("signature altered", func(ps map[string]interface{}) {
			b := ps["signature"].([]byte)
			ps["signature"] = flip(b, s.rng.IntN(len(b)*8))
		})
		alt("certificate altered", func(ps map[string]interface{}) {
			l := sigs2D(ps["signatures"].([]byte))
			k := s.rng.IntN(len(l))
			l[k] = flip(l[k], s.rng.IntN(len(l[k])*8))
			ps["signatures"] = enc2D(l)
		})
	}
	return append(res, m)
}

// forged makes every kind of vote that must not count, on certificates that have, and that have not been voted on.
func (a *voteAtk) forged() {
	s, r, d := a.s, a.s.rng, a.dir
	mem := s.models()
	type own struct {
		c    *Cl
		cert Cert
	}
	var certs []own
	for _, c := range mem {
		for _, k := range s.CertsOf(c) {
			if k.A != nil {
				certs = append(certs, own{c, k})
			}
		}
	}
	r.Shuffle(len(certs), func(i, j int) { certs[i], certs[j] = certs[j], certs[i] })
	if len(mem) < 2 {
		return
	}
	s.c.Count("certificates under attack", len(certs))
	if len(certs) > 2 {
		certs = certs[:2]
	}
	n := len(s.chain)
	for _, o := range certs {
		A, cert := o.c, o.cert
		B := mem[0]
		for B == A {
			B = mem[r.IntN(len(mem))]
		}
		nymA, nymB := pad64(A.m.nym), pad64(B.m.nym)
		sigs := sigs2D(cert.Signatures)
		if len(sigs) != n+1 {
			continue
		}
		// by others
		a.send("by another member", B.name, a.make(B, nymB, cert.Assignment, cert.Signatures, d))
		a.send("under the requester's pseudonym by another member", B.name, a.make(B, nymA, cert.Assignment, cert.Signatures, d))
		{
			ps := a.make(A, nymA, cert.Assignment, cert.Signatures, d)
			ps["nym"] = nymB
			a.send("of the requester under another pseudonym", A.name, ps)
		}
		nyms := s.otherNyms(A, B)
		for _, kind := range sorted(nyms) {
			nym := nyms[kind]
			if kind == "one's own plus the modulus" || kind == "one's own with zeros" || kind == "one's own with a byte more" {
				continue // the same pseudonym in other bytes: the vote is the requester's
			}
			a.send("under "+kind, A.name, a.make(A, nym, cert.Assignment, cert.Signatures, d))
		}
		{
			sk := randSec()
			g := gexp(s.tab.G, sv(sk))
			ps := map[string]interface{}{"nym": pad64(g), "assignment": cert.Assignment, "signatures": cert.Signatures, "feedback": d}
			a.sign(ps, sk, A.m.G())
			a.send("under a pseudonym made for it", A.name, ps)
			ps = map[string]interface{}{"nym": pad64(one), "assignment": cert.Assignment, "signatures": cert.Signatures, "feedback": d}
			a.sign(ps, suite.Secret().Zero(), A.m.G())
			a.send("under the identity", A.name, ps)
		}
		// other values
		for _, v := range []int{2, 3, 100, 127, 128, 255, 256, 65536, 1 << 31, 1<<31 - 1, 1 << 32, 1<<32 + 1, 1<<32 - 1, 1<<62 + 1} {
			a.send("of another value", A.name, a.make(A, nymA, cert.Assignment, cert.Signatures, v*d))
		}
		a.send("of zero", A.name, a.make(A, nymA, cert.Assignment, cert.Signatures, 0))
		for _, v := range []interface{}{int64(d), float64(d), fmt.Sprint(d), []byte{byte(d)}, uint(1), int32(d), true} {
			ps := a.make(A, nymA, cert.Assignment, cert.Signatures, d)
			ps["feedback"] = v
			a.send("of another type", A.name, ps)
		}
		{
			ps := a.make(A, nymA, cert.Assignment, cert.Signatures, d)
			delete(ps, "feedback")
			a.send("without a value", A.name, ps)
			ps = a.make(A, nymA, cert.Assignment, cert.Signatures, -d)
			ps["feedback"] = d
			a.send("with the value changed", A.name, ps)
		}
		// the signature of the vote
		good := a.make(A, nymA, cert.Assignment, cert.Signatures, d)
		gs := good["signature"].([]byte)
		msg := bridge.MessageOfVote(good)
		bads := map[string]interface{}{
			"missing": nil, "empty": []byte{}, "zero": make([]byte, 128), "short": gs[:127], "long": append(append([]byte{}, gs...), 0),
			"altered in the challenge": flip(gs, r.IntN(512)), "altered in the response": flip(gs, 512+r.IntN(512)),
			"over the base point": util.ElGamalSign(suite, random.Stream, msg, A.m.sk, nil),
			"by another member":   util.ElGamalSign(suite, random.Stream, msg, B.m.sk, A.m.G()),
			"by nobody":           util.ElGamalSign(suite, random.Stream, msg, randSec(), A.m.G()),
			"without the value":   util.ElGamalSign(suite, random.Stream, msg[:len(msg)-4], A.m.sk, A.m.G()),
			"of the assignment":   util.ElGamalSign(suite, random.Stream, cert.Assignment, A.m.sk, A.m.G()),
			"of the post":         util.ElGamalSign(suite, random.Stream, append([]byte(cert.A.Addr), nymA...), A.m.sk, A.m.G()),
			"by the coordinator":  sigs[n],
			"by a server":         sigs[0],
		}
		for _, kind := range sorted(bads) {
			v := bads[kind]
			ps := clone(good)
			ps["signature"] = v
			if v == nil {
				delete(ps, "signature")
			}
			a.send("with a signature "+kind, A.name, ps)
		}
		for _, f := range []string{"nym", "assignment", "signatures"} {
			ps := clone(good)
			delete(ps, f)
			a.send("without "+f, A.name, ps)
			ps = clone(good)
			ps[f] = "text"
			a.send("with "+f+" mistyped", A.name, ps)
			ps = clone(good)
			ps[f] = []byte{}
			a.send("with "+f+" empty", A.name, ps)
			ps = clone(good)
			ps[f] = flip(good[f].([]byte), r.IntN(len(good[f].([]byte))*8))
			a.send("with "+f+" altered", A.name, ps)
		}
		{
			as, sg := cert.Assignment, cert.Signatures
			for k := 1; k < 3; k++ {
				ps := clone(good)
				ps["assignment"], ps["signatures"] = as[:len(as)-k], append(append([]byte{}, as[len(as)-k:]...), sg...)
				a.send("with a boundary moved", A.name, ps)
				ps = clone(good)
				ps["assignment"], ps["signatures"] = append(append([]byte{}, as...), sg[:k]...), sg[k:]
				a.send("with a boundary moved", A.name, ps)
				ps = clone(good)
				ps["nym"], ps["assignment"] = nymA[:64-k], append(append([]byte{}, nymA[64-k:]...), as...)
				a.send("with a boundary moved", A.name, ps)
			}
		}
		// signatures on the assignment
		list := func(kind string, f func(l [][]byte) [][]byte) {
			l := [][]byte{}
			for _, b := range sigs {
				l = append(l, append([]byte{}, b...))
			}
			a.send("with "+kind, A.name, a.make(A, nymA, cert.Assignment, enc2D(f(l)), d))
		}
		mine := util.ElGamalSign(suite, random.Stream, cert.Assignment, A.m.sk, nil)
		var other *own
		for k := range certs {
			if !bytes.Equal(certs[k].cert.Assignment, cert.Assignment) {
				other = &certs[k]
			}
		}
		for k := 0; k <= n; k++ {
			k := k
			who := "a server's"
			if k == n {
				who = "the coordinator's"
			}
			list("no signature at "+who+" place", func(l [][]byte) [][]byte { return append(l[:k], l[k+1:]...) })
			list("an empty signature at "+who+" place", func(l [][]byte) [][]byte { l[k] = []byte{}; return l })
			list("zeros at "+who+" place", func(l [][]byte) [][]byte { l[k] = make([]byte, 128); return l })
			list("an altered signature at "+who+" place", func(l [][]byte) [][]byte { l[k] = flip(l[k], r.IntN(1024)); return l })
			list("a cut signature at "+who+" place", func(l [][]byte) [][]byte { l[k] = l[k][:127]; return l })
			list("one's own signature at "+who+" place", func(l [][]byte) [][]byte { l[k] = mine; return l })
			list("another party's signature at "+who+" place", func(l [][]byte) [][]byte { l[k] = l[(k+1)%(n+1)]; return l })
			if other != nil {
				list("a signature on another assignment at "+who+" place", func(l [][]byte) [][]byte {
					l[k] = sigs2D(other.cert.Signatures)[k]
					return l
				})
			}
		}
		list("no signatures", func(l [][]byte) [][]byte { return nil })
		list("the coordinator's signature only", func(l [][]byte) [][]byte { return l[n:] })
		list("one signature too many", func(l [][]byte) [][]byte { return append(l, l[n]) })
		list("its own signatures only", func(l [][]byte) [][]byte {
			for k := range l {
				l[k] = mine
			}
			return l
		})
		list("the signatures rotated", func(l [][]byte) [][]byte { return append(l[1:], l[0]) })
		// other assignments
		asg := func(kind string, f func(x *bridge.Assignment)) []byte {
			x := *cert.A
			f(&x)
			b := bridge.EncodeAssignment(&x)
			if bytes.Equal(b, cert.Assignment) {
				return nil
			}
			a.send("on "+kind, A.name, a.make(A, nymA, b, cert.Signatures, d))
			m := util.ElGamalSign(suite, random.Stream, b, A.m.sk, nil)
			l := [][]byte{}
			for range sigs {
				l = append(l, m)
			}
			a.send("on "+kind+", signed by the voter", A.name, a.make(A, nymA, b, enc2D(l), d))
			return b
		}
		asg("another address", func(x *bridge.Assignment) { x.Addr += "0" })
		asg("another address", func(x *bridge.Assignment) { x.Addr = s.addr() })
		asg("another provider", func(x *bridge.Assignment) { x.Nym = pt(B.m.nym) })
		asg("oneself as provider", func(x *bridge.Assignment) { x.Nym = pt(A.m.nym) })
		if b := asg("another requester", func(x *bridge.Assignment) { x.NymR = pt(B.m.nym) }); b != nil {
			a.send("by another member on the assignment changed for it", B.name, a.make(B, nymB, b, cert.Signatures, d))
		}
		a.send("with the assignment extended", A.name, a.make(A, nymA, append(append([]byte{}, cert.Assignment...), 0), cert.Signatures, d))
		if other != nil {
			a.send("with signatures of another certificate", A.name, a.make(A, nymA, cert.Assignment, other.cert.Signatures, d))
			a.send("on another assignment", A.name, a.make(A, nymA, other.cert.Assignment, cert.Signatures, d))
			if other.c != A {
				a.send("with the certificate of another requester", A.name, a.make(A, nymA, other.cert.Assignment, other.cert.Signatures, d))
			}
		}
	}
	// those of earlier rounds
	olds := append([]oldCert{}, a.old...)
	r.Shuffle(len(olds), func(i, j int) { olds[i], olds[j] = olds[j], olds[i] })
	if len(olds) > 5 {
		olds = olds[:5]
	}
	for _, o := range olds {
		if o.vote != nil {
			a.send("of an earlier round", o.c.name, clone(o.vote))
		}
		a.send("on an earlier certificate", o.c.name, a.make(o.c, pad64(o.c.m.nym), o.cert.Assignment, o.cert.Signatures, d))
		ps := a.make(o.c, o.nym, o.cert.Assignment, o.cert.Signatures, d)
		a.send("on an earlier certificate under the old pseudonym", o.c.name, ps)
		ps = clone(ps)
		a.sign(ps, o.c.m.sk, o.g)
		a.send("on an earlier certificate as in its round", o.c.name, ps)
		// the old certificate made out to the present pseudonyms
		x := *o.cert.A
		x.NymR = o.c.m.G().Mul(o.c.m.G(), o.c.m.sk)
		a.send("on an earlier certificate with the requester renewed", o.c.name, a.make(o.c, pad64(o.c.m.nym), bridge.EncodeAssignment(&x), o.cert.Signatures, d))
		if p := mem[r.IntN(len(mem))]; p.m.nym != nil {
			x.Nym = pt(p.m.nym)
			a.send("on an earlier certificate with both pseudonyms renewed", o.c.name, a.make(o.c, pad64(o.c.m.nym), bridge.EncodeAssignment(&x), o.cert.Signatures, d))
		}
	}
	s.w.Settle()
}

// again repeats and contradicts the votes that have been counted.
func (a *voteAtk) again() {
	s, r, d := a.s, a.s.rng, a.dir
	s.w.Settle()
	var votes []*Msg
	for _, m := range s.w.Find(s.rr.start, proto.VOTE, "", "C") {
		if !m.Bad && m.DSeq > 0 {
			votes = append(votes, m)
		}
	}
	for _, m := range votes {
		if fb, _ := m.Ev.Params["feedback"].(int); fb == d {
			a.send("replayed", m.From, clone(m.Ev.Params))
			a.send("replayed from elsewhere", s.cls[r.IntN(len(s.cls))].name, clone(m.Ev.Params))
			if len(s.servers) > 0 {
				a.send("replayed by a server", s.servers[0].name, clone(m.Ev.Params))
			}
		}
		c := s.clientOf(m.From)
		if c == nil || c.m == nil {
			continue
		}
		as, sg := m.B("assignment"), m.B("signatures")
		nym := pad64(c.m.nym)
		a.send("again, signed again", c.name, a.make(c, nym, as, sg, d))
		// the same certificate in other bytes
		a.send("again, the signatures encoded differently", c.name, a.make(c, nym, as, append(append([]byte{}, sg...), byte(r.IntN(256))), d))
		a.send("again, the signatures encoded differently", c.name, a.make(c, nym, as, append(append([]byte{}, sg...), sg...), d))
		a.send("again, the pseudonym encoded differently", c.name, a.make(c, append([]byte{0}, nym...), as, sg, d))
		a.send("again, the pseudonym encoded differently", c.name, a.make(c, append(append([]byte{}, nym...), 0), as, sg, d))
		// the same assignment with fresh valid signatures of a server
		if l := a.fresh(c, as); l != nil {
			old := sigs2D(sg)
			for k := range l {
				if k < len(old) && l[k] != nil {
					old[k] = l[k]
				}
			}
			a.send("again, with fresh server signatures", c.name, a.make(c, nym, as, enc2D(old), d))
			s.c.Count("certificates with fresh server signatures", 1)
		}
	}
	s.w.Settle()
}

// fresh lets the servers sign an assignment once more.
func (a *voteAtk) fresh(c *Cl, as []byte) [][]byte {
	s := a.s
	var req *Msg
	for _, m := range s.w.Find(s.rr.start, proto.SIGN_ASSIGNMENTS, "C", "") {
		if m.Bad {
			continue
		}
		for _, b := range sigs2D(m.B("assignments")) {
			if bytes.Equal(b, as) {
				req = m
			}
		}
	}
	if req == nil || s.rng.Chance(0.5) {
		return nil
	}
	res := make([][]byte, len(s.chain))
	old := s.icept
	s.icept = func(m *Msg) []*Msg {
		if m.To == "C" && m.Type() == proto.GOT_SIGNS {
			for k, n := range s.chain {
				for _, p := range pairs(m) {
					if n.name == m.From && p[0] == string(as) {
						res[k] = []byte(p[1])
					}
				}
			}
			return nil
		}
		return []*Msg{m}
	}
	for _, n := range s.chain {
		s.w.Queue(&Msg{From: "C", To: n.name, Ev: ev(proto.SIGN_ASSIGNMENTS, clone(req.Ev.Params)), Bad: true, Tag: "spoofed"})
	}
	s.w.Settle()
	s.icept = old
	return res
}

// keep remembers the certificates of this round for the later ones.
func (a *voteAtk) keep() {
	s := a.s
	for _, c := range s.models() {
		for _, k := range s.CertsOf(c) {
			if k.A == nil || len(a.old) > 40 {
				continue
			}
			o := oldCert{c: c, cert: k, nym: pad64(c.m.nym), g: c.m.G()}
			for _, m := range s.w.Find(s.rr.start, proto.VOTE, c.name, "C") {
				if !m.Bad && bytes.Equal(m.B("assignment"), k.Assignment) {
					o.vote = m.Ev.Params
				}
			}
			a.old = append(a.old, o)
		}
	}
}
