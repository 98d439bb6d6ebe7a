package main

import (
	"bytes"
	"fmt"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/random"
)

func init() {
	register("C08", "one evaluation is one round of one world, or one hostile server answer, certificate or signing request in it: every certificate is compared with the signatures that the servers really made for it; distinct by the message sequence, or by the kind of the message", runC08)
}

// certAtk attacks the way from the servers' signatures to the requester.
type certAtk struct {
	s       *Sim
	on      bool
	turn    int
	mode    map[string]int // group -> what happens to the victim's answer: 0 nothing, 1 late, 2 never
	victim  map[string]string
	late    []*Msg
	old     []*Msg          // answers of earlier rounds
	oldAddr map[string]bool // bridges of earlier rounds
	more    map[string]bool // groups that a server signs twice
	addrs   map[string]string
	certs   map[string][]*Msg // what real clients have been sent this round
}

func runC08(c *Check) {
	c.RunWorlds(1, c.Scale(9, 48), 12, func(i int, r *Rng, ctrl bool) WorldCfg {
		play := defaultPlay
		play.Posts = 4
		play.VoteP = 0.7
		play.Settle = 0.2
		cfg := WorldCfg{Servers: 1 + i%3, Models: 2 + r.IntN(2), Reals: 1 + i%2, Rounds: c.Scale(3, 6), Play: play}
		cfg.Setup = func(s *Sim) {
			a := &certAtk{s: s, mode: map[string]int{}, victim: map[string]string{}, oldAddr: map[string]bool{}, more: map[string]bool{}, certs: map[string][]*Msg{}}
			if !ctrl {
				s.icept = a.intercept
			}
			s.attack = func(stage string) {
				if ctrl || s.round == 0 {
					return
				}
				a.stage(stage)
			}
		}
		cfg.Round = func(s *Sim) {
			if !ctrl && i%3 == 2 && s.round == 2 {
				if mem := s.models(); len(mem) > 1 && mem[0].m.x >= 0 && mem[1].m.x >= 0 {
					s.attackSignAuth(mem[0], mem[1])
				}
			}
		}
		return cfg
	})
}

func (a *certAtk) stage(stage string) {
	s, r := a.s, a.s.rng
	switch stage {
	case "start":
		a.on = true
		s.attacked = false
		a.certs = map[string][]*Msg{}
		// bridges of earlier rounds are posted again, perhaps by someone else
		mem := s.models()
		n := 0
		for _, addr := range sorted(a.oldAddr) {
			if n++; n <= 3 && len(mem) > 0 {
				mem[r.IntN(len(mem))].m.Post(addr)
			}
		}
		s.w.Settle()
	case "assigned", "voted":
		s.w.Settle()
		a.invented()
		l := a.late
		a.late = nil
		for _, m := range l {
			if stage == "assigned" && r.Chance(0.4) {
				a.late = append(a.late, m)
				continue
			}
			s.c.Count("answers delivered late", 1)
			s.w.Queue(&Msg{From: m.From, To: "C", Ev: m.Ev, Note: "released"})
		}
		s.w.Settle()
		if stage == "voted" {
			a.replays()
			a.on = false
		}
	}
}

// altered returns false answers in place of m, the answer of a server to a group of assignments.
func (a *certAtk) altered(m *Msg) (res []*Msg) {
	s, r := a.s, a.s.rng
	prs := pairs(m)
	raw := sigs2D(m.B("assignments"))
	sigs := sigs2D(m.B("signatures"))
	add := func(kind string, from string, raw, sigs [][]byte) {
		ps := map[string]interface{}{"success": true, "assignments": enc2D(raw), "signatures": enc2D(sigs)}
		s.hostile("answer " + kind)
		res = append(res, &Msg{From: from, To: "C", Ev: ev(proto.GOT_SIGNS, ps), Bad: true, Tag: "answer " + kind, When: m.When})
	}
	cp := func() [][]byte {
		l := [][]byte{}
		for _, b := range sigs {
			l = append(l, append([]byte{}, b...))
		}
		return l
	}
	each := func(f func(i int) []byte) [][]byte {
		l := [][]byte{}
		for i := range sigs {
			l = append(l, f(i))
		}
		return l
	}
	k := r.IntN(len(prs))
	sk := randSec()
	others := []string{}
	for _, n := range s.servers {
		if n.name != m.From {
			others = append(others, n.name)
		}
	}
	kinds := []func(){
		func() {
			add("with an altered signature", m.From, raw, each(func(i int) []byte { return flip(sigs[i], r.IntN(1024)) }))
		},
		func() {
			l := cp()
			l[k] = flip(l[k], r.IntN(512))
			add("with one altered signature", m.From, raw[k:k+1], l[k:k+1])
		},
		func() { add("with zeros", m.From, raw, each(func(int) []byte { return make([]byte, 128) })) },
		func() { add("with empty signatures", m.From, raw, each(func(int) []byte { return []byte{} })) },
		func() { add("with cut signatures", m.From, raw, each(func(i int) []byte { return sigs[i][:127] })) },
		func() {
			add("with longer signatures", m.From, raw, each(func(i int) []byte { return append(append([]byte{}, sigs[i]...), 0) }))
		},
		func() {
			add("signed with an unknown key", m.From, raw, each(func(i int) []byte { return util.ElGamalSign(suite, random.Stream, raw[i], sk, nil) }))
		},
		func() {
			g := pt(elem(r))
			add("signed over another base", m.From, raw, each(func(i int) []byte { return util.ElGamalSign(suite, random.Stream, raw[i], sk, g) }))
		},
		func() {
			if len(sigs) > 1 {
				add("with exchanged signatures", m.From, raw, append(cp()[1:], sigs[0]))
				add("with one signature for all", m.From, raw[1:], each(func(i int) []byte { return sigs[0] })[1:])
			}
		},
		func() {
			for _, o := range others {
				add("from another server", o, raw, sigs)
			}
		},
		func() {
			add("from a client", s.cls[r.IntN(len(s.cls))].name, raw, sigs)
		},
		func() {
			add("twice", m.From, append(append([][]byte{}, raw...), raw...), append(append([][]byte{}, sigs...), sigs...))
		},
		func() {
			add("half", m.From, raw[:1], sigs[:1])
			add("half again", m.From, raw[:1], sigs[:1])
		},
		func() {
			add("with false signatures first", m.From, append([][]byte{raw[k]}, raw...), append([][]byte{flip(sigs[k], 700)}, sigs...))
		},
		func() {
			// altered assignments with the signatures as they are, and signed by nobody in particular
			for _, f := range []func(x *bridge.Assignment){
				func(x *bridge.Assignment) { x.NymR = x.Nym },
				func(x *bridge.Assignment) { x.Nym = pt(s.tab.Keys[r.IntN(len(s.tab.Keys))]) },
				func(x *bridge.Assignment) { x.Addr += "1" },
				func(x *bridge.Assignment) { x.Addr = bridge.DecodeAssignment(raw[(k+1)%len(raw)]).Addr },
			} {
				x := bridge.DecodeAssignment(raw[k])
				f(x)
				b := bridge.EncodeAssignment(x)
				if bytes.Equal(b, raw[k]) {
					continue
				}
				add("for another assignment", m.From, [][]byte{b}, [][]byte{sigs[k]})
				add("for another assignment, signed", m.From, [][]byte{b}, [][]byte{util.ElGamalSign(suite, random.Stream, b, sk, nil)})
			}
		},
		func() {
			add("with an additional false assignment", m.From, append(append([][]byte{}, raw...), raw[k]), append(cp(), make([]byte, 128)))
		},
		func() {
			// the very bytes that the other servers answered
			for _, o := range s.w.Find(s.rr.start, proto.GOT_SIGNS, "", "C") {
				if o.From != m.From && !o.Bad && bytes.Equal(o.B("assignments"), m.B("assignments")) {
					add("of another server", m.From, raw, sigs2D(o.B("signatures")))
				}
			}
		},
		func() {
			// answers of earlier rounds for the same bridge
			for _, o := range a.old {
				if o.From != m.From {
					continue
				}
				for _, p := range pairs(o) {
					if a.addrOf(p[0]) == a.addrOf(string(raw[k])) {
						add("of an earlier round for the same bridge", m.From, [][]byte{[]byte(p[0])}, [][]byte{[]byte(p[1])})
						add("with a signature of an earlier round for the same bridge", m.From, [][]byte{raw[k]}, [][]byte{[]byte(p[1])})
						s.c.Count("answers for a bridge posted again", 1)
					}
				}
			}
		},
	}
	last := len(kinds) - 1
	kinds[last]()
	for i := 0; i < 4; i++ {
		kinds[a.turn%last]()
		a.turn++
	}
	return
}

// addrOf returns the bridge of an encoded assignment.
func (a *certAtk) addrOf(b string) string {
	if a.addrs == nil {
		a.addrs = map[string]string{}
	}
	if _, ok := a.addrs[b]; !ok {
		try(func() { a.addrs[b] = bridge.DecodeAssignment([]byte(b)).Addr })
	}
	return a.addrs[b]
}

func (a *certAtk) intercept(m *Msg) []*Msg {
	s, r := a.s, a.s.rng
	if !a.on || m.Bad || m.Ev == nil || m.Note == "released" || m.Type() != proto.GOT_SIGNS {
		return []*Msg{m}
	}
	if m.From == "C" {
		if c := s.clientOf(m.To); c != nil && c.k != nil {
			res := append(a.falseCerts(m), m)
			a.certs[m.To] = append(a.certs[m.To], m)
			return res
		}
		return []*Msg{m}
	}
	if m.To != "C" || len(pairs(m)) == 0 {
		return []*Msg{m}
	}
	key := string(m.B("assignments"))
	if _, ok := a.mode[key]; !ok {
		a.victim[key] = s.servers[r.IntN(len(s.servers))].name
		a.mode[key] = []int{0, 0, 1, 1, 2}[r.IntN(5)]
		a.more[key] = r.Chance(0.3)
	}
	if a.more[key] && m.From != a.victim[key] {
		// a server that is not the one that is late signs once more
		a.more[key] = false
		for _, o := range s.w.Find(s.rr.start, proto.SIGN_ASSIGNMENTS, "C", m.From) {
			if bytes.Equal(o.B("assignments"), m.B("assignments")) && !o.Bad {
				s.hostile("answer repeated with fresh signatures")
				s.w.Queue(&Msg{From: "C", To: m.From, Ev: ev(proto.SIGN_ASSIGNMENTS, clone(o.Ev.Params)), Bad: true, Tag: "spoofed"})
				break
			}
		}
	}
	res := a.altered(m)
	for _, p := range pairs(m) {
		a.oldAddr[a.addrOf(p[0])] = true
	}
	if m.From == a.victim[key] && a.mode[key] > 0 {
		if a.mode[key] == 1 {
			a.late = append(a.late, m)
		} else {
			s.mu.Lock()
			s.attacked = true
			s.mu.Unlock()
			s.c.Count("answers that never come", 1)
		}
		return res
	}
	res = append(res, m)
	if r.Chance(0.2) {
		res = append(res, a.altered(m)...)
	}
	return res
}

// falseCerts are certificates that a client must not take.
func (a *certAtk) falseCerts(m *Msg) (res []*Msg) {
	s, r := a.s, a.s.rng
	as, sg, sig := m.B("assignment"), m.B("signatures"), m.B("signature")
	sk := randSec()
	add := func(kind string, as, sg, sig []byte) {
		ps := map[string]interface{}{"assignment": as, "signatures": sg, "signature": sig}
		if sig == nil {
			ps["signature"] = util.ElGamalSign(suite, random.Stream, bridge.MessageOfGotSignatures(ps), sk, nil)
		}
		s.hostile("certificate " + kind)
		res = append(res, &Msg{From: "C", To: m.To, Ev: ev(proto.GOT_SIGNS, ps), Bad: true, Tag: "certificate " + kind, When: m.When})
	}
	x := bridge.DecodeAssignment(as)
	x.Addr = "x" + x.Addr
	b := bridge.EncodeAssignment(x)
	x = bridge.DecodeAssignment(as)
	x.Nym = pt(s.tab.Keys[r.IntN(len(s.tab.Keys))])
	b2 := bridge.EncodeAssignment(x)
	l := sigs2D(sg)
	k := r.IntN(len(l))
	l[k] = flip(l[k], r.IntN(1024))
	kinds := []func(){
		func() { add("for another address", b, sg, sig) },
		func() { add("for another address, signed by nobody", b, sg, nil) },
		func() {
			if !bytes.Equal(b2, as) {
				add("for another provider", b2, sg, sig)
			}
		},
		func() { add("with an altered signature list", as, enc2D(l), sig) },
		func() { add("with a shorter signature list", as, enc2D(l[1:]), sig) },
		func() { add("signed by nobody", as, sg, nil) },
		func() { add("with an altered signature", as, sg, flip(sig, r.IntN(1024))) },
		func() { add("with zeros for a signature", as, sg, make([]byte, 128)) },
		func() { add("with an empty signature", as, sg, []byte{}) },
		func() { add("signed by a server", as, sg, sigs2D(sg)[0]) },
		func() { add("with the coordinator's signature on the assignment", as, sg, sigs2D(sg)[len(l)-1]) },
		func() {
			for _, o := range a.certs[m.To] {
				add("with the signature of another one", as, sg, o.B("signature"))
				add("with the signature list of another one", as, o.B("signatures"), sig)
				add("mixed from two", o.B("assignment"), sg, sig)
				add("mixed from two, the other signature", o.B("assignment"), sg, o.B("signature"))
				break
			}
		},
	}
	last := len(kinds) - 1
	kinds[last]()
	for i := 0; i < 4; i++ {
		kinds[(a.turn+i)%last]()
	}
	a.turn++
	return
}

// invented are answers for assignments that were never made.
func (a *certAtk) invented() {
	s, r := a.s, a.s.rng
	sk := randSec()
	mem := s.models()
	if len(mem) == 0 {
		return
	}
	s.mu.Lock()
	free := []string{}
	for _, addr := range sorted(s.rr.bridges) {
		if s.rr.used[addr] == nil {
			free = append(free, addr)
		}
	}
	for addr := range s.rr.used {
		free = append(free, addr)
		break
	}
	s.mu.Unlock()
	free = append(free, s.addr())
	for i := 0; i < 3; i++ {
		x := &bridge.Assignment{Addr: free[r.IntN(len(free))], Nym: pt(mem[r.IntN(len(mem))].m.nym), NymR: pt(mem[r.IntN(len(mem))].m.nym)}
		b := bridge.EncodeAssignment(x)
		s.mu.Lock()
		made := s.rr.asg[string(b)] != nil
		s.mu.Unlock()
		if made {
			continue
		}
		for _, n := range s.servers {
			ps := map[string]interface{}{"success": true, "assignments": enc2D([][]byte{b}), "signatures": enc2D([][]byte{util.ElGamalSign(suite, random.Stream, b, sk, nil)})}
			s.bad("answer for an assignment that was not made", n.name, "C", proto.GOT_SIGNS, ps)
		}
	}
	for _, n := range s.servers {
		for kind, ps := range map[string]map[string]interface{}{
			"without content":      {"success": true},
			"with empty lists":     {"success": true, "assignments": enc2D(nil), "signatures": enc2D(nil)},
			"without success":      {"assignments": enc2D(nil), "signatures": enc2D(nil)},
			"with garbage":         {"success": true, "assignments": []byte("garbage"), "signatures": []byte{1, 2, 3}},
			"with another success": {"success": "yes"},
		} {
			s.bad("answer "+kind, n.name, "C", proto.GOT_SIGNS, ps)
		}
	}
	s.w.Settle()
}

// replays sends the answers of this and of earlier rounds again.
func (a *certAtk) replays() {
	s, r := a.s, a.s.rng
	var now []*Msg
	for _, m := range s.w.Find(s.rr.start, proto.GOT_SIGNS, "", "C") {
		if m.Tag == "" && !m.Bad && m.DSeq > 0 && len(pairs(m)) > 0 {
			now = append(now, m)
		}
	}
	for _, m := range now {
		s.bad("answer replayed", m.From, "C", proto.GOT_SIGNS, clone(m.Ev.Params))
		s.bad("answer replayed by another", s.servers[r.IntN(len(s.servers))].name, "C", proto.GOT_SIGNS, clone(m.Ev.Params))
	}
	for i, m := range a.old {
		if i < 6 {
			s.bad("answer of an earlier round", m.From, "C", proto.GOT_SIGNS, clone(m.Ev.Params))
		}
	}
	a.old = append(now, a.old...)
	s.w.Settle()
}

var _ = fmt.Sprint
