package main

import (
	"fmt"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/random"
)

func init() {
	register("C22", "one evaluation is one round of one world, or one message delivered to the coordinator in another phase or round than its own: table, assignments, certificates and reputations are compared with the referee's, which ignores it; distinct by the message sequence, or by the kind of the message and the phase", runC22)
}

// phaseAtk delays and replays messages into other phases and rounds.
type phaseAtk struct {
	s     *Sim
	on    bool
	stash []*Msg // answers of servers that are held back
	saved []lateMsg
	addrs []string // bridges of earlier rounds
}

type lateMsg struct {
	kind, from string
	typ        int
	ps         map[string]interface{}
	round      int
}

func runC22(c *Check) {
	c.RunWorlds(1, c.Scale(9, 48), 12, phaseWorld(c))
}

// phaseWorld is a world in which messages come in phases to which they do not belong.
func phaseWorld(c *Check) func(i int, r *Rng, ctrl bool) WorldCfg {
	return func(i int, r *Rng, ctrl bool) WorldCfg {
		play := defaultPlay
		play.Posts = 4
		play.VoteP = 0.5
		play.MaxInd = i%2 == 0
		cfg := WorldCfg{Servers: 1 + i%3, Models: 3, Reals: i % 2, Rounds: c.Scale(3, 6), Play: play}
		cfg.PlayFor = func(k int) PlayOpts {
			p := play
			if (k+i)%3 == 0 { // bridges are left over
				p.Requests, p.Lean, p.MaxInd = 1, true, false
			}
			return p
		}
		cfg.Setup = func(s *Sim) {
			s.slowly = true
			a := &phaseAtk{s: s}
			if !ctrl {
				s.icept = a.intercept
			}
			s.lateReg = func() {
				if s.rng.Chance(0.6) {
					s.AddModel().m.Register()
				}
			}
			s.attack = func(stage string) {
				if !ctrl {
					a.stage(stage)
				}
			}
		}
		if !ctrl {
			cfg.Config = configAttack
		}
		return cfg
	}
}

func (a *phaseAtk) intercept(m *Msg) []*Msg {
	s := a.s
	if a.on && m.To == "C" && m.From != "C" && !m.Bad && m.Ev != nil && m.Type() == proto.GOT_SIGNS && m.Note == nil && s.rng.Chance(0.2) {
		s.mu.Lock()
		s.attacked = true
		s.mu.Unlock()
		a.stash = append(a.stash, m)
		return nil
	}
	return []*Msg{m}
}

func (a *phaseAtk) stage(stage string) {
	s, r := a.s, a.s.rng
	s.c.Count("attacks in stage "+stage, 1)
	switch stage {
	case "start":
		s.mu.Lock()
		s.attacked = false
		s.mu.Unlock()
		a.on = true
		a.late(stage)
		a.replay(stage)
		// a bridge of an earlier round is posted again, perhaps by the same client
		mem := s.models()
		for k := 0; k < 3 && k < len(a.addrs) && len(mem) > 0; k++ {
			mem[r.IntN(len(mem))].m.Post(a.addrs[r.IntN(len(a.addrs))])
		}
		s.w.Settle()
		a.answers(stage)
	case "assigned":
		a.answers(stage)
		a.replay(stage)
	case "voted":
		a.answers(stage)
		a.replay(stage)
		a.on = false
		// whoever has a reputation left takes the bridges that are left
		for _, c := range s.models() {
			if c.m.x > 0 && r.Chance(0.3) {
				c.m.Request(c.m.x)
			}
		}
		s.w.Settle()
		s.mu.Lock()
		a.addrs = sorted(s.rr.bridges)
		s.mu.Unlock()
		a.save()
	default:
		a.late(stage)
		a.answers(stage)
		a.replay(stage)
		a.late(stage)
	}
	s.w.Settle()
}

// save makes messages that are valid now, and sends them later.
func (a *phaseAtk) save() {
	s, r := a.s, a.s.rng
	a.saved = keepLast(a.saved, 12)
	n := 0
	for _, c := range s.models() {
		for _, k := range c.m.Certs() {
			fb := 1 - 2*r.IntN(2)
			if n++; n <= 3 {
				a.saved = append(a.saved, lateMsg{"vote", c.name, proto.VOTE, c.m.voteParams(k, fb), s.round})
			}
		}
		a.saved = append(a.saved, lateMsg{"post", c.name, proto.POST_BRIDGE, c.m.postParams(s.addr()), s.round})
		if c.m.x > 0 && r.Chance(0.5) {
			if ps := mustReq(c, 1+r.IntN(c.m.x)); ps != nil {
				a.saved = append(a.saved, lateMsg{"request", c.name, proto.REQUEST_BRIDGES, ps, s.round})
			}
		}
	}
}

func keepLast[T any](l []T, n int) []T {
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}

// late sends what was valid in an earlier phase or round.
func (a *phaseAtk) late(stage string) {
	s := a.s
	for _, l := range a.saved {
		when := "of an earlier round"
		if l.round == s.round {
			when = "of this round"
		}
		s.bad(fmt.Sprintf("%s: late %s %s", stage, l.kind, when), l.from, "C", l.typ, clone(l.ps))
	}
	// votes on earlier rounds' certificates, under the pseudonym of this one
	if stage == "start" {
		for _, l := range a.saved {
			if c := s.clientOf(l.from); l.typ == proto.VOTE && c != nil && c.m != nil && c.m.In() {
				cert := Cert{Assignment: l.ps["assignment"].([]byte), Signatures: l.ps["signatures"].([]byte)}
				s.bad("start: vote on a certificate of an earlier round", l.from, "C", proto.VOTE, c.m.voteParams(cert, 1))
			}
		}
	}
	s.w.Settle()
}

// answers sends the servers' answers that were held back, once their round has ended. Within their round they count.
func (a *phaseAtk) answers(stage string) {
	s := a.s
	s.mu.Lock()
	in := s.phase == "MESSAGE"
	s.mu.Unlock()
	var rest []*Msg
	for _, m := range a.stash {
		if in && m.Seq > s.rr.start {
			rest = append(rest, m) // it would be in time
			continue
		}
		s.hostile(stage + ": late answer of a server")
		s.w.Queue(&Msg{From: m.From, To: "C", Ev: ev(proto.GOT_SIGNS, clone(m.Ev.Params)), Bad: true, Tag: stage + ": late answer"})
		rest = append(rest, m)
	}
	a.stash = keepLast(rest, 8)
	s.w.Settle()
}

// replay delivers recorded messages to the coordinator again.
func (a *phaseAtk) replay(stage string) {
	s, r := a.s, a.s.rng
	s.w.mu.Lock()
	by := map[int][]*Msg{}
	for _, m := range s.w.Log {
		if m.To == "C" && m.Ev != nil && !m.Bad && m.DSeq > 0 {
			by[m.Type()] = append(by[m.Type()], m)
		}
	}
	s.w.mu.Unlock()
	s.mu.Lock()
	now := s.phase == "MESSAGE"
	start := s.rr.start
	s.mu.Unlock()
	var types []int
	for t := range by {
		types = append(types, t)
	}
	for _, t := range sortedInts(types) {
		l := by[t]
		k := 3
		switch t {
		case proto.ANNOUNCEMENT, proto.ROUND_END:
			k = len(l)
		case proto.GN_HONESTY_CHALLENGE, proto.SERVER_REGISTER, proto.UPDATE_PEDERSEN_H:
			k = 1
		}
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		for _, m := range l {
			if k <= 0 {
				break
			}
			k--
			when := "of an earlier round"
			if m.Seq > start {
				when = "of this round"
			}
			name := evName[t]
			s.hostile(fmt.Sprintf("%s: replayed %s %s (%v)", stage, name, when, now))
			s.w.Queue(&Msg{From: m.From, To: "C", Ev: ev(t, clone(m.Ev.Params)), Bad: true, Tag: stage + ": replayed"})
			if t == proto.ANNOUNCEMENT || t == proto.ROUND_END {
				s.w.Settle()
			}
		}
	}
	s.w.Settle()
}

func sortedInts(l []int) []int {
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l
}

// configAttack sends messages of all other phases before the first round has opened.
func configAttack(s *Sim) {
	r := s.rng
	g, GT, HT := elem(r), elem(r), elem(r)
	var cls []*Cl
	for _, c := range s.cls {
		if c.m != nil {
			cls = append(cls, c)
		}
	}
	if len(cls) == 0 {
		return
	}
	A := cls[0]
	sk := A.m.sk
	kl := ptList(gexp(g, sv(sk)), elem(r), elem(r))
	rr := randSec()
	vl := ptList(commitVal(GT, HT, one, sv(rr)), elem(r), elem(r))
	table := map[string]interface{}{"g": pad64(g), "GT": pad64(GT), "HT": pad64(HT), "keys": util.ProtobufEncodePointList(kl), "vals": util.ProtobufEncodePointList(vl)}
	post := func() {
		ps := map[string]interface{}{"bridge_addr": s.addr(), "nym": pad64(gexp(g, sv(sk)))}
		ps["signature"] = util.ElGamalSign(suite, random.Stream, bridge.MessageOfPostBridge(ps), sk, pt(g))
		s.bad("config: post", A.name, "C", proto.POST_BRIDGE, ps)
	}
	vote := func() {
		b := bridge.EncodeAssignment(&bridge.Assignment{Addr: "x:1", Nym: kl[1], NymR: kl[0]})
		ps := map[string]interface{}{"nym": pad64(gexp(g, sv(sk))), "assignment": b, "signatures": enc2D([][]byte{make([]byte, 128)}), "feedback": 1}
		ps["signature"] = util.ElGamalSign(suite, random.Stream, bridge.MessageOfVote(ps), sk, pt(g))
		s.bad("config: vote", A.name, "C", proto.VOTE, ps)
	}
	signs := func() {
		b := bridge.EncodeAssignment(&bridge.Assignment{Addr: "x:1", Nym: kl[1], NymR: kl[0]})
		ps := map[string]interface{}{"success": true, "assignments": enc2D([][]byte{b}), "signatures": enc2D([][]byte{make([]byte, 128)})}
		s.bad("config: answer", s.chain[0].name, "C", proto.GOT_SIGNS, ps)
	}
	last := s.chain[len(s.chain)-1].name
	kinds := []func(){
		func() { s.bad("config: table", last, "C", proto.ANNOUNCEMENT, clone(table)) },
		func() { s.bad("config: end of a round", s.chain[0].name, "C", proto.ROUND_END, clone(table)) },
		post, vote, signs,
	}
	for k := 0; k < 3; k++ {
		for _, j := range r.Perm(len(kinds)) {
			kinds[j]()
		}
	}
	s.w.Settle()
}
