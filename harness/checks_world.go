package main

import (
	"fmt"
	"strings"

	"zRep/proto"
)

func init() {
	register("C01", "one evaluation is one round of one world: every member's published commitment is opened with the opening it was sent, and compared with the reputation that the sequential referee computed; distinct by the message sequence", runC01)
	register("C02", "one evaluation is one round of one world: the table is compared with the set of registered clients and with what every party got; distinct by the message sequence", runC02)
	register("C04", "one evaluation is one round of one world, or one hostile post or request in it: every assignment and delivery is compared with the referee's; distinct by the message sequence", runC04)
	register("C06", "one evaluation is one round of one world, or one honest request checked by the verifier: every honest action has to have its effect; distinct by the message sequence, or by reputation, number and base", runC06)
}

// noMore checks that the client program refuses to request more than its reputation.
func (s *Sim) noMore() {
	for _, c := range s.Members() {
		if c.k == nil || c.x < -1 {
			continue
		}
		n0 := len(s.w.Find(0, proto.REQUEST_BRIDGES, c.name, "C"))
		for _, d := range []int{1, 2, 1 + s.rng.IntN(40)} {
			c.k.Type(fmt.Sprintf("get %d", c.x+d))
		}
		if err := s.Post(c, s.addr()); err != nil {
			return
		}
		s.c.Count("requests_beyond_reputation_typed", 3)
		for _, m := range s.w.Find(0, proto.REQUEST_BRIDGES, c.name, "C")[n0:] {
			s.miss("C01", "the client program requests more than its reputation", "%v with reputation %d", m, c.x)
		}
	}
}

func runC01(c *Check) {
	c.RunWorlds(c.Scale(11, 48), 0, 12, func(i int, r *Rng, ctrl bool) WorldCfg {
		play := defaultPlay
		play.Up = []float64{0.9, 0.05, 0.5, 0.65}[i%4]
		play.Posts = 2 + r.IntN(4)
		play.MaxInd = i%3 == 0
		cfg := WorldCfg{Servers: 1 + i%3, Models: 2 + r.IntN(3), Reals: 1, Late: 1, Rounds: c.Scale(3, 7), Play: play}
		switch i % 11 {
		case 8: // one provider, all votes up or all down
			cfg.Models, cfg.Play.OneProvider, cfg.Play.VoteP, cfg.Play.Up, cfg.Play.MaxInd = 5, 30, 1, 1, true
		case 9:
			cfg.Models, cfg.Play.OneProvider, cfg.Play.VoteP, cfg.Play.Up, cfg.Play.MaxInd = 5, 30, 1, 0, true
		case 10: // many clients with few actions
			cfg.Models, cfg.Play.Posts, cfg.Servers = 9, 1, 1
		}
		cfg.Round = func(s *Sim) {
			s.attack = func(stage string) {
				if stage == "start" {
					s.noMore()
				}
			}
		}
		return cfg
	})
}

func runC02(c *Check) {
	c.RunWorlds(c.Scale(9, 40), 0, 12, func(i int, r *Rng, ctrl bool) WorldCfg {
		play := defaultPlay
		play.Posts, play.Requests = 2, 1
		cfg := WorldCfg{Servers: 1 + i%5, Models: r.IntN(5), Reals: 1, Late: 2, LateReal: i % 2, Rounds: c.Scale(3, 8), Together: i%2 == 0, Play: play}
		if i%9 == 7 {
			cfg.Models, cfg.Servers, cfg.Play.Posts = 14, 2, 1
			if i == 7 { // many
				cfg.Models, cfg.Servers, cfg.Rounds = c.Scale(70, 160), 1, 2
			}
		}
		if i%9 == 8 {
			cfg.Models, cfg.Reals, cfg.Late, cfg.LateReal, cfg.Servers = 0, 0, 0, 0, 2 // only fake clients
		}
		return cfg
	})
}

func runC04(c *Check) {
	c.RunWorlds(1, c.Scale(9, 40), 12, func(i int, r *Rng, ctrl bool) WorldCfg {
		play := defaultPlay
		play.Posts = 2 + r.IntN(5)
		play.Requests = 3
		play.VoteP = 0.3
		play.Settle = []float64{0, 0.15, 0.6}[i%3]
		cfg := WorldCfg{Servers: 1 + i%3, Models: 3 + r.IntN(3), Reals: i % 2, Late: 1, Rounds: c.Scale(3, 6), Play: play}
		cfg.PlayFor = func(r int) PlayOpts {
			p := play
			if (r+i)%2 == 0 { // bridges are left over, which the next round must not see
				p.Posts, p.Requests, p.Lean = 4, 1, true
			}
			return p
		}
		cfg.Setup = func(s *Sim) {
			// the answers of one server come late now and then
			slow := ""
			if !ctrl && i%2 == 1 {
				slow = "s0"
			}
			hold := true
			s.w.Hold = func(m *Msg) bool { return hold && slow != "" && m.From == slow && m.Type() == proto.GOT_SIGNS }
			s.attack = func(stage string) {
				switch stage {
				case "start", "mid":
					hold = true
				default:
					hold = false
					s.w.Kick()
				}
				if !ctrl {
					s.attackPosts(stage)
				}
			}
		}
		return cfg
	})
}

// attackPosts repeats and varies posts and requests of this round, and replays those of earlier ones.
func (s *Sim) attackPosts(stage string) {
	mem := s.models()
	if len(mem) == 0 || s.round == 0 {
		return
	}
	pick := func() *Cl { return mem[s.rng.IntN(len(mem))] }
	var posts, reqs, old []*Msg
	s.w.mu.Lock()
	for _, m := range s.w.Log {
		if m.To != "C" || m.Bad || m.DSeq == 0 || (m.Type() != proto.POST_BRIDGE && m.Type() != proto.REQUEST_BRIDGES) {
			continue
		}
		if m.Seq <= s.rr.start {
			old = append(old, m)
		} else if m.Type() == proto.POST_BRIDGE {
			posts = append(posts, m)
		} else {
			reqs = append(reqs, m)
		}
	}
	s.w.mu.Unlock()
	sub := func(l []*Msg, n int) []*Msg {
		l = append([]*Msg{}, l...)
		s.rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		if len(l) > n {
			l = l[:n]
		}
		return l
	}
	for _, m := range sub(posts, 4) {
		// the same post again, by the same client
		s.bad("post replayed", m.From, "C", m.Type(), m.Ev.Params)
		// the same bridge by somebody else, properly signed: the first one counts
		c := pick()
		c.m.Post(m.S("bridge_addr"))
		s.hostile("post of another client's bridge")
		// and by the same model client with a new signature
		if c := s.clientOf(m.From); c != nil && c.m != nil {
			c.m.Post(m.S("bridge_addr"))
			s.hostile("post repeated")
		}
	}
	for _, m := range sub(reqs, 3) {
		s.bad("request replayed", m.From, "C", m.Type(), m.Ev.Params)
		// from another address: neither a second assignment nor a delivery there
		s.bad("request replayed by another client", pick().name, "C", m.Type(), m.Ev.Params)
		// with a fresh signature only, when we know the key
		if c := s.clientOf(m.From); c != nil && c.m != nil {
			ps := clone(m.Ev.Params)
			signRequest(ps, c.m.sk, c.m.G())
			s.bad("request signed again", m.From, "C", m.Type(), ps)
		}
	}
	for _, m := range sub(old, 3) {
		s.bad("post or request of an earlier round", m.From, "C", m.Type(), m.Ev.Params)
	}
	if stage == "assigned" {
		// a bridge that has been assigned is posted again; nobody may get it a second time
		for _, m := range sub(posts, 6) {
			if c := s.clientOf(m.From); c != nil && c.m != nil {
				c.m.Post(m.S("bridge_addr"))
				s.hostile("post of an assigned bridge")
			}
		}
		s.w.Settle()
		for i := 0; i < 2; i++ {
			if c := pick(); c.x > 0 {
				c.m.Request(1 + s.rng.IntN(c.x))
			}
		}
	}
	s.w.Settle()
}

func runC06(c *Check) {
	honestRequests(c)
	c.RunWorlds(c.Scale(8, 40), 0, 12, func(i int, r *Rng, ctrl bool) WorldCfg {
		play := defaultPlay
		play.Up = []float64{1, 0.3, 0.7}[i%3]
		play.Posts = 4 + r.IntN(4)
		play.Requests = 2
		play.MaxInd = i%2 == 0
		play.VoteP = 0.9
		return WorldCfg{Servers: 1 + i%4, Models: 3, Reals: 2, Late: 1, Rounds: c.Scale(3, 7), Play: play, Chal: true}
	})
}

var _ = strings.Join
