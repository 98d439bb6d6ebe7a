package main

import (
	"fmt"
	"math/big"
	"os"
	"strings"
	"sync"

	"zRep/cmd/bridge"
	"zRep/proto"
)

func init() {
	register("C20", "one evaluation is one round of one world, or one registration (or repetition of one) at one position among the other messages: its client has to be in the table from the round that the referee computed, once, with the starting credit and an opening; distinct by the message sequence, or by the position and the kind of the registration", runC20)
}

// A joinPos is a position in a run: next to a message of a type on a kind of link.
type joinPos struct {
	typ      int
	from, to string
	name     string
}

var joinConfig = []joinPos{
	{proto.SERVER_REGISTER, "s", "C", "server registration"},
	{proto.SERVER_REGISTER_REPLY, "C", "s", "server registration reply"},
	{proto.BCAST_PEDERSEN_H, "C", "s", "broadcast of h"},
	{proto.UPDATE_PEDERSEN_H, "C", "s", "request to update h"},
	{proto.UPDATE_PEDERSEN_H, "s", "C", "update of h"},
}

var joinRound = []joinPos{
	{proto.ANNOUNCEMENT, "C", "s", "table to the first server"},
	{proto.ANNOUNCEMENT, "s", "s", "table between servers"},
	{proto.ANNOUNCEMENT, "s", "C", "table back from the servers"},
	{proto.ANNOUNCEMENT_FINALIZE, "C", "s", "new table to a server"},
	{proto.ANNOUNCEMENT_FINALIZE, "C", "m", "new table to a client"},
	{proto.POST_BRIDGE, "m", "C", "post"},
	{proto.REQUEST_BRIDGES, "m", "C", "request"},
	{proto.SIGN_ASSIGNMENTS, "C", "s", "assignments to a server"},
	{proto.GOT_SIGNS, "s", "C", "signatures of a server"},
	{proto.GOT_SIGNS, "C", "m", "certificate"},
	{proto.VOTE, "C", "m", "call for votes"},
	{proto.VOTE, "m", "C", "vote"},
	{proto.CLIENT_REGISTER_CONTROLLERSIDE, "m", "C", "another registration"},
	{proto.CLIENT_REGISTER_SERVERSIDE, "C", "s", "another registration to the first server"},
	{proto.CLIENT_REGISTER_SERVERSIDE, "s", "s", "another registration between servers"},
	{proto.CLIENT_REGISTER_SERVERSIDE, "s", "C", "another registration back from the servers"},
	{proto.INIT_PEDERSEN_R, "C", "m", "another client's opening"},
	{proto.CLIENT_REGISTER_CONFIRMATION, "C", "m", "another client's confirmation"},
	{proto.ROUND_END, "C", "s", "last table to the last server"},
	{proto.ROUND_END, "s", "s", "last table between servers"},
	{proto.ROUND_END, "s", "C", "last table back from the servers"},
	{proto.ROUND_END, "C", "m", "end of the round to a client"},
	{proto.BCAST_PEDERSEN_RDIFF, "C", "m", "randomness to a client"},
}

// A joinPlan is one registration at a position.
type joinPlan struct {
	joinPos
	nth    int
	after  bool
	kind   string // join, again (a known key), burst, restart, restart-real
	count  int
	inRnd  int // round
	done   bool
	passed int
}

func (p *joinPlan) String() string {
	ba := "before"
	if p.after {
		ba = "after"
	}
	return fmt.Sprintf("%s %s %s", p.kind, ba, p.name)
}

type joiner struct {
	s     *Sim
	mu    sync.Mutex
	plans []*joinPlan
	keys  map[*Cl]*big.Int // former keys of the address of a client
	quiet bool
}

// registration makes the message with which c registers, for delivery from within an interception.
func (j *joiner) registration(c *Cl) *Msg {
	m := &Msg{From: c.name, To: "C", Ev: ev(proto.CLIENT_REGISTER_CONTROLLERSIDE, map[string]interface{}{"public_key": pad64(c.m.pk)}), Tag: "register " + c.name}
	return m
}

func (j *joiner) log(m *Msg) {
	w := j.s.w
	w.mu.Lock()
	m.Seq = len(w.Log) + 1
	w.Log = append(w.Log, m)
	w.mu.Unlock()
}

// again repeats a registration; it must not have any effect.
func (j *joiner) again(from string, pk *big.Int, kind string) *Msg {
	j.s.hostile(kind)
	m := &Msg{From: from, To: "C", Bad: true, Tag: kind, Ev: ev(proto.CLIENT_REGISTER_CONTROLLERSIDE, map[string]interface{}{"public_key": pad64(pk)})}
	return m
}

// someone picks a model client that has sent its registration.
func (j *joiner) someone(f func(c *Cl) bool) *Cl {
	s := j.s
	s.mu.Lock()
	defer s.mu.Unlock()
	var l []*Cl
	for _, c := range s.cls {
		if c.m != nil && c.reg != nil && !c.left && f(c) {
			l = append(l, c)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[s.rng.IntN(len(l))]
}

// restart lets a new client take the place of a client at its address.
func (s *Sim) restart(old *Cl) *Cl {
	m := &MClient{Node: &Node{name: old.name, w: s.w, front: old.m.front}, x: bridge.StartingCredit, told: bridge.StartingCredit, since: -1}
	m.sk = randSec()
	m.pk = gexp(grpG, sv(m.sk))
	m.model = m.handle
	c := &Cl{name: m.name, m: m, again: true, x: bridge.StartingCredit, since: -1, deadline: 1 << 30}
	s.w.mu.Lock()
	s.w.nodes[m.name] = m.Node
	s.w.mu.Unlock()
	s.mu.Lock()
	old.left, old.maybe = true, true
	s.cls = append(s.cls, c)
	s.mu.Unlock()
	return c
}

// make returns the registrations of a plan.
func (j *joiner) make(p *joinPlan) (l []*Msg) {
	s := j.s
	s.c.Count("position "+p.name, 1)
	s.c.Count("registration "+p.kind, 1)
	s.c.Eval(p.String())
	switch p.kind {
	case "again":
		c := j.someone(func(c *Cl) bool { return true })
		if c == nil {
			return nil
		}
		from := c.name
		switch s.rng.IntN(3) {
		case 0:
			if o := j.someone(func(o *Cl) bool { return o != c }); o != nil {
				from = o.name
			}
		case 1: // from an address that nobody has
			from = "?"
		}
		m := j.again(from, c.m.pk, "registration of a known key")
		if from == "?" {
			m.KeepSrc = true
			m.Ev.SrcAddr = fmt.Sprintf("127.0.0.1:%d", 20000+s.rng.IntN(10000))
		}
		l = append(l, m)
	case "restart":
		c := j.someone(func(c *Cl) bool { return true })
		if c == nil {
			return nil
		}
		n := s.restart(c)
		j.mu.Lock()
		j.keys[n] = c.m.pk
		j.mu.Unlock()
		l = append(l, j.registration(n))
	case "former":
		// the key that a client had before it was started again
		c := j.someone(func(c *Cl) bool { j.mu.Lock(); defer j.mu.Unlock(); return j.keys[c] != nil })
		if c == nil {
			return nil
		}
		l = append(l, j.again(c.name, j.keys[c], "registration of a former key"))
	default:
		for i := 0; i < p.count; i++ {
			l = append(l, j.registration(s.AddModel()))
		}
		if s.rng.Chance(0.3) && len(l) > 0 {
			k := l[s.rng.IntN(len(l))]
			l = append(l, j.again(k.From, bi(k.B("public_key")), "repeated registration"))
		}
	}
	return
}

func (j *joiner) intercept(m *Msg) []*Msg {
	if m.Ev == nil || m.Bad || j.quiet {
		return []*Msg{m}
	}
	s := j.s
	s.mu.Lock()
	rnd := s.round
	s.mu.Unlock()
	var before, after []*Msg
	j.mu.Lock()
	var hit []*joinPlan
	for _, p := range j.plans {
		if p.done || p.inRnd != rnd || p.typ != m.Type() || !strings.HasPrefix(m.From, p.from) || !strings.HasPrefix(m.To, p.to) {
			continue
		}
		if p.passed < p.nth {
			p.passed++
			continue
		}
		p.done = true
		hit = append(hit, p)
	}
	j.mu.Unlock()
	for _, p := range hit {
		if p.after {
			after = append(after, j.make(p)...)
		} else {
			before = append(before, j.make(p)...)
		}
	}
	for _, l := range [][]*Msg{before, after} {
		for _, m := range l {
			j.log(m)
		}
	}
	return append(append(before, m), after...)
}

// told checks that every client has heard what it has to, once.
func (j *joiner) told() {
	s := j.s
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.cls {
		if c.m == nil || c.left || c.reg == nil || c.since < 0 {
			continue
		}
		c.m.mu.Lock()
		a, b := c.m.inits, c.m.confirms
		c.m.mu.Unlock()
		if (a != 1 || b != 1) && !c.again || a == 0 || b == 0 {
			s.missLocked("C20", "a client does not get one opening and one set of parameters", "%s: %d and %d", c.name, a, b)
		}
		if c.since > c.deadline {
			s.missLocked("C20", "a client gets in late", "%s in round %d instead of %d", c.name, c.since, c.deadline)
		}
		s.c.Count("clients in", 1)
	}
}

// stage lets clients join, or start again, while the round is being closed or opened.
func (j *joiner) stage(stage string) {
	s := j.s
	p := &joinPlan{joinPos: joinPos{name: "phase " + stage}, kind: "join", count: 1}
	if stage == "start" || stage == "mid" || stage == "assigned" || stage == "voted" {
		return
	}
	switch s.rng.IntN(5) {
	case 0:
		p.kind = "restart"
	case 1:
		p.kind = "again"
	case 2:
		p.kind = "former"
	case 3:
		p.count = 3
	}
	for _, m := range j.make(p) {
		s.w.Queue(m)
	}
	s.w.Settle()
}

// restartReal ends a client program and starts it again at the same address.
func (s *Sim) restartReal(old *Cl) error {
	n := old.k
	s.mu.Lock()
	old.left, old.maybe = true, true
	s.mu.Unlock()
	n.proc.quit = true
	n.proc.cmd.Process.Kill()
	<-n.proc.done
	s.w.Settle()
	s.w.mu.Lock()
	n.real = ""
	s.w.mu.Unlock()
	n0 := len(s.w.Find(0, proto.CLIENT_REGISTER_CONTROLLERSIDE, n.name, "C"))
	s.mu.Lock()
	s.cls = append(s.cls, &Cl{name: n.name, k: n, again: true, x: bridge.StartingCredit, since: -1, deadline: 1 << 30})
	s.mu.Unlock()
	p := s.w.spawn("client", n.name, 0, n.cfr.addr, os.Environ())
	s.w.mu.Lock()
	n.proc = p
	s.w.mu.Unlock()
	s.c.Count("client programs started again", 1)
	err := s.w.WaitFor("the client to register again", func() bool {
		l := s.w.match(0, proto.CLIENT_REGISTER_CONTROLLERSIDE, n.name, "C")
		return len(l) > n0 && l[len(l)-1].DSeq > 0
	})
	s.w.Settle()
	return err
}

func runC20(c *Check) { c.RunWorlds(1, c.Scale(11, 60), 12, joinWorld(c)) }

// joinWorld is a world in which clients join, start again and repeat themselves at chosen points.
func joinWorld(c *Check) func(i int, r *Rng, ctrl bool) WorldCfg {
	// every position at least once
	type at struct {
		p     int
		after bool
	}
	var deck []at
	for p := range joinRound {
		deck = append(deck, at{p, false}, at{p, true})
	}
	dr := NewRng(c.Seed, "positions")
	dr.Shuffle(len(deck), func(a, b int) { deck[a], deck[b] = deck[b], deck[a] })
	return func(i int, r *Rng, ctrl bool) WorldCfg {
		play := defaultPlay
		play.Posts, play.Requests = 2, 1
		cfg := WorldCfg{Servers: 1 + (i+1)%4, Models: 2 + i%2, Rounds: c.Scale(3, 4), Play: play}
		j := &joiner{keys: map[*Cl]*big.Int{}}
		if i%3 == 1 {
			cfg.Reals = 1
		}
		add := func(p joinPos, after bool, rnd int) {
			pl := &joinPlan{joinPos: p, after: after, inRnd: rnd, count: 1, kind: "join", nth: r.IntN(2)}
			if p.typ != proto.GOT_SIGNS && p.typ != proto.POST_BRIDGE && p.typ != proto.VOTE {
				pl.nth = 0
			}
			switch x := r.IntN(100); {
			case x < 15:
				pl.kind = "restart"
			case x < 30:
				pl.kind = "again"
			case x < 40 && rnd > 0:
				pl.kind = "former"
			case x < 48:
				pl.kind, pl.count = "burst", 2+r.IntN(9)
			}
			j.plans = append(j.plans, pl)
		}
		if !ctrl {
			for k := 0; k < 2; k++ {
				add(joinConfig[r.IntN(len(joinConfig))], r.Bool(), -1)
			}
			per := 6 // of the positions, for each world
			for k := 0; k < per; k++ {
				a := deck[(i*per+k)%len(deck)]
				p := joinRound[a.p]
				rnd := r.IntN(3)
				switch p.typ {
				case proto.POST_BRIDGE, proto.REQUEST_BRIDGES, proto.SIGN_ASSIGNMENTS, proto.GOT_SIGNS, proto.VOTE:
					rnd = 1 + r.IntN(2)
				case proto.CLIENT_REGISTER_CONTROLLERSIDE, proto.CLIENT_REGISTER_SERVERSIDE, proto.INIT_PEDERSEN_R, proto.CLIENT_REGISTER_CONFIRMATION:
				case proto.ANNOUNCEMENT, proto.ANNOUNCEMENT_FINALIZE:
					rnd = -1 + r.IntN(3)
				}
				add(p, a.after, rnd)
			}
		}
		cfg.Setup = func(s *Sim) {
			j.s = s
			if ctrl {
				return
			}
			s.slowly = i%2 == 0
			s.icept = j.intercept
			s.lateReg = func() {
				if s.rng.Chance(0.7) {
					s.AddModel().m.Register()
				}
			}
			s.attack = j.stage
		}
		cfg.Round = func(s *Sim) {
			j.told()
			if s.round < 3 {
				s.AddModel().m.Register()
			}
			if !ctrl && cfg.Reals > 0 && s.round == 2 {
				// a client program starts again while the next round opens
				was := s.attack
				s.slowly = true
				s.attack = func(stage string) {
					if stage != "announce" && stage != "ending" || stage == "ending" == (i%2 == 0) {
						was(stage)
						return
					}
					for _, cl := range s.Members() {
						if cl.k != nil {
							if err := s.restartReal(cl); err != nil {
								s.Fail(err, "C20")
							}
							break
						}
					}
				}
			}
		}
		cfg.End = func(s *Sim) {
			j.told()
			for _, p := range j.plans {
				if !p.done {
					s.c.Count("positions that did not occur", 1)
				}
			}
		}
		return cfg
	}
}
