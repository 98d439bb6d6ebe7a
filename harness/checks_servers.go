package main

import (
	"fmt"
	"math/big"
	"strings"
	"sync"

	"zRep/proto"
)

func init() {
	register("C21", "one evaluation is one registration of a server, one hostile message during the configuration, or one passage of a table along the chain; distinct by world, round and kind", runC21)
}

// serverAtk watches the servers register.
type serverAtk struct {
	s     *Sim
	icept bool
	gate  bool
	free  map[string]bool // servers whose update may arrive
	n     int
}

// junkH sends updates of the base that nobody asked for.
func (a *serverAtk) junkH(stage string) {
	s, r := a.s, a.s.rng
	reg := ""
	replied, updated := map[string]bool{}, map[string]bool{}
	for _, m := range s.w.Find(0, proto.SERVER_REGISTER_REPLY, "C", "") {
		replied[m.To] = true
	}
	for _, m := range s.w.Find(0, proto.UPDATE_PEDERSEN_H, "", "C") {
		if m.DSeq > 0 && !m.Bad {
			updated[m.From] = true
		}
	}
	for n := range replied {
		if !updated[n] {
			reg = n
		}
	}
	for _, n := range s.servers {
		if n.name == reg {
			continue // the one whose update is due
		}
		h := pad64(gexp(grpG, bi(r.Bytes(64))))
		if r.Chance(0.3) {
			h = pad64(one)
		}
		s.bad("update of h by a server "+stage, n.name, "C", proto.UPDATE_PEDERSEN_H, map[string]interface{}{"h": h})
	}
	s.w.Queue(&Msg{From: "x", To: "C", Bad: true, KeepSrc: true, Tag: "update of h by a stranger", Ev: &proto.Event{EventType: proto.UPDATE_PEDERSEN_H,
		Params: map[string]interface{}{"h": pad64(gexp(grpG, bi(r.Bytes(64))))}, SrcAddr: "127.0.0.1:9"}})
	s.hostile("update of h by a stranger " + stage)
	// the registrations again
	for _, m := range s.w.Find(0, proto.SERVER_REGISTER, "", "C") {
		if m.Bad || m.DSeq <= 0 || !r.Chance(0.6) {
			continue
		}
		ps := clone(m.Ev.Params)
		if r.Chance(0.3) {
			ps["public_key"] = pad64(gexp(grpG, bi(r.Bytes(64))))
		}
		s.bad("registration of a server again "+stage, m.From, "C", proto.SERVER_REGISTER, ps)
	}
}

func (a *serverAtk) due(typ int, src, dst string) (n int) {
	for _, m := range a.s.w.match(0, typ, src, dst) {
		if m.DSeq > 0 && !m.Bad {
			n++
		}
	}
	return
}

func (a *serverAtk) boot(ctrl bool) error {
	s, r, w := a.s, a.s.rng, a.s.w
	if err := w.StartCoordinator(false); err != nil {
		return err
	}
	w.Hold = func(m *Msg) bool { return a.gate && m.Type() == proto.UPDATE_PEDERSEN_H && !m.Bad && !a.free[m.From] }
	a.free, a.gate = map[string]bool{}, !ctrl
	for i := 0; i < a.n; i++ {
		s.servers = append(s.servers, w.AddServer())
		if r.Chance(0.3) {
			// one after the other now and then
			if err := w.WaitFor("the registration to arrive", func() bool { return a.due(proto.SERVER_REGISTER, s.servers[i].name, "C") > 0 }); err != nil {
				return err
			}
		}
	}
	for k := 0; k < a.n; k++ {
		if !ctrl {
			// one server has got its reply and its update is on its way
			if err := w.WaitFor("a server to send its update", func() bool {
				n := 0
				for _, m := range w.match(0, proto.UPDATE_PEDERSEN_H, "", "C") {
					if !m.Bad {
						n++
					}
				}
				return n > k
			}); err != nil {
				return err
			}
			if r.Chance(0.5) || k == a.n-1 {
				if err := w.WaitFor("all registrations to arrive", func() bool { return a.due(proto.SERVER_REGISTER, "", "C") == a.n }); err != nil {
					return err
				}
			}
			w.Settle()
			a.junkH("while one is registering")
			if !s.started && (k == a.n-1 && r.Chance(0.6) || a.due(proto.SERVER_REGISTER, "", "C") == a.n && r.Chance(0.3)) {
				// the user is faster than the last update
				s.started = true
				s.phase = "ANNOUNCE"
				s.c.Count("start while a server is registering", 1)
				s.Enter()
			}
			w.Settle()
			if n := len(w.Find(0, proto.BCAST_PEDERSEN_H, "C", "")); n > 0 {
				s.miss("C21", "the base is announced before the last server has added its factor", "after %d of %d", k, a.n)
			}
			w.mu.Lock()
			for _, m := range w.match(0, proto.UPDATE_PEDERSEN_H, "", "C") {
				a.free[m.From] = a.free[m.From] || !m.Bad
			}
			w.cond.Broadcast()
			w.mu.Unlock()
		}
		if err := w.WaitFor("the update to arrive", func() bool { return a.due(proto.UPDATE_PEDERSEN_H, "", "C") > k }); err != nil {
			return err
		}
	}
	w.Settle()
	s.findChain()
	w.Hold = nil
	if !ctrl && !s.started {
		a.junkH("when all are registered")
		w.Settle()
	}
	return nil
}

// scan looks at the messages of the configuration.
func (a *serverAtk) scan() {
	s := a.s
	var chain []string
	var hs []*big.Int // after each server
	h := (*big.Int)(nil)
	prev := s.w.C.real
	for _, m := range s.w.Find(0, proto.SERVER_REGISTER_REPLY, "C", "") {
		if m.Tag != "" {
			continue
		}
		for _, o := range chain {
			if o == m.To {
				s.miss("C21", "a server is registered twice", "%s", m.To)
			}
		}
		in := bi(m.B("h"))
		if h != nil && in.Cmp(h) != 0 {
			s.miss("C21", "a server does not build on the base of the one before", "%s, number %d", m.To, len(chain))
		}
		if p := m.S("prev_server"); p != prev {
			s.miss("C21", "a server is told a wrong predecessor", "%s, number %d: %s instead of %s", m.To, len(chain), p, prev)
		}
		prev = s.w.nodes[m.To].front.addr
		up := []*Msg{}
		for _, u := range s.w.Find(0, proto.UPDATE_PEDERSEN_H, m.To, "C") {
			if !u.Bad && u.Tag == "" {
				up = append(up, u)
			}
		}
		if len(up) != 1 {
			s.miss("C21", "a server does not add a factor exactly once", "%s: %d times", m.To, len(up))
			return
		}
		out := bi(up[0].B("h"))
		if !isElem(out) || out.Cmp(one) == 0 {
			s.miss("C21", "the base is not an element of the group", "%s", out.Text(16))
		}
		if out.Cmp(in) == 0 {
			s.miss("C21", "a server adds no factor", "%s", m.To)
		}
		hs = append(hs, out)
		h = out
		chain = append(chain, m.To)
		s.c.Eval(fmt.Sprint(s.w.Name, "registration", m.To))
		s.c.Count("registrations of servers", 1)
	}
	if len(chain) != a.n {
		s.miss("C21", "a server is missing in the chain", "%d of %d", len(chain), a.n)
		return
	}
	for i := 0; i+1 < len(chain); i++ {
		up := s.w.Find(0, proto.UPDATE_NEXT_HOP, "C", chain[i])
		if len(up) != 1 || up[0].S("next_hop") != s.w.nodes[chain[i+1]].front.addr {
			s.miss("C21", "a server is told a wrong successor", "%s, number %d: told %d times", chain[i], i, len(up))
		}
	}
	if n := len(s.w.Find(0, proto.UPDATE_NEXT_HOP, "C", chain[len(chain)-1])); n > 0 {
		s.miss("C21", "the last server is told a successor", "%s", chain[len(chain)-1])
	}
	told := map[string]int{}
	for _, m := range s.w.Find(0, proto.BCAST_PEDERSEN_H, "C", "") {
		told[m.To]++
		if bi(m.B("h")).Cmp(h) != 0 {
			s.miss("C21", "the announced base is not that of the last server", "%s", m.To)
		}
	}
	for _, n := range chain {
		if told[n] != 1 {
			s.miss("C21", "a server is not told the base exactly once", "%s: %d times", n, told[n])
		}
	}
	// every table goes along the chain, and back
	for _, typ := range []int{proto.ANNOUNCEMENT, proto.ROUND_END} {
		path := append(append([]string{"C"}, chain...), "C")
		if typ == proto.ROUND_END {
			for i, j := 0, len(path)-1; i < j; i, j = i+1, j-1 {
				path[i], path[j] = path[j], path[i]
			}
		}
		at, n := 0, 0
		for _, m := range s.w.Find(0, typ, "", "") {
			if m.Bad || strings.HasPrefix(m.To, "m") || strings.HasPrefix(m.To, "k") {
				continue
			}
			if n == 0 && typ == proto.ANNOUNCEMENT && (bi(m.B("HT")).Cmp(h) != 0 || bi(m.B("GT")).Cmp(grpG) != 0) {
				s.miss("C21", "the first table is not for the announced base", "")
			}
			n++
			if m.From != path[at] || m.To != path[at+1] {
				s.miss("C21", "a table does not go along the chain", "type %d from %s to %s instead of %s to %s (message %d of its kind)", typ, m.From, m.To, path[at], path[at+1], n)
				return
			}
			at++
			if at == len(path)-1 {
				at = 0
				s.c.Eval(fmt.Sprint(s.w.Name, "passage", m.Seq))
				s.c.Count("passages of a table", 1)
			}
		}
		if at != 0 {
			s.miss("C21", "a table does not reach the end of the chain", "type %d stops after %d steps", typ, at)
		}
	}
}

// probe makes the servers add factors to the generator, again and again: the results show all there is to see of a factor.
func (a *serverAtk) probe(c *Check, pool *Pool, small map[string]int) {
	s := a.s
	for _, m := range s.w.Find(0, proto.SERVER_REGISTER, "", "C") {
		if !m.Bad {
			pool.Add(bi(m.B("public_key")), s.w.Name+" key of "+m.From)
		}
	}
	for _, m := range s.w.Find(0, proto.UPDATE_PEDERSEN_H, "", "C") {
		if !m.Bad {
			pool.Add(bi(m.B("h")), s.w.Name+" update of "+m.From)
		}
	}
	// the round keys show in the generator that the first server sends
	for _, m := range s.w.Find(0, proto.ANNOUNCEMENT, "", "") {
		if !m.Bad && m.From != "C" {
			pool.Add(bi(m.B("g")), fmt.Sprint(s.w.Name, " generator of ", m.From, m.Seq))
		}
	}
	rep := s.w.Find(0, proto.SERVER_REGISTER_REPLY, "C", "")
	if len(rep) == 0 {
		return
	}
	n0 := s.w.Len()
	for i := 0; i < c.Scale(6, 20); i++ {
		for _, n := range s.servers {
			ps := clone(rep[0].Ev.Params)
			ps["h"] = pad64(grpG)
			s.bad("a factor on the generator", "C", n.name, proto.SERVER_REGISTER_REPLY, ps)
		}
	}
	s.w.Settle()
	for _, m := range s.w.Find(n0, proto.UPDATE_PEDERSEN_H, "", "C") {
		h := bi(m.B("h"))
		pool.Add(h, fmt.Sprint(s.w.Name, " probe of ", m.From, m.Seq))
		if e, ok := small[hx(h)]; ok {
			s.miss("C21", "the factor of a server is small", "%s: %d", m.From, e)
		}
		c.Count("factors seen on the generator", 1)
	}
}

func runC21(c *Check) {
	pool := c.NewPool("power of the generator")
	small := map[string]int{}
	for x, e := new(big.Int).Set(one), 0; e < 1<<16; e++ {
		small[hx(x)] = e
		small[hx(ginv(x))] = -e
		x = gmul(x, grpG)
		if e%256 == 255 && e > 1<<12 && c.Tier != "thorough" {
			break
		}
	}
	var mu sync.Mutex
	c.RunWorlds(1, c.Scale(11, 60), 8, func(i int, r *Rng, ctrl bool) WorldCfg {
		a := &serverAtk{n: 1 + i%6}
		cfg := WorldCfg{Models: 2, Rounds: c.Scale(1, 3), Play: defaultPlay}
		cfg.Play.Posts, cfg.Play.Requests = 2, 1
		var late *Node
		cfg.Boot = func(s *Sim) error {
			a.s = s
			s.w.Shuffle = true
			err := a.boot(ctrl)
			cfg.Servers = a.n
			return err
		}
		cfg.Round = func(s *Sim) {
			if ctrl {
				return
			}
			a.junkH(fmt.Sprint("in round ", min(s.round, 1)))
			if s.round == 0 {
				// a server that is too late
				s.hostile("a server that is too late")
				late = s.w.AddServer()
				s.w.WaitFor("the late server", func() bool { return len(s.w.match(0, proto.SERVER_REGISTER, late.name, "C")) > 0 })
				s.w.Settle()
				s.bad("update of h by a late server", late.name, "C", proto.UPDATE_PEDERSEN_H, map[string]interface{}{"h": pad64(gexp(grpG, bi(s.rng.Bytes(64))))})
				s.w.Settle()
			}
		}
		cfg.End = func(s *Sim) {
			mu.Lock()
			defer mu.Unlock()
			s.w.mu.Lock()
			for _, m := range s.w.Log {
				if late != nil && m.To == late.name && !m.Bad {
					s.miss("C21", "a server that is too late takes part", "%v", m)
				}
			}
			s.w.mu.Unlock()
			a.scan()
			a.probe(c, pool, small)
		}
		return cfg
	})
	pool.Wide(grpP.BitLen())
}
