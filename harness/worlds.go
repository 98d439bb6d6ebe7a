package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"zRep/proto"
)

// WorldCfg describes one run of a whole system.
type WorldCfg struct {
	Servers  int
	Models   int
	Reals    int
	Late     int // further model clients that come in later rounds
	LateReal int
	Rounds   int // rounds after the first, in which clients only register
	Together bool
	Race     bool
	Control  bool // without the attacks that the check is about
	Chal     bool // model clients check the honesty proof
	Play     PlayOpts
	PlayFor  func(r int) PlayOpts // play of round r, instead of Play
	Setup    func(s *Sim)
	Boot     func(s *Sim) error // replaces the start of the coordinator and the servers
	// Round is called at the beginning of each round
	Round func(s *Sim)
	End   func(s *Sim)
	// Last, when set, replaces the end of the last round
	Last func(s *Sim) error
	// Config is called before the first round
	Config func(s *Sim)
	// Drive, when set, replaces the usual rounds
	Drive func(s *Sim) error
}

var defaultPlay = PlayOpts{Posts: 3, Requests: 2, Up: 0.65, VoteP: 0.85, Shuffle: true, Settle: 0.15}

// RunWorld runs a system and returns its referee with all mismatches.
func RunWorld(c *Check, name string, rng *Rng, cfg WorldCfg) (s *Sim, inconclusive bool) {
	s = NewSim(c, name, buildSUT(cfg.Race), rng)
	if cfg.Race {
		s.pace = 1200 * time.Millisecond
	}
	err := func() error {
		if cfg.Setup != nil {
			cfg.Setup(s)
		}
		if cfg.Drive != nil {
			return cfg.Drive(s)
		}
		if cfg.Boot != nil {
			if err := cfg.Boot(s); err != nil {
				return err
			}
		} else if err := s.Boot(cfg.Servers, cfg.Together); err != nil {
			return err
		}
		for i := 0; i < cfg.Models; i++ {
			cl := s.AddModel()
			if cfg.Chal {
				s.withChallenge(cl)
			}
			cl.m.Register()
		}
		s.w.Settle()
		if cfg.Config != nil {
			cfg.Config(s)
			s.w.Settle()
		}
		if err := s.Open(); err != nil {
			return err
		}
		for i := 0; i < cfg.Reals; i++ {
			s.AddReal()
		}
		if err := s.waitReals(); err != nil {
			return err
		}
		late, lateReal := cfg.Late, cfg.LateReal
		for r := 0; r <= cfg.Rounds; r++ {
			if cfg.Round != nil {
				cfg.Round(s)
			}
			if r > 0 {
				if late > 0 && s.rng.Chance(0.6) {
					late--
					s.AddModel().m.Register()
				}
				if lateReal > 0 {
					lateReal--
					s.AddReal()
				}
				play := cfg.Play
				if cfg.PlayFor != nil {
					play = cfg.PlayFor(r)
				}
				if err := s.Play(play); err != nil {
					return err
				}
			} else if err := s.AskVotes(); err != nil {
				return err
			}
			if err := s.waitReals(); err != nil {
				return err
			}
			if cfg.Last != nil && r == cfg.Rounds {
				return cfg.Last(s)
			}
			if err := s.CloseRound(); err != nil {
				return err
			}
		}
		if cfg.End != nil {
			cfg.End(s)
		}
		return nil
	}()
	inconclusive = s.Fail(err, "ALL")
	if d := s.w.DeadProcs(); err == nil && len(d) > 0 {
		s.miss("ALL,C18,C06", "a process ends", "%s", strings.Join(d, "; "))
	}
	if inconclusive {
		c.Inconclusive(fmt.Sprintf("%s: %v", name, err))
	}
	if s.w.faults > 0 {
		inconclusive = true
		c.Inconclusive(fmt.Sprintf("%s: %s", name, strings.Join(s.w.errs, "; ")))
	}
	s.w.Close()
	return
}

// waitReals waits until the real clients have checked the coordinator's parameters.
func (s *Sim) waitReals() error {
	for _, c := range s.cls {
		if c.k == nil || c.dead || c.left {
			continue
		}
		c := c
		if err := s.w.WaitFor(c.name+" to be registered", func() bool {
			last := 0
			for _, m := range s.w.match(0, proto.CLIENT_REGISTER_CONTROLLERSIDE, c.name, "C") {
				if !m.Bad {
					last = m.Seq
				}
			}
			for _, m := range s.w.match(0, proto.GN_HONESTY_ANSWER, "C", c.name) {
				if m.DSeq > 0 && last > 0 && m.Seq > last {
					return true
				}
			}
			return false
		}); err != nil {
			return err
		}
	}
	s.w.Settle()
	return nil
}

// Report turns the mismatches of a world that concern the property into violations. extra adds the mismatches of a
// world under attack that its control run did not have.
func (c *Check) Report(s *Sim, extra bool) {
	for _, m := range s.mm {
		mine := extra
		for _, t := range strings.Split(m.Tags, ",") {
			if t == c.Prop || t == "ALL" {
				mine = true
			}
		}
		if mine {
			c.Violate(m.Key, m.Detail, s.w.Trace()...)
		}
	}
}

// Signature summarises what a world did, to count distinct ones.
func (s *Sim) Signature() string {
	var l []string
	for _, m := range s.w.Log {
		l = append(l, fmt.Sprint(m.From, m.To, m.Type()))
	}
	xs := []int{}
	for _, c := range s.cls {
		xs = append(xs, c.x)
	}
	sort.Ints(xs)
	return strings.Join(l, ";") + fmt.Sprint(xs)
}

// An outcome is what one world of a check showed.
type outcome struct {
	s    *Sim
	ctrl bool
	inc  bool
}

// RunWorlds runs control worlds and worlds under attack. In a control world only what concerns the property counts;
// in a world under attack every mismatch does that no control world had.
func (c *Check) RunWorlds(control, attack, workers int, mk func(i int, r *Rng, ctrl bool) WorldCfg) []*outcome {
	outs := make([]*outcome, control+attack)
	c.Parallel("world", control+attack, workers, func(i int, r *Rng) {
		if only := os.Getenv("ZREP_ONLY"); only != "" && only != fmt.Sprint(i) { // for the development of the harness
			return
		}
		ctrl := i >= attack
		cfg := mk(i, r, ctrl)
		cfg.Control = ctrl
		name := fmt.Sprintf("%s-%d", c.Prop, i)
		if ctrl {
			name += "-control"
		}
		s, inc := RunWorld(c, name, r, cfg)
		outs[i] = &outcome{s, ctrl, inc}
	})
	usual := map[string]bool{}
	for _, o := range outs {
		if o != nil && o.ctrl {
			for _, m := range o.s.mm {
				usual[m.Key] = true
			}
		}
	}
	var res []*outcome
	for _, o := range outs {
		if o == nil {
			continue
		}
		res = append(res, o)
		for _, m := range o.s.mm {
			mine := !o.ctrl && !usual[m.Key]
			for _, t := range strings.Split(m.Tags, ",") {
				if t == c.Prop || t == "ALL" {
					mine = true
				}
			}
			if mine {
				c.Violate(m.Key, m.Detail, o.s.w.Trace()...)
			}
		}
		for k := 0; k < o.s.roundsOK; k++ {
			c.Eval(fmt.Sprint(o.s.Signature(), k))
		}
		c.Count("worlds", 1)
		c.Count("messages", len(o.s.w.Log))
		c.Sample("world", fmt.Sprintf("%s: %d servers, %d clients, %d rounds, %d messages, %d hostile actions", o.s.w.Name, len(o.s.servers), len(o.s.cls), o.s.roundsOK, len(o.s.w.Log), o.s.attacks))
	}
	return res
}

// hostile notes a hostile action of a kind.
func (s *Sim) hostile(kind string) {
	s.mu.Lock()
	s.attacks++
	s.mu.Unlock()
	s.c.Count("attack "+kind, 1)
	s.c.Eval(fmt.Sprint(kind, s.w.Name, s.attacks))
}

// bad sends a message that must not have any effect.
func (s *Sim) bad(kind, from, to string, typ int, ps map[string]interface{}) *Msg {
	s.hostile(kind)
	return s.w.SendBad(from, to, ev(typ, ps), kind)
}
