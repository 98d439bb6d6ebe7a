package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"zRep/proto"
)

func init() {
	register("C19", "one evaluation is one message that a process under the race detector has taken while its main loop or its user was active; distinct by the kind of process, the type, the type that it took before, and the step of the life cycle", runC19)
}

// racy is a program with a race, to see that the detector works here.
const racy = `package main

import "time"

var x int

func main() {
	go func() { x++ }()
	time.Sleep(50 * time.Millisecond)
	x++
}
`

func calibrate(c *Check) {
	d, err := os.MkdirTemp(scratchRoot, "racy")
	if err != nil {
		c.Inconclusive(err.Error())
		return
	}
	os.WriteFile(filepath.Join(d, "main.go"), []byte(racy), 0o644)
	os.WriteFile(filepath.Join(d, "go.mod"), []byte("module racy\n\ngo 1.16\n"), 0o644)
	cmd := exec.Command(goBin, "build", "-race", "-o", "racy", ".")
	cmd.Dir = d
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
	if out, err := cmd.CombinedOutput(); err != nil {
		c.Inconclusive("cannot build with the race detector: " + string(out))
		return
	}
	cmd = exec.Command(filepath.Join(d, "racy"))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(d, "race"))
	cmd.Run()
	files, _ := filepath.Glob(filepath.Join(d, "race.*"))
	for _, f := range files {
		if b, _ := os.ReadFile(f); strings.Contains(string(b), "DATA RACE") {
			c.Count("races seen in a program that has one", 1)
			return
		}
	}
	c.Inconclusive("the race detector does not see a race here")
}

var frameRe = regexp.MustCompile(`(?m)^  (\S+)\(.*\)\n`)

// raceKey names a race by the functions on top of both stacks.
func raceKey(report string) string {
	var tops []string
	for _, part := range regexp.MustCompile(`(?m)^(?:Previous )?(?:[Rr]ead|[Ww]rite|[Aa]tomic \w+) at .*\n`).Split(report, -1)[1:] {
		part = strings.Split(part, "\n\n")[0]
		top := ""
		for _, m := range frameRe.FindAllStringSubmatch(part+"\n", -1) {
			if top == "" || !strings.HasPrefix(top, "zRep/") && strings.HasPrefix(m[1], "zRep/") {
				top = m[1]
			}
		}
		tops = append(tops, top)
	}
	sort.Strings(tops)
	return strings.Join(tops, " and ")
}

func runC19(c *Check) {
	calibrate(c)
	kinds := []struct {
		name string
		mk   func(i int, r *Rng, ctrl bool) WorldCfg
	}{{"phases", phaseWorld(c)}, {"joining", joinWorld(c)}, {"garbage", garbageWorld(c)}}
	n := c.Scale(10, 56)
	c.Parallel("world", n, 6, func(i int, r *Rng) {
		if only := os.Getenv("ZREP_ONLY"); only != "" && only != fmt.Sprint(i) { // for the development of the harness
			return
		}
		var cfg WorldCfg
		name := fmt.Sprintf("%s-%d", c.Prop, i)
		switch {
		case i%5 < 3:
			k := kinds[i%5]
			cfg = k.mk(i+1, r.Sub("cfg"), false)
			cfg.Rounds = c.Scale(2, 4)
			if cfg.Reals == 0 {
				cfg.Reals = 1
			}
			name += "-" + k.name
		default:
			cfg = WorldCfg{}
			cfg.Drive = func(s *Sim) error { return crowd(s, 1+i%3, i%5 == 4) }
			name += "-crowd"
		}
		cfg.Race = true
		s, _ := RunWorld(c, name, r, cfg)
		c.Count("worlds", 1)
		races := s.w.Races()
		c.Count("race reports", len(races))
		seen := map[string]bool{}
		for _, t := range races {
			k := raceKey(t)
			if !seen[k] {
				seen[k] = true
				c.Violate("a data race", k+" in "+name, strings.Split(t, "\n")...)
			}
		}
		// what was there to be seen
		last := map[string]string{}
		step := ""
		w := s.w
		w.mu.Lock()
		log := append([]*Msg{}, w.Log...)
		w.mu.Unlock()
		sort.SliceStable(log, func(i, j int) bool { return log[i].DSeq < log[j].DSeq })
		for _, m := range log {
			if m.DSeq <= 0 {
				continue
			}
			t := "bytes"
			if m.Ev != nil {
				t = evName[m.Type()]
			}
			if m.From == "C" && m.Ev != nil {
				switch m.Type() {
				case proto.ANNOUNCEMENT, proto.ANNOUNCEMENT_FINALIZE, proto.VOTE, proto.ROUND_END, proto.BCAST_PEDERSEN_H:
					step = t
				}
			}
			kind := m.To[:1]
			if kind == "m" {
				continue
			}
			c.Eval(kind + " " + t + " after " + last[m.To] + " in " + step)
			c.Count("messages taken by "+map[string]string{"C": "coordinators", "s": "servers", "k": "clients"}[kind], 1)
			last[m.To] = t
		}
		c.Sample("world", fmt.Sprintf("%s: %d servers, %d clients, %d rounds, %d messages, %d race reports", name, len(s.servers), len(s.cls), s.roundsOK, len(log), len(races)))
	})
}

// crowd runs a system in which everybody does what they like at any time: users type commands and ENTER, clients come,
// and messages are sent again. Nothing but the race detector judges it.
func crowd(s *Sim, servers int, again bool) error {
	w, r := s.w, s.rng
	if err := s.Boot(servers, true); err != nil {
		return err
	}
	var imu sync.Mutex
	gets, got := map[string]int{}, map[string]time.Time{}
	var ks []*Node
	add := func() {
		c := s.AddReal()
		imu.Lock()
		ks = append(ks, c.k)
		imu.Unlock()
		s.c.Count("client programs in crowds", 1)
	}
	add()
	// many small messages, so that the listener is never idle while the main loop goes on
	blast := func(n int) {
		ts := []int{proto.POST_BRIDGE, proto.REQUEST_BRIDGES, proto.VOTE, proto.GOT_SIGNS, proto.ANNOUNCEMENT, proto.ROUND_END, proto.SERVER_REGISTER, proto.GN_HONESTY_CHALLENGE}
		for i := 0; i < n; i++ {
			w.SendBad("m0", "C", ev(ts[r.IntN(len(ts))], map[string]interface{}{}), "blast")
		}
		s.c.Count("small messages around an ENTER", n)
	}
	nap := func(ms int) { time.Sleep(time.Duration(r.IntN(ms*1000+1)) * time.Microsecond) }
	if r.Bool() {
		s.AddModel().m.Register()
	}
	// The detector takes what is read from a pipe or connection for later than anything written to one before. What a
	// command does without a lock is only seen when it was typed before the listener, busy with a message, says the
	// next word.
	ir := r.Sub("typing")
	s.icept = func(m *Msg) []*Msg {
		if m.To == "" || m.To[0] != 'k' || m.Ev == nil {
			return []*Msg{m}
		}
		imu.Lock()
		do, what, ms := ir.Chance(0.7), ir.IntN(4), time.Duration(ir.IntN(25000))*time.Microsecond
		imu.Unlock()
		if !do {
			return []*Msg{m}
		}
		line := ""
		from, certs := 0, 0
		for _, x := range w.Find(0, proto.ANNOUNCEMENT_FINALIZE, "C", m.To) {
			if x.Seq < m.Seq {
				from = x.Seq
			}
		}
		for _, x := range w.Find(0, proto.GOT_SIGNS, "C", m.To) {
			if x.Seq > from && x.Seq < m.Seq && !x.Bad && m.When-x.When > 400*time.Millisecond {
				certs++
			}
		}
		imu.Lock()
		if len(w.Find(0, proto.REQUEST_BRIDGES, m.To, "C")) < gets[m.To] && what > 0 { // busy
			certs = 0
		}
		imu.Unlock()
		switch m.Type() {
		case proto.GOT_SIGNS:
			if certs > 0 {
				line = "vote 0 1"
			}
		case proto.ANNOUNCEMENT_FINALIZE:
			line = "post " + s.addr()
			if what == 0 {
				line = "get 1"
			}
			if what > 1 && certs > 0 { // when it has forgotten the assignments already, it ends
				line = "vote 0 1"
			}
		case proto.VOTE, proto.ROUND_END, proto.BCAST_PEDERSEN_RDIFF:
			line = "post " + s.addr()
		}
		if line != "" {
			imu.Lock()
			now := append([]*Node{}, ks...)
			imu.Unlock()
			for _, k := range now {
				if k.name == m.To && !k.proc.Dead() {
					k := k
					go func() {
						time.Sleep(ms)
						k.Type(line)
					}()
					s.c.Count(line[:4]+" typed while a client takes "+evName[m.Type()], 1)
				}
			}
		}
		return []*Msg{m}
	}
	blast(80)
	s.Enter()
	steps := s.c.Scale(260, 900)
	tables, entered, voted := 0, 0, 0
	since, opened := 0, time.Now()
	// most rounds last until there was something to do in every phase
	haste := func() float64 {
		certs := 0
		for _, k := range ks {
			certs += len(w.Find(since, proto.GOT_SIGNS, "C", k.name))
		}
		late := time.Since(opened)
		switch {
		case entered == 0 && certs < 2 && late < 8*time.Second && tables > 1, entered == 1 && voted < 6 && certs > 1 && late < 12*time.Second:
			return 0.002
		case entered < 2:
			return 0.1
		}
		return 0.15
	}
	for i := 0; i < steps || tables < 4 && i < 3*steps; i++ {
		// the coordinator takes up to a second to notice that a round has opened; what it does then is to meet others
		if n := len(w.Find(0, proto.ANNOUNCEMENT_FINALIZE, "C", s.servers[0].name)); n > tables {
			tables, entered, voted = n, 0, 0
			since, opened = w.Len(), time.Now()
			s.c.Count("tables in crowds", 1)
			if r.Chance(0.8) {
				time.Sleep(1500 * time.Millisecond)
				if len(s.cls) < 30 {
					s.AddModel().m.Register()
				}
			}
		}
		switch x := r.IntN(100); {
		case r.Chance(haste()) && len(w.Find(0, proto.ANNOUNCEMENT_FINALIZE, "C", "")) > 0:
			if r.Chance(0.5) {
				blast(30)
			}
			s.Enter()
			s.c.Count("ENTERs in crowds", 1)
			if entered++; entered == 1 && r.Chance(0.8) && len(s.cls) < 30 {
				nap(100)
				s.AddModel().m.Register()
			}
		case x < 15 && len(ks) < 5:
			add()
		case x < 18 && len(s.cls) < 12:
			s.AddModel().m.Register()
		case x < 30 && again:
			w.mu.Lock()
			var m *Msg
			if len(w.Log) > 0 {
				m = w.Log[r.IntN(len(w.Log))]
			}
			w.mu.Unlock()
			if m == nil || m.Ev == nil || m.To == "" || m.To[0] == 'm' || m.To[0] == 'k' && m.Type() == proto.CLIENT_REGISTER_CONFIRMATION {
				continue
			}
			w.SendBad(m.From, m.To, m.Ev, "again")
			s.c.Count("messages sent again in crowds", 1)
		default:
			j := r.IntN(len(ks))
			k := ks[j]
			if k.proc.Dead() {
				continue
			}
			// a command that takes the lock hides what one before it did without, so that not every client uses all of them
			what := r.IntN(3)
			switch j % 3 {
			case 1:
				what = 0
			case 2:
				what = 1 + r.IntN(2)
				if len(w.Find(since, proto.GOT_SIGNS, "C", k.name)) > 0 && r.Chance(0.93) {
					what = 2
				}
			}
			switch what {
			case 0:
				k.Type("post " + s.addr())
			case 1:
				// making a request takes a while; what is typed meanwhile has to wait
				if len(w.Find(0, proto.REQUEST_BRIDGES, k.name, "C")) < gets[k.name] && time.Since(got[k.name]) < 4*time.Second {
					continue
				}
				imu.Lock()
				gets[k.name]++
				got[k.name] = time.Now()
				imu.Unlock()
				k.Type(fmt.Sprint("get ", 1+r.IntN(6)))
			default:
				v := "1"
				if r.Chance(0.4) {
					v = "-1"
				}
				// a vote on an assignment that the client does not have ends the program
				n, from := 0, 0
				if l := w.Find(0, proto.ANNOUNCEMENT_FINALIZE, "C", k.name); len(l) > 0 {
					from = l[len(l)-1].Seq
				}
				for _, m := range w.Find(0, proto.GOT_SIGNS, "C", k.name) {
					if m.Seq > from && !m.Bad && time.Since(w.start)-m.When > 200*time.Millisecond {
						n++
					}
				}
				if n > 0 {
					// its listener is busy meanwhile
					if l := w.Find(0, proto.GOT_SIGNS, "C", k.name); len(l) > 0 {
						for i := 0; i < 8; i++ {
							w.SendBad("C", k.name, l[len(l)-1].Ev, "again")
						}
					}
					nap(60)
					k.Type(fmt.Sprint("vote ", r.IntN(n), " ", v))
					voted++
					s.c.Count("votes typed in crowds", 1)
				}
			}
			s.c.Count("commands in crowds", 1)
		}
		if r.Chance(0.5) {
			nap(30)
		} else if r.Chance(0.1) {
			nap(1500)
		}
	}
	for i := 0; i < 8; i++ {
		nap(1500)
		s.Enter()
	}
	time.Sleep(time.Second)
	for _, k := range ks {
		if !k.proc.Dead() {
			k.proc.quit = true
			k.Type("exit")
		}
	}
	time.Sleep(300 * time.Millisecond)
	return nil
}
