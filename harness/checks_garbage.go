package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"net"
	"os"
	"strconv"
	"strings"
	"time"

	"zRep/proto"
	"zRep/util"
)

func init() {
	register("C18", "one evaluation is one hostile message, connection or departure, sent to a running coordinator or server, or one round that went on: the processes must live and the round must end as the referee, which ignores it, predicts; distinct by kind, receiver, phase and world", runC18)
}

// garbage sends what no participant would.
type garbage struct {
	s     *Sim
	i     int
	skip  float64 // the share of variants that are left out
	open  []net.Conn
	gone  int
	huge  bool // numbers and messages of excessive size
	slow  bool // stalled connections
	leave bool // clients leave
	ghost bool // registrations with strange addresses
}

func runC18(c *Check) {
	c.RunWorlds(1, c.Scale(10, 40), 11, garbageWorld(c))
}

// garbageWorld is a world with malformed messages, idle connections and clients that leave.
func garbageWorld(c *Check) func(i int, r *Rng, ctrl bool) WorldCfg {
	return func(i int, r *Rng, ctrl bool) WorldCfg {
		play := defaultPlay
		cfg := WorldCfg{Servers: 1 + i%3, Models: 4, Reals: i % 2, Rounds: c.Scale(2, 5), Play: play}
		a := &garbage{i: i, skip: 0.75}
		if c.Scale(0, 1) == 1 {
			a.skip = 0.3
		}
		if !ctrl {
			a.huge, a.slow, a.leave, a.ghost = i%5 == 0, i%5 == 1, i%5 >= 2, i%5 == 3
		}
		cfg.Setup = func(s *Sim) {
			a.s = s
			s.slowly = true
			s.lateReg = func() {
				if s.rng.Chance(0.4) {
					s.AddModel().m.Register()
				}
			}
			if !ctrl {
				s.attack = a.stage
			}
		}
		if !ctrl {
			cfg.Config = func(s *Sim) { a.stage("config") }
		}
		cfg.End = func(s *Sim) { a.memory() }
		return cfg
	}
}

func (a *garbage) stage(stage string) {
	s, r := a.s, a.s.rng
	s.c.Count("attacks in stage "+stage, 1)
	if a.leave && stage != "config" && r.Chance(0.4) {
		a.departure(stage)
	}
	if a.ghost && r.Chance(0.5) {
		a.strangers(stage)
	}
	targets := append([]*Node{s.w.C}, s.chain...)
	for _, n := range targets {
		if a.skip > 0.5 && stage != "config" && r.Chance(0.4) {
			continue
		}
		a.bytes(n, stage)
		a.envelopes(n, stage)
		a.malformed(n, stage)
	}
	s.w.Settle()
	if a.slow && (stage == "mid" || stage == "ending" || stage == "config") {
		a.connections(targets[r.IntN(len(targets))], stage)
	}
	if a.huge && stage == "assigned" && s.round == 1 {
		a.numbers()
		for _, n := range targets[:2] {
			a.flood(n)
		}
	}
	s.w.Settle()
}

func (a *garbage) raw(kind string, n *Node, data []byte) {
	a.s.hostile(kind)
	a.s.w.Queue(&Msg{From: "?", To: n.name, Raw: data, Bad: true, Tag: kind})
}

// someone is the name of a client that the harness plays.
func (a *garbage) someone() string {
	for _, c := range a.s.cls {
		if c.m != nil && !c.left {
			return c.name
		}
	}
	return "m0"
}

// bytes sends byte strings that are no messages.
func (a *garbage) bytes(n *Node, stage string) {
	r := a.s.rng
	for k := 0; k < 6; k++ {
		a.raw("random bytes", n, r.Bytes(r.IntN([]int{4, 40, 400, 5000}[k%4])))
	}
	// length prefixes of gob, with and without what they announce
	for _, v := range []uint64{0, 1, 127, 1 << 20, 1 << 30, 1<<31 - 1, 1 << 40, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
		b := make([]byte, 8)
		binary.BigEndian.PutUint64(b, v)
		if v < 128 {
			b = []byte{byte(v)}
		} else {
			for len(b) > 1 && b[0] == 0 {
				b = b[1:]
			}
			b = append([]byte{byte(256 - len(b))}, b...)
		}
		a.raw("a length prefix", n, append(b, r.Bytes(r.IntN(3)*50)...))
	}
	// parts of messages
	ps := map[string]interface{}{"bridge_addr": "part:1", "nym": r.Bytes(64), "signature": r.Bytes(128), "feedback": 1, "more": map[string]int{"x": 1}}
	delete(ps, "more")
	whole := encodeEvent(&proto.Event{EventType: proto.VOTE, Params: ps, SrcAddr: "127.0.0.1:9"})
	for k := 0; k < 8; k++ {
		a.raw("a truncated message", n, whole[:r.IntN(len(whole))])
		f := append([]byte{}, whole...)
		for j := 0; j <= r.IntN(4); j++ {
			f[r.IntN(len(f))] ^= byte(1 << r.IntN(8))
		}
		a.raw("a message with flipped bits", n, f)
		i, j := r.IntN(len(whole)), r.IntN(len(whole))
		a.raw("parts of a message in another order", n, append(append([]byte{}, whole[i:]...), whole[:j]...))
	}
	// numbers inside a message set to extremes
	for k := 0; k < 6; k++ {
		f := append([]byte{}, whole...)
		i := r.IntN(len(f))
		copy(f[i:], []byte{0xf8, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}[:min(9, len(f)-i)])
		a.raw("a message with an extreme length", n, f)
	}
}

var strangeAddrs = []string{"", ":", ":0", "x", "127.0.0.1", "127.0.0.1:", "127.0.0.1:99999", "127.0.0.1:-1", "300.1.1.1:80", "127.0.0.1:80:80", "[::1]:9", "[::1", "127.0.0.1:http", "\x00", "0.0.0.0:0", "255.255.255.255:9"}

// envelopes sends events of all types with strange envelopes and nothing, or too much in them.
func (a *garbage) envelopes(n *Node, stage string) {
	s, r := a.s, a.s.rng
	send := func(kind string, e *proto.Event) {
		s.hostile(kind)
		s.w.Queue(&Msg{From: "?", To: n.name, Ev: e, Bad: true, Tag: kind, KeepSrc: true})
	}
	for t := -1; t < 42; t++ {
		if r.Chance(0.4) {
			continue
		}
		send("an empty event", &proto.Event{EventType: t, Params: map[string]interface{}{}, SrcAddr: strangeAddrs[r.IntN(len(strangeAddrs))]})
	}
	for _, t := range []int{-1 << 62, 1<<63 - 1, 1 << 40, 255} {
		send("an event of no type", &proto.Event{EventType: t, Params: map[string]interface{}{"x": 1}, SrcAddr: "127.0.0.1:9"})
	}
	send("an event without parameters", &proto.Event{EventType: []int{proto.VOTE, proto.POST_BRIDGE, proto.REQUEST_BRIDGES, proto.SIGN_ASSIGNMENTS}[r.IntN(4)], SrcAddr: "127.0.0.1:9"})
	many := map[string]interface{}{}
	for i := 0; i < 3000; i++ {
		many[fmt.Sprint("p", i)] = i
	}
	send("an event with many parameters", &proto.Event{EventType: proto.VOTE, Params: many, SrcAddr: "127.0.0.1:9"})
	big := r.Bytes(1 << 20)
	for _, t := range []int{proto.VOTE, proto.POST_BRIDGE, proto.REQUEST_BRIDGES, proto.GN_HONESTY_CHALLENGE, proto.SIGN_ASSIGNMENTS, proto.CLIENT_REGISTER_CONTROLLERSIDE} {
		if !r.Chance(0.15) {
			continue
		}
		ps := map[string]interface{}{}
		for _, k := range []string{"nym", "signature", "bridge_addr", "assignment", "signatures", "assignments", "honesty_chal", "public_key", "PCommind"} {
			ps[k] = big
		}
		ps["bridge_addr"], ps["ind"], ps["feedback"] = string(big), 1, 1
		send("an event full of random bytes", &proto.Event{EventType: t, Params: ps, SrcAddr: "127.0.0.1:9"})
	}
}

// How the values of a message can be wrong.
const (
	fPoint  = 1 << iota // the encoding of one group element or secret, or a signature
	fList               // the encoding of a list or of a proof
	fOpen               // anything is an encoding, of something
	fString             // a string
	fAddr               // an address
	fOther              // a number or a truth value
)

type field struct {
	key  string
	kind int
}

var foKeys = []field{{"n", fOpen}, {"g1", fOpen}, {"g2", fOpen}, {"g3", fOpen}, {"g4", fOpen}, {"g5", fOpen}, {"g6", fOpen}, {"h1", fOpen}}
var requestFields = []field{{"nym", fPoint}, {"ind", fOther}, {"FOCommd", fOpen}, {"PCommd", fPoint}, {"PCommind", fPoint}, {"rind", fPoint}, {"arg_nonneg", fList}, {"arg_equal", fList}}
var chainFields = []field{{"keys", fList}, {"vals", fList}, {"GT", fPoint}, {"HT", fPoint}}

var coordFields = map[int][]field{
	proto.POST_BRIDGE:                    {{"bridge_addr", fString}, {"nym", fPoint}, {"signature", fPoint}},
	proto.REQUEST_BRIDGES:                append([]field{{"signature", fPoint}}, requestFields...),
	proto.VOTE:                           {{"nym", fPoint}, {"assignment", fList}, {"signatures", fList}, {"feedback", fOther}, {"signature", fPoint}},
	proto.CLIENT_REGISTER_CONTROLLERSIDE: {{"public_key", fPoint}},
	proto.CLIENT_REGISTER_SERVERSIDE:     {{"public_key", fPoint}, {"addr", fAddr}, {"pcomm", fPoint}},
	proto.GOT_SIGNS:                      {{"success", fOther}, {"assignments", fList}, {"signatures", fList}},
	proto.ANNOUNCEMENT:                   append([]field{{"g", fPoint}}, chainFields...),
	proto.ROUND_END:                      {{"keys", fList}, {"vals", fList}},
	proto.SERVER_REGISTER:                {{"public_key", fPoint}},
	proto.UPDATE_PEDERSEN_H:              {{"h", fPoint}},
}
var serverFields = map[int][]field{
	proto.SERVER_REGISTER_REPLY:      append([]field{{"reply", fOther}, {"prev_server", fAddr}, {"h", fPoint}}, foKeys...),
	proto.UPDATE_NEXT_HOP:            {{"next_hop", fAddr}},
	proto.CLIENT_REGISTER_SERVERSIDE: {{"public_key", fPoint}},
	proto.BCAST_PEDERSEN_H:           {{"h", fPoint}},
	proto.ANNOUNCEMENT_FINALIZE:      append([]field{{"g", fPoint}}, chainFields...),
	proto.SIGN_ASSIGNMENTS:           append([]field{{"assignments", fList}}, requestFields...),
	proto.ANNOUNCEMENT:               chainFields,
	proto.ROUND_END:                  chainFields[:2],
}

// wrong returns values that are none of the kind.
func wrong(r *Rng, v interface{}, kind int) (res []interface{}) {
	others := []interface{}{"", "text", 7, int64(3), 2.5, true, []byte{1}, []string{"a"}, []int{1, 2}, uint8(4), []byte{}}
	for _, o := range others {
		same := fmt.Sprintf("%T", o) == fmt.Sprintf("%T", v)
		if !same {
			res = append(res, o)
		}
	}
	b, isBytes := v.([]byte)
	if !isBytes || len(b) == 0 {
		if kind == fAddr {
			res = append(res, "x", "127.0.0.1", "127.0.0.1:99999", "1.2.3.4:5:6")
		}
		return
	}
	fill := func(x byte) []byte {
		f := make([]byte, len(b))
		for i := range f {
			f[i] = x
		}
		return f
	}
	switch kind {
	case fPoint:
		// a group element may also be encoded in fewer bytes, or with leading zeros
		res = append(res, []byte{}, append(append([]byte{}, b...), bytes.Repeat([]byte{0xff}, 64)...), fill(0xff))
	case fList:
		res = append(res, b[:len(b)-1], fill(0xff), []byte{})
	}
	return
}

// malformed sends messages of all types that are complete and valid but for one value.
func (a *garbage) malformed(n *Node, stage string) {
	s, r := a.s, a.s.rng
	fields := serverFields
	if n == s.w.C {
		fields = coordFields
	}
	real := map[string]bool{}
	for _, c := range s.cls {
		if c.k != nil {
			real[c.k.front.addr] = true
		}
	}
	last := map[int]*Msg{}
	s.w.mu.Lock()
	for _, m := range s.w.Log {
		if m.To == n.name && m.Ev != nil && !m.Bad && !real[m.S("addr")] {
			last[m.Type()] = m // perhaps still on its way
		}
	}
	s.w.mu.Unlock()
	var types []int
	for t := range fields {
		types = append(types, t)
	}
	var mod []*Cl
	for _, c := range s.cls {
		if c.m != nil && !c.left {
			mod = append(mod, c)
		}
	}
	for _, t := range sortedInts(types) {
		var ps map[string]interface{}
		from := a.someone()
		if m := last[t]; m != nil {
			ps, from = clone(m.Ev.Params), m.From
			for k, v := range ps {
				if v == interface{}(s.w.C.real) {
					ps[k] = s.w.addrOf("C", n.name)
				}
			}
		}
		if s.phase == "MESSAGE" && n == s.w.C && len(mod) > 0 {
			c := mod[r.IntN(len(mod))]
			switch {
			case t == proto.POST_BRIDGE && c.m.In():
				ps, from = c.m.postParams(fmt.Sprintf("bad%d:1", r.IntN(1000))), c.name
			case t == proto.REQUEST_BRIDGES && c.m.In() && c.m.x >= 1 && r.Chance(0.4):
				ps, from = mustReq(c, 1), c.name
			case t == proto.VOTE && c.m.In() && len(c.m.Certs()) > 0:
				ps, from = c.m.voteParams(c.m.Certs()[0], 1), c.name
			}
		}
		if t == proto.CLIENT_REGISTER_CONTROLLERSIDE {
			ps, from = map[string]interface{}{"public_key": pad64(elem(r))}, a.someone()
		}
		if t == proto.SERVER_REGISTER && ps == nil {
			ps = map[string]interface{}{"public_key": pad64(elem(r))}
		}
		if ps == nil {
			continue
		}
		for _, f := range fields[t] {
			v, ok := ps[f.key]
			if !ok {
				continue
			}
			name := evName[t] + " to the coordinator"
			if n != s.w.C {
				name = evName[t] + " to a server"
			}
			ws := wrong(r, v, f.kind)
			for k := 0; k < 1+len(ws); k++ {
				if k > 0 && r.Chance(a.skip) {
					continue
				}
				p := clone(ps)
				what := "missing"
				if k == 0 && f.key == "prev_server" {
					continue // may be missing
				}
				if k == 0 {
					delete(p, f.key)
				} else {
					p[f.key] = ws[k-1]
					what = fmt.Sprintf("%T", ws[k-1])
				}
				s.hostile(name + " with a bad " + f.key)
				s.w.Queue(&Msg{From: "?", To: n.name, KeepSrc: true, Ev: &proto.Event{EventType: t, Params: p, SrcAddr: s.w.addrOf(from, n.name)}, Bad: true, Tag: fmt.Sprintf("%s: bad %s (%s)", stage, f.key, what)})
			}
		}
	}
	// answers to nothing
	if n == s.w.C {
		for _, l := range []int{0, 1, 479, 480, 481, 5000} {
			s.bad("a challenge of a stranger", a.someone(), "C", proto.GN_HONESTY_CHALLENGE, map[string]interface{}{"honesty_chal": util.ProtobufEncodeBoolList(make([]bool, l))})
		}
	}
}

// strangers register clients that cannot be reached.
func (a *garbage) strangers(stage string) {
	s, r := a.s, a.s.rng
	addrs := append([]string{s.chain[r.IntN(len(s.chain))].dial(), "127.0.0.1:1", "[::1]:9", "127.0.0.2:7"}, strangeAddrs...)
	for k := 0; k < 2; k++ {
		addr := addrs[r.IntN(len(addrs))]
		cl := s.AddModel()
		cl.left, cl.m.left, cl.maybe = true, true, true
		s.hostile("a registration from an address without client")
		s.w.Queue(&Msg{From: cl.name, To: "C", KeepSrc: true, Tag: "registration as " + strconv.Quote(addr),
			Ev: &proto.Event{EventType: proto.CLIENT_REGISTER_CONTROLLERSIDE, Params: map[string]interface{}{"public_key": pad64(cl.m.pk)}, SrcAddr: addr}})
	}
}

var departures = []string{"refuse", "reset", "stall"}

// departure lets a client leave, with or without things to do.
func (a *garbage) departure(stage string) {
	s, r := a.s, a.s.rng
	var stay []*Cl
	for _, c := range s.cls {
		if !c.left && !c.dead {
			stay = append(stay, c)
		}
	}
	if a.gone >= 3 || len(stay) < 3 {
		return
	}
	how := departures[(a.gone+a.i)%3]
	if a.i%5 == 4 && a.gone == a.i/5%3 {
		how = "deaf" // all that is sent to it takes 5 seconds
	}
	a.gone++
	c := stay[r.IntN(len(stay))]
	if r.Chance(0.3) {
		// one that registers and leaves
		c = s.AddModel()
		c.m.Register()
		if r.Bool() {
			s.w.Settle()
		}
	} else if c.m != nil && c.m.In() && s.phase == "MESSAGE" && stage != "closing" {
		c.m.Post(s.addr())
		if c.m.x > 0 {
			c.m.Request(1 + r.IntN(c.m.x))
		}
		if r.Bool() {
			s.w.Settle()
		}
	}
	s.mu.Lock()
	c.left = true
	s.mu.Unlock()
	s.w.patience = 40 * time.Second
	if c.m != nil {
		c.m.left = true
		c.m.front.leave(how)
	} else {
		c.k.proc.quit = true
		c.k.proc.cmd.Process.Kill()
		<-c.k.proc.done
		c.k.front.leave(how)
	}
	s.hostile("departure: " + how)
}

// connections stalls and breaks connections. They stay open until the end.
func (a *garbage) connections(n *Node, stage string) {
	s, r := a.s, a.s.rng
	part := encodeEvent(&proto.Event{EventType: proto.VOTE, Params: map[string]interface{}{"nym": r.Bytes(64)}, SrcAddr: "127.0.0.1:9"})
	part = part[:len(part)/2]
	dial := func() *net.TCPConn {
		c, err := net.DialTimeout("tcp", n.dial(), 30*time.Second)
		if err != nil {
			return nil
		}
		return c.(*net.TCPConn)
	}
	for k := 0; k < 20; k++ {
		c := dial()
		if c == nil {
			continue
		}
		switch k % 4 {
		case 0:
			s.hostile("a connection that is reset")
			c.Write(part)
			c.SetLinger(0)
		case 1:
			s.hostile("a connection that is reset at once")
			c.SetLinger(0)
		case 2:
			s.hostile("an empty connection")
		case 3:
			s.hostile("a connection that breaks off")
			c.Write(part)
		}
		c.Close()
	}
	s.w.Settle()
	for k := 0; k < 2; k++ {
		c := dial()
		if c == nil {
			continue
		}
		a.open = append(a.open, c)
		switch (a.i/5 + len(a.open)) % 3 {
		case 0:
			s.hostile("a connection that stalls")
			c.Write(part)
		case 1:
			s.hostile("a silent connection")
		case 2:
			s.hostile("a connection that trickles")
			go func() {
				for j := 0; j < 120; j++ {
					if _, err := c.Write([]byte{0x55}); err != nil {
						return
					}
					time.Sleep(500 * time.Millisecond)
				}
				c.Close()
			}()
		}
	}
	s.w.Settle()
}

const (
	costLimit = 3000 // CPU ticks of 10 ms
	memLimit  = 1000 // MB
)

// cost sends something and tells how much CPU time its receiver used. It gives up at the limit.
func (a *garbage) cost(n *Node, send func()) (ticks int64, ok bool) {
	t0, _ := n.proc.busy()
	done := make(chan bool)
	go func() {
		send()
		a.s.w.Settle()
		close(done)
	}()
	for {
		select {
		case <-done:
			t, _ := n.proc.busy()
			return t - t0, true
		case <-time.After(200 * time.Millisecond):
			if t, _ := n.proc.busy(); t-t0 > costLimit || n.proc.Dead() {
				return t - t0, false
			}
		}
	}
}

// numbers sends requests of a member whose signature is valid, with numbers of millions of digits in the proofs.
func (a *garbage) numbers() {
	s, r := a.s, a.s.rng
	var A *Cl
	for _, c := range s.models() {
		if c.m.In() && c.m.x > 0 {
			A = c
		}
	}
	if A == nil {
		return
	}
	ps := mustReq(A, 1)
	long := bi(r.Bytes(8 << 20))
	for k := 0; k < 15; k++ {
		p := clone(ps)
		nn, eq := util.DecodeARGnonneg(ps["arg_nonneg"].([]byte)), util.DecodeARGequal(ps["arg_equal"].([]byte))
		v := long
		if r.Chance(0.3) {
			v = new(big.Int).Neg(long)
		}
		names := []string{"R", "X_", "A_", "B_", "D_", "R_", "Commitrx", "C", "Cr", "C of the equality", "S1", "S2", "S3", "FOCommd", "rind"}
		switch k {
		case 0:
			nn.R = v
		case 1:
			nn.X_ = v
		case 2:
			nn.A_ = v
		case 3:
			nn.B_ = v
		case 4:
			nn.D_ = v
		case 5:
			nn.R_ = v
		case 6:
			nn.Commitrx = v
		case 7:
			nn.C = v
		case 8:
			nn.Cr = v
		case 9:
			eq.C = v
		case 10:
			eq.S1 = v
		case 11:
			eq.S2 = v
		case 12:
			eq.S3 = v
		case 13:
			p["FOCommd"] = long.Bytes()
		case 14:
			p["rind"] = long.Bytes()
		}
		p["arg_nonneg"], p["arg_equal"] = util.EncodeARGnonneg(nn), util.EncodeARGequal(eq)
		signRequest(p, A.m.sk, A.m.G())
		for _, to := range []string{"C", s.chain[0].name} {
			typ := proto.REQUEST_BRIDGES
			if to != "C" {
				if k == 13 || k == 14 || r.Chance(0.4) {
					continue
				}
				typ = proto.SIGN_ASSIGNMENTS
				p["assignments"] = enc2D(nil)
				delete(p, "signature")
			}
			if pan, _ := try(func() { encodeEvent(ev(typ, p)) }); pan {
				continue
			}
			n := s.w.nodes[to]
			t, ok := a.cost(n, func() { s.bad("a huge number in a proof", A.name, to, typ, p) })
			s.c.Count("CPU ticks for huge numbers", int(t))
			if !ok {
				s.miss("C18", "one message keeps a process busy", "%s used more than %d s of CPU time for a request with a huge %s", to, t/100, names[k])
				n.proc.quit = true
				n.proc.cmd.Process.Kill()
				return
			}
		}
	}
}

// flood sends more bytes than a message can have.
func (a *garbage) flood(n *Node) {
	s := a.s
	for _, head := range [][]byte{nil, {0xfc, 0x3f, 0xff, 0xff, 0xff}} {
		s.hostile("a message of 1.5 GB")
		c, err := net.DialTimeout("tcp", n.dial(), 30*time.Second)
		if err != nil {
			return
		}
		c.SetWriteDeadline(time.Now().Add(60 * time.Second))
		chunk := make([]byte, 1<<20)
		c.Write(head)
		sent := 0
		for ; sent < 1500; sent++ {
			if _, err := c.Write(chunk); err != nil {
				break
			}
		}
		c.Close()
		s.c.Count("MB taken of floods", sent)
		s.w.Settle()
	}
}

// memory looks at how much memory the processes have used.
func (a *garbage) memory() {
	s := a.s
	for _, c := range a.open {
		c.Close()
	}
	for _, n := range append([]*Node{s.w.C}, s.chain...) {
		data, _ := os.ReadFile(fmt.Sprintf("/proc/%d/status", n.proc.cmd.Process.Pid))
		for _, l := range strings.Split(string(data), "\n") {
			f := strings.Fields(l)
			if len(f) > 1 && f[0] == "VmHWM:" {
				kb, _ := strconv.Atoi(f[1])
				s.c.Count("memory_mb_of_all_processes", kb/1024)
				if kb/1024 > memLimit {
					s.miss("C18", "a peer fills the memory of a process", "%s has used %d MB", n.name, kb/1024)
				}
			}
		}
	}
}
