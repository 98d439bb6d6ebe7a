package main

import (
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
)

// A Sim drives one world round by round, and its referee predicts, from the messages delivered to the coordinator
// and a sequential model of the system, what the system has to do. Every deviation is a mismatch, labelled with the
// properties that it refutes.

type Mismatch struct {
	Tags   string
	Key    string
	Detail string
}

// Cl is a client, played by the harness (m) or real (k).
type Cl struct {
	name     string
	m        *MClient
	k        *Node
	x        int      // reputation according to the referee
	r        *big.Int // opening of its commitment
	nym      *big.Int // pseudonym in this round; for a real client once it has used it
	pk       *big.Int
	reg      *Msg // its registration
	since    int  // first round with it in the table, -1 before
	left     bool
	again    bool // has taken the place of another client at its address
	maybe    bool // a registration that may be refused
	dead     bool // expected to have ended (real client that refused something)
	certs    []Cert
	deadline int // round in which it has to be in the table at last
}

type assigned struct {
	addr      string
	prov, req string
	from      string
	bytes     string
	sigs      map[string]bool
	certs     int
	voted     bool
	seq       int
}

type reqExp struct {
	nym, from string
	n         int
	avail     map[string]string // addr -> provider
	what      string
}

type roundRef struct {
	bridges map[string]string    // addr -> provider nym
	used    map[string]*assigned // by addr
	nAvail  int
	reqs    []*reqExp
	asg     map[string]*assigned // by encoded assignment
	groups  [][]string           // decided groups
	seen    map[string]int       // groups seen by each server
	diff    map[string]int
	posts   int
	nreq    int
	votes   int
	granted int
	short   int
	finals  map[string]int
	ends    map[string]int
	start   int
}

func newRoundRef() *roundRef {
	return &roundRef{bridges: map[string]string{}, used: map[string]*assigned{}, asg: map[string]*assigned{}, seen: map[string]int{},
		diff: map[string]int{}, finals: map[string]int{}, ends: map[string]int{}}
}

type Sim struct {
	pace     time.Duration // how long a round rests when it has opened, as the coordinator looks for its table once a second only
	w        *World
	c        *Check
	rng      *Rng
	servers  []*Node
	chain    []*Node // in the order of the chain
	srvKeys  map[string]*big.Int
	mu       sync.Mutex
	cls      []*Cl
	round    int
	phase    string
	tab      *Table
	tabs     []*Table
	rr       *roundRef
	old      []*roundRef
	mm       []Mismatch
	fakes    map[string]bool // long-term keys in the first table
	orig     map[string]map[string]bool
	coordPK  *big.Int
	icept    func(m *Msg) []*Msg
	attack   func(stage string)
	attacks  int // hostile actions performed
	roundsOK int
	closed   bool
	endWant  []string // the long-term keys that have to enter the next round
	attacked bool
	started  bool   // the start command is given already
	slowly   bool   // stop the table on its way, for attacks in the other phases
	lateReg  func() // lets clients register whose registration is on its way when the round ends
}

func hx(x *big.Int) string { return x.Text(62) }

func NewSim(c *Check, name, bin string, rng *Rng) *Sim {
	s := &Sim{c: c, rng: rng, round: -1, phase: "CONFIG", rr: newRoundRef(), srvKeys: map[string]*big.Int{}, orig: map[string]map[string]bool{}}
	s.w = NewWorld(name, bin, rng.Sub("world"))
	s.w.Observe = append(s.w.Observe, s.observe)
	s.w.Intercept = func(m *Msg) []*Msg {
		s.recordOrig(m)
		if s.icept != nil {
			return s.icept(m)
		}
		return []*Msg{m}
	}
	return s
}

func (s *Sim) miss(tags, key, f string, args ...any) {
	s.mu.Lock()
	s.missLocked(tags, key, f, args...)
	s.mu.Unlock()
}
func (s *Sim) missLocked(tags, key, f string, args ...any) {
	if len(s.mm) < 100 {
		s.mm = append(s.mm, Mismatch{tags, key, fmt.Sprintf("%s round %d: ", s.w.Name, s.round) + fmt.Sprintf(f, args...)})
	}
}

// clientOf finds a client by the name of its node; of several, the one that has not left.
func (s *Sim) clientOf(name string) (res *Cl) {
	for _, c := range s.cls {
		if c.name == name && (res == nil || res.left) {
			res = c
		}
	}
	return
}

// pairs lists the (assignment, signature) pairs of a GOT_SIGNS message of a server.
func pairs(m *Msg) (res [][2]string) {
	try(func() {
		if ok, _ := m.Ev.Params["success"].(bool); !ok {
			return
		}
		var raw, sigs [][]byte
		raw = util.Decode2DByteArray(m.B("assignments"))
		sigs = util.Decode2DByteArray(m.B("signatures"))
		if len(raw) != len(sigs) {
			return
		}
		for i := range raw {
			res = append(res, [2]string{string(raw[i]), string(sigs[i])})
		}
	})
	return
}

func (s *Sim) recordOrig(m *Msg) {
	if m.Ev == nil || m.Type() != proto.GOT_SIGNS || m.To != "C" || m.Tag != "" {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.orig[m.From] == nil {
		s.orig[m.From] = map[string]bool{}
	}
	for _, p := range pairs(m) {
		s.orig[m.From][p[0]+p[1]] = true
	}
}

// observe is the referee. It sees every message right before it takes effect.
func (s *Sim) observe(m *Msg) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if m.Ev == nil || m.Bad && (m.Type() != proto.GOT_SIGNS || m.To != "C") {
		return
	}
	if m.To == "C" {
		s.feed(m)
	} else if m.From == "C" {
		s.verdict(m)
	}
}

func (s *Sim) feed(m *Msg) {
	rr := s.rr
	switch m.Type() {
	case proto.SERVER_REGISTER:
		s.srvKeys[m.From] = bi(m.B("public_key"))
	case proto.CLIENT_REGISTER_CONTROLLERSIDE:
		if c := s.clientOf(m.From); c != nil && c.reg == nil {
			c.reg = m
			c.pk = bi(m.B("public_key"))
			// the registration takes effect in the round that is open, or opens next; the one after has the client
			c.deadline = s.round + 1
			if s.phase != "MESSAGE" {
				c.deadline = s.round + 2
			}
		}
	case proto.CLIENT_REGISTER_SERVERSIDE:
		for _, c := range s.cls {
			if c.k != nil && c.k.front.addr == m.S("addr") {
				c.nym = bi(m.B("public_key"))
			}
		}
	case proto.ANNOUNCEMENT:
		if s.phase != "MESSAGE" {
			s.phase = "MESSAGE"
			t, ok := tableOf(m)
			if !ok {
				s.missLocked("C02,C17", "the table cannot be decoded", "%v", m)
			}
			s.tab = t
			s.round++
			s.old = append(s.old, rr)
			s.rr = newRoundRef()
			s.tabs = append(s.tabs, t)
		}
	case proto.ROUND_END:
		s.closed = true
	case proto.POST_BRIDGE:
		if s.phase != "MESSAGE" {
			return
		}
		nym := bi(m.B("nym"))
		if c := s.clientOf(m.From); c != nil && c.k != nil {
			if i, _ := s.tab.Index(nym); i < 0 {
				return // typed before the client had the table
			}
			c.nym = nym
		}
		rr.posts++
		addr := m.S("bridge_addr")
		if _, ok := rr.bridges[addr]; !ok {
			rr.bridges[addr] = hx(nym)
			rr.nAvail++
		}
	case proto.REQUEST_BRIDGES:
		if s.phase != "MESSAGE" {
			return
		}
		ind, _ := m.Ev.Params["ind"].(int)
		n := min(ind, rr.nAvail)
		rr.nreq++
		if n < ind {
			rr.short++
		}
		if n <= 0 {
			return
		}
		rr.granted += n
		rr.nAvail -= n
		e := &reqExp{nym: hx(bi(m.B("nym"))), from: m.From, n: n, what: m.String(), avail: map[string]string{}}
		for a, p := range rr.bridges {
			if rr.used[a] == nil {
				e.avail[a] = p
			}
		}
		rr.reqs = append(rr.reqs, e)
	case proto.GOT_SIGNS:
		if s.phase != "MESSAGE" {
			return
		}
		for _, p := range pairs(m) {
			if a := rr.asg[p[0]]; a != nil && s.orig[m.From][p[0]+p[1]] {
				a.sigs[m.From] = true
			}
		}
	case proto.VOTE:
		if s.phase != "MESSAGE" {
			return
		}
		rr.votes++
		a := rr.asg[string(m.B("assignment"))]
		fb, _ := m.Ev.Params["feedback"].(int)
		if a != nil && !a.voted {
			a.voted = true
			rr.diff[a.prov] += fb
		}
	}
}

func (s *Sim) verdict(m *Msg) {
	rr := s.rr
	switch m.Type() {
	case proto.SIGN_ASSIGNMENTS:
		k := rr.seen[m.To]
		rr.seen[m.To]++
		var raw []string
		pan, _ := try(func() {
			for _, b := range util.Decode2DByteArray(m.B("assignments")) {
				raw = append(raw, string(b))
			}
		})
		if pan {
			s.missLocked("C17", "an assignment list cannot be decoded", "%v", m)
			return
		}
		if k < len(rr.groups) {
			if strings.Join(rr.groups[k], "\x00") != strings.Join(raw, "\x00") {
				s.missLocked("C08,C04", "servers are asked to sign different assignments", "%v", m)
			}
			return
		}
		rr.groups = append(rr.groups, raw)
		if s.phase != "MESSAGE" {
			s.missLocked("C22,C05", "bridges are assigned outside of the messaging phase", "%v", m)
			return
		}
		if k >= len(rr.reqs) {
			s.missLocked("C05,C04,C22", "bridges are assigned without an authorised request", "%v", m)
			return
		}
		e := rr.reqs[k]
		if len(raw) > e.n {
			s.missLocked("C04,C05", "more bridges are assigned than requested and unassigned", "%d instead of %d for %s", len(raw), e.n, e.what)
		}
		if len(raw) < e.n {
			s.missLocked("C04,C06", "fewer bridges are assigned than requested and unassigned", "%d instead of %d for %s", len(raw), e.n, e.what)
		}
		for _, b := range raw {
			var a *bridge.Assignment
			if pan, _ := try(func() { a = bridge.DecodeAssignment([]byte(b)); pv(a.Nym); pv(a.NymR) }); pan {
				s.missLocked("C17,C08", "an assignment cannot be decoded", "%v", m)
				continue
			}
			rec := &assigned{addr: a.Addr, prov: hx(pv(a.Nym)), req: hx(pv(a.NymR)), from: e.from, bytes: b, sigs: map[string]bool{}}
			if rec.req != e.nym {
				s.missLocked("C04,C08", "a bridge is assigned to another pseudonym than the requester's", "%s", e.what)
			}
			if p, ok := rr.bridges[a.Addr]; !ok {
				s.missLocked("C04,C22", "a bridge is assigned that was not posted in this round", "%q", a.Addr)
			} else if p != rec.prov {
				s.missLocked("C04,C08", "a bridge is assigned with another provider than the one who posted it", "%q", a.Addr)
			} else if _, ok := e.avail[a.Addr]; !ok {
				s.missLocked("C04", "a bridge is assigned twice", "%q", a.Addr)
			}
			if rr.used[a.Addr] != nil {
				s.missLocked("C04", "a bridge is assigned twice", "%q", a.Addr)
			}
			rr.used[a.Addr] = rec
			rr.asg[b] = rec
		}
	case proto.GOT_SIGNS:
		a := rr.asg[string(m.B("assignment"))]
		if a == nil {
			s.missLocked("C08,C04,C22", "a certificate is sent for something that was not assigned", "%v", m)
			return
		}
		a.certs++
		if a.certs > 1 {
			s.missLocked("C04,C08", "a certificate is delivered more than once", "%q", a.addr)
		}
		if m.To != a.from {
			s.missLocked("C04,C08", "a certificate is delivered to someone else", "%q to %s instead of %s", a.addr, m.To, a.from)
		}
		if len(a.sigs) != len(s.servers) {
			s.missLocked("C08", "a certificate is delivered before all servers have signed", "%q with %d of %d signatures", a.addr, len(a.sigs), len(s.servers))
		}
		var sigs [][]byte
		if pan, _ := try(func() { sigs = util.Decode2DByteArray(m.B("signatures")) }); pan || len(sigs) != len(s.servers)+1 {
			s.missLocked("C08,C06", "a certificate has a wrong number of signatures", "%q: %d", a.addr, len(sigs))
			return
		}
		for i, n := range s.chain {
			if !sigOK([]byte(a.bytes), s.srvKeys[n.name], sigs[i]) {
				s.missLocked("C08,C06", "a certificate has an invalid server signature", "%q signature %d", a.addr, i)
			}
		}
		if s.coordPK != nil && !sigOK([]byte(a.bytes), s.coordPK, sigs[len(s.chain)]) {
			s.missLocked("C08,C06", "a certificate has an invalid coordinator signature", "%q", a.addr)
		}
		if s.coordPK != nil && !sigOK(bridge.MessageOfGotSignatures(m.Ev.Params), s.coordPK, m.B("signature")) {
			s.missLocked("C08,C06", "a certificate is sent without the coordinator's signature", "%q", a.addr)
		}
		if c := s.clientOf(m.To); c != nil && c.k != nil {
			dec := new(bridge.Assignment)
			try(func() { dec = bridge.DecodeAssignment(m.B("assignment")) })
			c.certs = append(c.certs, Cert{m.B("assignment"), m.B("signatures"), dec, m.Seq})
		}
	case proto.CLIENT_REGISTER_CONFIRMATION:
		if s.coordPK == nil {
			s.coordPK = bi(m.B("public_key"))
		}
	case proto.INIT_PEDERSEN_R:
		if c := s.clientOf(m.To); c != nil {
			if c.r != nil && !c.again {
				s.missLocked("C20", "a client gets two initial openings", "%s", c.name)
			}
			c.r = bi(m.B("r"))
		}
	case proto.BCAST_PEDERSEN_RDIFF:
		keys, ok1 := pointList(m.B("keys"))
		diffs, ok2 := secretList(m.B("rDiffs"))
		if c := s.clientOf(m.To); c != nil && ok1 && ok2 && len(keys) == len(diffs) && c.r != nil {
			nym := c.nym
			if c.m != nil {
				nym = c.m.nym
			}
			for i, k := range keys {
				if nym != nil && k.Cmp(nym) == 0 {
					c.r = new(big.Int).Mod(new(big.Int).Add(c.r, diffs[i]), grpQ)
				}
			}
		}
	case proto.ANNOUNCEMENT_FINALIZE:
		rr.finals[m.To]++
		if rr.finals[m.To] > 1 {
			s.missLocked("C02,C22", "a party gets more than one table in a round", "%s", m.To)
		}
		t, ok := tableOf(m)
		if !ok || s.tab == nil || t.Raw != s.tab.Raw {
			s.missLocked("C02", "a party gets another table than the one the last server has sent", "%s", m.To)
		}
	case proto.ROUND_END:
		if !strings.HasPrefix(m.To, "m") && !strings.HasPrefix(m.To, "k") {
			return
		}
		rr.ends[m.To]++
		got := map[string]int{}
		keys, ok := pointList(m.B("keys"))
		var diffs []int
		pan, _ := try(func() { diffs = util.DecodeIntArray(m.B("diffs")) })
		if !ok || pan || len(keys) != len(diffs) {
			s.missLocked("C17,C01", "the result of the votes cannot be decoded", "%v", m)
			return
		}
		for i, k := range keys {
			got[hx(k)] += diffs[i]
		}
		for k, v := range rr.diff {
			if got[k] != v {
				s.missLocked("C01,C07", "the announced change of a reputation is not the sum of its votes", "%d instead of %d", got[k], v)
			}
		}
		for k, v := range got {
			if _, ok := rr.diff[k]; !ok && v != 0 {
				s.missLocked("C01,C07", "the reputation of a client changes without a vote", "by %d", v)
			}
		}
	}
}

// sigOK verifies a signature over the base point: c must be the challenge for base^r*key^c and the message.
func sigOK(msg []byte, key *big.Int, sig []byte) (ok bool) {
	if key == nil {
		return false
	}
	try(func() { ok = util.ElGamalVerify(suite, msg, pt(key), sig, nil) == nil })
	return
}

// ---------------------------------------------------------------------------------------------------------------

func (s *Sim) AddModel() *Cl {
	m := s.w.AddModelClient()
	c := &Cl{name: m.name, m: m, x: bridge.StartingCredit, since: -1, deadline: 1 << 30}
	s.mu.Lock()
	s.cls = append(s.cls, c)
	s.mu.Unlock()
	return c
}

// AddReal starts a real client; it registers by itself.
func (s *Sim) AddReal() *Cl {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := s.w.AddRealClient()
	c := &Cl{name: n.name, k: n, x: bridge.StartingCredit, since: -1, deadline: 1 << 30}
	s.cls = append(s.cls, c)
	return c
}

// challenge makes a model client check the honesty proof, as the client program does.
func (s *Sim) withChallenge(c *Cl) {
	m := c.m
	m.onConfirm = func(msg *Msg) {
		if m.bits != nil {
			return
		}
		m.bits = m.fo.ChallengeAllGnHonesty()
		m.prf = util.ProtobufDecodeBigIntList(msg.B("honesty_prf"))
		s.w.Send(m.name, "C", ev(proto.GN_HONESTY_CHALLENGE, map[string]interface{}{"honesty_chal": util.ProtobufEncodeBoolList(m.bits)}), "challenge")
	}
}

// Boot starts the coordinator and the servers.
func (s *Sim) Boot(n int, together bool) error {
	if err := s.w.StartCoordinator(false); err != nil {
		return err
	}
	for i := 0; i < n; i++ {
		s.servers = append(s.servers, s.w.AddServer())
		if !together {
			if err := s.waitUpdates(i + 1); err != nil {
				return err
			}
		}
	}
	if err := s.waitUpdates(n); err != nil {
		return err
	}
	s.w.Settle()
	s.findChain()
	return nil
}

func (s *Sim) waitUpdates(n int) error {
	return s.w.WaitFor(fmt.Sprintf("%d servers to register", n), func() bool {
		return len(s.w.match(0, proto.UPDATE_PEDERSEN_H, "", "C")) >= n
	})
}

// findChain orders the servers as the coordinator has registered them.
func (s *Sim) findChain() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.chain = nil
	seen := map[string]bool{}
	for _, m := range s.w.Find(0, proto.SERVER_REGISTER_REPLY, "C", "") {
		if n := s.w.nodes[m.To]; n != nil && !seen[m.To] {
			seen[m.To] = true
			s.chain = append(s.chain, n)
		}
	}
}

func (s *Sim) Enter() { s.w.C.Type("") }

// Open starts the first round.
func (s *Sim) Open() error {
	s.mu.Lock()
	if s.phase == "CONFIG" {
		s.phase = "ANNOUNCE"
	}
	s.mu.Unlock()
	if !s.started {
		s.Enter()
	}
	return s.waitTableOf(0)
}

func (s *Sim) waitTable() error { return s.waitTableOf(s.round + 1) }

func (s *Sim) waitTableOf(want int) error {
	err := s.w.WaitFor(fmt.Sprintf("table %d", want), func() bool {
		for _, n := range s.servers {
			if len(s.w.match(0, proto.ANNOUNCEMENT_FINALIZE, "C", n.name)) < want+1 {
				return false
			}
		}
		return true
	})
	if err != nil {
		return err
	}
	s.w.Settle()
	s.checkTable()
	time.Sleep(s.pace)
	return nil
}

// members are the clients that have to be, or may be in the current table.
func (s *Sim) checkTable() {
	s.mu.Lock()
	defer s.mu.Unlock()
	t := s.tab
	if t == nil {
		return
	}
	if len(s.tabs) != s.round+1 {
		s.missLocked("C02", "a round has not exactly one table", "%d tables", len(s.tabs))
	}
	// what entered the round
	anns := s.w.Find(0, proto.ANNOUNCEMENT, "C", "")
	if len(anns) != s.round+1 {
		s.missLocked("C02,C21", "the coordinator has not sent exactly one table into the chain", "%d in round %d", len(anns), s.round)
		return
	}
	long, ok := pointList(anns[s.round].B("keys"))
	if !ok {
		s.missLocked("C02,C17", "the long-term keys cannot be decoded", "")
		return
	}
	in := map[string]int{}
	for _, k := range long {
		in[hx(k)]++
	}
	if s.round == 0 {
		s.fakes = map[string]bool{}
		for k := range in {
			s.fakes[k] = true
		}
		if len(in) != 10 || len(long) != 10 {
			s.missLocked("C02", "the first table has not ten fake clients", "%d", len(long))
		}
	}
	expected := map[string]string{}
	for k := range s.fakes {
		expected[k] = "a fake client"
	}
	for _, c := range s.cls {
		if c.pk == nil {
			continue
		}
		if c.since < 0 && in[hx(c.pk)] > 0 {
			c.since = s.round
		}
		if c.since >= 0 || s.round >= c.deadline && !c.maybe {
			expected[hx(c.pk)] = c.name
		}
	}
	for k, who := range expected {
		if in[k] == 0 {
			s.missLocked("C02,C20", "a registered client is missing in the keys of the next round", "%s", who)
		} else if in[k] > 1 {
			s.missLocked("C02,C20", "a client is twice in the keys of a round", "%s", who)
		}
	}
	for k := range in {
		if expected[k] == "" {
			s.missLocked("C02,C20", "a key that nobody registered enters a round", "")
		}
	}
	if s.endWant != nil {
		for _, k := range s.endWant {
			if in[k] == 0 {
				s.missLocked("C02", "a long-term key of the last round does not enter the next one", "")
			}
		}
		if len(s.endWant) != len(long) {
			s.missLocked("C02", "the keys that enter a round are not those that left the last one", "%d and %d", len(long), len(s.endWant))
		}
	}
	// the table itself
	if len(t.Keys) != len(long) {
		s.missLocked("C02", "the published table has not one entry for each client", "%d entries for %d clients", len(t.Keys), len(long))
	}
	seen := map[string]bool{}
	for i, k := range t.Keys {
		if seen[hx(k)] {
			s.missLocked("C02", "two entries of the table have the same pseudonym", "")
		}
		seen[hx(k)] = true
		if !isElem(k) || i < len(t.Vals) && !isElem(t.Vals[i]) {
			s.missLocked("C02", "an entry of the table is not a group element", "")
		}
	}
	for _, c := range s.cls {
		if c.m != nil && c.since >= 0 && !c.left {
			c.nym = gexp(t.G, sv(c.m.sk))
			i, n := t.Index(c.nym)
			if n != 1 {
				s.missLocked("C02,C20", "a client's pseudonym is not exactly once in the table", "%s: %d times", c.name, n)
				continue
			}
			s.opening(c, i)
			c.m.mu.Lock()
			if c.m.told != c.x && !c.left {
				s.missLocked("C01", "a client's idea of its reputation differs", "%s: %d instead of %d", c.name, c.m.told, c.x)
			}
			c.m.x = c.x
			c.m.mu.Unlock()
		}
	}
	for _, n := range s.servers {
		if s.rr.finals[n.name] != 1 {
			s.missLocked("C02", "a server does not get the table", "%s: %d times", n.name, s.rr.finals[n.name])
		}
	}
	for _, c := range s.cls {
		if c.since >= 0 && !c.left && s.rr.finals[c.name] != 1 {
			s.missLocked("C02", "a client does not get the table", "%s: %d times", c.name, s.rr.finals[c.name])
		}
	}
	s.rr.start = s.w.Len()
	for _, c := range s.cls {
		c.certs = nil
		if c.k != nil {
			c.nym = nil
		}
	}
}

// opening checks that entry i of the table is a commitment to the client's reputation, with the opening it was sent.
func (s *Sim) opening(c *Cl, i int) {
	if c.r == nil {
		s.missLocked("C01,C20", "a client has no opening of its commitment", "%s", c.name)
		return
	}
	t := s.tab
	s.c.Count("openings", 1)
	if commitVal(t.GT, t.HT, big.NewInt(int64(c.x)), c.r).Cmp(t.Vals[i]) != 0 {
		for d := -40; d <= 40; d++ {
			if commitVal(t.GT, t.HT, big.NewInt(int64(c.x+d)), c.r).Cmp(t.Vals[i]) == 0 {
				s.missLocked("C01", "the published commitment opens to another reputation", "%s: %d instead of %d", c.name, c.x+d, c.x)
				return
			}
		}
		s.missLocked("C01,C02", "the published commitment does not open with the client's randomness", "%s", c.name)
	}
}

// Members returns the clients in the current table that take part.
func (s *Sim) Members() (res []*Cl) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.cls {
		if c.since >= 0 && !c.left && !c.dead {
			res = append(res, c)
		}
	}
	return
}

func (s *Sim) models() (res []*Cl) {
	for _, c := range s.Members() {
		if c.m != nil {
			res = append(res, c)
		}
	}
	return
}

// command types something into a real client and waits for the message it sends.
func (s *Sim) command(c *Cl, line string, typ int) (*Msg, error) {
	n0 := len(s.w.Find(0, typ, c.name, "C"))
	c.k.Type(line)
	err := s.w.WaitFor(c.name+" to do: "+line, func() bool { return len(s.w.match(0, typ, c.name, "C")) > n0 })
	if err != nil {
		return nil, err
	}
	return s.w.Find(0, typ, c.name, "C")[n0], nil
}

var postCounter atomic.Int64

// addr makes a new bridge address.
func (s *Sim) addr() string { return fmt.Sprintf("b%d.%d:443", s.round, postCounter.Add(1)) }

// Post makes a client post an address.
func (s *Sim) Post(c *Cl, addr string) error {
	if c.left {
		return nil
	}
	if c.m != nil {
		c.m.Post(addr)
		return nil
	}
	m, err := s.command(c, "post "+addr, proto.POST_BRIDGE)
	if err != nil {
		return err
	}
	if m.S("bridge_addr") != addr {
		s.miss("C06,C17", "the client program posts another address", "%q instead of %q", m.S("bridge_addr"), addr)
	}
	return nil
}

func (s *Sim) Request(c *Cl, n int) error {
	if c.left {
		return nil
	}
	if c.m != nil {
		c.m.Request(n)
		return nil
	}
	m, err := s.command(c, fmt.Sprintf("get %d", n), proto.REQUEST_BRIDGES)
	if err != nil {
		return err
	}
	if v, _ := m.Ev.Params["ind"].(int); v != n {
		s.miss("C06", "the client program requests another number", "%d instead of %d", v, n)
	}
	return nil
}

func (s *Sim) CertsOf(c *Cl) []Cert {
	if c.m != nil {
		return c.m.Certs()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Cert{}, c.certs...)
}

func (s *Sim) Vote(c *Cl, i, fb int) error {
	if c.left {
		return nil
	}
	if c.m != nil {
		certs := c.m.Certs()
		if i < len(certs) {
			c.m.Vote(certs[i], fb)
		}
		return nil
	}
	certs := s.CertsOf(c)
	m, err := s.command(c, fmt.Sprintf("vote %d %d", i, fb), proto.VOTE)
	if err != nil {
		return err
	}
	if i < len(certs) && string(m.B("assignment")) != string(certs[i].Assignment) {
		s.miss("C06,C07,C08", "the client program votes on something else than the bridge it received", "%v", m)
	}
	if v, _ := m.Ev.Params["feedback"].(int); v != fb {
		s.miss("C06,C07", "the client program votes another value", "%d instead of %d", v, fb)
	}
	return nil
}

func (s *Sim) hit(stage string) {
	if s.attack != nil {
		s.attack(stage)
	}
}

type PlayOpts struct {
	Posts       int     // at most per client
	Requests    int     // at most per client
	MaxInd      bool    // clients request all they may
	Up          float64 // probability of a positive vote
	VoteP       float64 // probability to vote
	Shuffle     bool    // messages overtake each other across links
	Settle      float64 // probability to wait for the effects after an action
	Lean        bool    // at most one request for one bridge per client
	OneProvider int     // number of posts, all by the same client, who requests nothing
}

// sync makes sure that the real clients use the pseudonym of this round.
func (s *Sim) syncReals() error {
	for _, c := range s.Members() {
		if c.k == nil {
			continue
		}
		for try := 0; ; try++ {
			if err := s.Post(c, s.addr()); err != nil {
				return err
			}
			s.w.Settle()
			s.mu.Lock()
			ok := c.nym != nil
			s.mu.Unlock()
			if ok {
				break
			}
			if try > 12 {
				s.miss("C02,C06", "a client does not use its pseudonym of this round", "%s", c.name)
				break
			}
			time.Sleep(100 * time.Millisecond)
		}
		s.mu.Lock()
		if c.nym != nil {
			i, n := s.tab.Index(c.nym)
			if n != 1 {
				s.missLocked("C02", "a client's pseudonym is not exactly once in the table", "%s: %d times", c.name, n)
			} else {
				s.opening(c, i)
			}
		}
		s.mu.Unlock()
	}
	return nil
}

// Play lets the clients do random honest things in the current round. Posts and requests come in random order.
func (s *Sim) Play(o PlayOpts) error {
	s.hit("start")
	if err := s.syncReals(); err != nil {
		return err
	}
	type act struct {
		c    *Cl
		post bool
		pri  float64
	}
	var acts []act
	mem := s.Members()
	for k, c := range mem {
		if o.OneProvider > 0 {
			if k == 0 {
				for i := 0; i < o.OneProvider; i++ {
					acts = append(acts, act{c, true, 0})
				}
			} else {
				acts = append(acts, act{c, false, 1})
			}
			continue
		}
		for i := s.rng.IntN(o.Posts + 1); i > 0; i-- {
			acts = append(acts, act{c, true, s.rng.Float64()})
		}
		if o.Requests > 0 {
			for i := 1 + s.rng.IntN(o.Requests); i > 0; i-- {
				acts = append(acts, act{c, false, 0.25 + s.rng.Float64()})
			}
		}
	}
	sort.SliceStable(acts, func(i, j int) bool { return acts[i].pri < acts[j].pri })
	s.w.mu.Lock()
	s.w.Shuffle = o.Shuffle
	s.w.mu.Unlock()
	var addrs []string
	for i, a := range acts {
		if i == len(acts)/2 {
			s.hit("mid")
		}
		if a.post {
			addr := s.addr()
			if len(addrs) > 0 && s.rng.Chance(0.15) {
				addr = addrs[s.rng.IntN(len(addrs))] // the same bridge once more, perhaps by another client
			}
			addrs = append(addrs, addr)
			if err := s.Post(a.c, addr); err != nil {
				return err
			}
		} else {
			s.mu.Lock()
			x := a.c.x
			s.mu.Unlock()
			if x < 0 {
				continue
			}
			ind := s.rng.IntN(x + 1)
			if o.MaxInd || s.rng.Chance(0.3) {
				ind = x
			}
			if o.Lean && ind > 1 {
				ind = 1
			}
			if err := s.Request(a.c, ind); err != nil {
				return err
			}
		}
		if s.rng.Chance(o.Settle) {
			s.w.Settle()
		}
	}
	s.w.Settle()
	s.hit("assigned")
	s.w.Settle()
	// votes, some before and some after the coordinator has asked for them
	voted := false
	ask := func() error {
		if voted {
			return nil
		}
		voted = true
		s.w.Settle()
		return s.AskVotes()
	}
	for _, c := range mem {
		if s.rng.Chance(0.5) {
			if err := ask(); err != nil {
				return err
			}
		}
		for i := range s.CertsOf(c) {
			if s.rng.Chance(o.VoteP) {
				fb := -1
				if s.rng.Chance(o.Up) {
					fb = 1
				}
				if err := s.Vote(c, i, fb); err != nil {
					return err
				}
			}
		}
	}
	if err := ask(); err != nil {
		return err
	}
	s.w.Settle()
	s.hit("voted")
	s.w.Settle()
	s.w.mu.Lock()
	s.w.Shuffle = false
	s.w.mu.Unlock()
	return nil
}

// AskVotes lets the coordinator ask for votes.
func (s *Sim) AskVotes() error {
	n0 := len(s.w.Find(0, proto.VOTE, "C", ""))
	told := false
	for _, c := range s.cls {
		told = told || c.reg != nil && c.reg.DSeq > 0 && !c.left
	}
	s.Enter()
	if !told {
		// nobody is told: the program's prompt is all there is
		p := s.w.C.proc
		for i := 0; i < 200 && !strings.Contains(strings.Join(p.Tail(2), " "), "Voting phase started"); i++ {
			time.Sleep(25 * time.Millisecond)
		}
		time.Sleep(200 * time.Millisecond)
		return nil
	}
	return s.w.WaitFor("the coordinator to ask for votes", func() bool { return len(s.w.match(0, proto.VOTE, "C", "")) > n0 })
}

// CloseRound ends the round and waits until the next table is out.
func (s *Sim) CloseRound() error {
	if s.slowly {
		return s.closeSlowly()
	}
	if err := s.BeginClose(); err != nil {
		return err
	}
	if err := s.waitClosed(); err != nil {
		return err
	}
	return s.waitTable()
}

// closeSlowly closes a round in steps, with an opportunity to attack in each: "closing", when a registration keeps the
// round from being closed; "ending", when the table is on its way back; "announce", when the next one is on its way.
func (s *Sim) closeSlowly() error {
	before := s.w.Hold
	holdReg := true
	gates := map[int]string{}
	for _, t := range []int{proto.ROUND_END, proto.ANNOUNCEMENT} {
		i := s.rng.IntN(len(s.chain) + 1)
		gates[t] = "C"
		if i < len(s.chain) {
			gates[t] = s.chain[i].name
		}
	}
	s.w.mu.Lock()
	s.w.Hold = func(m *Msg) bool {
		if before != nil && before(m) {
			return true
		}
		if m.Bad {
			return false
		}
		return gates[m.Type()] == m.To || holdReg && m.Type() == proto.CLIENT_REGISTER_SERVERSIDE && m.To == "C"
	}
	s.w.mu.Unlock()
	open := func(f func()) {
		s.w.mu.Lock()
		f()
		s.w.cond.Broadcast()
		s.w.mu.Unlock()
	}
	defer open(func() { s.w.Hold = before })
	waits := func(typ int) error {
		return s.w.WaitFor("the table to get to "+gates[typ], func() bool {
			for _, m := range s.w.pending {
				if m.Type() == typ && m.To == gates[typ] && !m.Bad {
					return true
				}
			}
			return false
		})
	}
	if s.lateReg != nil {
		s.lateReg()
		s.w.Settle()
	}
	held := false
	open(func() {
		for _, m := range s.w.pending {
			held = held || m.Type() == proto.CLIENT_REGISTER_SERVERSIDE
		}
	})
	if held {
		s.w.Settle()
		s.judge()
		s.mu.Lock()
		s.phase = "ENDING"
		s.closed = false
		s.mu.Unlock()
		n0 := len(s.w.Find(0, proto.ROUND_END, "C", ""))
		s.Enter()
		if !s.w.C.Digested() {
			return fmt.Errorf("%w: the coordinator does not take its input", ErrTimeout)
		}
		s.w.Settle()
		if len(s.w.Find(0, proto.ROUND_END, "C", "")) == n0 {
			s.c.Count("rounds that waited for a registration", 1)
			s.hit("closing")
			s.w.Settle()
		}
		open(func() { holdReg = false })
		if err := s.w.WaitFor("the round to end", func() bool { return len(s.w.match(0, proto.ROUND_END, "C", "")) > n0 }); err != nil {
			return err
		}
	} else if err := s.BeginClose(); err != nil {
		return err
	}
	if err := waits(proto.ROUND_END); err != nil {
		return err
	}
	s.w.Settle()
	s.hit("ending")
	s.w.Settle()
	open(func() { delete(gates, proto.ROUND_END) })
	if err := s.waitClosed(); err != nil {
		return err
	}
	if err := waits(proto.ANNOUNCEMENT); err != nil {
		return err
	}
	s.w.Settle()
	s.mu.Lock()
	s.phase = "ANNOUNCE"
	want := s.round + 1
	s.mu.Unlock()
	s.hit("announce")
	s.w.Settle()
	open(func() { delete(gates, proto.ANNOUNCEMENT) })
	return s.waitTableOf(want)
}

// BeginClose checks the bridges of the round and ends it.
func (s *Sim) BeginClose() error {
	s.w.Settle()
	s.judge()
	n0 := len(s.w.Find(0, proto.ROUND_END, "C", ""))
	s.mu.Lock()
	s.phase = "ENDING"
	s.closed = false
	s.mu.Unlock()
	s.Enter()
	return s.w.WaitFor("the round to end", func() bool { return len(s.w.match(0, proto.ROUND_END, "C", "")) > n0 })
}

// waitClosed waits until the end-of-round table is back, and brings the model up to date.
func (s *Sim) waitClosed() error {
	err := s.w.WaitFor("the table to come back", func() bool { return s.closed })
	if err != nil {
		return err
	}
	back := s.w.Find(0, proto.ROUND_END, "", "C")
	s.mu.Lock()
	defer s.mu.Unlock()
	s.endWant = nil
	for i := len(back) - 1; i >= 0; i-- {
		if back[i].Bad {
			continue
		}
		if keys, ok := pointList(back[i].B("keys")); ok {
			s.endWant = []string{}
			for _, k := range keys {
				s.endWant = append(s.endWant, hx(k))
			}
		}
		break
	}
	for _, c := range s.cls {
		if c.nym != nil {
			c.x += s.rr.diff[hx(c.nym)]
		}
	}
	s.roundsOK++
	return nil
}

// judge checks at the end of a round that everything that was due has happened.
func (s *Sim) judge() {
	s.mu.Lock()
	defer s.mu.Unlock()
	rr := s.rr
	if len(rr.groups) < len(rr.reqs) {
		s.missLocked("C06,C04", "a valid request is not answered", "%d of %d answered; next: %s", len(rr.groups), len(rr.reqs), rr.reqs[len(rr.groups)].what)
	}
	for _, n := range s.servers {
		if rr.seen[n.name] != len(rr.groups) {
			s.missLocked("C08,C06", "a server is not asked to sign", "%s", n.name)
		}
	}
	for _, a := range rr.asg {
		c := s.clientOf(a.from)
		if len(a.sigs) == len(s.servers) && a.certs == 0 && (c == nil || !c.left) {
			s.missLocked("C06,C08,C04", "a complete certificate is not delivered", "%q", a.addr)
		}
		if len(a.sigs) < len(s.servers) && !s.attacked {
			s.missLocked("C06,C08", "a server does not sign an honest assignment", "%q has %d of %d signatures", a.addr, len(a.sigs), len(s.servers))
		}
	}
	s.c.Count("posts", rr.posts)
	s.c.Count("requests", rr.nreq)
	s.c.Count("assignments", len(rr.asg))
	s.c.Count("votes", rr.votes)
	s.c.Count("rounds", 1)
	s.c.Count("requests_short_of_bridges", rr.short)
}

// Fail turns an error of the run into a mismatch, or tells that it is inconclusive.
func (s *Sim) Fail(err error, tags string) (inconclusive bool) {
	if err == nil {
		return false
	}
	switch {
	case errors.Is(err, ErrCrash):
		s.miss(tags+",C18,C06", "a process ends", "%v", err)
	case errors.Is(err, ErrStuck):
		s.miss(tags+",C06", "the system stops making progress", "%v", err)
	default:
		return true
	}
	return false
}
