package main

import (
	"fmt"
	"math/big"
	"sync"

	"zRep/cmd/bridge"
	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/random"
)

// Table is what one announcement publishes.
type Table struct {
	G, GT, HT  *big.Int
	Keys, Vals []*big.Int
	Raw        string // all fields, for comparison
	Seq        int
}

func tableOf(m *Msg) (*Table, bool) {
	t := &Table{G: bi(m.B("g")), GT: bi(m.B("GT")), HT: bi(m.B("HT")), Seq: m.Seq}
	var ok1, ok2 bool
	t.Keys, ok1 = pointList(m.B("keys"))
	t.Vals, ok2 = pointList(m.B("vals"))
	t.Raw = fmt.Sprint(t.G, t.GT, t.HT, t.Keys, t.Vals)
	return t, ok1 && ok2 && len(t.Keys) == len(t.Vals)
}

func (t *Table) Index(nym *big.Int) (idx, n int) {
	idx = -1
	for i, k := range t.Keys {
		if k.Cmp(nym) == 0 {
			n++
			idx = i
		}
	}
	return
}

type Cert struct {
	Assignment []byte
	Signatures []byte
	A          *bridge.Assignment
	Seq        int
}

// MClient is a client played by the harness: it follows the protocol of the client program, but exposes its secrets
// and can misbehave.
type MClient struct {
	*Node
	mu        sync.Mutex
	sk        abstract.Secret
	pk        *big.Int
	r         *big.Int // opening of its commitment as told by the coordinator
	x         int      // reputation according to the referee
	told      int      // reputation according to ROUND_END messages
	nym       *big.Int
	tab       *Table
	fo        *fujiokam.FujiOkamBase
	foParams  map[string]interface{}
	coordPK   *big.Int
	certs     []Cert // of this round
	inits     int
	confirms  int
	finals    int
	ends      int
	votes     int
	in        []*Msg
	left      bool
	onConfirm func(m *Msg)
	bits      []bool
	prf       []*big.Int
	// round in which it appeared first in a table
	since int
}

func (w *World) AddModelClient() *MClient {
	w.naming.Lock()
	defer w.naming.Unlock()
	c := &MClient{Node: &Node{name: fmt.Sprintf("m%d", w.count("m"))}, x: bridge.StartingCredit, told: bridge.StartingCredit, since: -1}
	c.sk = randSec()
	c.pk = gexp(grpG, sv(c.sk))
	c.model = c.handle
	w.addNode(c.Node)
	return c
}

func (c *MClient) handle(m *Msg) {
	c.take(m)
	if m.Type() == proto.CLIENT_REGISTER_CONFIRMATION && c.onConfirm != nil {
		c.onConfirm(m)
	}
}

func (c *MClient) take(m *Msg) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.in = append(c.in, m)
	if m.Ev == nil {
		return
	}
	switch m.Type() {
	case proto.INIT_PEDERSEN_R:
		c.inits++
		c.r = bi(m.B("r"))
		c.nym = gexp(bi(m.B("g")), sv(c.sk))
	case proto.CLIENT_REGISTER_CONFIRMATION:
		c.confirms++
		c.foParams = m.Ev.Params
		c.fo = foFromParams(m.Ev.Params)
		c.coordPK = bi(m.B("public_key"))
	case proto.ANNOUNCEMENT_FINALIZE:
		c.finals++
		if t, ok := tableOf(m); ok {
			c.tab = t
			c.nym = gexp(t.G, sv(c.sk))
		}
	case proto.GOT_SIGNS:
		var a *bridge.Assignment
		try(func() { a = bridge.DecodeAssignment(m.B("assignment")) })
		c.certs = append(c.certs, Cert{m.B("assignment"), m.B("signatures"), a, m.Seq})
	case proto.BCAST_PEDERSEN_RDIFF:
		keys, ok1 := pointList(m.B("keys"))
		diffs, ok2 := secretList(m.B("rDiffs"))
		if ok1 && ok2 && c.nym != nil && c.r != nil {
			for i, k := range keys {
				if k.Cmp(c.nym) == 0 && i < len(diffs) {
					c.r = new(big.Int).Mod(new(big.Int).Add(c.r, diffs[i]), grpQ)
					break
				}
			}
		}
	case proto.VOTE:
		c.votes++
	case proto.ROUND_END:
		c.ends++
		c.certs = nil
		keys, ok := pointList(m.B("keys"))
		var diffs []int
		pan, _ := try(func() { diffs = util.DecodeIntArray(m.B("diffs")) })
		if ok && !pan {
			for i, k := range keys {
				if k.Cmp(c.nym) == 0 && i < len(diffs) {
					c.told += diffs[i]
					break
				}
			}
		}
	}
}

func (c *MClient) Register() *Msg {
	return c.w.Send(c.name, "C", ev(proto.CLIENT_REGISTER_CONTROLLERSIDE, map[string]interface{}{"public_key": pad64(c.pk)}), "register "+c.name)
}

func (c *MClient) Ped() *pedersen.PedersenBase {
	return &pedersen.PedersenBase{Suite: suite, GT: pt(c.tab.GT), HT: pt(c.tab.HT)}
}

func (c *MClient) G() abstract.Point { return pt(c.tab.G) }

// In tells whether the client is part of the current table.
func (c *MClient) In() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.tab == nil || c.fo == nil || c.left {
		return false
	}
	_, n := c.tab.Index(c.nym)
	return n > 0
}

func (c *MClient) comm() *big.Int {
	i, _ := c.tab.Index(c.nym)
	if i < 0 {
		return one
	}
	return c.tab.Vals[i]
}

// postParams signs a post of this client.
func (c *MClient) postParams(addr string) map[string]interface{} {
	ps := map[string]interface{}{"bridge_addr": addr, "nym": pad64(c.nym)}
	ps["signature"] = util.ElGamalSign(suite, random.Stream, bridge.MessageOfPostBridge(ps), c.sk, c.G())
	return ps
}

func (c *MClient) Post(addr string) *Msg {
	return c.w.Send(c.name, "C", ev(proto.POST_BRIDGE, c.postParams(addr)), "post")
}

func (c *MClient) reqParams(ind int) (map[string]interface{}, *reqParts) {
	return makeRequest(c.Ped(), c.fo, c.x, ind, sec(c.r), pt(c.comm()), pad64(c.nym), c.sk, c.G())
}

func (c *MClient) Request(ind int) *Msg {
	ps, _ := c.reqParams(ind)
	return c.w.Send(c.name, "C", ev(proto.REQUEST_BRIDGES, ps), "request")
}

func (c *MClient) voteParams(cert Cert, fb int) map[string]interface{} {
	ps := map[string]interface{}{"nym": pad64(c.nym), "assignment": cert.Assignment, "signatures": cert.Signatures, "feedback": fb}
	ps["signature"] = util.ElGamalSign(suite, random.Stream, bridge.MessageOfVote(ps), c.sk, c.G())
	return ps
}

func (c *MClient) Vote(cert Cert, fb int) *Msg {
	return c.w.Send(c.name, "C", ev(proto.VOTE, c.voteParams(cert, fb)), "vote")
}

func (c *MClient) Certs() []Cert {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Cert{}, c.certs...)
}
