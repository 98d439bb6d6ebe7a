package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"zRep/cmd/bridge"
	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

var suite = nist.NewAES128SHA256QR512()

func say(f string, a ...interface{}) { fmt.Printf("DEMO "+f+"\n", a...) }

// broken ends the demonstration: the property does not hold.
func broken(f string, a ...interface{}) {
	say("VIOLATED: "+f, a...)
	stopAll()
	os.Exit(1)
}
func held() {
	say("held")
	stopAll()
	os.Exit(0)
}
func giveUp(f string, a ...interface{}) {
	say("GIVING UP: "+f, a...)
	for _, p := range procs {
		p.mu.Lock()
		fmt.Fprintln(os.Stderr, "---", p.name)
		l := p.out.String()
		if len(l) > 1500 {
			l = l[len(l)-1500:]
		}
		fmt.Fprintln(os.Stderr, l)
		p.mu.Unlock()
	}
	stopAll()
	os.Exit(3)
}

type proc struct {
	name string
	cmd  *exec.Cmd
	in   io.WriteCloser
	mu   sync.Mutex
	out  bytes.Buffer
	addr string
	done bool
}

var procs []*proc

func stopAll() {
	for _, p := range procs {
		p.cmd.Process.Kill()
	}
}

func (p *proc) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.out.Len() > 1<<20 {
		p.out.Reset()
	}
	return p.out.Write(b)
}
func (p *proc) has(s string) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return strings.Count(p.out.String(), s)
}

func freePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func start(role, name string, port, coord int) *proc {
	d := filepath.Join(os.Args[1], name)
	os.MkdirAll(d+"/config", 0o755)
	os.WriteFile(d+"/config/local.properties", []byte(fmt.Sprintf("local_port=%d\n", port)), 0o644)
	os.WriteFile(d+"/config/conn.properties", []byte(fmt.Sprintf("coordinator_ip=127.0.0.1\ncoordinator_port=%d\n", coord)), 0o644)
	p := &proc{name: name, cmd: exec.Command(filepath.Join(os.Args[1], "zrep"), role), addr: fmt.Sprintf("127.0.0.1:%d", port)}
	p.cmd.Dir = d
	p.in, _ = p.cmd.StdinPipe()
	p.cmd.Stdout, p.cmd.Stderr = p, p
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	procs = append(procs, p)
	go func() { p.cmd.Wait(); p.mu.Lock(); p.done = true; p.mu.Unlock() }()
	return p
}

func waitFor(what string, f func() bool) {
	for t := time.Now(); time.Since(t) < 60*time.Second; time.Sleep(10 * time.Millisecond) {
		if f() {
			return
		}
	}
	giveUp("waiting for %s", what)
}

// C is the coordinator, S are the servers.
var C *proc
var S []*proc

func boot(servers int) {
	bootCoordinator()
	for i := 0; i < servers; i++ {
		S = append(S, start("server", fmt.Sprint("s", i), freePort(), port(C)))
		waitFor("server", func() bool { return C.has("Receive the registration info from server") > i })
		time.Sleep(300 * time.Millisecond)
	}
	flush()
}

func bootCoordinator() {
	c := freePort()
	C = start("coordinator", "c", c, c)
	waitFor("coordinator", func() bool {
		conn, err := net.Dial("tcp", C.addr)
		if err == nil {
			conn.Close()
		}
		return err == nil
	})
}

func port(p *proc) int {
	a, _ := net.ResolveTCPAddr("tcp", p.addr)
	return a.Port
}

// push sends bytes and returns when the other side has read and handled them.
func push(to string, data []byte) {
	conn, err := net.Dial("tcp", to)
	if err != nil {
		return
	}
	conn.Write(data)
	conn.(*net.TCPConn).CloseWrite()
	conn.SetReadDeadline(time.Now().Add(30 * time.Second))
	io.Copy(io.Discard, conn)
	conn.Close()
}

func encode(typ int, src string, ps map[string]interface{}) []byte {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(&proto.Event{EventType: typ, Params: ps, SrcAddr: src}); err != nil {
		panic(err)
	}
	return b.Bytes()
}

func send(to, src string, typ int, ps map[string]interface{}) { push(to, encode(typ, src, ps)) }

// flush returns when the coordinator and the servers have handled what was sent to them.
func flush() {
	for i := 0; i < 3; i++ {
		for _, p := range append([]*proc{C}, S...) {
			send(p.addr, "127.0.0.1:9", 9999, map[string]interface{}{})
			time.Sleep(60 * time.Millisecond)
			send(p.addr, "127.0.0.1:9", 9999, map[string]interface{}{})
		}
	}
}

func pause() { time.Sleep(5 * time.Millisecond) }

func enter() { io.WriteString(C.in, "\n") }

// peer listens on an address and records what it gets.
type peer struct {
	addr string
	mu   sync.Mutex
	got  []*proto.Event
}

func newPeer() *peer {
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic(err)
	}
	p := &peer{addr: l.Addr().String()}
	go func() {
		for {
			conn, err := l.AcceptTCP()
			if err != nil {
				return
			}
			data, _ := io.ReadAll(conn)
			conn.Close()
			e := &proto.Event{}
			if gob.NewDecoder(bytes.NewReader(data)).Decode(e) == nil {
				p.mu.Lock()
				p.got = append(p.got, e)
				p.mu.Unlock()
			}
		}
	}()
	return p
}

func (p *peer) all(typ int) (res []*proto.Event) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, e := range p.got {
		if e.EventType == typ {
			res = append(res, e)
		}
	}
	return
}

// wait returns the n-th (from 1) event of a type.
func (p *peer) wait(typ, n int) *proto.Event {
	waitFor(fmt.Sprintf("event %d of type %d at %s", n, typ, p.addr), func() bool { return len(p.all(typ)) >= n })
	return p.all(typ)[n-1]
}

// client plays the client program.
type client struct {
	*peer
	sk   abstract.Secret
	pk   abstract.Point
	x    int
	r    abstract.Secret
	fo   *fujiokam.FujiOkamBase
	g    abstract.Point
	nym  abstract.Point
	ped  *pedersen.PedersenBase
	comm abstract.Point
	keys []abstract.Point
	vals []abstract.Point
}

func bytesOf(e *proto.Event, k string) []byte { b, _ := e.Params[k].([]byte); return b }
func point(b []byte) abstract.Point           { return util.DecodePoint(suite, b) }
func secret(b []byte) abstract.Secret {
	s := suite.Secret()
	if err := s.UnmarshalBinary(b); err != nil {
		panic(err)
	}
	return s
}

func newClient() *client {
	c := &client{peer: newPeer(), x: bridge.StartingCredit}
	c.sk = suite.Secret().Pick(random.Stream)
	c.pk = suite.Point().Mul(nil, c.sk)
	return c
}

func (c *client) register() {
	send(C.addr, c.addr, proto.CLIENT_REGISTER_CONTROLLERSIDE, map[string]interface{}{"public_key": util.EncodePoint(c.pk)})
}

// joined waits for the answers to a registration.
func (c *client) joined() {
	e := c.wait(proto.INIT_PEDERSEN_R, 1)
	c.r = secret(bytesOf(e, "r"))
	c.g = point(bytesOf(e, "g"))
	c.nym = suite.Point().Mul(c.g, c.sk)
	e = c.wait(proto.CLIENT_REGISTER_CONFIRMATION, 1)
	b := fujiokam.CreateMinimumBase(suite, new(big.Int).SetBytes(bytesOf(e, "n")))
	g := func(k string) *fujiokam.Point { return b.Point().FromBinary(bytesOf(e, k)) }
	b.G1, b.G2, b.G3, b.G4, b.G5, b.G6, b.H1 = g("g1"), g("g2"), g("g3"), g("g4"), g("g5"), g("g6"), g("h1")
	c.fo = b
}

// table takes the n-th table this client gets; it tells whether the client is in it.
func (c *client) table(n int) bool {
	e := c.wait(proto.ANNOUNCEMENT_FINALIZE, n)
	c.g = point(bytesOf(e, "g"))
	c.ped = &pedersen.PedersenBase{Suite: suite, GT: point(bytesOf(e, "GT")), HT: point(bytesOf(e, "HT"))}
	c.nym = suite.Point().Mul(c.g, c.sk)
	c.keys = util.ProtobufDecodePointList(bytesOf(e, "keys"))
	c.vals = util.ProtobufDecodePointList(bytesOf(e, "vals"))
	c.comm = nil
	for i, k := range c.keys {
		if k.Equal(c.nym) {
			c.comm = c.vals[i]
		}
	}
	return c.comm != nil
}

// result takes the n-th end of a round: the new reputation and opening.
func (c *client) result(n int) {
	e := c.wait(proto.BCAST_PEDERSEN_RDIFF, n)
	keys := util.ProtobufDecodePointList(bytesOf(e, "keys"))
	rs := util.ProtobufDecodeSecretList(bytesOf(e, "rDiffs"))
	for i, k := range keys {
		if c.nym != nil && k.Equal(c.nym) {
			c.r = suite.Secret().Add(c.r, rs[i])
		}
	}
	e = c.wait(proto.ROUND_END, n)
	keys = util.ProtobufDecodePointList(bytesOf(e, "keys"))
	diffs := util.DecodeIntArray(bytesOf(e, "diffs"))
	for i, k := range keys {
		if c.nym != nil && k.Equal(c.nym) {
			c.x += diffs[i]
		}
	}
}

// opens tells whether the published commitment is one to x.
func (c *client) opens(x int) bool {
	return c.ped.CommitWithR(suite.Secret().SetInt64(int64(x)), c.r).Equal(c.comm)
}

func (c *client) post(addr string) {
	ps := map[string]interface{}{"bridge_addr": addr, "nym": util.EncodePoint(c.nym)}
	ps["signature"] = util.ElGamalSign(suite, random.Stream, bridge.MessageOfPostBridge(ps), c.sk, c.g)
	send(C.addr, c.addr, proto.POST_BRIDGE, ps)
}

func (c *client) requestParams(ind int) map[string]interface{} {
	d := c.x - ind
	PCommind, rind := c.ped.Commit(suite.Secret().SetInt64(int64(ind)))
	PCommd := c.ped.Sub(c.comm, PCommind)
	FOCommd, rFO := c.fo.Commit(big.NewInt(int64(d)))
	nonneg := c.fo.ProveNonneg(big.NewInt(int64(d)), FOCommd, rFO)
	rd := suite.Secret().Sub(c.r, rind)
	eq := pedersen_fujiokam.ProveEqual(c.ped, c.fo, suite.Secret().SetInt64(int64(d)), PCommd, rd, FOCommd, rFO)
	ps := map[string]interface{}{
		"ind": ind, "nym": util.EncodePoint(c.nym), "FOCommd": FOCommd.ToBinary(), "PCommd": util.EncodePoint(PCommd), "PCommind": util.EncodePoint(PCommind),
		"rind": util.EncodeSecret(rind), "arg_nonneg": util.EncodeARGnonneg(nonneg), "arg_equal": util.EncodeARGequal(eq),
	}
	c.signRequest(ps)
	return ps
}

func (c *client) signRequest(ps map[string]interface{}) {
	ps["signature"] = util.ElGamalSign(suite, random.Stream, bridge.MessageOfRequestBridges(ps), c.sk, c.g)
}

func (c *client) request(ind int) {
	send(C.addr, c.addr, proto.REQUEST_BRIDGES, c.requestParams(ind))
}

func (c *client) voteParams(cert *proto.Event, fb int) map[string]interface{} {
	ps := map[string]interface{}{"nym": util.EncodePoint(c.nym), "assignment": bytesOf(cert, "assignment"), "signatures": bytesOf(cert, "signatures"), "feedback": fb}
	c.signVote(ps)
	return ps
}

func (c *client) signVote(ps map[string]interface{}) {
	ps["signature"] = util.ElGamalSign(suite, random.Stream, bridge.MessageOfVote(ps), c.sk, c.g)
}

func (c *client) vote(cert *proto.Event, fb int) {
	send(C.addr, c.addr, proto.VOTE, c.voteParams(cert, fb))
}

// firstRound opens the first round, lets the clients register in it, and opens the second one, in which they are members.
func firstRound(cs ...*client) {
	for _, c := range cs {
		c.register()
	}
	enter()
	for _, c := range cs {
		c.joined()
	}
	nextRound(1, cs...)
}

// askVotes is the end of posting.
func askVotes(n int, c *client) { enter(); c.wait(proto.VOTE, n) }

// nextRound ends round n (from 1) and opens the next one.
func nextRound(n int, cs ...*client) {
	flush()
	if len(cs[0].all(proto.VOTE)) < n {
		askVotes(n, cs[0])
	}
	enter()
	for _, c := range cs {
		c.result(n)
	}
	for _, c := range cs {
		if !c.table(n) {
			say("a client is not in its table")
		}
	}
	flush()
}

func addrOf(cert *proto.Event) string {
	return bridge.DecodeAssignment(bytesOf(cert, "assignment")).Addr
}
