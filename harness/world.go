package main

import (
	"bytes"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"zRep/proto"
)

// A World is one run of the real coordinator, servers and clients as separate processes. Every message between
// them passes through the harness, which records it, decides when (and whether) it is delivered, and can play
// further participants itself.

var (
	ErrStuck   = errors.New("the system stopped making progress")
	ErrTimeout = errors.New("watchdog")
	ErrCrash   = errors.New("a process ended")
)

type Msg struct {
	Seq      int // order of capture
	DSeq     int // order of delivery, 0 before
	From, To string
	Ev       *proto.Event
	Raw      []byte // delivered as is when Ev is nil
	Tag      string // the harness' note about a message it sent itself
	Bad      bool   // a message of the harness that must not have any effect
	KeepSrc  bool   // deliver with the SrcAddr it has
	Note     any
	When     time.Duration
}

func (m *Msg) Type() int {
	if m.Ev == nil {
		return -1
	}
	return m.Ev.EventType
}
func (m *Msg) B(k string) []byte {
	if m.Ev == nil {
		return nil
	}
	b, _ := m.Ev.Params[k].([]byte)
	return b
}
func (m *Msg) S(k string) string {
	if m.Ev == nil {
		return ""
	}
	b, _ := m.Ev.Params[k].(string)
	return b
}

var evName = map[int]string{proto.SERVER_REGISTER: "SERVER_REGISTER", proto.SERVER_REGISTER_REPLY: "SERVER_REGISTER_REPLY",
	proto.UPDATE_NEXT_HOP: "UPDATE_NEXT_HOP", proto.CLIENT_REGISTER_CONTROLLERSIDE: "CLIENT_REGISTER", proto.CLIENT_REGISTER_SERVERSIDE: "CLIENT_REGISTER_SERVERSIDE",
	proto.CLIENT_REGISTER_CONFIRMATION: "CONFIRMATION", proto.ANNOUNCEMENT: "ANNOUNCEMENT", proto.VOTE: "VOTE", proto.ROUND_END: "ROUND_END",
	proto.BCAST_PEDERSEN_H: "BCAST_H", proto.GN_HONESTY_CHALLENGE: "CHALLENGE", proto.GN_HONESTY_ANSWER: "ANSWER", proto.UPDATE_PEDERSEN_H: "UPDATE_H",
	proto.BCAST_PEDERSEN_RDIFF: "RDIFF", proto.INIT_PEDERSEN_R: "INIT_R", proto.POST_BRIDGE: "POST", proto.REQUEST_BRIDGES: "REQUEST",
	proto.SIGN_ASSIGNMENTS: "SIGN_ASSIGNMENTS", proto.GOT_SIGNS: "GOT_SIGNS", proto.ANNOUNCEMENT_FINALIZE: "FINALIZE"}

func (m *Msg) String() string {
	n := "raw"
	if m.Ev != nil {
		n = evName[m.Ev.EventType]
		if n == "" {
			n = strconv.Itoa(m.Ev.EventType)
		}
	}
	s := fmt.Sprintf("#%d/%d %v %s->%s %s", m.Seq, m.DSeq, m.When.Round(time.Millisecond), m.From, m.To, n)
	if a := m.S("bridge_addr"); a != "" {
		s += " " + a
	}
	if m.Ev != nil {
		if v, ok := m.Ev.Params["ind"].(int); ok {
			s += fmt.Sprint(" ind=", v)
		}
		if v, ok := m.Ev.Params["feedback"].(int); ok {
			s += fmt.Sprint(" fb=", v)
		}
	}
	if m.Tag != "" {
		s += " [" + m.Tag + "]"
	}
	if m.Bad {
		s += " BAD"
	}
	if os.Getenv("ZREP_ALL") != "" && m.Ev != nil {
		for k, v := range m.Ev.Params {
			x := fmt.Sprintf("%#v", v)
			if b, ok := v.([]byte); ok {
				x = fmt.Sprintf("%x", b)
			}
			if len(x) > 400 {
				x = x[:400]
			}
			s += " " + k + "=" + x
		}
		s += " SRC=" + m.Ev.SrcAddr
	}
	return s
}

type front struct {
	l       *net.TCPListener
	addr    string
	owner   string // the node whose messages arrive here
	from    string // the only sender, if known
	mu      sync.Mutex
	sent    map[string]chan bool
	counter int64
	fd      int
	held    []net.Conn
	gone    atomic.Value // how its owner has left, a string
}

// leave ends a participant that the harness plays: "refuse" its connections, "reset" them, "stall", accepting
// without ever reading, or "deaf", answering no packets.
func (f *front) leave(how string) {
	f.gone.Store(how)
	if how != "refuse" && how != "deaf" {
		return
	}
	a := f.l.Addr().(*net.TCPAddr)
	f.l.Close()
	// keep the port, so that nobody else gets it
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return
	}
	syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
	syscall.Bind(fd, &syscall.SockaddrInet4{Port: a.Port, Addr: [4]byte{127, 0, 0, 1}})
	f.mu.Lock()
	f.fd = fd
	f.mu.Unlock()
	if how == "deaf" {
		// the one connection that fits into its queue is there already, all others get no answer
		syscall.Listen(fd, 0)
		if conn, err := net.Dial("tcp", f.addr); err == nil {
			f.mu.Lock()
			f.held = append(f.held, conn)
			f.mu.Unlock()
		}
	}
}

type Node struct {
	w     *World
	name  string
	real  string // where the process listens, as it says itself
	front *front
	cfr   *front // this node's own way to the coordinator
	proc  *Proc
	model func(m *Msg) // for a participant played by the harness
	dirty atomic.Bool  // something was delivered since the last barrier
}

func (n *Node) dial() string {
	return strings.Replace(n.real, "0.0.0.0", "127.0.0.1", 1)
}

type Proc struct {
	cmd   *exec.Cmd
	stdin *os.File
	mu    sync.Mutex
	lines []string
	total int
	done  chan struct{}
	err   error
	dir   string
	quit  bool // the harness ended it, or expects it to end
}

func (p *Proc) Dead() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// Tail returns the last output lines.
func (p *Proc) Tail(n int) []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.lines) < n {
		n = len(p.lines)
	}
	return append([]string{}, p.lines[len(p.lines)-n:]...)
}

// busy returns the CPU ticks used so far and whether any thread is runnable.
func (p *Proc) busy() (ticks int64, running bool) {
	tasks, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", p.cmd.Process.Pid))
	for _, t := range tasks {
		data, err := os.ReadFile(t)
		if err != nil {
			continue
		}
		s := string(data)
		i := strings.LastIndex(s, ")")
		f := strings.Fields(s[i+1:])
		if len(f) < 14 {
			continue
		}
		if f[0] == "R" || f[0] == "D" {
			running = true
		}
		u, _ := strconv.ParseInt(f[11], 10, 64)
		k, _ := strconv.ParseInt(f[12], 10, 64)
		ticks += u + k
	}
	return
}

type World struct {
	races   []string // the reports, once closed
	naming  sync.Mutex
	Name    string
	rng     *Rng
	dir     string
	bin     string
	env     []string
	start   time.Time
	mu      sync.Mutex
	cond    *sync.Cond
	Log     []*Msg // in order of capture
	pending []*Msg
	dcount  int
	busy    bool
	closed  bool
	nodes   map[string]*Node
	order   []string
	C       *Node
	fronts  []*front
	// Random delivery across links (first in first out on each link)
	Shuffle bool
	// Hold, when set, keeps a message (and those behind it on its link) undelivered
	Hold func(m *Msg) bool
	// Intercept, when set, may replace a message on delivery
	Intercept func(m *Msg) []*Msg
	// Observe is called for every message on delivery, before it takes effect
	Observe  []func(m *Msg)
	progress int64
	errs     []string
	locks    []net.Listener
	faults   int
	patience time.Duration // how long all may be idle before the system counts as stuck
}

var portBase int64 = 10000 + int64(os.Getpid()*37%15000)

var portMu sync.Mutex

func (w *World) freePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for {
		p := int(atomic.AddInt64(&portBase, 13)) / 13 * 13
		if p > 31000 {
			atomic.StoreInt64(&portBase, 10000)
			continue
		}
		// other checks on this host keep away from a port while this (abstract) socket is open
		lock, err := net.Listen("unix", fmt.Sprintf("@zrep-check-port-%d", p/13))
		if err != nil {
			continue
		}
		// a process forked right now must not keep the socket
		syscall.ForkLock.RLock()
		// the program tries up to ten further ports when one is taken, and the harness would not know
		free := true
		for q := p; q < p+2 && free; q++ {
			l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", q))
			if err != nil {
				free = false
				continue
			}
			l.Close()
		}
		syscall.ForkLock.RUnlock()
		if !free {
			lock.Close()
			continue
		}
		w.locks = append(w.locks, lock)
		return p
	}
}

var scratchRoot string

func NewWorld(name, bin string, rng *Rng) *World {
	w := &World{Name: name, rng: rng, bin: bin, start: time.Now(), patience: 10 * time.Second, nodes: map[string]*Node{}}
	w.cond = sync.NewCond(&w.mu)
	d, err := os.MkdirTemp(scratchRoot, "world")
	if err != nil {
		panic(err)
	}
	w.dir = d
	return w
}

func (w *World) newFront(owner, from string) *front {
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic(err)
	}
	f := &front{l: l, addr: l.Addr().String(), owner: owner, from: from, sent: map[string]chan bool{}}
	w.mu.Lock()
	w.fronts = append(w.fronts, f)
	w.mu.Unlock()
	go func() {
		for {
			conn, err := l.AcceptTCP()
			if err != nil {
				return
			}
			if f.gone.Load() != nil {
				if f.gone.Load() == "reset" {
					conn.SetLinger(0)
					conn.Close()
				} else {
					f.mu.Lock()
					f.held = append(f.held, conn)
					f.mu.Unlock()
				}
				continue
			}
			conn.SetReadDeadline(time.Now().Add(30 * time.Second))
			data, err := io.ReadAll(conn)
			conn.Close()
			if strings.HasPrefix(string(data), "\x00sentinel") {
				f.mu.Lock()
				if ch := f.sent[string(data)]; ch != nil {
					close(ch)
					delete(f.sent, string(data))
				}
				f.mu.Unlock()
				continue
			}
			w.capture(f, data, err)
		}
	}()
	return f
}

// flush returns once everything that had been sent to the front before is captured.
func (f *front) flush() {
	if f.gone.Load() != nil {
		return
	}
	f.mu.Lock()
	f.counter++
	key := fmt.Sprintf("\x00sentinel%d", f.counter)
	ch := make(chan bool)
	f.sent[key] = ch
	f.mu.Unlock()
	conn, err := net.Dial("tcp", f.addr)
	if err != nil {
		return
	}
	conn.Write([]byte(key))
	conn.Close()
	select {
	case <-ch:
	case <-time.After(40 * time.Second):
	}
}

func decodeEvent(data []byte) (ev *proto.Event, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	ev = &proto.Event{}
	err = gob.NewDecoder(bytes.NewReader(data)).Decode(ev)
	return
}

func encodeEvent(ev *proto.Event) []byte {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(ev); err != nil {
		panic(err)
	}
	return b.Bytes()
}

func (w *World) capture(f *front, data []byte, rerr error) {
	if len(data) == 0 {
		return
	}
	m := &Msg{To: f.owner, When: time.Since(w.start)}
	ev, err := decodeEvent(data)
	if err != nil {
		m.Raw = data
		m.From = f.from
	} else {
		m.Ev = ev
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.closed {
		return
	}
	if f.from != "" {
		m.From = f.from
		if n := w.nodes[f.from]; n != nil && n.real == "" && ev != nil {
			n.real = ev.SrcAddr
		}
	} else if ev != nil {
		m.From = "?"
		for _, n := range w.nodes {
			if n.real != "" && n.real == ev.SrcAddr {
				m.From = n.name
			}
		}
	}
	w.enqueue(m)
}

func (w *World) enqueue(m *Msg) {
	m.Seq = len(w.Log) + 1
	w.Log = append(w.Log, m)
	w.pending = append(w.pending, m)
	atomic.AddInt64(&w.progress, 1)
	w.cond.Broadcast()
}

// Send queues a message of a participant that the harness plays (or forges).
func (w *World) Send(from, to string, ev *proto.Event, tag string) *Msg {
	m := &Msg{From: from, To: to, Ev: ev, Tag: tag, When: time.Since(w.start)}
	w.mu.Lock()
	w.enqueue(m)
	w.mu.Unlock()
	return m
}

// SendBad queues a message that must not have any effect.
func (w *World) SendBad(from, to string, ev *proto.Event, tag string) *Msg {
	m := &Msg{From: from, To: to, Ev: ev, Tag: tag, Bad: true, When: time.Since(w.start)}
	w.mu.Lock()
	w.enqueue(m)
	w.mu.Unlock()
	return m
}

// Queue queues a prepared message.
func (w *World) Queue(m *Msg) *Msg {
	m.When = time.Since(w.start)
	w.mu.Lock()
	w.enqueue(m)
	w.mu.Unlock()
	return m
}

func (w *World) SendRaw(from, to string, data []byte, tag string) *Msg {
	m := &Msg{From: from, To: to, Raw: data, Tag: tag, Bad: true, When: time.Since(w.start)}
	w.mu.Lock()
	w.enqueue(m)
	w.mu.Unlock()
	return m
}

// lane is what messages keep their order on; hostile ones do not wait for held ones.
func (m *Msg) lane() string {
	l := m.From + ">" + m.To
	if m.Bad {
		l += "!"
	}
	return l
}

// next picks a deliverable message, with w.mu held.
func (w *World) next() *Msg {
	var cand []int
	seen := map[string]bool{}
	for i, m := range w.pending {
		l := m.lane()
		if seen[l] {
			continue
		}
		seen[l] = true
		if w.Hold != nil && w.Hold(m) {
			continue
		}
		cand = append(cand, i)
		if !w.Shuffle {
			break
		}
	}
	if len(cand) == 0 {
		return nil
	}
	i := cand[0]
	if w.Shuffle {
		i = cand[w.rng.IntN(len(cand))]
	}
	m := w.pending[i]
	w.pending = append(w.pending[:i:i], w.pending[i+1:]...)
	return m
}

// Kick makes the pump look again after Hold has changed.
func (w *World) Kick() {
	w.mu.Lock()
	w.cond.Broadcast()
	w.mu.Unlock()
}

// fault notes that the harness itself could not deal with something.
func (w *World) fault(what string) {
	w.mu.Lock()
	w.errs = append(w.errs, "harness: "+what)
	w.faults++
	w.mu.Unlock()
}

func (w *World) pump() {
	w.mu.Lock()
	for {
		if w.closed {
			w.mu.Unlock()
			return
		}
		m := w.next()
		if m == nil {
			w.cond.Wait()
			continue
		}
		w.busy = true
		w.mu.Unlock()
		out := []*Msg{m}
		if w.Intercept != nil {
			if pan, what := try(func() { out = w.Intercept(m) }); pan {
				w.fault(fmt.Sprintf("attack on %v: %s", m, what))
			}
		}
		for _, o := range out {
			w.deliver(o)
		}
		w.mu.Lock()
		w.busy = false
		w.cond.Broadcast()
	}
}

func (w *World) addrOf(name, to string) string {
	w.mu.Lock()
	defer w.mu.Unlock()
	if name == "C" {
		if n := w.nodes[to]; n != nil && n.cfr != nil {
			return n.cfr.addr
		}
		return w.C.real
	}
	if n := w.nodes[name]; n != nil {
		return n.front.addr
	}
	return name
}

func (w *World) deliver(m *Msg) {
	w.mu.Lock()
	w.dcount++
	m.DSeq = w.dcount
	n := w.nodes[m.To]
	w.mu.Unlock()
	atomic.AddInt64(&w.progress, 1)
	for _, f := range w.Observe {
		if pan, what := try(func() { f(m) }); pan {
			w.fault(fmt.Sprintf("observing %v: %s", m, what))
		}
	}
	if n == nil || n.front != nil && n.front.gone.Load() != nil {
		return
	}
	if n.model != nil {
		if pan, what := try(func() { n.model(m) }); pan {
			w.mu.Lock()
			w.errs = append(w.errs, fmt.Sprintf("%s cannot take %v: %s", n.name, m, what))
			w.mu.Unlock()
		}
		return
	}
	data := m.Raw
	if m.Ev != nil {
		ev := *m.Ev
		if m.From != "?" && !m.KeepSrc {
			ev.SrcAddr = w.addrOf(m.From, m.To)
		}
		if m.From == "C" {
			ps := map[string]interface{}{}
			for k, v := range ev.Params {
				if s, ok := v.(string); ok && s == w.C.real {
					v = w.addrOf("C", m.To)
				}
				ps[k] = v
			}
			ev.Params = ps
		}
		data = encodeEvent(&ev)
	}
	if n.real == "" {
		return
	}
	n.dirty.Store(true)
	for i := 0; ; i++ {
		err := w.pushBytes(n, data, n.proc != nil && !strings.HasPrefix(n.name, "k"))
		if err == nil {
			break
		}
		refused := errors.Is(err, syscall.ECONNREFUSED)
		if !refused || i > 20 || n.proc == nil || n.proc.Dead() {
			w.mu.Lock()
			w.errs = append(w.errs, fmt.Sprintf("%v: %v", m, err))
			w.mu.Unlock()
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
}

// pushBytes hands a message to a real process, and waits until it has been read when the process tells.
func (w *World) pushBytes(n *Node, data []byte, wait bool) error {
	conn, err := net.DialTimeout("tcp", n.dial(), 20*time.Second)
	if err != nil {
		return err
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(30 * time.Second))
	if _, err := conn.Write(data); err != nil {
		return err
	}
	conn.(*net.TCPConn).CloseWrite()
	if wait {
		_, err = io.Copy(io.Discard, conn)
	}
	return err
}

var barrierEvent = encodeEvent(&proto.Event{EventType: 9999, Params: map[string]interface{}{}, SrcAddr: "127.0.0.1:9"})

// barrier returns once the process has handled everything that was delivered to it before.
func (w *World) barrier(n *Node) error {
	if n.proc == nil || n.real == "" || n.proc.Dead() {
		return nil
	}
	if strings.HasPrefix(n.name, "k") {
		if !n.dirty.Swap(false) {
			return nil
		}
		return w.barrierClient(n)
	}
	return w.pushBytes(n, barrierEvent, true)
}

// barrierClient: the client program reads one connection after the other to its end, but closes none. It has read
// a connection, and handled those before, once the kernel's receive queue for it is empty.
func (w *World) barrierClient(n *Node) error {
	conn, err := net.DialTimeout("tcp", n.dial(), 20*time.Second)
	if err != nil {
		return err
	}
	defer conn.Close()
	conn.Write(barrierEvent)
	conn.(*net.TCPConn).CloseWrite()
	local := conn.LocalAddr().(*net.TCPAddr).Port
	_, rp, _ := net.SplitHostPort(n.dial())
	remote, _ := strconv.Atoi(rp)
	key := fmt.Sprintf("0100007F:%04X 0100007F:%04X", remote, local)
	read := 0
	for i := 0; i < 2000 && read < 2; i++ {
		data, _ := os.ReadFile("/proc/net/tcp")
		s := string(data)
		j := strings.Index(s, key)
		if j < 0 {
			read++
			continue
		}
		f := strings.Fields(s[j:])
		if len(f) > 3 && strings.HasSuffix(f[3], ":00000000") {
			read++
		} else {
			read = 0
		}
		if n.proc.Dead() {
			return ErrCrash
		}
		time.Sleep(time.Duration(2+min(i, 20)) * time.Millisecond)
	}
	if read >= 2 {
		return nil
	}
	return ErrTimeout
}

func (w *World) deliverable() bool {
	seen := map[string]bool{}
	for _, m := range w.pending {
		l := m.lane()
		if seen[l] {
			continue
		}
		seen[l] = true
		if w.Hold == nil || !w.Hold(m) {
			return true
		}
	}
	return false
}

func (w *World) idle() {
	w.mu.Lock()
	for !w.closed && (w.busy || w.deliverable()) {
		w.cond.Wait()
	}
	w.mu.Unlock()
}

// Settle returns when the coordinator and the servers have handled all messages that are not held back,
// and everything they sent in response has been captured and delivered too.
func (w *World) Settle() {
	for i := 0; i < 200; i++ {
		w.idle()
		w.mu.Lock()
		n0 := len(w.Log)
		nodes := []*Node{}
		for _, name := range w.order {
			nodes = append(nodes, w.nodes[name])
		}
		fr := append([]*front{}, w.fronts...)
		w.mu.Unlock()
		for _, n := range nodes {
			w.barrier(n)
		}
		for _, f := range fr {
			f.flush()
		}
		w.idle()
		w.mu.Lock()
		same := len(w.Log) == n0
		w.mu.Unlock()
		if same {
			return
		}
	}
	w.errs = append(w.errs, "never settles")
}

// shim makes the coordinator's key generation fast: it answers exactly the one openssl call with stored safe primes.
func (w *World) shim(realOpenssl bool) []string {
	env := os.Environ()
	if realOpenssl {
		return env
	}
	for i, e := range env {
		if strings.HasPrefix(e, "PATH=") {
			env[i] = "PATH=" + shimDir + ":" + strings.TrimPrefix(e, "PATH=")
		}
	}
	return env
}

func (w *World) spawn(role, name string, localPort int, coordAddr string, env []string) *Proc {
	d := filepath.Join(w.dir, name)
	os.MkdirAll(filepath.Join(d, "config"), 0o755)
	host, port, _ := net.SplitHostPort(coordAddr)
	os.WriteFile(filepath.Join(d, "config", "local.properties"), []byte(fmt.Sprintf("local_port=%d\n", localPort)), 0o644)
	os.WriteFile(filepath.Join(d, "config", "conn.properties"), []byte(fmt.Sprintf("coordinator_ip=%s\ncoordinator_port=%s\n", host, port)), 0o644)
	cmd := exec.Command(w.bin, role)
	cmd.Dir = d
	cmd.Env = append(env, "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(d, "race"))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, stdin, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	cmd.Stdin = in
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	cmd.Stdout = pw
	cmd.Stderr = pw
	p := &Proc{cmd: cmd, stdin: stdin, done: make(chan struct{}), dir: d}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	pw.Close()
	in.Close()
	go func() {
		buf := make([]byte, 8192)
		var part string
		for {
			n, err := pr.Read(buf)
			if n > 0 {
				part += string(buf[:n])
				for {
					i := strings.IndexByte(part, '\n')
					if i < 0 {
						break
					}
					p.mu.Lock()
					p.lines = append(p.lines, oneLine(part[:i], 300))
					p.total++
					if len(p.lines) > 1200 && os.Getenv("ZREP_ALL") == "" {
						p.lines = append([]string{}, p.lines[600:]...)
					}
					p.mu.Unlock()
					part = part[i+1:]
				}
			}
			if err != nil {
				break
			}
		}
		pr.Close()
	}()
	go func() {
		p.err = cmd.Wait()
		close(p.done)
	}()
	return p
}

func (w *World) addNode(n *Node) *Node {
	n.w = w
	n.front = w.newFront(n.name, "")
	w.mu.Lock()
	w.nodes[n.name] = n
	w.order = append(w.order, n.name)
	w.mu.Unlock()
	return n
}

// StartCoordinator starts the real coordinator.
func (w *World) StartCoordinator(realOpenssl bool) error {
	for try := 0; try < 5; try++ {
		port := w.freePort()
		p := w.spawn("coordinator", fmt.Sprintf("C%d", try), port, fmt.Sprintf("127.0.0.1:%d", port), w.shim(realOpenssl))
		w.C = &Node{w: w, name: "C", real: fmt.Sprintf("127.0.0.1:%d", port), proc: p}
		t0 := time.Now()
		for time.Since(t0) < 120*time.Second && !p.Dead() {
			if w.pushBytes(w.C, barrierEvent, true) == nil {
				w.mu.Lock()
				w.nodes["C"] = w.C
				w.order = append(w.order, "C")
				w.mu.Unlock()
				go w.pump()
				return nil
			}
			time.Sleep(10 * time.Millisecond)
		}
		if !strings.Contains(strings.Join(p.Tail(30), "\n"), "address already in use") {
			w.errs = append(w.errs, "coordinator did not start: "+strings.Join(p.Tail(10), " | "))
			if p.Dead() {
				return ErrCrash
			}
			return ErrTimeout
		}
	}
	return ErrTimeout
}

// AddServer starts a real server. It registers by itself; its messages are captured like all others.
func (w *World) AddServer() *Node {
	n := &Node{name: fmt.Sprintf("s%d", w.count("s"))}
	w.addNode(n)
	n.cfr = w.newFront("C", n.name)
	n.proc = w.spawn("server", n.name, w.freePort(), n.cfr.addr, os.Environ())
	return n
}

// AddRealClient starts a real client process.
func (w *World) AddRealClient() *Node {
	w.naming.Lock()
	defer w.naming.Unlock()
	n := &Node{name: fmt.Sprintf("k%d", w.count("k"))}
	w.addNode(n)
	n.cfr = w.newFront("C", n.name)
	n.proc = w.spawn("client", n.name, 0, n.cfr.addr, os.Environ())
	return n
}

func (w *World) count(prefix string) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	c := 0
	for name := range w.nodes {
		if strings.HasPrefix(name, prefix) {
			c++
		}
	}
	return c
}

func (n *Node) Type(line string) {
	n.dirty.Store(true)
	io.WriteString(n.proc.stdin, line+"\n")
	atomic.AddInt64(&n.w.progress, 1)
}

// Digested returns once the process has read what was typed, and has nothing to do any more.
func (n *Node) Digested() bool {
	for i := 0; i < 400 && !n.proc.Dead(); i++ {
		time.Sleep(20 * time.Millisecond)
		var left int32
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, n.proc.stdin.Fd(), 0x541B, uintptr(unsafe.Pointer(&left))); e != 0 || left > 0 {
			continue
		}
		quiet := true
		for j := 0; j < 8 && quiet; j++ {
			time.Sleep(30 * time.Millisecond)
			_, running := n.proc.busy()
			quiet = !running
		}
		if quiet {
			return true
		}
	}
	return false
}

// WaitFor waits until cond (called with w.mu held) is true. It reports ErrCrash when a process has ended, ErrStuck
// when all processes have been idle for long with nothing left to deliver, ErrTimeout when neither is known.
func (w *World) WaitFor(what string, cond func() bool) error {
	t0 := time.Now()
	lastProgress := atomic.LoadInt64(&w.progress)
	idleSince := time.Now()
	lastSample := time.Now()
	var lastTicks int64 = -1
	for {
		w.mu.Lock()
		ok := cond()
		var dead *Node
		var procs []*Node
		for _, n := range w.nodes {
			if n.proc != nil {
				procs = append(procs, n)
				if n.proc.Dead() && !n.proc.quit {
					dead = n
				}
			}
		}
		waiting := w.busy || w.deliverable()
		w.mu.Unlock()
		if ok {
			return nil
		}
		if dead != nil {
			w.errs = append(w.errs, fmt.Sprintf("%s ended while waiting for %s: %v: %s", dead.name, what, dead.proc.err, strings.Join(dead.proc.Tail(25), " | ")))
			return fmt.Errorf("%w: %s while waiting for %s: %s", ErrCrash, dead.name, what, oneLine(strings.Join(dead.proc.Tail(25), " | "), 700))
		}
		time.Sleep(4 * time.Millisecond)
		if time.Since(lastSample) > 250*time.Millisecond {
			lastSample = time.Now()
			var ticks int64
			active := waiting
			for _, n := range procs {
				if n.proc.Dead() {
					continue
				}
				t, r := n.proc.busy()
				ticks += t
				active = active || r
			}
			pr := atomic.LoadInt64(&w.progress)
			if active || pr != lastProgress || (lastTicks >= 0 && ticks-lastTicks > 3) {
				idleSince = time.Now()
			}
			lastProgress, lastTicks = pr, ticks
		}
		if time.Since(idleSince) > w.patience {
			w.errs = append(w.errs, "stuck waiting for "+what)
			// where everybody waits, for the witness
			for _, n := range procs {
				n.proc.quit = true
				if !n.proc.Dead() {
					n.proc.cmd.Process.Signal(syscall.SIGQUIT)
					select {
					case <-n.proc.done:
					case <-time.After(5 * time.Second):
					}
				}
			}
			return fmt.Errorf("%w: idle for long while waiting for %s", ErrStuck, what)
		}
		if time.Since(t0) > 150*time.Second {
			w.errs = append(w.errs, "watchdog while waiting for "+what)
			return fmt.Errorf("%w: waiting for %s", ErrTimeout, what)
		}
	}
}

// find returns the captured messages after index from (a count) that match, with w.mu held or not needed.
func (w *World) match(from int, typ int, src, dst string) (res []*Msg) {
	for _, m := range w.Log[from:] {
		if m.Type() == typ && (src == "" || m.From == src) && (dst == "" || m.To == dst) {
			res = append(res, m)
		}
	}
	return
}

func (w *World) Find(from int, typ int, src, dst string) []*Msg {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.match(from, typ, src, dst)
}

func (w *World) Len() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.Log)
}

// Trace renders the recorded messages for a witness.
func (w *World) Trace() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	res := []string{"world " + w.Name}
	skip := 0
	for i, m := range w.Log {
		if len(w.Log)-i > 1500 && m.Bad && os.Getenv("ZREP_ALL") == "" {
			skip++
			continue
		}
		res = append(res, m.String())
	}
	if skip > 0 {
		res = append(res, fmt.Sprintf("(%d earlier messages that must not have an effect are left out)", skip))
	}
	for _, e := range w.errs {
		res = append(res, "! "+e)
	}
	for _, name := range w.order {
		if n := w.nodes[name]; n.proc != nil && n.proc.Dead() {
			res = append(res, append([]string{"output of " + name + ":"}, lastWords(n.proc.Tail(5000))...)...)
		}
	}
	return res
}

// lastWords shortens the output of a process that has ended, with a dump of its goroutines perhaps.
func lastWords(l []string) (res []string) {
	if os.Getenv("ZREP_ALL") != "" {
		return l
	}
	for i, x := range l {
		if strings.HasPrefix(x, "SIGQUIT") {
			res = keepLast(append([]string{}, l[:i]...), 60)
			for _, y := range l[i:] {
				if strings.Contains(y, "zRep") {
					res = append(res, y)
				}
			}
			return
		}
	}
	return keepLast(l, 120)
}

// DeadProcs names the processes that ended although nothing told them to.
func (w *World) DeadProcs() (res []string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, name := range w.order {
		if n := w.nodes[name]; n.proc != nil && !n.proc.quit && n.proc.Dead() {
			res = append(res, name+": "+oneLine(strings.Join(n.proc.Tail(30), " | "), 900))
		}
	}
	return
}

// Races returns the race detector's reports of all processes.
func (w *World) Races() (res []string) {
	if w.races != nil {
		return w.races
	}
	files, _ := filepath.Glob(filepath.Join(w.dir, "*", "race.*"))
	for _, f := range files {
		data, _ := os.ReadFile(f)
		for _, b := range strings.Split(string(data), "==================") {
			if strings.Contains(b, "DATA RACE") {
				res = append(res, b)
			}
		}
	}
	return
}

func (w *World) Close() {
	w.mu.Lock()
	w.closed = true
	w.cond.Broadcast()
	nodes := []*Node{}
	for _, n := range w.nodes {
		nodes = append(nodes, n)
	}
	fr := w.fronts
	w.mu.Unlock()
	for _, n := range nodes {
		if n.proc != nil {
			n.proc.cmd.Process.Kill()
		}
	}
	for _, n := range nodes {
		if n.proc != nil {
			<-n.proc.done
			n.proc.stdin.Close()
		}
	}
	w.races = append([]string{}, w.Races()...)
	for _, f := range fr {
		f.l.Close()
		f.mu.Lock()
		if f.fd > 0 {
			syscall.Close(f.fd)
		}
		for _, c := range f.held {
			c.Close()
		}
		f.mu.Unlock()
	}
	for _, l := range w.locks {
		l.Close()
	}
	if strings.HasPrefix(w.dir, scratchRoot+"/") {
		os.RemoveAll(w.dir)
	}
}
