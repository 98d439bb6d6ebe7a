package main

import (
	"bytes"
	"encoding/base64"
	"encoding/gob"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"zRep/cmd/bridge"
	"zRep/proto"
)

func init() {
	register("C25", "one evaluation is one message from the coordinator, a server or a client program, searched for bridge addresses, openings and secrets that it must not contain; distinct by type, sender, receiver, world and step", runC25)
}

// ---------------------------------------------------------------------------------------------------------------

// atom is a value somewhere within a message.
type atom struct {
	path string
	b    []byte
}

// protoParts splits an encoding of fields with numbers into those with a length.
func protoParts(b []byte) (res [][]byte, ok bool) {
	varint := func() (uint64, bool) {
		var v uint64
		for i := 0; i < 10 && len(b) > 0; i++ {
			x := b[0]
			b = b[1:]
			v |= uint64(x&0x7f) << (7 * i)
			if x < 0x80 {
				return v, true
			}
		}
		return 0, false
	}
	for len(b) > 0 {
		k, ok := varint()
		if !ok || k>>3 == 0 || k>>3 > 64 {
			return nil, false
		}
		n := 0
		switch k & 7 {
		case 0:
			if _, ok := varint(); !ok {
				return nil, false
			}
			continue
		case 1:
			n = 8
		case 5:
			n = 4
		case 2:
			l, ok := varint()
			if !ok || l > uint64(len(b)) {
				return nil, false
			}
			n = int(l)
		default:
			return nil, false
		}
		if n > len(b) {
			return nil, false
		}
		res = append(res, b[:n])
		b = b[n:]
	}
	return res, true
}

func atomsOf(path string, v any, depth int) (res []atom) {
	switch x := v.(type) {
	case []byte:
		if len(x) == 0 || depth > 5 {
			return
		}
		if len(x) <= 160 {
			res = append(res, atom{path, x})
		}
		if len(x) == 128 { // two halves
			res = append(res, atom{path + "[0]", x[:64]}, atom{path + "[1]", x[64:]})
		}
		var l [][]byte
		if len(x) > 20 {
			var is []*big.Int
			if err := gob.NewDecoder(bytes.NewReader(x)).Decode(&l); err != nil {
				l = nil
				if err := gob.NewDecoder(bytes.NewReader(x)).Decode(&is); err == nil {
					for _, i := range is {
						l = append(l, i.Bytes())
					}
				}
			}
			if l == nil {
				l, _ = protoParts(x)
			}
		}
		for i, e := range l {
			res = append(res, atomsOf(fmt.Sprintf("%s.%d", path, i), e, depth+1)...)
		}
	case *big.Int:
		res = append(res, atom{path, x.Bytes()})
	case big.Int:
		res = append(res, atom{path, x.Bytes()})
	case [][]byte:
		for i, e := range x {
			res = append(res, atomsOf(fmt.Sprintf("%s.%d", path, i), e, depth+1)...)
		}
	}
	return
}

// textOf is everything in the message, one after the other.
func textOf(m *Msg) []byte {
	var b bytes.Buffer
	var ks []string
	for k := range m.Ev.Params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b.WriteString(k + "=")
		switch v := m.Ev.Params[k].(type) {
		case []byte:
			b.Write(v)
		case string:
			b.WriteString(v)
		case int:
			fmt.Fprint(&b, v)
		default:
			try(func() { b.Write(gobBytes(v)) })
		}
		b.WriteByte('\n')
	}
	return b.Bytes()
}

// forms are the ways to write a number in a message.
func forms(v *big.Int, short int) (res [][]byte) {
	add := func(b []byte) {
		if len(b) >= short {
			res = append(res, b)
		}
	}
	b := v.Bytes()
	r := make([]byte, len(b))
	for i := range b {
		r[i] = b[len(b)-1-i]
	}
	add(b)
	add(r)
	add([]byte(hex.EncodeToString(b)))
	add([]byte(v.String()))
	add([]byte(base64.StdEncoding.EncodeToString(b)))
	return
}

type secretVal struct {
	what  string
	owner string // who may be told
	forms [][]byte
}

// leaks searches all messages of a world that has ended.
func (c *Check) leaks(s *Sim, r *Rng) {
	w := s.w
	w.mu.Lock()
	log := append([]*Msg{}, w.Log...)
	w.mu.Unlock()
	sort.SliceStable(log, func(i, j int) bool { return log[i].Seq < log[j].Seq })
	isProc := func(n string) bool { return n == "C" || n != "" && (n[0] == 's' || n[0] == 'k') }
	// --- what there is
	nyms := map[string]map[string]bool{}   // pseudonym -> the clients that use it
	posted := map[string]map[string]bool{} // bridge -> the clients that posted it
	var secrets []*secretVal
	points := map[string]string{}
	bases := map[string]*big.Int{string(grpG.Bytes()): grpG}
	mods := map[string]*fjView{}
	known := map[string]bool{}
	for _, m := range log {
		if m.Ev == nil || m.Bad {
			continue
		}
		switch m.Type() {
		case proto.POST_BRIDGE, proto.REQUEST_BRIDGES:
			if nyms[string(m.B("nym"))] == nil {
				nyms[string(m.B("nym"))] = map[string]bool{}
			}
			nyms[string(m.B("nym"))][m.From] = true
			if a := m.S("bridge_addr"); a != "" {
				if posted[a] == nil {
					posted[a] = map[string]bool{}
				}
				posted[a][m.From] = true
			}
		}
		if !isProc(m.From) {
			continue
		}
		if m.From == "C" && m.Type() == proto.INIT_PEDERSEN_R {
			for k, v := range m.Ev.Params {
				if b, ok := v.([]byte); ok && len(b) == 64 && k != "g" {
					if x := bi(b); x.BitLen() > 400 && !known[string(b)] {
						known[string(b)] = true
						secrets = append(secrets, &secretVal{"an opening (" + k + ")", m.To, forms(x, 40)})
					}
				}
			}
		}
		for k, v := range m.Ev.Params {
			for _, a := range atomsOf(k, v, 0) {
				x := bi(a.b)
				if len(a.b) > 66 || x.Cmp(grpP) >= 0 || x.BitLen() < 300 {
					continue
				}
				if isElem(x) {
					points[string(x.Bytes())] = evName[m.Type()] + " " + a.path
					switch k {
					case "g", "GT", "HT", "h":
						bases[string(x.Bytes())] = x
					}
				}
			}
		}
		if m.From == "C" && m.B("n") != nil && m.B("h1") != nil {
			n := bi(m.B("n"))
			f := mods[string(n.Bytes())]
			if f == nil {
				f = &fjView{N: n, H: bi(m.B("h1")), gs: map[string]string{}}
				mods[string(n.Bytes())] = f
				for i := 0; i < 500; i++ {
					p := safePrime(i)
					if new(big.Int).Mod(n, p).Sign() == 0 {
						h := new(big.Int).Rsh(p, 1)
						secrets = append(secrets, &secretVal{"a factor of the modulus", "", forms(p, 40)}, &secretVal{"half a factor of the modulus", "", forms(h, 40)})
						c.Count("moduli with known factors", 1)
						if p.Cmp(safePrime(i+1)) == 0 || i >= len(primes) {
							break
						}
					}
				}
			}
			for i := 1; i <= 6; i++ {
				f.gs[string(bi(m.B(fmt.Sprint("g", i))).Bytes())] = fmt.Sprint("the exponent of g", i)
			}
			for _, a := range atomsOf("honesty_prf", m.Ev.Params["honesty_prf"], 0) {
				f.gs[string(a.b)] = "a secret of the honesty proof"
			}
		}
	}
	for _, cl := range s.cls {
		if cl.m != nil && cl.m.r != nil && cl.m.r.BitLen() > 400 {
			secrets = append(secrets, &secretVal{"the opening of a client", cl.name, forms(cl.m.r, 40)})
		}
	}
	c.Count("points known", len(points))
	c.Count("secrets known", len(secrets))
	c.Count("bridges posted", len(posted))
	// --- who may see what
	mine := map[string]map[string]bool{} // client -> bridges assigned to it
	signed := map[string]bool{}          // bridges that the servers have been shown
	step, nconf := "", 0
	tested := map[string]bool{}
	bad := func(m *Msg, what, f string, args ...any) {
		c.Violate(what, fmt.Sprintf("%s: #%d %s from %s to %s: ", w.Name, m.Seq, evName[m.Type()], m.From, m.To)+fmt.Sprintf(f, args...), w.Trace()...)
	}
	assignments := func(m *Msg, each func(a bridge.Assignment, nym string)) bool {
		pan, _ := try(func() {
			for _, f := range []string{"assignments", "assignment_list", "assignment"} {
				b := m.B(f)
				if b == nil {
					continue
				}
				var l []bridge.Assignment
				if p, _ := try(func() { l = bridge.DecodeAssignmentList(b) }); p {
					l = []bridge.Assignment{*bridge.DecodeAssignment(b)}
				}
				for _, a := range l {
					each(a, string(mustBin(a.NymR.MarshalBinary())))
				}
			}
		})
		return !pan
	}
	for _, m := range log {
		if m.Ev == nil || m.Bad || !isProc(m.From) {
			continue
		}
		if m.From == "C" {
			switch m.Type() {
			case proto.ANNOUNCEMENT, proto.ANNOUNCEMENT_FINALIZE, proto.VOTE, proto.ROUND_END:
				step = evName[m.Type()]
			}
		}
		c.Eval(fmt.Sprint(w.Name, evName[m.Type()], m.From, m.To, step, s.round))
		text := textOf(m)
		// bridges
		found := []string{}
		for a := range posted {
			if bytes.Contains(text, []byte(a)) {
				found = append(found, a)
				continue
			}
			if len(text) < 20000 && (bytes.Contains(text, []byte(hex.EncodeToString([]byte(a)))) || bytes.Contains(text, []byte(base64.RawStdEncoding.EncodeToString([]byte(a))))) {
				found = append(found, a)
			}
		}
		sort.Strings(found)
		c.Count("bridge addresses seen in messages", len(found))
		toClient := m.To != "" && (m.To[0] == 'k' || m.To[0] == 'm')
		switch {
		case m.From == "C" && toClient:
			assignments(m, func(a bridge.Assignment, nym string) {
				if nyms[nym][m.To] {
					if mine[m.To] == nil {
						mine[m.To] = map[string]bool{}
					}
					if signed[a.Addr] {
						mine[m.To][a.Addr] = true
					}
				}
			})
			for _, a := range found {
				if !mine[m.To][a] && !posted[a][m.To] {
					bad(m, "a client is told a bridge that it was not assigned", "%s, posted by %v", a, posted[a])
				}
			}
			c.Count("messages to clients", 1)
		case m.From == "C":
			in := map[string]bool{}
			if m.Type() == proto.SIGN_ASSIGNMENTS {
				assignments(m, func(a bridge.Assignment, nym string) { in[a.Addr], signed[a.Addr] = true, true })
			}
			for _, a := range found {
				if !in[a] {
					bad(m, "a server is told a bridge that is not assigned", "%s, posted by %v", a, posted[a])
				}
			}
			c.Count("messages to servers", 1)
		case m.From[0] == 's':
			for _, a := range found {
				if !signed[a] || m.To != "C" {
					bad(m, "a server tells a bridge", "%s, posted by %v", a, posted[a])
				}
			}
			c.Count("messages of servers", 1)
		default:
			for _, a := range found {
				if !posted[a][m.From] && !mine[m.From][a] {
					bad(m, "a client tells a bridge that it cannot know", "%s, posted by %v", a, posted[a])
				}
				if m.To != "C" {
					bad(m, "a client tells others a bridge", "%s, posted by %v", a, posted[a])
				}
			}
			c.Count("messages of client programs", 1)
		}
		// secrets that we know
		for _, x := range secrets {
			if x.owner == m.To && x.owner != "" && m.From == "C" {
				continue
			}
			for i, f := range x.forms {
				if i > 0 && len(text) > 40000 { // long lists of numbers
					break
				}
				if bytes.Contains(text, f) {
					bad(m, "a message tells "+strings.Split(x.what, " (")[0], "%s of %s", x.what, x.owner)
					break
				}
			}
		}
		// secrets that we can recognise by what they do
		for k, v := range m.Ev.Params {
			as := atomsOf(k, v, 0)
			if len(as) > 16 { // long lists: some of each
				o := r.IntN(len(as))
				as = append(as[o:], as[:o]...)[:8]
			}
			for _, a := range as {
				x := bi(a.b)
				if x.BitLen() < 200 || tested[string(a.b)] {
					continue
				}
				tested[string(a.b)] = true
				if len(a.b) <= 66 && !(k == "rind" && (m.Type() == proto.REQUEST_BRIDGES || m.Type() == proto.SIGN_ASSIGNMENTS)) && len(tested) < 6000 {
					c.Count("values tried as exponents", 1)
					for _, b := range bases {
						y := gexp(b, x)
						if at, ok := points[string(y.Bytes())]; ok {
							bad(m, "a message tells a secret exponent", "%s is the logarithm of %s", a.path, at)
						}
						if inv := ginv(y); inv != nil {
							if at, ok := points[string(inv.Bytes())]; ok {
								bad(m, "a message tells a secret exponent", "-%s is the logarithm of %s", a.path, at)
							}
						}
					}
				}
				if conf := m.Type() == proto.CLIENT_REGISTER_CONFIRMATION || m.Type() == proto.GN_HONESTY_ANSWER; conf && nconf < 150 || !conf && len(tested)%9 == 0 {
					if conf {
						nconf++
					}
					for _, f := range mods {
						y := new(big.Int).Exp(f.H, x, f.N)
						c.Count("values tried as exponents of the generators", 1)
						if what, ok := f.gs[string(y.Bytes())]; ok && !(m.Type() == proto.GN_HONESTY_ANSWER && what == "a secret of the honesty proof") {
							bad(m, "a message tells a trapdoor of the parameters", "%s is %s", a.path, what)
						}
					}
				}
			}
		}
	}
}

type fjView struct {
	N, H *big.Int
	gs   map[string]string
}

func runC25(c *Check) {
	gw := garbageWorld(c)
	n := c.Scale(8, 40)
	outs := c.RunWorlds(n, 0, 8, func(i int, r *Rng, ctrl bool) WorldCfg {
		if i%4 == 3 {
			cfg := gw(i, r, false)
			return cfg
		}
		play := defaultPlay
		play.Posts, play.Requests = 3, 3
		if i%4 == 1 { // fewer bridges than asked for
			play.Posts, play.MaxInd = 1, true
		}
		return WorldCfg{Servers: 1 + i%4, Models: 3 + r.IntN(3), Reals: 1 + i%2, Late: 1, LateReal: i % 2, Rounds: c.Scale(3, 6), Play: play, Together: r.Bool()}
	})
	c.Parallel("search", len(outs), 8, func(i int, r *Rng) { c.leaks(outs[i].s, r) })
}
