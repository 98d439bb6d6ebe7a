package main

import (
	"bytes"
	"fmt"
	"math/big"

	"zRep/proto"
	"zRep/util"
	"zRep/util/shuffle"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/proof"
)

func init() {
	register("C24", "one evaluation is one altered table delivered to a server of the chain in place of the one that its neighbour sent (the server has to send nothing on), or one round that goes on with the honest one; distinct by the kind of the alteration and the hop, or by the message sequence", runC24)
}

// chainAtk plays a dishonest server: it alters tables on their way from one server to the next.
type chainAtk struct {
	s       *Sim
	turn    int
	earlier map[int]*Msg // honest messages of earlier rounds, by type
	final   int          // which design weakness the last round shows, 0 none
	done    bool
}

func runC24(c *Check) {
	c.RunWorlds(1, c.Scale(10, 48), 12, func(i int, r *Rng, ctrl bool) WorldCfg {
		play := defaultPlay
		play.Posts, play.Requests, play.Up = 2, 1, 0.7
		cfg := WorldCfg{Servers: 2 + i%3, Models: 1 + r.IntN(4), Late: 1, Rounds: c.Scale(2, 5), Play: play}
		a := &chainAtk{turn: i * 11, earlier: map[int]*Msg{}}
		cfg.Setup = func(s *Sim) {
			a.s = s
			if !ctrl {
				s.icept = a.intercept
			}
		}
		if !ctrl {
			cfg.Last = func(s *Sim) error { return a.last(1 + i%7) }
		}
		return cfg
	})
}

// inject delivers a message at once, from within an interception, and tells what its receiver sends because of it.
func (s *Sim) inject(m *Msg) (res []*Msg) {
	w := s.w
	w.mu.Lock()
	n0 := len(w.Log)
	m.Seq = n0 + 1
	w.Log = append(w.Log, m)
	n := w.nodes[m.To]
	fr := append([]*front{}, w.fronts...)
	w.mu.Unlock()
	w.deliver(m)
	w.barrier(n)
	for _, f := range fr {
		f.flush()
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, o := range w.Log[n0:] {
		if o.From == m.To {
			res = append(res, o)
		}
	}
	return
}

// unsend takes messages back that have not been delivered yet.
func (w *World) unsend(l []*Msg) {
	w.mu.Lock()
	defer w.mu.Unlock()
	var rest []*Msg
	for _, m := range w.pending {
		drop := false
		for _, o := range l {
			drop = drop || o == m
		}
		if !drop {
			rest = append(rest, m)
		}
	}
	w.pending = rest
}

func (a *chainAtk) isHop(m *Msg) bool {
	_, from := a.s.srvKeys[m.From]
	_, to := a.s.srvKeys[m.To]
	return from && to && !m.Bad && m.Ev != nil && (m.Type() == proto.ANNOUNCEMENT || m.Type() == proto.ROUND_END)
}

func (a *chainAtk) intercept(m *Msg) []*Msg {
	s := a.s
	if a.done {
		return nil
	}
	if a.final > 0 && m.Ev != nil && !m.Bad && a.weakness(m) {
		a.done = true
		return nil
	}
	if !a.isHop(m) {
		return []*Msg{m}
	}
	kinds := a.kinds(m)
	names := sorted(kinds)
	n := s.c.Scale(9, 14)
	for k := 0; k < n && k < len(names); k++ {
		name := names[(a.turn+k)%len(names)]
		a.try(m, name, kinds[name])
	}
	a.turn += n
	if old := a.earlier[m.Type()]; old != nil && s.rng.Chance(0.5) {
		// with the proof of an earlier round
		ps := clone(m.Ev.Params)
		ps["proof"] = old.B("proof")
		a.try(m, "the proof of an earlier round", ps)
	}
	a.earlier[m.Type()] = m
	if s.rng.Chance(0.3) {
		// once more after the honest one
		s.inject(&Msg{From: m.From, To: m.To, Ev: m.Ev, Tag: "in its turn", When: m.When})
		for k := 0; k < 3; k++ {
			name := names[s.rng.IntN(len(names))]
			a.try(m, name, kinds[name])
		}
		return nil
	}
	return []*Msg{m}
}

func (a *chainAtk) try(m *Msg, kind string, ps map[string]interface{}) {
	s := a.s
	dir := evName[m.Type()]
	s.mu.Lock()
	s.attacks++
	s.mu.Unlock()
	s.c.Count("altered "+dir, 1)
	s.c.Count("alteration: "+kind, 1)
	s.c.Eval(fmt.Sprint("alteration ", kind, dir, m.To, len(s.servers), s.w.Name, s.round))
	out := s.inject(&Msg{From: m.From, To: m.To, Ev: ev(m.Type(), ps), Bad: true, Tag: kind, When: m.When})
	var on []*Msg
	for _, o := range out {
		if o.Type() == proto.ANNOUNCEMENT || o.Type() == proto.ROUND_END {
			on = append(on, o)
		}
	}
	if len(on) > 0 {
		s.w.unsend(on)
		s.miss("C24", "a server processes an altered table", "%s with %s, %s->%s", dir, kind, m.From, m.To)
	}
}

func encPts(l []*big.Int) []byte { return util.ProtobufEncodePointList(ptList(l...)) }

// kinds are the alterations that the receiver has to notice.
func (a *chainAtk) kinds(m *Msg) map[string]map[string]interface{} {
	s, r := a.s, a.s.rng
	res := map[string]map[string]interface{}{}
	add := func(kind string, f func(ps map[string]interface{})) {
		ps := clone(m.Ev.Params)
		if pan, _ := try(func() { f(ps) }); !pan {
			res[kind] = ps
		}
	}
	keys, _ := pointList(m.B("keys"))
	vals, _ := pointList(m.B("vals"))
	if len(keys) < 3 || len(vals) != len(keys) {
		return res
	}
	n := len(keys)
	i := r.IntN(n)
	j := (i + 1 + r.IntN(n-1)) % n
	cp := func(l []*big.Int) []*big.Int { return append([]*big.Int{}, l...) }
	del := func(l []*big.Int, k int) []*big.Int { return append(cp(l[:k]), l[k+1:]...) }
	rnd := new(big.Int).Exp(bi(r.Bytes(80)), big.NewInt(2), grpP)
	lists := map[string][]*big.Int{}
	for _, f := range []string{"xbar", "ybar", "prev_keys", "prev_vals"} {
		lists[f], _ = pointList(m.B(f))
		if len(lists[f]) != n {
			delete(lists, f)
		}
	}
	both := func(ps map[string]interface{}, k, v []*big.Int) { ps["keys"], ps["vals"] = encPts(k), encPts(v) }
	// the entries
	add("a key replaced by another element", func(ps map[string]interface{}) { k := cp(keys); k[i] = rnd; ps["keys"] = encPts(k) })
	add("a key raised to a power", func(ps map[string]interface{}) {
		k := cp(keys)
		k[i] = gexp(k[i], big.NewInt(2))
		ps["keys"] = encPts(k)
	})
	add("a key inverted", func(ps map[string]interface{}) { k := cp(keys); k[i] = ginv(k[i]); ps["keys"] = encPts(k) })
	add("a key twice in place of another", func(ps map[string]interface{}) { k := cp(keys); k[i] = k[j]; ps["keys"] = encPts(k) })
	add("an entry twice in place of another", func(ps map[string]interface{}) {
		k, v := cp(keys), cp(vals)
		k[i], v[i] = k[j], v[j]
		both(ps, k, v)
	})
	add("an entry dropped", func(ps map[string]interface{}) { both(ps, del(keys, i), del(vals, i)) })
	add("the last entry dropped", func(ps map[string]interface{}) { both(ps, keys[:n-1], vals[:n-1]) })
	add("an entry replaced", func(ps map[string]interface{}) {
		k, v := cp(keys), cp(vals)
		k[i], v[i] = rnd, gexp(rnd, big.NewInt(2))
		both(ps, k, v)
	})
	add("an entry added", func(ps map[string]interface{}) { both(ps, append(cp(keys), rnd), append(cp(vals), rnd)) })
	add("an entry twice", func(ps map[string]interface{}) { both(ps, append(cp(keys), keys[i]), append(cp(vals), vals[i])) })
	add("all keys raised to a power", func(ps map[string]interface{}) {
		k := cp(keys)
		for x := range k {
			k[x] = gexp(k[x], bi(rnd.Bytes()[:8]))
		}
		ps["keys"] = encPts(k)
	})
	add("two keys with factors that cancel", func(ps map[string]interface{}) {
		k := cp(keys)
		k[i], k[j] = gmul(k[i], rnd), gmul(k[j], ginv(rnd))
		ps["keys"] = encPts(k)
	})
	add("the keys before the shuffle of an earlier hop", func(ps map[string]interface{}) {
		l := lists["prev_keys"]
		ps["keys"] = encPts(l)
	})
	add("a key outside of the group", func(ps map[string]interface{}) {
		ps["keys"] = bytes.Replace(m.B("keys"), pad64(keys[i]), pad64(new(big.Int).Sub(grpP, keys[i])), 1)
		if bytes.Equal(ps["keys"].([]byte), m.B("keys")) {
			panic("same")
		}
	})
	add("two of the entries only, without a proof", func(ps map[string]interface{}) {
		both(ps, keys[:2], vals[:2])
		delete(ps, "shuffled")
	})
	add("other keys on both sides of the shuffle", func(ps map[string]interface{}) {
		k, v := cp(keys), cp(lists["prev_vals"])
		for x := range v {
			if v[x].Cmp(k[i]) == 0 {
				v[x] = rnd
			}
		}
		k[i] = rnd
		ps["keys"], ps["prev_vals"] = encPts(k), encPts(v)
	})
	add("an entry dropped on both sides of the shuffle", func(ps map[string]interface{}) {
		k := del(keys, i)
		var v, p []*big.Int
		for x, y := range lists["prev_vals"] {
			if y.Cmp(keys[i]) != 0 {
				v = append(v, y)
				p = append(p, lists["prev_keys"][x])
			}
		}
		both(ps, k, del(vals, i))
		ps["prev_keys"], ps["prev_vals"] = encPts(p), encPts(v)
	})
	// the statement of the proof
	for f, l := range lists {
		f, l := f, l
		add("an element of "+f+" replaced", func(ps map[string]interface{}) { k := cp(l); k[i] = rnd; ps[f] = encPts(k) })
		add("an element of "+f+" inverted", func(ps map[string]interface{}) { k := cp(l); k[j] = ginv(k[j]); ps[f] = encPts(k) })
		add("an element of "+f+" dropped", func(ps map[string]interface{}) { ps[f] = encPts(del(l, i)) })
		add("an element added to "+f, func(ps map[string]interface{}) { ps[f] = encPts(append(cp(l), rnd)) })
		add("all of "+f+" but a constant factor", func(ps map[string]interface{}) {
			k := cp(l)
			for x := range k {
				k[x] = gmul(k[x], rnd)
			}
			ps[f] = encPts(k)
		})
		if f != "prev_keys" { // all of them are the same
			add("two elements of "+f+" exchanged", func(ps map[string]interface{}) {
				k := cp(l)
				k[i], k[j] = k[j], k[i]
				ps[f] = encPts(k)
			})
		}
	}
	add("exchanged results", func(ps map[string]interface{}) { ps["xbar"], ps["ybar"] = ps["ybar"], ps["xbar"] })
	for kind, k := range map[string]*big.Int{"a random public key": rnd, "the generator as public key": grpG, "the unit as public key": one} {
		k := k
		add(kind, func(ps map[string]interface{}) { ps["public_key"] = pad64(k) })
	}
	add("the receiver's public key", func(ps map[string]interface{}) { ps["public_key"] = pad64(s.srvKeys[m.To]) })
	// the proof
	p := m.B("proof")
	add("an altered proof", func(ps map[string]interface{}) { ps["proof"] = flip(p, r.IntN(len(p)*8)) })
	add("a proof altered at the beginning", func(ps map[string]interface{}) { ps["proof"] = flip(p, r.IntN(512)) })
	add("a proof altered at the end", func(ps map[string]interface{}) { ps["proof"] = flip(p, len(p)*8-1-r.IntN(512)) })
	add("a cut proof", func(ps map[string]interface{}) { ps["proof"] = p[:r.IntN(len(p))] })
	add("an empty proof", func(ps map[string]interface{}) { ps["proof"] = []byte{} })
	add("a proof of zeros", func(ps map[string]interface{}) { ps["proof"] = make([]byte, len(p)) })
	add("no claim to be shuffled", func(ps map[string]interface{}) { delete(ps, "shuffled") })
	add("no claim to be shuffled, nor a proof", func(ps map[string]interface{}) { delete(ps, "shuffled"); delete(ps, "proof") })
	add("a claim not to be shuffled", func(ps map[string]interface{}) {
		ps["shuffled"] = false
		k := cp(keys)
		k[i] = rnd
		ps["keys"] = encPts(k)
	})
	add("the claim to be the coordinator's", func(ps map[string]interface{}) {
		ps["is_start"] = true
		k := cp(keys)
		k[i] = rnd
		ps["keys"] = encPts(k)
	})
	if m.Type() == proto.ANNOUNCEMENT {
		add("no generator", func(ps map[string]interface{}) {
			delete(ps, "g")
			k := cp(keys)
			k[i] = rnd
			ps["keys"] = encPts(k)
		})
		add("the first server's form", func(ps map[string]interface{}) {
			for f := range ps {
				if f != "keys" && f != "vals" && f != "GT" && f != "HT" {
					delete(ps, f)
				}
			}
		})
	} else {
		add("the form of the coordinator", func(ps map[string]interface{}) {
			for f := range ps {
				if f != "keys" && f != "vals" && f != "GT" && f != "HT" {
					delete(ps, f)
				}
			}
			ps["is_start"] = true
		})
	}
	for _, f := range sorted(m.Ev.Params) {
		f := f
		if f == "g" {
			continue
		}
		add("no "+f, func(ps map[string]interface{}) { delete(ps, f) })
		add("a number for "+f, func(ps map[string]interface{}) {
			if f == "shuffled" {
				panic("means the same")
			}
			ps[f] = 7
		})
	}
	return res
}

// ownShuffle makes a valid message about other keys.
func (a *chainAtk) ownShuffle(m *Msg, keys []*big.Int, vals []*big.Int) map[string]interface{} {
	n := len(keys)
	sk := randSec()
	pk := suite.Point().Mul(nil, sk)
	X := make([]abstract.Point, n)
	for i := range X {
		X[i] = suite.Point().Mul(nil, sk)
	}
	Y := ptList(keys...)
	rand := suite.Cipher(abstract.RandomKey)
	Xbar, Ybar, prover, _, Ytmp := shuffle.Shuffle(suite, nil, pk, X, Y, rand)
	prf, err := proof.HashProve(suite, "PairShuffle", rand, prover)
	if err != nil {
		panic(err)
	}
	var out []*big.Int
	var ov []*big.Int
	for i := range Ybar {
		k := pv(suite.Point().Sub(Ybar[i], Ytmp[i]))
		out = append(out, k)
		for x := range keys {
			if keys[x].Cmp(k) == 0 {
				ov = append(ov, vals[x])
			}
		}
	}
	ps := clone(m.Ev.Params)
	ps["xbar"], ps["ybar"] = util.ProtobufEncodePointList(Xbar), util.ProtobufEncodePointList(Ybar)
	ps["keys"], ps["vals"] = encPts(out), encPts(ov)
	ps["prev_keys"], ps["prev_vals"] = util.ProtobufEncodePointList(X), encPts(keys)
	ps["proof"], ps["public_key"] = prf, mustBin(pk.MarshalBinary())
	return ps
}

const (
	weakVals  = "the commitments of a table are not covered by the shuffle proof"
	weakPrev  = "a server that replaces entries before its own shuffle is not noticed"
	weakShort = "a table of at most one entry needs no shuffle proof"
	weakCoord = "the coordinator takes the last server's table without a shuffle proof"
)

// last ends the world with a probe of one of the weaknesses that the design has, which no round survives.
func (a *chainAtk) last(kind int) error {
	s := a.s
	s.w.Settle()
	s.judge()
	s.w.mu.Lock()
	a.final = kind
	s.w.mu.Unlock()
	s.mu.Lock()
	s.phase = "ENDING"
	s.mu.Unlock()
	s.Enter()
	return s.w.WaitFor("the probe", func() bool { return a.done })
}

// weakness probes when its message comes.
func (a *chainAtk) weakness(m *Msg) bool {
	s, r := a.s, a.s.rng
	keys, ok1 := pointList(m.B("keys"))
	vals, ok2 := pointList(m.B("vals"))
	if !ok1 || !ok2 || len(keys) < 3 || len(keys) != len(vals) {
		return false
	}
	i := r.IntN(len(keys))
	j := (i + 1) % len(keys)
	rnd := new(big.Int).Exp(bi(r.Bytes(80)), big.NewInt(2), grpP)
	probe := func(key, kind string, ps map[string]interface{}) {
		s.c.Count("probe: "+key, 1)
		s.c.Eval(fmt.Sprint("probe ", key, kind, m.Type(), s.w.Name))
		out := s.inject(&Msg{From: m.From, To: m.To, Ev: ev(m.Type(), ps), Bad: true, Tag: kind, When: m.When})
		var on []*Msg
		for _, o := range out {
			switch o.Type() {
			case proto.ANNOUNCEMENT, proto.ROUND_END, proto.ANNOUNCEMENT_FINALIZE:
				on = append(on, o)
			}
		}
		s.w.unsend(on)
		if len(on) > 0 {
			s.c.Violate(key, fmt.Sprintf("%s: %s with %s, %s->%s", s.w.Name, evName[m.Type()], kind, m.From, m.To), s.w.Trace()...)
		}
	}
	hop, toC := a.isHop(m), m.To == "C" && s.srvKeys[m.From] != nil
	switch a.final {
	case 1, 2: // at a server, in each direction
		if !hop || (m.Type() == proto.ANNOUNCEMENT) != (a.final == 1) {
			return false
		}
		ps := clone(m.Ev.Params)
		v := append([]*big.Int{}, vals...)
		v[i], v[j] = v[j], v[i]
		ps["vals"] = encPts(v)
		probe(weakVals, "two commitments exchanged", ps)
		return true
	case 3, 4:
		if !hop || (m.Type() == proto.ANNOUNCEMENT) != (a.final == 3) {
			return false
		}
		k := append([]*big.Int{}, keys...)
		if m.Type() == proto.ANNOUNCEMENT {
			k[i] = rnd
		} else {
			k, vals = k[1:], vals[1:] // an unknown key would have no preimage
		}
		probe(weakPrev, "a valid proof about other keys", a.ownShuffle(m, k, vals))
		return true
	case 5:
		if !hop {
			return false
		}
		ps := clone(m.Ev.Params)
		delete(ps, "shuffled")
		ps["keys"], ps["vals"] = encPts(keys[:1]), encPts(vals[:1])
		probe(weakShort, "a single entry", ps)
		return true
	case 6, 7:
		if !toC || (m.Type() == proto.ANNOUNCEMENT) != (a.final == 6) {
			return false
		}
		k := append([]*big.Int{}, keys...)
		k[i] = rnd
		ps := clone(m.Ev.Params)
		ps["keys"] = encPts(k)
		probe(weakCoord, "another key", ps)
		return true
	}
	return false
}
