package main

import (
	"fmt"
	"math/big"
	"strings"

	"zRep/proto"
	"zRep/util"
)

func init() {
	register("C03", "one evaluation is one generator, pseudonym, commitment or base that has to be new, one permutation of a hop, or one round; distinct by its value", runC03)
}

// A freshMon watches everything that one world sends for values that come twice, and for what tells who is who.
type freshMon struct {
	c     *Check
	s     *Sim
	seen  map[string]string
	hops  []hopPos
	probe map[string][]probeOut
}

// hopPos is where one client's entry was before and after one hop.
type hopPos struct {
	where   string // server and direction
	id, n   int    // hop, length
	in, out int
}

type probeOut struct {
	round   int
	key, g  string
	val, GT string
}

func (f *freshMon) fresh(kind string, v *big.Int, where string) {
	k := v.Text(62)
	f.c.Eval(kind + k)
	f.c.Count("fresh "+kind, 1)
	if w, ok := f.seen[k]; ok {
		f.s.missLocked("C03", "a "+kind+" is not fresh", "%s, seen before at %s", where, w)
	}
	f.seen[k] = kind + " " + where
}

func (f *freshMon) old(v *big.Int, where string) {
	if _, ok := f.seen[v.Text(62)]; !ok {
		f.seen[v.Text(62)] = where
	}
}

// observe sees every delivered message, in order.
func (f *freshMon) observe(m *Msg) {
	if m.Ev == nil || m.Bad {
		return
	}
	f.s.mu.Lock()
	defer f.s.mu.Unlock()
	where := fmt.Sprintf("%s->%s in round %d", m.From, m.To, f.s.round)
	server := strings.HasPrefix(m.From, "s")
	switch m.Type() {
	case proto.ANNOUNCEMENT, proto.ROUND_END:
		if strings.HasPrefix(m.To, "m") || strings.HasPrefix(m.To, "k") {
			return
		}
		keys, ok1 := pointList(m.B("keys"))
		vals, ok2 := pointList(m.B("vals"))
		if !ok1 || !ok2 {
			return
		}
		what := "announcement "
		if m.Type() == proto.ROUND_END {
			what = "round end "
		}
		if !server { // what the coordinator sends into the chain repeats known values, except the commitments at the end of a round
			for _, l := range [][]*big.Int{keys, {bi(m.B("GT")), bi(m.B("HT"))}} {
				for _, v := range l {
					f.old(v, where)
				}
			}
			for _, v := range vals {
				if m.Type() == proto.ROUND_END {
					f.fresh("commitment at the end of a round", v, where)
				} else {
					f.old(v, where)
				}
			}
			return
		}
		f.fresh(what+"base GT", bi(m.B("GT")), where)
		f.fresh(what+"base HT", bi(m.B("HT")), where)
		for _, v := range vals {
			f.fresh(what+"commitment", v, where)
		}
		if m.Type() == proto.ANNOUNCEMENT {
			f.fresh("generator", bi(m.B("g")), where)
			for _, k := range keys {
				f.fresh("pseudonym", k, where)
			}
		}
		for _, name := range []string{"xbar", "ybar"} {
			l, ok := pointList(m.B(name))
			for _, v := range l {
				if ok {
					f.fresh("element of "+name, v, where)
				}
			}
		}
	case proto.BCAST_PEDERSEN_RDIFF:
		// the same list goes to everybody
		if diffs, ok := secretList(m.B("rDiffs")); ok {
			k := string(m.B("rDiffs"))
			if f.seen["r"+k] != "" {
				return
			}
			f.seen["r"+k] = where
			for _, d := range diffs {
				f.fresh("randomness of an update", d, where)
			}
		}
	case proto.INIT_PEDERSEN_R:
		f.fresh("initial randomness", bi(m.B("r")), where)
	}
}

// positions finds the places of the model clients' entries before and after every hop.
func (f *freshMon) positions() {
	s := f.s
	var in []*big.Int
	var gs []*big.Int // generator after each hop of the round that is open
	id := len(f.hops) + 1
	at := func(g, sk *big.Int, l []*big.Int) int {
		k := gexp(g, sk)
		for i, v := range l {
			if v.Cmp(k) == 0 {
				return i
			}
		}
		return -1
	}
	note := func(where string, gIn, gOut *big.Int, in, out []*big.Int) {
		id++
		for _, c := range s.cls {
			if c.m == nil {
				continue
			}
			sk := sv(c.m.sk)
			i, o := at(gIn, sk, in), at(gOut, sk, out)
			if i >= 0 && o >= 0 && len(in) == len(out) {
				f.hops = append(f.hops, hopPos{where: where, id: id, n: len(in), in: i, out: o})
			}
		}
	}
	depth := 0
	for _, m := range s.w.Log {
		if m.Bad || m.Ev == nil || m.DSeq == 0 {
			continue
		}
		switch m.Type() {
		case proto.ANNOUNCEMENT:
			keys, _ := pointList(m.B("keys"))
			if m.From == "C" {
				in, gs = keys, []*big.Int{grpG}
				continue
			}
			g := bi(m.B("g"))
			note(m.From+" announcement", gs[len(gs)-1], g, in, keys)
			gs = append(gs, g)
			in = keys
			depth = len(gs) - 1
		case proto.ROUND_END:
			if strings.HasPrefix(m.To, "m") || strings.HasPrefix(m.To, "k") {
				continue
			}
			keys, _ := pointList(m.B("keys"))
			if m.From == "C" {
				in = keys
				depth = len(gs) - 1
				continue
			}
			if depth < 1 || depth >= len(gs) {
				continue
			}
			note(m.From+" round end", gs[depth], gs[depth-1], in, keys)
			in = keys
			depth--
		}
	}
}

// probeRound sends each server a table of one fixed entry, and looks at what it does to it. The answers are kept
// away from the others.
func (f *freshMon) probeRound() {
	s := f.s
	K, V, A, B, g := gexp(grpG, big.NewInt(12345)), gexp(grpG, big.NewInt(777)), gexp(grpG, big.NewInt(99)), gexp(grpG, big.NewInt(55)), gexp(grpG, big.NewInt(31))
	for _, n := range s.servers {
		n := n
		var got *Msg
		old := s.icept
		s.icept = func(m *Msg) []*Msg {
			if m.From == n.name && m.Type() == proto.ANNOUNCEMENT {
				got = m
				return nil
			}
			return []*Msg{m}
		}
		s.w.Settle()
		s.w.SendBad("C", n.name, ev(proto.ANNOUNCEMENT, map[string]interface{}{
			"keys": util.ProtobufEncodePointList(ptList(K)), "vals": util.ProtobufEncodePointList(ptList(V)),
			"GT": pad64(A), "HT": pad64(B), "g": pad64(g)}), "probe")
		s.w.Settle()
		s.icept = old
		if got == nil {
			f.c.Count("probes_without_answer", 1)
			continue
		}
		keys, _ := pointList(got.B("keys"))
		vals, _ := pointList(got.B("vals"))
		if len(keys) != 1 || len(vals) != 1 {
			continue
		}
		f.c.Count("probes", 1)
		f.probe[n.name] = append(f.probe[n.name], probeOut{s.round, hx(keys[0]), hx(bi(got.B("g"))), hx(vals[0]), hx(bi(got.B("GT")))})
	}
}

// judge compares the answers to the probes.
func (f *freshMon) judge() {
	keyOf, exp := map[string]string{}, map[string]string{}
	for _, n := range f.s.servers {
		for _, p := range f.probe[n.name] {
			at := fmt.Sprint(n.name, " in round ", p.round)
			f.c.Eval("probe" + p.key + p.val)
			if w, ok := keyOf[p.key]; ok && w != at {
				f.s.miss("C03", "a server uses the same round key again", "%s and %s", w, at)
			}
			if w, ok := exp[p.val]; ok {
				f.s.miss("C03", "a server uses the same exponent for commitments again", "%s and %s", w, at)
			}
			keyOf[p.key], exp[p.val] = at, at
		}
	}
}

// linked follows what is published to see who is who, as the known weaknesses allow.
func (f *freshMon) linked() {
	s := f.s
	// the next hop sees the entries before and after the shuffle in one message
	for _, m := range s.w.Log {
		if m.Ev == nil || m.Bad || (m.Type() != proto.ANNOUNCEMENT && m.Type() != proto.ROUND_END) || !strings.HasPrefix(m.From, "s") {
			continue
		}
		keys, ok1 := pointList(m.B("keys"))
		before, ok2 := pointList(m.B("prev_vals"))
		if !ok1 || !ok2 || len(keys) < 3 || len(before) != len(keys) {
			continue
		}
		pos := map[string]bool{}
		for _, k := range keys {
			pos[hx(k)] = true
		}
		all := true
		for _, b := range before {
			all = all && pos[hx(b)]
		}
		if all {
			s.miss("C03", "the message of a shuffle shows the order before and after it", "%v", m)
			break
		}
	}
	// the coordinator opens the published commitments with the randomness that it chose itself
	rs := map[string]*big.Int{} // per client
	for _, c := range s.cls {
		if c.m == nil || c.since < 0 || c.r == nil || s.tab == nil {
			continue
		}
		rs[c.name] = c.r
		for i := range s.tab.Keys {
			if i < len(s.tab.Vals) && commitVal(s.tab.GT, s.tab.HT, big.NewInt(int64(c.x)), c.r).Cmp(s.tab.Vals[i]) == 0 {
				s.miss("C03", "the coordinator chose all randomness of a client's commitment, which links its registration to its pseudonyms", "%s is entry %d", c.name, i)
			}
		}
	}
	// the relations between the tables that everybody sees: no value of one table is another's times a base to a small power
	for i := 1; i < len(s.tabs); i++ {
		a, b := s.tabs[i-1], s.tabs[i]
		for _, x := range a.Vals {
			for d := int64(-8); d <= 8; d++ {
				t := gmul(x, gexp(b.GT, big.NewInt(d)))
				u := gmul(x, gexp(a.GT, big.NewInt(d)))
				for _, y := range b.Vals {
					if y.Cmp(t) == 0 || y.Cmp(u) == 0 {
						s.miss("C03", "commitments of two rounds are linked", "round %d and %d", i-1, i)
					}
				}
			}
		}
		for _, x := range a.Keys {
			for _, y := range b.Keys {
				if x.Cmp(y) == 0 {
					s.miss("C03", "pseudonyms of two rounds are linked", "")
				}
			}
		}
	}
	// at the end of a round: what the coordinator sends into the chain, and the table, are not related by a small power of GT
	for _, m := range s.w.Find(0, proto.ROUND_END, "C", "") {
		if !strings.HasPrefix(m.To, "s") || m.Bad {
			continue
		}
		vals, _ := pointList(m.B("vals"))
		GT := bi(m.B("GT"))
		for _, t := range s.tabs {
			if t.GT.Cmp(GT) != 0 {
				continue
			}
			for d := int64(-12); d <= 12; d++ {
				p := gexp(GT, big.NewInt(d))
				for _, v := range t.Vals {
					x := gmul(v, p)
					for _, y := range vals {
						if x.Cmp(y) == 0 {
							s.miss("C03", "the commitments at the end of a round show the change of the reputation", "by %d", d)
						}
					}
				}
			}
		}
	}
}

func runC03(c *Check) {
	n := c.Scale(9, 30)
	mons := make([]*freshMon, n)
	outs := c.RunWorlds(n, 0, 12, func(i int, r *Rng, ctrl bool) WorldCfg {
		play := defaultPlay
		play.Posts, play.Requests = 2, 1
		cfg := WorldCfg{Servers: 1 + i%3, Models: 4 + r.IntN(4), Late: 1, Rounds: c.Scale(4, 8), Play: play}
		cfg.Setup = func(s *Sim) {
			f := &freshMon{c: c, s: s, seen: map[string]string{}, probe: map[string][]probeOut{}}
			mons[i] = f
			s.w.Observe = append(s.w.Observe, f.observe)
		}
		cfg.Round = func(s *Sim) {
			if i%3 != 0 { // these change the servers' maps, so other worlds go without
				mons[i].probeRound()
				if s.round == 1 {
					mons[i].probeRound()
				}
			}
		}
		cfg.End = func(s *Sim) {
			mons[i].judge()
			mons[i].positions()
			mons[i].linked()
		}
		return cfg
	})
	_ = outs
	// the permutations of all worlds together
	type key struct {
		where string
		n, in int
	}
	kept, pairs, moved, total := 0, 0, 0, 0
	same := map[string]map[key][]int{}
	byWhere := map[string][4]int{} // kept, pairs, moved, total
	for _, f := range mons {
		if f == nil {
			continue
		}
		for i, a := range f.hops {
			w := f.s.w.Name + a.where
			if same[w] == nil {
				same[w] = map[key][]int{}
			}
			k := key{a.where, a.n, a.in}
			same[w][k] = append(same[w][k], a.out)
			dir := a.where[strings.Index(a.where, " ")+1:]
			x := byWhere[dir]
			total++
			x[3]++
			c.Eval(fmt.Sprint("permutation", f.s.w.Name, a))
			if a.in != a.out {
				moved++
				x[2]++
			}
			for _, b := range f.hops[i+1:] {
				if a.id == b.id {
					pairs++
					x[1]++
					if (a.in < b.in) == (a.out < b.out) {
						kept++
						x[0]++
					}
				}
			}
			byWhere[dir] = x
		}
	}
	c.Count("permuted_entries", total)
	c.Count("permuted_pairs", pairs)
	for dir, x := range byWhere {
		c.Sample("order "+dir, fmt.Sprintf("%d of %d pairs keep their order, %d of %d entries move", x[0], x[1], x[2], x[3]))
		if x[3] >= 60 && float64(x[2]) < 0.5*float64(x[3]) {
			c.Violate("the order is not permuted", fmt.Sprintf("%s: only %d of %d entries move", dir, x[2], x[3]))
		}
		if q := float64(x[0]) / float64(max(x[1], 1)); x[1] >= 200 && (q > 0.75 || q < 0.25) {
			c.Violate("the order is not permuted at random", fmt.Sprintf("%s: %.2f of %d pairs keep their order", dir, q, x[1]))
		}
	}
	col, tot := 0, 0
	for _, m := range same {
		for _, l := range m {
			for i := range l {
				for j := i + 1; j < len(l); j++ {
					tot++
					if l[i] == l[j] {
						col++
					}
				}
			}
		}
	}
	c.Count("permutations_compared", tot)
	if tot >= 30 && float64(col) > 0.6*float64(tot) {
		c.Violate("the order is permuted in the same way again", fmt.Sprintf("%d of %d", col, tot))
	}
}
