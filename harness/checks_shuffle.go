package main

import (
	"crypto/cipher"
	"errors"
	"fmt"
	"math/big"

	"zRep/util/shuffle"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/proof"
	"github.com/dedis/crypto/random"
)

func init() {
	register("C14", "one evaluation is one shuffle looked at or one proof verified: honest shuffles of 2 to 6 pairs, the same with one of the lists, keys or proof elements changed, and forgeries by a prover who knows every logarithm and satisfies all equations of the verifier but one", runC14)
}

// numbers modulo the order of the group
func qm(xs ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, x := range xs {
		r.Mul(r, x)
		r.Mod(r, grpQ)
	}
	return r
}
func qa(xs ...*big.Int) *big.Int {
	r := new(big.Int)
	for _, x := range xs {
		r.Add(r, x)
	}
	return r.Mod(r, grpQ)
}
func qn(x *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Neg(x), grpQ) }
func qi(x *big.Int) *big.Int { return new(big.Int).ModInverse(x, grpQ) }
func (r *Rng) q() *big.Int {
	for {
		x := new(big.Int).Mod(bi(r.Bytes(80)), grpQ)
		if x.Sign() > 0 {
			return x
		}
	}
}
func (r *Rng) qs(n int) (res []*big.Int) {
	for i := 0; i < n; i++ {
		res = append(res, r.q())
	}
	return
}

// The transcript, written by the harness.
type fst struct {
	G, H             abstract.Point
	X, Y, Xbar, Ybar []abstract.Point
}
type fe1 struct {
	Gamma            abstract.Point
	A, C, U, W       []abstract.Point
	Lambda1, Lambda2 abstract.Point
}
type fsec struct{ Z []abstract.Secret }
type fpts struct{ P []abstract.Point }
type fe5 struct {
	Zsigma []abstract.Secret
	Ztau   abstract.Secret
}
type fs0 struct {
	G, Gamma abstract.Point
	X, Y     []abstract.Point
}

// pairList is a list of pairs given by logarithms to the base g.
type pairList struct {
	g   *big.Int
	eta *big.Int // h = g^eta
	x   []*big.Int
	y   []*big.Int
}

func (l *pairList) m(i int) *big.Int { return qa(l.y[i], qn(qm(l.eta, l.x[i]))) }

func expPts(g *big.Int, es []*big.Int) (res []abstract.Point) {
	for _, e := range es {
		res = append(res, pt(gexp(g, e)))
	}
	return
}
func secs(es []*big.Int) (res []abstract.Secret) {
	for _, e := range es {
		res = append(res, sec(e))
	}
	return
}

type forger struct {
	r       *Rng
	k       int
	g, eta  *big.Int
	x, y    []*big.Int
	xb, yb  []*big.Int
	beta    []*big.Int
	pi      []int
	kind    string
	j       int
	stmt    bool // the statement is part of the transcript
	sigma   []*big.Int
	rho     []*big.Int
	tau     *big.Int
	reached bool
}

func pubSecs(ctx proof.ProverContext, n int) []*big.Int {
	z := fsec{make([]abstract.Secret, n)}
	if err := ctx.PubRand(&z); err != nil {
		panic(err)
	}
	res := []*big.Int{}
	for _, s := range z.Z {
		res = append(res, sv(s))
	}
	return res
}

func (f *forger) P(e *big.Int) abstract.Point       { return pt(gexp(f.g, e)) }
func (f *forger) Ps(es []*big.Int) []abstract.Point { return expPts(f.g, es) }

func (f *forger) prove(ctx proof.ProverContext) error {
	k, r := f.k, f.r
	if f.stmt {
		if err := ctx.Put(&fst{pt(f.g), f.P(f.eta), f.Ps(f.x), f.Ps(f.y), f.Ps(f.xb), f.Ps(f.yb)}); err != nil {
			return err
		}
	}
	gamma := r.q()
	a, u, w := r.qs(k), r.qs(k), r.qs(k)
	tau0 := r.q()
	l1, l2 := r.q(), r.q()
	C, W := make([]*big.Int, k), make([]*big.Int, k)
	piinv := make([]int, k)
	for i := range f.pi {
		C[i], W[i] = qm(gamma, a[f.pi[i]]), qm(gamma, w[i])
		piinv[f.pi[i]] = i
	}
	wb := tau0
	for i := range w {
		wb = qa(wb, qm(w[i], f.beta[f.pi[i]]))
	}
	if f.kind == "control" {
		l1, l2 = wb, qm(f.eta, wb)
		for i := range f.x {
			e := qa(w[piinv[i]], qn(u[i]))
			l1, l2 = qa(l1, qm(f.x[i], e)), qa(l2, qm(f.y[i], e))
		}
	}
	var rho, sigma []*big.Int
	var tau *big.Int
	b, d := make([]*big.Int, k), make([]*big.Int, k)
	sums := func() (p1, p2 *big.Int) { // what (34) and (35) demand of Lambda plus tau
		p1, p2 = new(big.Int), new(big.Int)
		for i := range sigma {
			p1 = qa(p1, qm(sigma[i], f.xb[i]), qn(qm(rho[i], f.x[i])))
			p2 = qa(p2, qm(sigma[i], f.yb[i]), qn(qm(rho[i], f.y[i])))
		}
		return
	}
	if f.kind == "rho first" {
		rho = pubSecs(ctx, k)
		for i := range rho {
			b[i] = qa(rho[i], qn(u[i]))
		}
		for i := range rho {
			sigma = append(sigma, qa(w[i], b[f.pi[i]]))
		}
		tau = r.q()
		p1, p2 := sums()
		l1, l2 = qa(p1, qn(tau)), qa(p2, qn(qm(f.eta, tau)))
	}
	if err := ctx.Put(&fe1{f.P(gamma), f.Ps(a), f.Ps(C), f.Ps(u), f.Ps(W), f.P(l1), f.P(l2)}); err != nil {
		return err
	}
	if rho == nil {
		rho = pubSecs(ctx, k)
		for i := range rho {
			b[i] = qa(rho[i], qn(u[i]))
		}
		for i := range rho {
			sigma = append(sigma, qa(w[i], b[f.pi[i]]))
		}
	}
	for i := range d {
		d[i] = qm(gamma, b[f.pi[i]])
	}
	// sigma_j and tau that solve (34) and (35)
	solve := func(j int) {
		sigma[j] = new(big.Int)
		p1, p2 := sums()
		// s*xb - tau = l1-p1, s*yb - eta*tau = l2-p2
		n := qa(l2, qn(p2), qn(qm(f.eta, qa(l1, qn(p1)))))
		sigma[j] = qm(n, qi(qa(f.yb[j], qn(qm(f.eta, f.xb[j])))))
		tau = qa(p1, qm(sigma[j], f.xb[j]), qn(l1))
	}
	switch f.kind {
	case "X unlinked", "Y unlinked", "simple shuffle equation", "simple shuffle challenge first":
		for i := range sigma {
			sigma[i] = r.q()
		}
		solve(r.IntN(k))
		for i := range sigma {
			d[i] = qm(gamma, qa(sigma[i], qn(w[i])))
		}
	case "one X unlinked", "one Y unlinked":
		solve(f.j)
		d[f.j] = qm(gamma, qa(sigma[f.j], qn(w[f.j])))
	case "one (33)":
		solve(f.j)
	case "(34)":
		_, p2 := sums()
		tau = qm(qa(p2, qn(l2)), qi(f.eta))
	case "(35)":
		p1, _ := sums()
		tau = qa(p1, qn(l1))
	case "control":
		tau = qn(tau0)
		for i := range b {
			tau = qa(tau, qm(b[i], f.beta[i]))
		}
	}
	if err := ctx.Put(&fpts{f.Ps(d)}); err != nil {
		return err
	}
	lambda := pubSecs(ctx, 1)[0]
	xs, ys := make([]*big.Int, k), make([]*big.Int, k)
	for i := range xs {
		xs[i] = qa(a[i], qm(lambda, b[i]))
		ys[i] = qa(C[i], qm(lambda, d[i]))
	}
	gi := qi(gamma)
	switch f.kind {
	case "X unlinked":
		for i := range xs {
			xs[i] = qm(ys[i], gi)
		}
	case "Y unlinked":
		for i := range xs {
			ys[i] = qm(xs[i], gamma)
		}
	case "one X unlinked":
		xs[f.pi[f.j]] = qm(ys[f.j], gi)
	case "one Y unlinked":
		ys[f.j] = qm(xs[f.pi[f.j]], gamma)
	}
	f.sigma, f.rho, f.tau = sigma, rho, tau
	if err := ctx.Put(&fe5{secs(sigma), sec(tau)}); err != nil {
		return err
	}
	sf := &ssForger{r: r, g: f.g, gamma: gamma, x: xs, y: ys, stmt: f.stmt, fail: -1}
	switch f.kind {
	case "simple shuffle equation":
		sf.fail = f.j
	case "simple shuffle challenge first":
		sf.cFirst = true
	}
	return sf.prove(ctx)
}

// ssForger writes the transcript of a simple shuffle.
type ssForger struct {
	r        *Rng
	g, gamma *big.Int
	x, y     []*big.Int
	stmt     bool
	fail     int  // the equation that fails, or -1 for an honest proof
	cFirst   bool // the challenge c is known before Theta is sent
	tFirst   bool // the challenge t is known before X and Y are sent
	late     bool // gamma is picked at last
}

func (f *ssForger) put0(ctx proof.ProverContext) error {
	if f.stmt {
		return ctx.Put(&fs0{pt(f.g), pt(gexp(f.g, f.gamma)), expPts(f.g, f.x), expPts(f.g, f.y)})
	}
	return ctx.Put(&struct{ X, Y []abstract.Point }{expPts(f.g, f.x), expPts(f.g, f.y)})
}

func (f *ssForger) prove(ctx proof.ProverContext) error {
	k := len(f.x)
	n := 2*k - 1
	var t *big.Int
	if f.tFirst {
		// the last y makes the products equal, although it is no permutation
		t = pubSecs(ctx, 1)[0]
		p := big.NewInt(1)
		for i := range f.x {
			p = qm(p, f.gamma, qa(f.x[i], qn(t)))
		}
		for i := 0; i < k-1; i++ {
			p = qm(p, qi(qa(f.y[i], qn(qm(f.gamma, t)))))
		}
		f.y[k-1] = qa(p, qm(f.gamma, t))
	}
	if err := f.put0(ctx); err != nil {
		return err
	}
	if t == nil {
		t = pubSecs(ctx, 1)[0]
	}
	var c *big.Int
	if f.cFirst {
		c = pubSecs(ctx, 1)[0]
	}
	theta := f.r.qs(n)
	hat := func() (xh, yh []*big.Int) {
		for i := range f.x {
			xh = append(xh, qa(f.x[i], qn(t)))
			yh = append(yh, qa(f.y[i], qn(qm(f.gamma, t))))
		}
		return
	}
	xh, yh := hat()
	T := make([]*big.Int, 2*k)
	alpha := f.r.qs(n)
	eq := func(i int, al []*big.Int, c *big.Int) *big.Int { // the left side of equation i
		switch {
		case i == 0:
			return qa(qm(c, xh[0]), qn(qm(al[0], yh[0])))
		case i < k:
			return qa(qm(al[i-1], xh[i]), qn(qm(al[i], yh[i])))
		case i < n:
			return qa(qm(al[i-1], f.gamma), qn(al[i]))
		}
		return qa(qm(al[n-1], f.gamma), qn(c))
	}
	for i := range T {
		T[i] = eq(i, theta, new(big.Int))
	}
	if f.cFirst {
		for i := range T {
			T[i] = eq(i, alpha, c)
		}
	}
	if f.late {
		T[1], T[2] = new(big.Int), new(big.Int)
		T[0], T[3] = f.r.q(), f.r.q()
	}
	if err := ctx.Put(&fpts{expPts(f.g, T)}); err != nil {
		return err
	}
	if c == nil {
		c = pubSecs(ctx, 1)[0]
	}
	switch {
	case f.cFirst:
	case f.late:
		// k = 2: a*gamma^2 = e*(y0-t*gamma)*(y1-t*gamma)
		a := qm(qa(qm(c, xh[0]), qn(T[0])), xh[1])
		e := qa(T[3], c)
		A := qa(a, qn(qm(e, t, t)))
		B := qm(e, t, qa(f.y[0], f.y[1]))
		C := qn(qm(e, f.y[0], f.y[1]))
		disc := qa(qm(B, B), qn(qm(big.NewInt(4), A, C)))
		s := new(big.Int).ModSqrt(disc, grpQ)
		if s == nil {
			return errors.New("no root")
		}
		f.gamma = qm(qa(qn(B), s), qi(qa(A, A)))
		xh, yh = hat()
		alpha[2] = qm(qa(T[3], c), qi(f.gamma))
		alpha[1] = qm(alpha[2], qi(f.gamma))
		alpha[0] = qm(qa(qm(c, xh[0]), qn(T[0])), qi(yh[0]))
	case f.fail >= 0:
		for i := 0; i < f.fail; i++ { // equation i gives alpha i
			prev := c
			if i > 0 {
				prev = alpha[i-1]
			}
			if i < k {
				alpha[i] = qm(qa(qm(prev, xh[i]), qn(T[i])), qi(yh[i]))
			} else {
				alpha[i] = qa(qm(prev, f.gamma), qn(T[i]))
			}
		}
		for i := n; i > f.fail; i-- { // equation i gives alpha i-1
			next := c
			if i < n {
				next = alpha[i]
			}
			if i >= k {
				alpha[i-1] = qm(qa(T[i], next), qi(f.gamma))
			} else {
				alpha[i-1] = qm(qa(T[i], qm(next, yh[i])), qi(xh[i]))
			}
		}
	default:
		run := c
		for i := 0; i < k; i++ {
			run = qm(run, xh[i], qi(yh[i]))
			alpha[i] = qa(theta[i], run)
		}
		run = c
		for i := 1; i < k; i++ {
			run = qm(run, qi(f.gamma))
			alpha[n-i] = qa(theta[n-i], run)
		}
	}
	return ctx.Put(&fsec{secs(alpha)})
}

func hashProve(name string, p proof.Prover) []byte {
	rand := suite.Cipher(abstract.RandomKey)
	prf, err := proof.HashProve(suite, name, rand, p)
	if err != nil {
		return nil
	}
	return prf
}

func pairOK(g, h abstract.Point, X, Y, Xb, Yb []abstract.Point, prf []byte) bool {
	return accepts(func() bool {
		return proof.HashVerify(suite, "PairShuffle", shuffle.Verifier(suite, g, h, X, Y, Xb, Yb), prf) == nil
	})
}

func points(l []abstract.Point) (res []*big.Int) {
	for _, p := range l {
		res = append(res, pv(p))
	}
	return
}

// genPairs makes a list of pairs with directed special values.
func genPairs(i int, r *Rng) *pairList {
	l := &pairList{g: grpG, eta: r.q()}
	if i%3 == 1 {
		l.g = new(big.Int).Exp(bi(r.Bytes(80)), big.NewInt(2), grpP)
	}
	k := []int{2, 3, 4, 5, 6, 2, 3}[i%7]
	x0 := r.q()
	for n := 0; n < k; n++ {
		x, m := r.q(), r.q()
		switch i % 5 {
		case 1: // as the servers use it: the same first half everywhere
			x = x0
		case 2:
			if n == 1 { // twice the same plaintext
				m = qa(l.y[0], qn(qm(l.eta, l.x[0])))
			}
		case 3:
			if n == 0 {
				x = new(big.Int)
			}
			if n == 1 {
				m = new(big.Int)
			}
		}
		l.x = append(l.x, x)
		l.y = append(l.y, qa(m, qm(l.eta, x)))
	}
	return l
}

// gens returns the generator and the key as arguments; nil for the standard base.
func (l *pairList) gens() (g, h abstract.Point) {
	if l.g.Cmp(grpG) != 0 {
		g = pt(l.g)
	}
	return g, pt(gexp(l.g, l.eta))
}

func runC14(c *Check) {
	c.Parallel("honest shuffles", c.Scale(70, 1500), 8, func(i int, r *Rng) { c.pairShuffle(i, r) })
	c.Parallel("forged shuffles", c.Scale(24, 400), 8, func(i int, r *Rng) { c.forgedShuffle(i, r) })
	c.Parallel("simple shuffles", c.Scale(24, 400), 8, func(i int, r *Rng) { c.simpleShuffle(i, r) })
	c.Parallel("biffles", c.Scale(48, 800), 8, func(i int, r *Rng) { c.biffle(i, r) })
	c.shuffleOrders()
}

func (c *Check) pairShuffle(i int, r *Rng) {
	l := genPairs(i, r)
	k := len(l.x)
	g, h := l.gens()
	X, Y := expPts(l.g, l.x), expPts(l.g, l.y)
	rand := suite.Cipher(abstract.RandomKey)
	var Xb, Yb, tx, ty []abstract.Point
	var prf []byte
	if pan, what := try(func() {
		var p proof.Prover
		Xb, Yb, p, tx, ty = shuffle.Shuffle(suite, g, h, X, Y, rand)
		var err error
		prf, err = proof.HashProve(suite, "PairShuffle", rand, p)
		if err != nil {
			panic(err)
		}
	}); pan {
		c.Violate("an honest shuffle fails", what)
		return
	}
	id := fmt.Sprintf("%x", prf[len(prf)-16:])
	desc := fmt.Sprintf("%d pairs, case %d, proof of %d bytes ending in %s", k, i%5, len(prf), id)
	// the lists are left alone, and the output decrypts to a permutation
	in, out := map[string]int{}, map[string]int{}
	xv, yv, xbv, ybv, txv, tyv := points(X), points(Y), points(Xb), points(Yb), points(tx), points(ty)
	for n := 0; n < k; n++ {
		in[hx(gexp(l.g, l.m(n)))]++
		if xv[n].Cmp(gexp(l.g, l.x[n])) != 0 || yv[n].Cmp(gexp(l.g, l.y[n])) != 0 {
			c.Violate("a shuffle changes its input", desc)
		}
	}
	same := len(Xb) == k && len(Yb) == k && len(tx) == k && len(ty) == k
	for n := 0; n < len(Xb) && same; n++ {
		out[hx(gmul(ybv[n], ginv(gexp(xbv[n], l.eta))))]++
		// the blinding is the one that is returned
		same = same && tyv[n].Cmp(gexp(txv[n], l.eta)) == 0
		found := false
		for j := 0; j < k; j++ {
			if gmul(xv[j], txv[n]).Cmp(xbv[n]) == 0 && gmul(yv[j], tyv[n]).Cmp(ybv[n]) == 0 {
				found = true
			}
			if xbv[n].Cmp(xv[j]) == 0 || ybv[n].Cmp(yv[j]) == 0 {
				c.Violate("an output of a shuffle is not re-encrypted", desc)
			}
		}
		same = same && found
	}
	for m, n := range in {
		same = same && out[m] == n
	}
	c.decide("output is a permuted re-encryption", id, same, true, "the output of a shuffle is no permuted re-encryption", desc)
	tv := map[string]bool{}
	for _, t := range txv {
		tv[hx(t)] = true
	}
	c.decide("blinding", id, len(tv) == k, true, "two entries of a shuffle have the same blinding", desc)
	c.decide("honest proof", id, pairOK(g, h, X, Y, Xb, Yb, prf), true, "an honest shuffle proof does not verify", desc)
	if g == nil {
		c.decide("honest proof, generator given", id, pairOK(suite.Point().Base(), h, X, Y, Xb, Yb, prf), true, "an honest shuffle proof does not verify", desc)
	}
	bad := func(kind string, g, h abstract.Point, X, Y, Xb, Yb []abstract.Point, prf []byte) {
		c.decide("change of "+kind, id, pairOK(g, h, X, Y, Xb, Yb, prf), false, "a shuffle proof verifies after a change of "+kind, desc)
	}
	// one entry of a list
	repl := func(l []abstract.Point, n int, v *big.Int) []abstract.Point {
		o := append([]abstract.Point{}, l...)
		o[n] = pt(v)
		return o
	}
	swap := func(l []abstract.Point, a, b int) []abstract.Point {
		o := append([]abstract.Point{}, l...)
		o[a], o[b] = o[b], o[a]
		return o
	}
	lists := map[string]*[]abstract.Point{}
	for name, p := range map[string]*[]abstract.Point{"an input X": &X, "an input Y": &Y, "an output X": &Xb, "an output Y": &Yb} {
		lists[name] = p
		orig := *p
		vals := points(orig)
		for n := 0; n < k; n++ {
			*p = repl(orig, n, gmul(vals[n], l.g))
			bad(name, g, h, X, Y, Xb, Yb, prf)
			*p = repl(orig, n, vals[(n+1)%k])
			if vals[n].Cmp(vals[(n+1)%k]) != 0 {
				bad(name+" to its neighbour", g, h, X, Y, Xb, Yb, prf)
				*p = swap(orig, n, (n+1)%k)
				bad(name+" by a swap", g, h, X, Y, Xb, Yb, prf)
			}
		}
		*p = orig[:k-1]
		bad(name+" by leaving one out", g, h, X, Y, Xb, Yb, prf)
		*p = append(append([]abstract.Point{}, orig...), orig[0])
		bad(name+" by adding one", g, h, X, Y, Xb, Yb, prf)
		*p = orig
	}
	for n := 0; n < k; n++ {
		m := (n + 1) % k
		bad("the order of the output", g, h, X, Y, swap(Xb, n, m), swap(Yb, n, m), prf)
		bad("an output pair to its neighbour", g, h, X, Y, repl(Xb, n, xbv[m]), repl(Yb, n, ybv[m]), prf)
		bad("an output pair by another re-encryption", g, h, X, Y, repl(Xb, n, gmul(xbv[n], l.g)), repl(Yb, n, gmul(ybv[n], gexp(l.g, l.eta))), prf)
		if l.x[n].Cmp(l.x[m]) != 0 {
			bad("the order of the input", g, h, swap(X, n, m), swap(Y, n, m), Xb, Yb, prf)
		}
	}
	bad("the output to the input", g, h, X, Y, X, Y, prf)
	bad("the direction", g, h, Xb, Yb, X, Y, prf)
	bad("the key", g, pt(gmul(gexp(l.g, l.eta), l.g)), X, Y, Xb, Yb, prf)
	bad("the key to the standard base", g, nil, X, Y, Xb, Yb, prf)
	bad("the generator", pt(gexp(l.g, big.NewInt(3))), h, X, Y, Xb, Yb, prf)
	// the proof
	for n := 0; n < 10; n++ {
		bad("a bit of the proof", g, h, X, Y, Xb, Yb, flip(prf, r.IntN(len(prf)*8)))
	}
	for o := 0; o+64 <= len(prf); o += 64 {
		if i >= 14 && r.IntN(6) != 0 && !c.Thorough() {
			continue
		}
		v := bi(prf[o : o+64])
		for t, w := range []*big.Int{gmul(v, l.g), qa(v, one), new(big.Int).Mod(qm(v, big.NewInt(3)), grpQ)} {
			if w.Cmp(v) == 0 {
				continue
			}
			bad([]string{"a point of the proof", "a number of the proof", "a number of the proof"}[t], g, h, X, Y, Xb, Yb,
				cat(prf[:o], pad64(w), prf[o+64:]))
		}
		if o+128 <= len(prf) && string(prf[o:o+64]) != string(prf[o+64:o+128]) {
			bad("two elements of the proof", g, h, X, Y, Xb, Yb, cat(prf[:o], prf[o+64:o+128], prf[o:o+64], prf[o+128:]))
		}
	}
	bad("the proof by cutting it", g, h, X, Y, Xb, Yb, prf[:len(prf)-1])
	bad("the proof by cutting it", g, h, X, Y, Xb, Yb, prf[:len(prf)-64])
	bad("the proof by cutting it", g, h, X, Y, Xb, Yb, prf[:len(prf)/2])
	bad("the proof to nothing", g, h, X, Y, Xb, Yb, nil)
	bad("the proof to zeros", g, h, X, Y, Xb, Yb, make([]byte, len(prf)))
	// another run over the same input
	try(func() {
		Xb2, Yb2, p2, _, _ := shuffle.Shuffle(suite, g, h, X, Y, rand)
		prf2, _ := proof.HashProve(suite, "PairShuffle", rand, p2)
		bad("the run", g, h, X, Y, Xb, Yb, prf2)
		bad("the run", g, h, X, Y, Xb2, Yb2, prf)
		c.decide("proof name", id, accepts(func() bool {
			return proof.HashVerify(suite, "Other", shuffle.Verifier(suite, g, h, X, Y, Xb, Yb), prf) == nil
		}), false, "a shuffle proof verifies under another protocol name", desc)
		for n := range Xb2 {
			if points(Xb2)[n].Cmp(xbv[n]) == 0 {
				c.Violate("two shuffles have the same output", desc)
			}
		}
	})
}

// honestOut makes a permuted re-encryption.
func (f *forger) honestOut(l *pairList) {
	f.pi = f.r.Perm(f.k)
	f.beta = f.r.qs(f.k)
	for i := range f.pi {
		f.xb = append(f.xb, qa(f.beta[f.pi[i]], l.x[f.pi[i]]))
		f.yb = append(f.yb, qa(qm(l.eta, f.beta[f.pi[i]]), l.y[f.pi[i]]))
	}
}

func (c *Check) forgedShuffle(i int, r *Rng) {
	l := genPairs([]int{0, 1, 2, 5, 6, 7, 9, 10}[i%8], r)
	k := len(l.x)
	g, h := l.gens()
	X, Y := expPts(l.g, l.x), expPts(l.g, l.y)
	for _, stmt := range []bool{true, false} {
		one1 := func(kind string, j int) {
			f := &forger{r: r, k: k, g: l.g, eta: l.eta, x: l.x, y: l.y, kind: kind, j: j, stmt: stmt}
			f.honestOut(l)
			what := "nothing"
			if kind != "control" {
				// what the malicious shuffler wants
				n, m := r.IntN(k), r.IntN(k-1)
				if m >= n {
					m++
				}
				switch (i/2 + j) % 4 {
				case 0:
					what = "replaces a plaintext"
					f.yb[n] = qa(f.yb[n], r.q())
				case 1:
					what = "moves something from one plaintext to another"
					d := r.q()
					f.yb[n], f.yb[m] = qa(f.yb[n], d), qa(f.yb[m], qn(d))
				case 2:
					what = "drops an entry for a duplicate of another one"
					b := r.q()
					f.xb[n], f.yb[n] = qa(f.xb[m], b), qa(f.yb[m], qm(l.eta, b))
					if l.m(f.pi[n]).Cmp(l.m(f.pi[m])) == 0 {
						return
					}
				case 3:
					what = "replaces all"
					f.xb, f.yb = r.qs(k), r.qs(k)
				}
			}
			prf := hashProve("PairShuffle", f.prove)
			if prf == nil {
				return
			}
			ok := pairOK(g, h, X, Y, expPts(l.g, f.xb), expPts(l.g, f.yb), prf)
			if kind == "control" {
				c.Count(fmt.Sprintf("control proofs of the forger, statement %v, verified %v", stmt, ok), 1)
				if stmt == ok {
					c.Count("forger speaks the verifier's protocol", 1)
				}
				return
			}
			c.decide("forgery: "+kind, fmt.Sprintf("%d %d %v %x", i, j, stmt, prf[:8]), ok, false,
				"a forged shuffle proof verifies ("+kind+")", fmt.Sprintf("%s %d: a shuffle of %d pairs that %s", kind, j, k, what))
		}
		one1("control", 0)
		one1("X unlinked", 0)
		one1("Y unlinked", 0)
		one1("(34)", 0)
		one1("(35)", 0)
		one1("rho first", 0)
		one1("simple shuffle challenge first", 0)
		for j := 0; j < k; j++ {
			one1("one X unlinked", j)
			one1("one Y unlinked", j)
			one1("one (33)", j)
		}
		for j := 0; j < 2*k; j++ {
			one1("simple shuffle equation", j)
		}
		// lists that are fitted to a finished proof
		f := &forger{r: r, k: k, g: l.g, eta: l.eta, x: l.x, y: l.y, kind: "control", stmt: stmt}
		f.honestOut(l)
		prf := hashProve("PairShuffle", f.prove)
		if prf == nil {
			continue
		}
		cp := func(l []*big.Int) []*big.Int { return append([]*big.Int{}, l...) }
		fit := func(what string, ch func(d *big.Int, x, y, xb, yb []*big.Int) (eta *big.Int)) {
			x, y, xb, yb := cp(l.x), cp(l.y), cp(f.xb), cp(f.yb)
			eta := ch(r.q(), x, y, xb, yb)
			hh := h
			if eta != nil {
				hh = pt(gexp(l.g, eta))
			}
			ok := pairOK(g, hh, expPts(l.g, x), expPts(l.g, y), expPts(l.g, xb), expPts(l.g, yb), prf)
			c.decide("lists fitted to a proof", fmt.Sprint(i, stmt, what), ok, false, "a shuffle proof verifies for lists fitted to it",
				fmt.Sprintf("%s are chosen after the proof is made, %d pairs", what, k))
		}
		a, b := r.IntN(k), r.IntN(k)
		for b == a {
			b = r.IntN(k)
		}
		fit("two X outputs", func(d *big.Int, x, y, xb, yb []*big.Int) *big.Int {
			xb[a], xb[b] = qa(xb[a], d), qa(xb[b], qn(qm(d, f.sigma[a], qi(f.sigma[b]))))
			return nil
		})
		fit("two Y outputs", func(d *big.Int, x, y, xb, yb []*big.Int) *big.Int {
			yb[a], yb[b] = qa(yb[a], d), qa(yb[b], qn(qm(d, f.sigma[a], qi(f.sigma[b]))))
			return nil
		})
		fit("two X inputs", func(d *big.Int, x, y, xb, yb []*big.Int) *big.Int {
			x[a], x[b] = qa(x[a], d), qa(x[b], qn(qm(d, f.rho[a], qi(f.rho[b]))))
			return nil
		})
		fit("two Y inputs", func(d *big.Int, x, y, xb, yb []*big.Int) *big.Int {
			y[a], y[b] = qa(y[a], d), qa(y[b], qn(qm(d, f.rho[a], qi(f.rho[b]))))
			return nil
		})
		fit("an X input and output", func(d *big.Int, x, y, xb, yb []*big.Int) *big.Int {
			x[a], xb[b] = qa(x[a], d), qa(xb[b], qm(d, f.rho[a], qi(f.sigma[b])))
			return nil
		})
		fit("a Y input and output", func(d *big.Int, x, y, xb, yb []*big.Int) *big.Int {
			y[a], yb[b] = qa(y[a], d), qa(yb[b], qm(d, f.rho[a], qi(f.sigma[b])))
			return nil
		})
		fit("the key and a Y output", func(d *big.Int, x, y, xb, yb []*big.Int) *big.Int {
			yb[b] = qa(yb[b], qm(d, f.tau, qi(f.sigma[b])))
			return qa(l.eta, d)
		})
		fit("the key and a Y input", func(d *big.Int, x, y, xb, yb []*big.Int) *big.Int {
			y[b] = qa(y[b], qn(qm(d, f.tau, qi(f.rho[b]))))
			return qa(l.eta, d)
		})
	}
}

func simpleOK(g, gamma abstract.Point, k int, prf []byte) bool {
	return accepts(func() bool {
		ss := new(shuffle.SimpleShuffle).Init(suite, k)
		return proof.HashVerify(suite, "Simple", func(ctx proof.VerifierContext) error { return ss.Verify(g, gamma, ctx) }, prf) == nil
	})
}

func (c *Check) simpleShuffle(i int, r *Rng) {
	k := []int{2, 3, 4, 5}[i%4]
	base := grpG
	var g abstract.Point
	if i%3 == 1 {
		base = new(big.Int).Exp(bi(r.Bytes(80)), big.NewInt(2), grpP)
		g = pt(base)
	}
	x, gamma := r.qs(k), r.q()
	if i%5 == 2 {
		x[1] = x[0]
	}
	pi := r.Perm(k)
	y := []*big.Int{}
	for _, p := range pi {
		y = append(y, qm(gamma, x[p]))
	}
	Gamma := pt(gexp(base, gamma))
	prove := func(x, y []*big.Int, gamma *big.Int) (prf []byte) {
		try(func() {
			ss := new(shuffle.SimpleShuffle).Init(suite, k)
			prf = hashProve("Simple", func(ctx proof.ProverContext) error {
				return ss.Prove(g, sec(gamma), secs(x), secs(y), suite.Cipher(abstract.RandomKey), ctx)
			})
		})
		return
	}
	prf := prove(x, y, gamma)
	desc := fmt.Sprintf("simple shuffle of %d, proof of %d bytes", k, len(prf))
	id := fmt.Sprint(i, r.Uint64())
	if len(prf) == 0 {
		c.Violate("an honest simple shuffle fails", desc)
		return
	}
	c.decide("honest simple shuffle", id, simpleOK(g, Gamma, k, prf), true, "an honest simple shuffle does not verify", desc)
	bad := func(kind string, g, Gamma abstract.Point, prf []byte) {
		c.decide("simple shuffle, change of "+kind, id, simpleOK(g, Gamma, k, prf), false, "a simple shuffle verifies after a change of "+kind, desc)
	}
	bad("the factor", g, pt(gmul(gexp(base, gamma), base)), prf)
	bad("the generator", pt(gmul(base, base)), Gamma, prf)
	bad("the factor to the base", g, nil, prf)
	for n := 0; n < 6; n++ {
		bad("a bit of the proof", g, Gamma, flip(prf, r.IntN(len(prf)*8)))
	}
	for o := 0; o+64 <= len(prf); o += 64 {
		v := bi(prf[o : o+64])
		bad("a point of the proof", g, Gamma, cat(prf[:o], pad64(gmul(v, base)), prf[o+64:]))
		if w := qa(v, one); w.Cmp(v) != 0 {
			bad("a number of the proof", g, Gamma, cat(prf[:o], pad64(w), prf[o+64:]))
		}
		if o+128 <= len(prf) && string(prf[o:o+64]) != string(prf[o+64:o+128]) {
			bad("two elements of the proof", g, Gamma, cat(prf[:o], prf[o+64:o+128], prf[o:o+64], prf[o+128:]))
		}
	}
	bad("its length", g, Gamma, prf[:len(prf)-64])
	bad("its length", g, Gamma, nil)
	if k > 2 {
		c.decide("simple shuffle of fewer", id, simpleOK(g, Gamma, k-1, prf), false, "a simple shuffle verifies for a shorter list", desc)
	}
	// the program's own prover, given something that is no permutation
	y2 := append([]*big.Int{}, y...)
	y2[0], y2[1] = qa(y2[0], one), qa(y2[1], qn(one))
	bad("the list to one that is not a permutation", g, Gamma, prove(x, y2, gamma))
	y2 = append([]*big.Int{}, y...)
	y2[0], y2[1] = qm(y2[0], big.NewInt(3)), qm(y2[1], qi(big.NewInt(3)))
	bad("the list to one that is not a permutation", g, Gamma, prove(x, y2, gamma))
	y2[0] = y2[1]
	bad("the list to one that is not a permutation", g, Gamma, prove(x, y2, gamma))
	// forgeries
	for _, stmt := range []bool{true, false} {
		forge := func(kind string, f *ssForger) {
			f.r, f.g, f.stmt, f.gamma, f.x = r, base, stmt, gamma, x
			if f.y == nil {
				f.y = r.qs(k)
			}
			p := hashProve("Simple", f.prove)
			for try := 0; try < 20 && p == nil && f.late; try++ {
				p = hashProve("Simple", f.prove)
			}
			if p == nil {
				return
			}
			ok := simpleOK(g, pt(gexp(base, f.gamma)), k, p)
			if kind == "control" {
				c.Count(fmt.Sprintf("control proofs of the simple forger, statement %v, verified %v", stmt, ok), 1)
				return
			}
			c.decide("simple shuffle forgery: "+kind, fmt.Sprint(id, stmt, f.fail), ok, false, "a forged simple shuffle verifies ("+kind+")", desc)
		}
		forge("control", &ssForger{fail: -1, y: y})
		for j := 0; j < 2*k; j++ {
			forge("one equation", &ssForger{fail: j})
		}
		forge("challenge c first", &ssForger{fail: -1, cFirst: true})
		forge("challenge t first", &ssForger{fail: -1, tFirst: true})
		if k == 2 {
			forge("factor picked last", &ssForger{fail: -1, late: true})
		}
	}
}

func biffleOK(g, h abstract.Point, X, Y, Xb, Yb []abstract.Point, prf []byte) bool {
	a := func(l []abstract.Point) [2]abstract.Point { return [2]abstract.Point{l[0], l[1]} }
	return accepts(func() bool {
		return proof.HashVerify(suite, "Biffle", shuffle.BiffleVerifier(suite, g, h, a(X), a(Y), a(Xb), a(Yb)), prf) == nil
	})
}

func (c *Check) biffle(i int, r *Rng) {
	l := genPairs(i*7, r) // two pairs
	if i%2 == 0 {
		l = genPairs(i*7+5, r)
	}
	g, h := l.gens()
	X, Y := expPts(l.g, l.x), expPts(l.g, l.y)
	a := func(l []abstract.Point) [2]abstract.Point { return [2]abstract.Point{l[0], l[1]} }
	rand := suite.Cipher(abstract.RandomKey)
	var Xb, Yb [2]abstract.Point
	var prf []byte
	if pan, what := try(func() {
		var p proof.Prover
		Xb, Yb, p = shuffle.Biffle(suite, g, h, a(X), a(Y), rand)
		var err error
		if prf, err = proof.HashProve(suite, "Biffle", rand, p); err != nil {
			panic(err)
		}
	}); pan {
		c.Violate("an honest biffle fails", what)
		return
	}
	xbs, ybs := Xb[:], Yb[:]
	xv, yv, xbv, ybv := points(X), points(Y), points(xbs), points(ybs)
	id := fmt.Sprintf("%d %x", i, prf[len(prf)-16:])
	desc := "biffle " + id
	dec := func(x, y *big.Int) *big.Int { return gmul(y, ginv(gexp(x, l.eta))) }
	m0, m1, n0, n1 := dec(xv[0], yv[0]), dec(xv[1], yv[1]), dec(xbv[0], ybv[0]), dec(xbv[1], ybv[1])
	same := m0.Cmp(n0) == 0 && m1.Cmp(n1) == 0 || m0.Cmp(n1) == 0 && m1.Cmp(n0) == 0
	for n := 0; n < 4; n++ {
		same = same && xv[n/2].Cmp(xbv[n%2]) != 0
	}
	c.decide("biffle output", id, same, true, "the output of a biffle is no permuted re-encryption", desc)
	c.decide("honest biffle", id, biffleOK(g, h, X, Y, xbs, ybs, prf), true, "an honest biffle proof does not verify", desc)
	bad := func(kind string, g, h abstract.Point, X, Y, Xb, Yb []abstract.Point, prf []byte) {
		c.decide("biffle, change of "+kind, id, biffleOK(g, h, X, Y, Xb, Yb, prf), false, "a biffle proof verifies after a change of "+kind, desc)
	}
	sw := func(l []abstract.Point) []abstract.Point { return []abstract.Point{l[1], l[0]} }
	for name, p := range map[string]*[]abstract.Point{"an input X": &X, "an input Y": &Y, "an output X": &xbs, "an output Y": &ybs} {
		orig := *p
		vals := points(orig)
		for n := 0; n < 2; n++ {
			o := append([]abstract.Point{}, orig...)
			o[n] = pt(gmul(vals[n], l.g))
			*p = o
			bad(name, g, h, X, Y, xbs, ybs, prf)
			o = append([]abstract.Point{}, orig...)
			o[n] = orig[1-n]
			*p = o
			if vals[0].Cmp(vals[1]) != 0 {
				bad(name+" to the other", g, h, X, Y, xbs, ybs, prf)
			}
		}
		*p = sw(orig)
		if vals[0].Cmp(vals[1]) != 0 {
			bad(name+" by a swap", g, h, X, Y, xbs, ybs, prf)
		}
		*p = orig
	}
	bad("the output order", g, h, X, Y, sw(xbs), sw(ybs), prf)
	bad("the key", g, pt(gmul(gexp(l.g, l.eta), l.g)), X, Y, xbs, ybs, prf)
	bad("the generator", pt(gmul(l.g, l.g)), h, X, Y, xbs, ybs, prf)
	for n := 0; n < 8; n++ {
		bad("a bit of the proof", g, h, X, Y, xbs, ybs, flip(prf, r.IntN(len(prf)*8)))
	}
	for o := 0; o+64 <= len(prf); o += 64 {
		v := bi(prf[o : o+64])
		bad("a point of the proof", g, h, X, Y, xbs, ybs, cat(prf[:o], pad64(gmul(v, l.g)), prf[o+64:]))
		if w := qa(v, one); w.Cmp(v) != 0 {
			bad("a number of the proof", g, h, X, Y, xbs, ybs, cat(prf[:o], pad64(w), prf[o+64:]))
		}
	}
	bad("its length", g, h, X, Y, xbs, ybs, prf[:len(prf)-64])
	bad("its length", g, h, X, Y, xbs, ybs, nil)
	// forgeries: the same proof system with one of the eight conditions missing or about something else
	for _, stmt := range []bool{true, false} {
		for branch := 0; branch < 2; branch++ {
			for rep := -1; rep < 4; rep++ {
				for _, how := range []string{"missing", "other blinding"} {
					if rep < 0 && how != "missing" {
						continue
					}
					c.forgeBiffle(i, r, l, stmt, branch, rep, how, g, h, X, Y)
				}
			}
		}
		c.fitBiffle(i, r, l, stmt)
	}
}

var biffleReps = [2][4][3]string{
	{{"Xbar0-X0", "beta0", "G"}, {"Ybar0-Y0", "beta0", "H"}, {"Xbar1-X1", "beta1", "G"}, {"Ybar1-Y1", "beta1", "H"}},
	{{"Xbar0-X1", "beta1", "G"}, {"Ybar0-Y1", "beta1", "H"}, {"Xbar1-X0", "beta0", "G"}, {"Ybar1-Y0", "beta0", "H"}},
}

func (c *Check) forgeBiffle(i int, r *Rng, l *pairList, stmt bool, branch, rep int, how string, g, h abstract.Point, X, Y []abstract.Point) {
	other := map[string]string{"beta0": "beta1", "beta1": "beta0"}
	ands := []proof.Predicate{}
	for b := 0; b < 2; b++ {
		var subs []proof.Predicate
		for n := 0; n < 4; n++ {
			e := biffleReps[b][n]
			if b == branch && n == rep {
				if how == "missing" {
					continue
				}
				e[1] = other[e[1]]
			}
			subs = append(subs, proof.Rep(e[0], e[1], e[2]))
		}
		ands = append(ands, proof.And(subs...))
	}
	or := proof.Or(ands...)
	beta := r.qs(2)
	xb, yb := make([]*big.Int, 2), make([]*big.Int, 2)
	for n := 0; n < 2; n++ {
		s := n ^ branch
		xb[n] = qa(beta[s], l.x[s])
		yb[n] = qa(qm(l.eta, beta[s]), l.y[s])
	}
	if rep >= 0 {
		// the condition says nothing, or something else, about this element
		n := rep / 2
		s := n ^ branch
		switch {
		case how == "missing" && rep%2 == 0:
			xb[n] = r.q()
		case how == "missing":
			yb[n] = r.q()
		case rep%2 == 0:
			xb[n] = qa(beta[1-s], l.x[s])
		default:
			yb[n] = qa(qm(l.eta, beta[1-s]), l.y[s])
		}
	}
	Xb, Yb := expPts(l.g, xb), expPts(l.g, yb)
	P := map[string]abstract.Point{"G": g, "H": h}
	vx, vy := l.x, l.y
	for a := 0; a < 2; a++ {
		for b := 0; b < 2; b++ {
			P[fmt.Sprintf("Xbar%d-X%d", a, b)] = pt(gexp(l.g, qa(xb[a], qn(vx[b]))))
			P[fmt.Sprintf("Ybar%d-Y%d", a, b)] = pt(gexp(l.g, qa(yb[a], qn(vy[b]))))
		}
	}
	var prf []byte
	try(func() {
		p := or.Prover(suite, map[string]abstract.Secret{"beta0": sec(beta[0]), "beta1": sec(beta[1])}, P, map[proof.Predicate]int{or: branch})
		prf = hashProve("Biffle", func(ctx proof.ProverContext) error {
			if stmt {
				if err := ctx.Put(&fst{pt(l.g), h, X, Y, Xb, Yb}); err != nil {
					return err
				}
			}
			return p(ctx)
		})
	})
	if prf == nil {
		return
	}
	ok := biffleOK(g, h, X, Y, Xb, Yb, prf)
	if rep < 0 {
		c.Count(fmt.Sprintf("control proofs of the biffle forger, statement %v, verified %v", stmt, ok), 1)
		return
	}
	c.decide("biffle forgery", fmt.Sprint(i, stmt, branch, rep, how), ok, false, "a forged biffle proof verifies",
		fmt.Sprintf("branch %d, condition %d %s, statement in the transcript: %v", branch, rep, how, stmt))
}

// fitBiffle makes a proof first, and then outputs that fit it: something is moved from one plaintext to the other.
func (c *Check) fitBiffle(i int, r *Rng, l *pairList, stmt bool) {
	g, h := l.gens()
	X, Y := expPts(l.g, l.x), expPts(l.g, l.y)
	m0, m1 := l.m(0), l.m(1)
	delta := qa(m1, qn(m0))
	for try := 0; try < 30; try++ {
		v := r.qs(4) // for V000, V010, V100, V110
		e0, e1 := r.q(), r.q()
		// V001 = eta*V000 + e0, V011 = eta*V010 - e0, V101 = eta*V100 + e1, V111 = eta*V110 - e1
		vs := []*big.Int{v[0], qa(qm(l.eta, v[0]), e0), v[1], qa(qm(l.eta, v[1]), qn(e0)),
			v[2], qa(qm(l.eta, v[2]), e1), v[3], qa(qm(l.eta, v[3]), qn(e1))}
		var xb, yb []*big.Int
		done := false
		prf := hashProve("Biffle", func(ctx proof.ProverContext) error {
			if stmt {
				b := r.qs(2) // some honest outputs
				sx := []*big.Int{qa(l.x[0], b[0]), qa(l.x[1], b[1])}
				sy := []*big.Int{qa(l.y[0], qm(l.eta, b[0])), qa(l.y[1], qm(l.eta, b[1]))}
				ctx.Put(&fst{pt(l.g), h, X, Y, expPts(l.g, sx), expPts(l.g, sy)})
			}
			for _, e := range vs {
				ctx.Put(pt(gexp(l.g, e)))
			}
			ch := pubSecs(ctx, 1)[0]
			// e0/c0 - e1/(ch-c0) = delta: delta*c0^2 - (delta*ch + e0 + e1)*c0 + e0*ch = 0
			A, B, C := delta, qn(qa(qm(delta, ch), e0, e1)), qm(e0, ch)
			s := new(big.Int).ModSqrt(qa(qm(B, B), qn(qm(big.NewInt(4), A, C))), grpQ)
			if s == nil || A.Sign() == 0 {
				return errors.New("no root")
			}
			c0 := qm(qa(qn(B), s), qi(qa(A, A)))
			w1 := qa(ch, qn(c0))
			d := qm(e0, qi(c0))
			// outputs: plaintexts m0+d and m1-d, any blinding
			xb = r.qs(2)
			yb = []*big.Int{qa(m0, d, qm(l.eta, xb[0])), qa(m1, qn(d), qm(l.eta, xb[1]))}
			r0 := []*big.Int{qa(v[0], qn(qm(c0, qa(xb[0], qn(l.x[0]))))), qa(v[1], qn(qm(c0, qa(xb[1], qn(l.x[1])))))}
			r1 := []*big.Int{qa(v[3], qn(qm(w1, qa(xb[1], qn(l.x[0]))))), qa(v[2], qn(qm(w1, qa(xb[0], qn(l.x[1])))))}
			ctx.Put([]abstract.Secret{sec(c0), sec(w1)})
			// one response for each blinding factor, in the order of their first use
			order := i&1 == 0
			for _, rr := range [][]*big.Int{r0, r1} {
				if order {
					ctx.Put([]abstract.Secret{sec(rr[0]), sec(rr[1])})
				} else {
					ctx.Put([]abstract.Secret{sec(rr[1]), sec(rr[0])})
				}
			}
			done = true
			return nil
		})
		if prf == nil || !done {
			continue
		}
		ok := biffleOK(g, h, X, Y, expPts(l.g, xb), expPts(l.g, yb), prf)
		c.decide("biffle lists fitted to a proof", fmt.Sprint(i, stmt), ok, false, "a biffle proof verifies for lists fitted to it",
			"the outputs move something from one plaintext to the other")
		return
	}
}

// shuffleOrders looks at which orders come out.
func (c *Check) shuffleOrders() {
	for _, k := range []int{2, 3, 4} {
		perms := map[string]int{}
		fact := []int{0, 1, 2, 6, 24}[k]
		n := fact * c.Scale(70, 700)
		pos := make([]int, k*k)
		var r = NewRng(c.Seed, "orders", k)
		ms := r.qs(k)
		eta := r.q()
		var X, Y []abstract.Point
		xs := r.qs(k)
		for j := range ms {
			X = append(X, pt(gexp(grpG, xs[j])))
			Y = append(Y, pt(gexp(grpG, qa(ms[j], qm(eta, xs[j])))))
		}
		h := pt(gexp(grpG, eta))
		yv := points(Y)
		rands := []cipher.Stream{suite.Cipher(abstract.RandomKey), random.Stream}
		for t := 0; t < n; t++ {
			rand := rands[t%2]
			if t%4 == 0 {
				rand = suite.Cipher(abstract.RandomKey) // as the servers do
			}
			var key string
			if pan, what := try(func() {
				_, Yb, _, _, ty := shuffle.Shuffle(suite, nil, h, X, Y, rand)
				for p := range Yb {
					m := gmul(pv(Yb[p]), ginv(pv(ty[p])))
					for q := range yv {
						if m.Cmp(yv[q]) == 0 {
							key += fmt.Sprint(q)
							pos[p*k+q]++
						}
					}
				}
			}); pan {
				c.Violate("an honest shuffle fails", what)
				return
			}
			perms[key]++
		}
		counts := make([]int, 0, fact)
		for _, v := range perms {
			counts = append(counts, v)
		}
		for len(counts) < fact {
			counts = append(counts, 0)
		}
		x, ok := chiOK(counts)
		c.decide("orders", fmt.Sprint(k), ok && len(perms) == fact, true, "the orders of a shuffle are not equally likely",
			fmt.Sprintf("%d shuffles of %d: %v, chi2 %.1f", n, k, perms, x))
	}
	bits := map[bool]int{}
	rand := suite.Cipher(abstract.RandomKey)
	n := c.Scale(200, 2000)
	one1 := [2]abstract.Point{pt(grpG), pt(gexp(grpG, big.NewInt(5)))}
	h := pt(grpG) // blinding is the same in both halves
	two := [2]abstract.Point{pt(one), pt(gexp(grpG, big.NewInt(9)))}
	for t := 0; t < n; t++ {
		if t%2 == 0 {
			rand = suite.Cipher(abstract.RandomKey)
		}
		try(func() {
			Xb, Yb, _ := shuffle.Biffle(suite, nil, h, one1, two, rand)
			bits[gmul(pv(Yb[0]), ginv(pv(Xb[0]))).Cmp(ginv(grpG)) == 0]++
		})
	}
	x, ok := chiOK([]int{bits[true], bits[false]})
	c.decide("biffle orders", "", ok, true, "the orders of a biffle are not equally likely", fmt.Sprintf("%v, chi2 %.1f", bits, x))
}
