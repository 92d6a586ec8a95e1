package main

// Decision procedure for conjunctions of polynomial equations / disequations over GF(p).
// Equations are eliminated one variable at a time (a variable that occurs linearly);
// when the coefficient is not constant a case split on it is made.  What is left after
// elimination is a set of disequations over free variables, satisfied by a concrete
// assignment that is checked, so a "sat" always comes with a verified model.

import (
	"math/big"
	"math/rand"
)

type thSub struct {
	v    uint32
	n, d *Poly // v = n/d
}
type thAlt struct {
	subs []thSub
	dis  []*Poly
	hard []*Poly
}
type Theory struct {
	f       *FCtx
	alts    []*thAlt
	unknown bool
	rnd     *rand.Rand
}

func newTheory(f *FCtx) *Theory {
	return &Theory{f: f, alts: []*thAlt{{}}, rnd: rand.New(rand.NewSource(1))}
}
func (a *thAlt) clone() *thAlt {
	return &thAlt{subs: a.subs[:len(a.subs):len(a.subs)], dis: a.dis[:len(a.dis):len(a.dis)], hard: a.hard[:len(a.hard):len(a.hard)]}
}
func (t *Theory) clone() *Theory {
	n := &Theory{f: t.f, unknown: t.unknown, rnd: t.rnd}
	for _, a := range t.alts {
		n.alts = append(n.alts, a.clone())
	}
	return n
}

// substOne substitutes v := n/d in p and clears denominators.
func (c *FCtx) substOne(p *Poly, v uint32, n, d *Poly) *Poly {
	hit := false
	for _, t := range p.t {
		for _, x := range c.monos[t.m].vars {
			if x == v {
				hit = true
			}
		}
	}
	if !hit {
		return p
	}
	parts := c.splitVar(p, v)
	deg := len(parts) - 1
	npow := []*Poly{polyConst(feOneM)}
	dpow := []*Poly{polyConst(feOneM)}
	for k := 1; k <= deg; k++ {
		npow = append(npow, c.polyMul(npow[k-1], n))
		if d != nil {
			dpow = append(dpow, c.polyMul(dpow[k-1], d))
		}
	}
	r := polyZero
	for k, q := range parts {
		if q == nil {
			continue
		}
		x := c.polyMul(q, npow[k])
		if d != nil {
			x = c.polyMul(x, dpow[deg-k])
		}
		r = polyAdd(r, x)
	}
	return r
}

// splitVar writes p as sum_k parts[k] * v^k.
func (c *FCtx) splitVar(p *Poly, v uint32) []*Poly {
	var accs []map[uint32]fe
	for _, t := range p.t {
		k := 0
		vs := c.monos[t.m].vars
		for _, x := range vs {
			if x == v {
				k++
			}
		}
		for len(accs) <= k {
			accs = append(accs, nil)
		}
		if accs[k] == nil {
			accs[k] = map[uint32]fe{}
		}
		m := t.m
		if k > 0 {
			rest := make([]uint32, 0, len(vs))
			for _, x := range vs {
				if x != v {
					rest = append(rest, x)
				}
			}
			m = c.internMono(rest)
		}
		accs[k][m] = feAdd(accs[k][m], t.c)
	}
	out := make([]*Poly, len(accs))
	for i, a := range accs {
		if a != nil {
			out[i] = polyFromMap(a)
		}
	}
	return out
}
func (t *Theory) reduce(a *thAlt, p *Poly) *Poly {
	for _, s := range a.subs {
		p = t.f.substOne(p, s.v, s.n, s.d)
	}
	return p
}

func (t *Theory) addDis(p *Poly) {
	var keep []*thAlt
	for _, a := range t.alts {
		q := t.reduce(a, p)
		if q.isZero() {
			continue
		}
		if _, ok := q.isConst(); !ok {
			a.dis = append(a.dis, q.monic())
		}
		keep = append(keep, a)
	}
	t.alts = keep
}
func (t *Theory) addEq(p *Poly) {
	var keep []*thAlt
	for _, a := range t.alts {
		keep = append(keep, t.altEq(a, p, 0)...)
	}
	t.alts = keep
	if len(t.alts) > 256 {
		t.unknown = true
		t.alts = t.alts[:256]
	}
}

// pickLinear looks for the best variable to eliminate in q.
func (t *Theory) pickLinear(a *thAlt, q *Poly) (v uint32, parts []*Poly, kind int) {
	deg := map[uint32]int{}
	constLin := map[uint32]bool{}
	for _, x := range q.t {
		vs := t.f.monos[x.m].vars
		for i := 0; i < len(vs); {
			j := i
			for j < len(vs) && vs[j] == vs[i] {
				j++
			}
			if deg[vs[i]] < j-i {
				deg[vs[i]] = j - i
			}
			i = j
		}
		if len(vs) == 1 {
			constLin[vs[0]] = true
		}
	}
	for _, x := range q.t {
		vs := t.f.monos[x.m].vars
		if len(vs) > 1 {
			for _, y := range vs {
				delete(constLin, y)
			}
		}
	}
	best := uint32(0)
	for y := range constLin {
		if deg[y] == 1 && y > best {
			best = y
		}
	}
	if best != 0 {
		return best, t.f.splitVar(q, best), 1
	}
	var cand uint32
	for y, d := range deg {
		if d == 1 && y > cand {
			cand = y
		}
	}
	// prefer a variable whose coefficient is known to be nonzero
	for y, d := range deg {
		if d != 1 {
			continue
		}
		ps := t.f.splitVar(q, y)
		co := ps[1].monic()
		for _, z := range a.dis {
			if polyEq(z, co) {
				return y, ps, 1
			}
		}
	}
	if cand != 0 {
		return cand, t.f.splitVar(q, cand), 2
	}
	return 0, nil, 0
}

func (t *Theory) applySub(a *thAlt, s thSub) bool {
	a.subs = append(a.subs, s)
	nd := make([]*Poly, 0, len(a.dis))
	for _, z := range a.dis {
		r := t.f.substOne(z, s.v, s.n, s.d)
		if r.isZero() {
			return false
		}
		if _, ok := r.isConst(); !ok {
			nd = append(nd, r.monic())
		}
	}
	a.dis = nd
	return true
}

func (t *Theory) altEq(a *thAlt, p *Poly, depth int) []*thAlt {
	q := t.reduce(a, p)
	if q.isZero() {
		return []*thAlt{a}
	}
	if _, ok := q.isConst(); ok {
		return nil
	}
	q = q.monic()
	for _, z := range a.dis {
		if polyEq(z, q) {
			return nil
		}
	}
	if depth > 6 {
		t.unknown = true
		return []*thAlt{a}
	}
	// single monomial: one of its variables is zero
	if len(q.t) == 1 {
		seen := map[uint32]bool{}
		var vs []uint32
		for _, v := range t.f.monos[q.t[0].m].vars {
			if !seen[v] {
				seen[v] = true
				vs = append(vs, v)
			}
		}
		var out []*thAlt
		for i, v := range vs {
			b := a
			if i < len(vs)-1 {
				b = a.clone()
			}
			if t.applySub(b, thSub{v: v, n: polyZero}) {
				out = append(out, t.rehard(b, depth)...)
			}
		}
		return out
	}
	v, parts, kind := t.pickLinear(a, q)
	if kind == 0 {
		// univariate: try to find the roots
		vars := map[uint32]bool{}
		t.f.polyVars(q, vars)
		if len(vars) == 1 {
			for v := range vars {
				roots, ok := t.f.roots(q, v, t.rnd)
				if ok {
					var out []*thAlt
					for _, r := range roots {
						b := a.clone()
						if t.applySub(b, thSub{v: v, n: polyConst(r)}) {
							out = append(out, t.rehard(b, depth)...)
						}
					}
					return out
				}
			}
		}
		a.hard = append(a.hard, q)
		return []*thAlt{a}
	}
	co := parts[1]
	rest := polyZero
	if parts[0] != nil {
		rest = parts[0]
	}
	neg := polyScale(rest, feNeg(feOneM))
	if k, ok := co.isConst(); ok {
		if !t.applySub(a, thSub{v: v, n: polyScale(neg, feInv(k))}) {
			return nil
		}
		return t.rehard(a, depth)
	}
	var out []*thAlt
	b := a.clone()
	b.dis = append(b.dis, co.monic())
	if t.applySub(b, thSub{v: v, n: neg, d: co}) {
		out = append(out, t.rehard(b, depth)...)
	}
	if kind == 2 {
		for _, x := range t.altEq(a, co, depth+1) {
			out = append(out, t.altEq(x, rest, depth+1)...)
		}
	}
	return out
}

// rehard re-examines equations that could not be eliminated before.
func (t *Theory) rehard(a *thAlt, depth int) []*thAlt {
	if len(a.hard) == 0 {
		return []*thAlt{a}
	}
	hs := a.hard
	a.hard = nil
	alts := []*thAlt{a}
	for _, h := range hs {
		var nx []*thAlt
		for _, x := range alts {
			nx = append(nx, t.altEq(x, h, depth+1)...)
		}
		alts = nx
	}
	return alts
}

type fAssign map[uint32]fe

// sat returns "sat" with a checked assignment, "unsat" or "unknown".
func (t *Theory) sat() (string, fAssign) {
	if len(t.alts) == 0 {
		if t.unknown {
			return "unknown", nil
		}
		return "unsat", nil
	}
	anyHard := t.unknown
	for _, a := range t.alts {
		if len(a.hard) > 0 {
			anyHard = true
			continue
		}
		for try := 0; try < 8; try++ {
			asg := fAssign{}
			solved := map[uint32]bool{}
			for _, s := range a.subs {
				solved[s.v] = true
			}
			for v := uint32(1); v < uint32(len(t.f.vars)); v++ {
				if solved[v] {
					continue
				}
				if try < 3 {
					asg[v] = feFromInt(2 + t.rnd.Int63n(1<<uint(10+10*try)))
				} else {
					asg[v] = feFromBig(new(big.Int).Rand(t.rnd, pBig))
				}
			}
			ok := true
			for i := len(a.subs) - 1; i >= 0; i-- {
				s := a.subs[i]
				x := t.f.polyEval(s.n, asg)
				if s.d != nil {
					d := t.f.polyEval(s.d, asg)
					if d == (fe{}) {
						ok = false
						break
					}
					x = feMul(x, feInv(d))
				}
				asg[s.v] = x
			}
			if !ok {
				continue
			}
			for _, z := range a.dis {
				if t.f.polyEval(z, asg) == (fe{}) {
					ok = false
					break
				}
			}
			if ok {
				return "sat", asg
			}
		}
		anyHard = true
	}
	if anyHard {
		return "unknown", nil
	}
	return "unsat", nil
}

// roots of a univariate polynomial over GF(p) (degree up to 64).
func (c *FCtx) roots(p *Poly, v uint32, rnd *rand.Rand) ([]fe, bool) {
	deg := 0
	for _, t := range p.t {
		if n := len(c.monos[t.m].vars); n > deg {
			deg = n
		}
	}
	if deg > 64 {
		return nil, false
	}
	u := make([]fe, deg+1)
	for _, t := range p.t {
		u[len(c.monos[t.m].vars)] = t.c
	}
	// x^p - x mod u
	xp := uPowX(pBig, u, []fe{{}, feOneM})
	g := uGcd(uSub(xp, []fe{{}, feOneM}), u)
	var out []fe
	var split func(g []fe)
	split = func(g []fe) {
		g = uTrim(g)
		if len(g) <= 1 {
			return
		}
		if len(g) == 2 {
			out = append(out, feNeg(feMul(g[0], feInv(g[1]))))
			return
		}
		half := new(big.Int).Rsh(new(big.Int).Sub(pBig, big.NewInt(1)), 1)
		for {
			a := feFromBig(new(big.Int).Rand(rnd, pBig))
			h := uPowX(half, g, []fe{a, feOneM})
			d := uGcd(uSub(h, []fe{feOneM}), g)
			if len(d) > 1 && len(d) < len(g) {
				split(d)
				q, _ := uDivMod(g, d)
				split(q)
				return
			}
		}
	}
	split(g)
	return out, true
}
func uTrim(a []fe) []fe {
	for len(a) > 0 && a[len(a)-1] == (fe{}) {
		a = a[:len(a)-1]
	}
	return a
}
func uSub(a, b []fe) []fe {
	n := max(len(a), len(b))
	r := make([]fe, n)
	copy(r, a)
	for i, x := range b {
		r[i] = feSub(r[i], x)
	}
	return uTrim(r)
}
func uMul(a, b []fe) []fe {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	r := make([]fe, len(a)+len(b)-1)
	for i, x := range a {
		for j, y := range b {
			r[i+j] = feAdd(r[i+j], feMul(x, y))
		}
	}
	return uTrim(r)
}
func uDivMod(a, b []fe) (q, r []fe) {
	a = uTrim(append([]fe(nil), a...))
	b = uTrim(b)
	inv := feInv(b[len(b)-1])
	if len(a) < len(b) {
		return nil, a
	}
	q = make([]fe, len(a)-len(b)+1)
	for len(a) >= len(b) {
		k := feMul(a[len(a)-1], inv)
		sh := len(a) - len(b)
		q[sh] = k
		for i, x := range b {
			a[sh+i] = feSub(a[sh+i], feMul(k, x))
		}
		a = uTrim(a)
	}
	return q, a
}
func uGcd(a, b []fe) []fe {
	a, b = uTrim(a), uTrim(b)
	for len(b) > 0 {
		_, r := uDivMod(a, b)
		a, b = b, r
	}
	return a
}
func uPowX(e *big.Int, m []fe, base []fe) []fe {
	r := []fe{feOneM}
	_, base = uDivMod(base, m)
	for i := e.BitLen() - 1; i >= 0; i-- {
		_, r = uDivMod(uMul(r, r), m)
		if e.Bit(i) == 1 {
			_, r = uDivMod(uMul(r, base), m)
		}
	}
	return r
}
