package main

// Path facts: conjunctions of branch conditions in normal form, with a small
// syntactic entailment check (bounds, substitution of solved equalities and
// sums of at most three recorded inequalities).  Undecided is always an
// allowed answer.

import "math/big"

type Facts struct {
	ge, ne []*Poly
	ge1    []*Poly // single-atom inequalities, also recorded in bounds
	eq     []*Poly
	bt     []bfact
	sub    []subst
	bounds map[*Term][2]*big.Int
	bad    bool
	parent *Facts
	depth  int
}

type bfact struct {
	t *Term
	v bool
}

type subst struct {
	a *Term
	p *Poly
}

func newFacts() *Facts { return &Facts{bounds: map[*Term][2]*big.Int{}} }

func (f *Facts) clone() *Facts {
	g := *f
	g.parent = f
	g.depth = f.depth + 1
	g.ge = f.ge[:len(f.ge):len(f.ge)]
	g.ge1 = f.ge1[:len(f.ge1):len(f.ge1)]
	g.ne = f.ne[:len(f.ne):len(f.ne)]
	g.eq = f.eq[:len(f.eq):len(f.eq)]
	g.bt = f.bt[:len(f.bt):len(f.bt)]
	g.sub = f.sub[:len(f.sub):len(f.sub)]
	g.bounds = make(map[*Term][2]*big.Int, len(f.bounds)+1)
	for k, v := range f.bounds {
		g.bounds[k] = v
	}
	return &g
}

func (f *Facts) bnd(a *Term) (lo, hi *big.Int) {
	lo, hi = a.atomRange()
	if b, ok := f.bounds[a]; ok {
		if b[0] != nil && (lo == nil || b[0].Cmp(lo) > 0) {
			lo = b[0]
		}
		if b[1] != nil && (hi == nil || b[1].Cmp(hi) < 0) {
			hi = b[1]
		}
	}
	return
}

func (f *Facts) rng(p *Poly) (lo, hi *big.Int) { return p.rng(f.bnd) }

// substitutes solved atoms
func (f *Facts) norm(p *Poly) *Poly {
	if len(f.sub) == 0 {
		return p
	}
	for i := 0; i < 8; i++ {
		q := p
		for _, s := range f.sub {
			q = substPoly(q, s.a, s.p)
		}
		if q == p {
			return p
		}
		p = q
	}
	return p
}

func substPoly(p *Poly, a *Term, v *Poly) *Poly {
	hit := false
	for _, m := range p.ms {
		for _, x := range m.as {
			if x == a {
				hit = true
			}
		}
		if m.pow != nil && substPoly(m.pow, a, v) != m.pow {
			hit = true
		}
	}
	if !hit {
		return p
	}
	r := pConst(p.c)
	for _, m := range p.ms {
		q := pConst(m.c)
		for _, x := range m.as {
			if x == a {
				q = pMul(q, v)
			} else {
				q = pMul(q, mkPoly(bigZero, []mon{{c: bigOne, as: []*Term{x}}}))
			}
		}
		if m.pow != nil {
			q = pMul(q, pPow2(substPoly(m.pow, a, v)))
		}
		r = pAdd(r, q)
	}
	return r
}

// Adds t==v.  The result may be marked bad (infeasible).
func (f *Facts) assume(t *Term, v bool) *Facts {
	switch f.decide(t) {
	case 1:
		if v {
			return f
		}
		g := f.clone()
		g.bad = true
		return g
	case -1:
		if !v {
			return f
		}
		g := f.clone()
		g.bad = true
		return g
	}
	g := f.clone()
	g.add(t, v)
	return g
}

func (g *Facts) add(t *Term, v bool) {
	if !v {
		t = bNot(t)
	}
	switch t.Op {
	case "true":
	case "false":
		g.bad = true
	case "ge0":
		g.addGE(t.Args[0].P)
	case "eq0":
		g.addEQ(t.Args[0].P)
	case "ne0":
		p := g.norm(t.Args[0].P)
		g.ne = append(g.ne, p)
		lo, hi := g.rng(p)
		if lo != nil && lo.Sign() == 0 {
			g.addGE(pSub(p, pOne))
		} else if hi != nil && hi.Sign() == 0 {
			g.addGE(pSub(pNeg(p), pOne))
		}
	case "and":
		g.add(t.Args[0], true)
		g.add(t.Args[1], true)
	case "not":
		g.bt = append(g.bt, bfact{t.Args[0], false})
	default:
		g.bt = append(g.bt, bfact{t, true})
	}
}

func (g *Facts) addGE(p *Poly) {
	p = g.norm(p)
	if len(p.ms) == 1 && len(p.ms[0].as) == 1 && p.ms[0].pow == nil {
		g.ge1 = append(g.ge1, p)
	} else {
		g.ge = append(g.ge, p)
	}
	if len(p.ms) == 1 && len(p.ms[0].as) == 1 && p.ms[0].pow == nil {
		a, c := p.ms[0].as[0], p.ms[0].c
		b := g.bounds[a]
		if c.Sign() > 0 { // c*a + k >= 0  => a >= ceil(-k/c)
			l := ceilDiv(new(big.Int).Neg(p.c), c)
			if b[0] == nil || l.Cmp(b[0]) > 0 {
				b[0] = l
			}
		} else { // a <= floor(k/-c)
			h := floorDiv(p.c, new(big.Int).Neg(c))
			if b[1] == nil || h.Cmp(b[1]) < 0 {
				b[1] = h
			}
		}
		g.bounds[a] = b
		lo, hi := g.bnd(a)
		if lo != nil && hi != nil {
			switch lo.Cmp(hi) {
			case 1:
				g.bad = true
			case 0:
				g.solve(a, pConst(lo))
			}
		}
	}
	if g.decideGE(pNeg(p)) == 1 && !p.isConst() {
		g.addEQ(p)
	}
}

func ceilDiv(a, b *big.Int) *big.Int {
	q, r := new(big.Int).DivMod(a, b, new(big.Int))
	if r.Sign() != 0 {
		q.Add(q, bigOne)
	}
	return q
}
func floorDiv(a, b *big.Int) *big.Int {
	q, _ := new(big.Int).DivMod(a, b, new(big.Int))
	return q
}

func (g *Facts) solve(a *Term, p *Poly) {
	for _, s := range g.sub {
		if s.a == a {
			return
		}
	}
	g.sub = append(g.sub, subst{a, p})
}

func (g *Facts) addEQ(p *Poly) {
	p = g.norm(p)
	if p.isConst() {
		if p.c.Sign() != 0 {
			g.bad = true
		}
		return
	}
	g.eq = append(g.eq, p)
	// solve for the newest atom occurring linearly with coefficient ±1
	var best *Term
	var bestM mon
	for _, m := range p.ms {
		if len(m.as) != 1 || m.pow != nil || m.c.CmpAbs(bigOne) != 0 {
			continue
		}
		a := m.as[0]
		n := 0
		for _, m2 := range p.ms {
			for _, x := range m2.as {
				if x == a {
					n++
				}
			}
			if m2.pow != nil && occurs(m2.pow, a) {
				n++
			}
		}
		if n == 1 && (best == nil || a.id > best.id) {
			best, bestM = a, m
		}
	}
	if best != nil {
		rest := pSub(p, mkPoly(bigZero, []mon{bestM}))
		if bestM.c.Sign() > 0 {
			rest = pNeg(rest)
		}
		g.solve(best, rest)
		if b, ok := g.bounds[best]; ok {
			if b[0] != nil {
				g.ge = append(g.ge, pSub(rest, pConst(b[0])))
			}
			if b[1] != nil {
				g.ge = append(g.ge, pSub(pConst(b[1]), rest))
			}
		}
	}
}

func occurs(p *Poly, a *Term) bool {
	for _, m := range p.ms {
		for _, x := range m.as {
			if x == a {
				return true
			}
		}
		if m.pow != nil && occurs(m.pow, a) {
			return true
		}
	}
	return false
}

// 1 true, -1 false, 0 unknown
func (f *Facts) decide(t *Term) int {
	switch t.Op {
	case "true":
		return 1
	case "false":
		return -1
	case "ge0":
		p := f.norm(t.Args[0].P)
		if r := f.decideGE(p); r != 0 {
			return r
		}
		return 0
	case "eq0":
		return f.decideEQ(t.Args[0].P)
	case "ne0":
		return -f.decideEQ(t.Args[0].P)
	case "not":
		return -f.decide(t.Args[0])
	case "and":
		a, b := f.decide(t.Args[0]), f.decide(t.Args[1])
		if a == -1 || b == -1 {
			return -1
		}
		if a == 1 && b == 1 {
			return 1
		}
	case "bite":
		switch f.decide(t.Args[0]) {
		case 1:
			return f.decide(t.Args[1])
		case -1:
			return f.decide(t.Args[2])
		}
		a, b := f.decide(t.Args[1]), f.decide(t.Args[2])
		if a == b {
			return a
		}
	}
	for _, b := range f.bt {
		if b.t == t {
			if b.v {
				return 1
			}
			return -1
		}
		if b.t.Op == "not" && b.t.Args[0] == t {
			if b.v {
				return -1
			}
			return 1
		}
	}
	return 0
}

func (f *Facts) nonneg(p *Poly) bool {
	lo, _ := f.rng(p)
	return lo != nil && lo.Sign() >= 0
}

func (f *Facts) provGE(p *Poly) bool {
	if f.nonneg(p) {
		return true
	}
	n := len(f.ge)
	qs := make([]*Poly, 0, n)
	for _, g := range f.ge {
		q := f.norm(g)
		d := pSub(p, q)
		if f.nonneg(d) {
			return true
		}
		qs = append(qs, q)
	}
	if n > 60 {
		qs = qs[n-60:]
	}
	for i, a := range qs {
		if !sharesMon(p, a) {
			continue
		}
		pa := pSub(p, a)
		for j := 0; j < len(qs); j++ {
			if j == i && false {
				continue
			}
			if sharesMon(pa, qs[j]) && f.nonneg(pSub(pa, qs[j])) {
				return true
			}
		}
	}
	if len(qs) <= 24 {
		for i, a := range qs {
			if !sharesMon(p, a) {
				continue
			}
			pa := pSub(p, a)
			for j := 0; j < len(qs); j++ {
				if !sharesMon(pa, qs[j]) {
					continue
				}
				pb := pSub(pa, qs[j])
				for k := j; k < len(qs); k++ {
					if sharesMon(pb, qs[k]) && f.nonneg(pSub(pb, qs[k])) {
						return true
					}
				}
			}
			_ = i
		}
	}
	return false
}

// some non-constant monomial occurs in both with a coefficient of equal sign
func sharesMon(p, q *Poly) bool {
	for _, a := range p.ms {
		for _, b := range q.ms {
			if a.c.Sign() == b.c.Sign() && a.pow == b.pow && len(a.as) == len(b.as) {
				eq := true
				for i := range a.as {
					if a.as[i] != b.as[i] {
						eq = false
						break
					}
				}
				if eq {
					return true
				}
			}
		}
	}
	return false
}

func (f *Facts) decideGE(p *Poly) int {
	p = f.norm(p)
	lo, hi := f.rng(p)
	if lo != nil && lo.Sign() >= 0 {
		return 1
	}
	if hi != nil && hi.Sign() < 0 {
		return -1
	}
	if f.provGE(p) {
		return 1
	}
	if f.provGE(pSub(pNeg(p), pOne)) {
		return -1
	}
	if q := f.extBound(p); q != nil && f.provGE(q) {
		return 1
	}
	return 0
}

// A lower bound of p without upper bit fields of reduced values, using
// 2^lo*x[lo:W] <= x.
func (f *Facts) extBound(p *Poly) *Poly {
	var r *Poly
	for _, m := range p.ms {
		if m.c.Sign() >= 0 || len(m.as) != 1 || m.pow != nil || m.as[0].Op != "ext" {
			continue
		}
		e := m.as[0]
		x := e.Args[0]
		if x.Op != "wrap" || e.n1+e.n2 < int(x.W) || m.c.TrailingZeroBits() < uint(e.n1) {
			continue
		}
		v := f.norm(x.Args[0].P)
		if !f.nonneg(v) && !f.provGE(v) {
			continue
		}
		max := pSub(pConst(pow2(x.W)), pOne)
		if !f.nonneg(pSub(max, v)) && !f.provGE(pSub(max, v)) {
			continue
		}
		if r == nil {
			r = p
		}
		c := new(big.Int).Quo(m.c, pow2(uint(e.n1)))
		r = pAdd(pSub(r, mkPoly(bigZero, []mon{m})), pScale(v, c))
	}
	if r == nil {
		return nil
	}
	return f.norm(r)
}

func (f *Facts) decideEQ(p *Poly) int {
	p = f.norm(p)
	if p.isConst() {
		if p.c.Sign() == 0 {
			return 1
		}
		return -1
	}
	lo, hi := f.rng(p)
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return -1
	}
	np := pNeg(p)
	for _, q := range f.ne {
		q = f.norm(q)
		if q == p || q == np {
			return -1
		}
	}
	for _, q := range f.eq {
		q = f.norm(q)
		if q == p || q == np {
			return 1
		}
	}
	if f.provGE(pSub(p, pOne)) || f.provGE(pSub(np, pOne)) {
		return -1
	}
	if f.provGE(p) && f.provGE(np) {
		return 1
	}
	return 0
}
