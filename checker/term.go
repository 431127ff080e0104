package main

// Terms: the value domain of the abstract interpreter.
//
// Integers are represented by polynomials over "atoms" in a normal form (a
// hash-consed value numbering), which makes both affine arithmetic and
// bit-field manipulation (shifts, masks, or-ing of disjoint fields, byte
// encodings) canonical: x = 2^8*x[8..] + x[..8] is the very same Poly.
// No solver is involved: equality is identity of normal forms.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type intKey struct {
	p  *Poly
	w  uint
	sg bool
}

var internInt = map[intKey]*Term{}

type Term struct {
	id     int
	Op     string
	Args   []*Term
	Str    string
	P      *Poly // Op == "int"
	W      uint  // bit width for integers, 1 for bools, 0 otherwise
	Sg     bool  // signed?
	ranged bool  // a symbol that symRange made
	Lo     *big.Int
	Hi     *big.Int
	n1     int // extra integer operands (ext: lo, w; ...)
	n2     int
	Aux    interface{}
}

type mon struct {
	c   *big.Int
	as  []*Term // sorted by id
	pow *Poly   // factor 2^pow, or nil
}

type Poly struct {
	id int
	c  *big.Int
	ms []mon
}

var (
	internTerm = map[string]*Term{}
	internPoly = map[string]*Poly{}
	nextTermID = 1
	nextPolyID = 1
	bigZero    = big.NewInt(0)
	bigOne     = big.NewInt(1)
	pZero      *Poly
	pOne       *Poly
	constCache [1025]*Poly
)

func init() {
	pZero = pConstI(0)
	pOne = pConstI(1)
}

func pow2(k uint) *big.Int { return new(big.Int).Lsh(bigOne, k) }

// are the constant and all coefficients multiples of n?
func (p *Poly) coeffsDivisible(n int64) bool {
	d := big.NewInt(n)
	if new(big.Int).Mod(p.c, d).Sign() != 0 {
		return false
	}
	for _, m := range p.ms {
		if new(big.Int).Mod(m.c, d).Sign() != 0 {
			return false
		}
	}
	return true
}

func mkPoly(c *big.Int, ms []mon) *Poly {
	var b strings.Builder
	b.WriteString(c.Text(62))
	for _, m := range ms {
		b.WriteByte('+')
		b.WriteString(m.c.Text(62))
		for _, a := range m.as {
			fmt.Fprintf(&b, "*%d", a.id)
		}
		if m.pow != nil {
			fmt.Fprintf(&b, "^%d", m.pow.id)
		}
	}
	k := b.String()
	if p, ok := internPoly[k]; ok {
		return p
	}
	p := &Poly{id: nextPolyID, c: c, ms: ms}
	nextPolyID++
	internPoly[k] = p
	return p
}

func pConst(c *big.Int) *Poly { return mkPoly(c, nil) }
func pConstI(c int64) *Poly {
	if c >= 0 && c <= 1024 {
		if constCache[c] == nil {
			constCache[c] = mkPoly(big.NewInt(c), nil)
		}
		return constCache[c]
	}
	return mkPoly(big.NewInt(c), nil)
}
func (p *Poly) isConst() bool { return len(p.ms) == 0 }
func (p *Poly) constI() (int64, bool) {
	if len(p.ms) != 0 || !p.c.IsInt64() {
		return 0, false
	}
	return p.c.Int64(), true
}

func pAtom(a *Term) *Poly {
	if a.Op == "int" {
		panic("pAtom of int")
	}
	if a.Op == "wrap" && a.Args[0].P != nil {
		// a wrapped polynomial which fits is that polynomial
		lo, hi := a.Args[0].P.rng(nil)
		if lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(pow2(a.W)) < 0 {
			return a.Args[0].P
		}
	}
	return mkPoly(bigZero, []mon{{c: bigOne, as: []*Term{a}}})
}

// 2^e
func pPow2(e *Poly) *Poly {
	if k, ok := e.constI(); ok && k >= 0 && k < 4096 {
		return pConst(pow2(uint(k)))
	}
	c := bigOne
	if e.c.Sign() != 0 && e.c.IsInt64() && e.c.Int64() > 0 && e.c.Int64() < 4096 {
		c = pow2(uint(e.c.Int64()))
		e = mkPoly(bigZero, e.ms)
	}
	return mkPoly(bigZero, []mon{{c: c, pow: e}})
}

func monKey(m mon) string {
	var b strings.Builder
	for _, a := range m.as {
		fmt.Fprintf(&b, "*%d", a.id)
	}
	if m.pow != nil {
		fmt.Fprintf(&b, "^%d", m.pow.id)
	}
	return b.String()
}

func normMons(c *big.Int, ms []mon) *Poly {
	if len(ms) > 1 {
		acc := map[string]*mon{}
		var keys []string
		for i := range ms {
			k := monKey(ms[i])
			if e, ok := acc[k]; ok {
				e.c = new(big.Int).Add(e.c, ms[i].c)
			} else {
				m := ms[i]
				acc[k] = &m
				keys = append(keys, k)
			}
		}
		ms = ms[:0:0]
		for _, k := range keys {
			if acc[k].c.Sign() != 0 {
				ms = append(ms, *acc[k])
			}
		}
	} else if len(ms) == 1 && ms[0].c.Sign() == 0 {
		ms = nil
	}
	if len(ms) > 1 {
		var k *big.Int
		n := len(ms)
		if ms, k = mergeExt(ms); k.Sign() != 0 || len(ms) != n {
			return normMons(new(big.Int).Add(c, k), ms)
		}
		sort.Slice(ms, func(i, j int) bool { return monLess(ms[i], ms[j]) })
	}
	return mkPoly(c, ms)
}

func monLess(a, b mon) bool {
	for i := 0; i < len(a.as) && i < len(b.as); i++ {
		if a.as[i].id != b.as[i].id {
			return a.as[i].id < b.as[i].id
		}
	}
	if len(a.as) != len(b.as) {
		return len(a.as) < len(b.as)
	}
	ap, bp := 0, 0
	if a.pow != nil {
		ap = a.pow.id
	}
	if b.pow != nil {
		bp = b.pow.id
	}
	return ap < bp
}

// base, lo, width of a single-atom monomial seen as a bit field
func extOf(a *Term) (*Term, int, int, bool) {
	if a.Op == "ext" {
		return a.Args[0], a.n1, a.n2, true
	}
	if a.W > 0 && !a.Sg {
		return a, 0, int(a.W), true
	}
	return nil, 0, 0, false
}

func mergeExt(ms []mon) ([]mon, *big.Int) {
	hasExt := false
	for _, m := range ms {
		if len(m.as) == 1 && m.pow == nil && m.as[0].Op == "ext" {
			hasExt = true
		}
	}
	if !hasExt {
		return ms, bigZero
	}
	type seg struct {
		lo, w int
		c     *big.Int
		i     int
	}
	groups := map[*Term][]seg{}
	var order []*Term
	for i, m := range ms {
		if len(m.as) == 1 && m.pow == nil {
			if b, lo, w, ok := extOf(m.as[0]); ok {
				if _, ok := groups[b]; !ok {
					order = append(order, b)
				}
				groups[b] = append(groups[b], seg{lo, w, m.c, i})
			}
		}
	}
	dead := map[int]bool{}
	var add []mon
	con := new(big.Int)
	for _, b := range order {
		g := groups[b]
		if len(g) < 2 {
			continue
		}
		sort.Slice(g, func(i, j int) bool { return g[i].lo < g[j].lo })
		changed := false
		for i := 0; i < len(g); i++ {
			for j := i + 1; j < len(g); j++ {
				if g[j].lo == g[i].lo+g[i].w &&
					g[j].c.Cmp(new(big.Int).Lsh(g[i].c, uint(g[i].w))) == 0 {
					dead[g[i].i] = true
					dead[g[j].i] = true
					g[i].w += g[j].w
					g = append(g[:j:j], g[j+1:]...)
					g[i].i = -1
					changed = true
					j = i
				}
			}
		}
		if changed {
			for _, s := range g {
				if s.i == -1 {
					e := mkExt(b, s.lo, s.w)
					con.Add(con, new(big.Int).Mul(e.c, s.c))
					for _, m := range e.ms {
						add = append(add, mon{c: new(big.Int).Mul(m.c, s.c), as: m.as, pow: m.pow})
					}
				}
			}
		}
	}
	if len(dead) == 0 {
		return ms, bigZero
	}
	var out []mon
	for i, m := range ms {
		if !dead[i] {
			out = append(out, m)
		}
	}
	return append(out, add...), con
}

func pAdd(a, b *Poly) *Poly {
	if len(a.ms) == 0 && a.c.Sign() == 0 {
		return b
	}
	if len(b.ms) == 0 && b.c.Sign() == 0 {
		return a
	}
	ms := make([]mon, 0, len(a.ms)+len(b.ms))
	ms = append(ms, a.ms...)
	ms = append(ms, b.ms...)
	return normMons(new(big.Int).Add(a.c, b.c), ms)
}

func pScale(a *Poly, k *big.Int) *Poly {
	if k.Sign() == 0 {
		return pZero
	}
	if k.Cmp(bigOne) == 0 {
		return a
	}
	ms := make([]mon, len(a.ms))
	for i, m := range a.ms {
		ms[i] = mon{c: new(big.Int).Mul(m.c, k), as: m.as, pow: m.pow}
	}
	return mkPoly(new(big.Int).Mul(a.c, k), ms)
}

func pNeg(a *Poly) *Poly    { return pScale(a, big.NewInt(-1)) }
func pSub(a, b *Poly) *Poly { return pAdd(a, pNeg(b)) }

func pMul(a, b *Poly) *Poly {
	if a.isConst() {
		return pScale(b, a.c)
	}
	if b.isConst() {
		return pScale(a, b.c)
	}
	var ms []mon
	c := new(big.Int).Mul(a.c, b.c)
	all := func(p *Poly) []mon {
		r := append([]mon{}, p.ms...)
		if p.c.Sign() != 0 {
			r = append(r, mon{c: p.c})
		}
		return r
	}
	for _, x := range all(a) {
		for _, y := range all(b) {
			if len(x.as) == 0 && x.pow == nil && len(y.as) == 0 && y.pow == nil {
				continue // c
			}
			m := mon{c: new(big.Int).Mul(x.c, y.c)}
			m.as = append(append([]*Term{}, x.as...), y.as...)
			sort.Slice(m.as, func(i, j int) bool { return m.as[i].id < m.as[j].id })
			if x.pow != nil && y.pow != nil {
				e := pAdd(x.pow, y.pow)
				pp := pPow2(e)
				if pp.isConst() {
					m.c.Mul(m.c, pp.c)
				} else {
					m.c = new(big.Int).Mul(m.c, pp.ms[0].c)
					m.pow = pp.ms[0].pow
				}
			} else if x.pow != nil {
				m.pow = x.pow
			} else {
				m.pow = y.pow
			}
			if len(m.as) == 0 && m.pow == nil {
				c.Add(c, m.c)
				continue
			}
			ms = append(ms, m)
		}
	}
	return normMons(c, ms)
}

var keyBuf []byte

func termKey(op, str string, n1, n2 int, w uint, sg bool, args []*Term) []byte {
	b := keyBuf[:0]
	b = append(b, op...)
	b = append(b, '|')
	b = append(b, str...)
	b = append(b, '|')
	b = strconv.AppendInt(b, int64(n1), 36)
	b = append(b, '|')
	b = strconv.AppendInt(b, int64(n2), 36)
	b = append(b, '|')
	b = strconv.AppendInt(b, int64(w), 36)
	if sg {
		b = append(b, 's')
	}
	for _, a := range args {
		b = append(b, '|')
		if a == nil {
			b = append(b, 'n')
		} else if a.P != nil {
			b = append(b, 'p')
			b = strconv.AppendInt(b, int64(a.P.id), 36)
		} else {
			b = strconv.AppendInt(b, int64(a.id), 36)
		}
	}
	keyBuf = b
	return b
}

func mkTerm(op, str string, n1, n2 int, w uint, sg bool, args ...*Term) *Term {
	k := termKey(op, str, n1, n2, w, sg, args)
	if t, ok := internTerm[string(k)]; ok {
		return t
	}
	t := &Term{id: nextTermID, Op: op, Str: str, n1: n1, n2: n2, W: w, Sg: sg, Args: args}
	nextTermID++
	internTerm[string(k)] = t
	return t
}

// int term from polynomial
func mkInt(p *Poly, w uint, sg bool) *Term {
	if p.isConst() {
		p = pConst(wrapConst(p.c, w, sg))
	}
	k := intKey{p, w, sg}
	if t, ok := internInt[k]; ok {
		return t
	}
	t := &Term{id: nextTermID, Op: "int", P: p, W: w, Sg: sg}
	nextTermID++
	internInt[k] = t
	return t
}

func wrapConst(c *big.Int, w uint, sg bool) *big.Int {
	if w == 0 {
		return c
	}
	m := pow2(w)
	r := new(big.Int).Mod(c, m)
	if sg && r.Bit(int(w)-1) == 1 {
		r.Sub(r, m)
	}
	return r
}

func intC(v int64, w uint, sg bool) *Term { return mkInt(pConstI(v), w, sg) }
func intT(v int64) *Term                  { return intC(v, 64, true) }
func symInt(name string, w uint, sg bool) *Term {
	t := mkTerm("sym", name, 0, 0, w, sg)
	if t.ranged {
		panic(abortAll{"symbol " + name + " has a range"})
	}
	return mkInt(pAtom(t), w, sg)
}
func symRange(name string, w uint, sg bool, lo, hi int64) *Term {
	t := mkTerm("sym", name, 0, 0, w, sg)
	l := big.NewInt(lo)
	var h *big.Int
	if hi >= 0 {
		h = big.NewInt(hi)
	}
	if t.ranged && (t.Lo.Cmp(l) != 0 || (t.Hi == nil) != (h == nil) || h != nil && t.Hi.Cmp(h) != 0) {
		panic(abortAll{"symbol " + name + " has two ranges"})
	}
	t.ranged, t.Lo, t.Hi = true, l, h
	return mkInt(pAtom(t), w, sg)
}

var freshCtr = map[string]int{}

func freshName(n string) string {
	freshCtr[n]++
	return fmt.Sprintf("%s#%d", n, freshCtr[n])
}

// ---- bit fields

// Field [lo, lo+w) of atom a.
func mkExt(a *Term, lo, w int) *Poly {
	if a.Op == "int" {
		return pExt(a.P, lo, w)
	}
	if a.Op == "ext" {
		if lo >= a.n2 {
			return pZero
		}
		if lo+w > a.n2 {
			w = a.n2 - lo
		}
		return mkExt(a.Args[0], a.n1+lo, w)
	}
	if a.Op == "wrap" && lo == 0 {
		if l, h := a.Args[0].P.rng(nil); l != nil && l.Sign() >= 0 && h != nil && h.BitLen() <= w {
			return a.Args[0].P
		}
	}
	if a.W > 0 && !a.Sg {
		if lo >= int(a.W) {
			return pZero
		}
		if lo+w > int(a.W) {
			w = int(a.W) - lo
		}
		if lo == 0 && w == int(a.W) {
			return pAtom(a)
		}
	}
	switch a.Op {
	case "ite":
		return pIte(a.Args[0], pExt(a.Args[1].P, lo, w), pExt(a.Args[2].P, lo, w), uint(w))
	case "xor", "and", "or":
		if len(a.Args) == 2 {
			return pBit(a.Op, pExt(a.Args[0].P, lo, w), pExt(a.Args[1].P, lo, w), uint(w))
		}
	}
	return mkPoly(bigZero, []mon{{c: bigOne, as: []*Term{mkTerm("ext", "", lo, w, uint(w), false, a)}}})
}

type seg struct {
	lo, w int
	a     *Term    // base atom, nil if constant
	alo   int      // offset within atom
	c     *big.Int // constant value
}

// Splits p (considered modulo 2^W) in bit fields.  ok is false when p isn't
// a concatenation of bit fields.
func (p *Poly) segs(W int) ([]seg, bool) {
	if p.c.Sign() < 0 {
		if p.isConst() {
			c := wrapConst(p.c, uint(W), false)
			return []seg{{0, W, nil, 0, c}}, true
		}
		return nil, false
	}
	var ss []seg
	for _, m := range p.ms {
		if len(m.as) != 1 || m.pow != nil || m.c.Sign() <= 0 {
			return nil, false
		}
		k := m.c.TrailingZeroBits()
		if m.c.Cmp(pow2(k)) != 0 {
			return nil, false
		}
		b, alo, w, ok := extOf(m.as[0])
		if !ok {
			return nil, false
		}
		if int(k) >= W {
			continue
		}
		if int(k)+w > W {
			w = W - int(k)
		}
		ss = append(ss, seg{int(k), w, b, alo, nil})
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].lo < ss[j].lo })
	var out []seg
	pos := 0
	c := p.c
	if c.BitLen() > W {
		c = new(big.Int).Mod(c, pow2(uint(W)))
	}
	cst := func(lo, hi int) {
		if hi > lo {
			v := new(big.Int).Rsh(c, uint(lo))
			v.Mod(v, pow2(uint(hi-lo)))
			out = append(out, seg{lo, hi - lo, nil, 0, v})
		}
	}
	for _, s := range ss {
		if s.lo < pos {
			return nil, false
		}
		// constant must be zero on the field
		v := new(big.Int).Rsh(c, uint(s.lo))
		v.Mod(v, pow2(uint(s.w)))
		if v.Sign() != 0 {
			return nil, false
		}
		cst(pos, s.lo)
		out = append(out, s)
		pos = s.lo + s.w
	}
	cst(pos, W)
	return out, true
}

func fromSegs(ss []seg) *Poly {
	c := new(big.Int)
	var ms []mon
	for _, s := range ss {
		if s.a == nil {
			c.Add(c, new(big.Int).Lsh(s.c, uint(s.lo)))
			continue
		}
		e := mkExt(s.a, s.alo, s.w)
		e = pScale(e, pow2(uint(s.lo)))
		c.Add(c, e.c)
		ms = append(ms, e.ms...)
	}
	return normMons(c, ms)
}

func wrapAtom(p *Poly, W int) *Term {
	return mkTerm("wrap", "", 0, 0, uint(W), false, mkInt(p, 0, false))
}

// p mod 2^W as bit fields; always succeeds
func (p *Poly) forceSegs(W int) []seg {
	if ss, ok := p.segs(W); ok {
		return ss
	}
	if len(p.ms) == 1 && p.c.Sign() == 0 && p.ms[0].pow == nil && len(p.ms[0].as) == 1 &&
		p.ms[0].c.Cmp(bigOne) == 0 {
		a := p.ms[0].as[0]
		if a.W >= uint(W) {
			return []seg{{0, W, a, 0, nil}}
		}
	}
	if l, h := p.rng(nil); l != nil && l.Sign() >= 0 && h != nil && h.BitLen() <= 64 {
		k := h.BitLen()
		if k == 0 {
			return []seg{{0, W, nil, 0, bigZero}}
		}
		if k >= W {
			return []seg{{0, W, wrapAtom(p, k), 0, nil}}
		}
		return []seg{{0, k, wrapAtom(p, k), 0, nil}, {k, W - k, nil, 0, bigZero}}
	}
	V := W
	if V < 64 {
		V = 64
	}
	return []seg{{0, W, wrapAtom(p, V), 0, nil}}
}

// bits [lo, lo+w) of p
func pExt(p *Poly, lo, w int) *Poly {
	if w <= 0 {
		return pZero
	}
	if p.isConst() {
		v := p.c
		if v.Sign() < 0 {
			v = new(big.Int).Mod(v, pow2(uint(lo+w)))
		}
		v = new(big.Int).Rsh(v, uint(lo))
		v.Mod(v, pow2(uint(w)))
		return pConst(v)
	}
	if a, ok := p.single(); ok && a.Op == "ite" {
		return mkExt(a, lo, w)
	}
	W := lo + w
	if W < 64 {
		W = 64
	}
	if lo == 0 {
		l, h := p.rng(nil)
		if l != nil && l.Sign() >= 0 && h != nil && h.Cmp(pow2(uint(w))) < 0 {
			return p
		}
		// multiples of 2^w
		mult := true
		for _, m := range p.ms {
			if m.pow != nil || m.c.TrailingZeroBits() < uint(w) {
				mult = false
			}
		}
		if mult {
			return pConst(wrapConst(p.c, uint(w), false))
		}
	}
	ss := p.forceSegs(W)
	var out []seg
	for _, s := range ss {
		a, b := s.lo, s.lo+s.w
		if a < lo {
			a = lo
		}
		if b > lo+w {
			b = lo + w
		}
		if b <= a {
			continue
		}
		n := seg{lo: a - lo, w: b - a, a: s.a, alo: s.alo + a - s.lo}
		if s.a == nil {
			v := new(big.Int).Rsh(s.c, uint(a-s.lo))
			n.c = v.Mod(v, pow2(uint(b-a)))
		}
		out = append(out, n)
	}
	return fromSegs(out)
}

func (p *Poly) single() (*Term, bool) {
	if len(p.ms) == 1 && p.c.Sign() == 0 && p.ms[0].pow == nil &&
		len(p.ms[0].as) == 1 && p.ms[0].c.Cmp(bigOne) == 0 {
		return p.ms[0].as[0], true
	}
	return nil, false
}

// bitwise and/or/xor on W bits
func pBit(op string, a, b *Poly, W uint) *Poly {
	if a == b {
		if op == "xor" {
			return pZero
		}
		return a
	}
	sa, sb := a.forceSegs(int(W)), b.forceSegs(int(W))
	cuts := map[int]bool{0: true, int(W): true}
	addCuts := func(ss []seg) {
		for _, s := range ss {
			cuts[s.lo] = true
			cuts[s.lo+s.w] = true
			if s.a == nil {
				// runs of equal bits
				for i := 1; i < s.w; i++ {
					if s.c.Bit(i) != s.c.Bit(i-1) {
						cuts[s.lo+i] = true
					}
				}
			}
		}
	}
	addCuts(sa)
	addCuts(sb)
	if op == "xor" {
		// a normal form needs fixed pieces
		for c := 8; c < int(W); c += 8 {
			cuts[c] = true
		}
	}
	var cs []int
	for c := range cuts {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	get := func(ss []seg, lo, w int) seg {
		for _, s := range ss {
			if lo >= s.lo && lo+w <= s.lo+s.w {
				n := seg{lo: lo, w: w, a: s.a, alo: s.alo + lo - s.lo}
				if s.a == nil {
					v := new(big.Int).Rsh(s.c, uint(lo-s.lo))
					n.c = v.Mod(v, pow2(uint(w)))
				}
				return n
			}
		}
		panic("get")
	}
	var res []*Poly
	var los []int
	for i := 0; i+1 < len(cs); i++ {
		lo, w := cs[i], cs[i+1]-cs[i]
		x, y := get(sa, lo, w), get(sb, lo, w)
		if x.a == nil {
			x, y = y, x
		}
		// y might be constant
		var r *Poly
		px := func(s seg) *Poly {
			if s.a == nil {
				return pConst(s.c)
			}
			return mkExt(s.a, s.alo, s.w)
		}
		if y.a == nil {
			zeros := y.c.Sign() == 0
			if x.a == nil {
				v := new(big.Int)
				switch op {
				case "and":
					v.And(x.c, y.c)
				case "or":
					v.Or(x.c, y.c)
				case "xor":
					v.Xor(x.c, y.c)
				}
				r = pConst(v)
			} else if op == "and" {
				if zeros {
					r = pZero
				} else {
					r = px(x)
				}
			} else if op == "or" {
				if zeros {
					r = px(x)
				} else {
					r = pConst(y.c)
				}
			} else {
				if zeros {
					r = px(x)
				} else { // not: (2^w-1) - x
					r = pSub(pConst(y.c), px(x))
				}
			}
		} else {
			p1, p2 := px(x), px(y)
			if p1 == p2 {
				if op == "xor" {
					r = pZero
				} else {
					r = p1
				}
			} else if op == "xor" {
				r = mkXor(p1, p2, w)
			} else {
				if p1.id > p2.id {
					p1, p2 = p2, p1
				}
				r = pAtom(mkTerm(op, "", 0, 0, uint(w), false, mkInt(p1, uint(w), false), mkInt(p2, uint(w), false)))
			}
		}
		res = append(res, r)
		los = append(los, lo)
	}
	c := new(big.Int)
	var ms []mon
	for i, r := range res {
		s := pScale(r, pow2(uint(los[i])))
		c.Add(c, s.c)
		ms = append(ms, s.ms...)
	}
	return normMons(c, ms)
}

// n-ary xor on w bits in normal form (sorted multiset modulo 2)
func mkXor(a, b *Poly, w int) *Poly {
	set := map[int]*Poly{}
	k := new(big.Int)
	var add func(p *Poly)
	add = func(p *Poly) {
		if p.isConst() {
			k.Xor(k, wrapConst(p.c, uint(w), false))
			return
		}
		if s, ok := p.single(); ok && s.Op == "xorn" && s.W == uint(w) {
			for _, x := range s.Args {
				add(x.P)
			}
			return
		}
		// (2^w-1) - x
		if len(p.ms) == 1 && p.ms[0].c.Sign() < 0 && p.c.Cmp(new(big.Int).Sub(pow2(uint(w)), bigOne)) == 0 {
			k.Xor(k, p.c)
			add(pSub(pConst(p.c), p))
			return
		}
		if _, ok := set[p.id]; ok {
			delete(set, p.id)
		} else {
			set[p.id] = p
		}
	}
	add(a)
	add(b)
	var ids []int
	for i := range set {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	var r *Poly
	switch len(ids) {
	case 0:
		return pConst(k)
	case 1:
		r = set[ids[0]]
	default:
		var args []*Term
		for _, i := range ids {
			args = append(args, mkInt(set[i], uint(w), false))
		}
		r = pAtom(mkTerm("xorn", "", 0, 0, uint(w), false, args...))
	}
	if k.Sign() != 0 {
		full := new(big.Int).Sub(pow2(uint(w)), bigOne)
		if k.Cmp(full) == 0 {
			return pSub(pConst(full), r)
		}
		return pAtom(mkTerm("xorc", k.Text(16), 0, 0, uint(w), false, mkInt(r, uint(w), false)))
	}
	return r
}

func pIte(c *Term, a, b *Poly, w uint) *Poly {
	if a == b {
		return a
	}
	if c.Op == "true" {
		return a
	}
	if c.Op == "false" {
		return b
	}
	if c.Op == "not" {
		return pIte(c.Args[0], b, a, w)
	}
	if c.Op == "ne0" {
		return pIte(bNot(c), b, a, w)
	}
	t := mkTerm("ite", "", 0, 0, w, false, c, mkInt(a, w, false), mkInt(b, w, false))
	if t.Lo == nil && t.Hi == nil {
		al, ah := a.rng(nil)
		bl, bh := b.rng(nil)
		if al != nil && bl != nil {
			t.Lo = al
			if bl.Cmp(al) < 0 {
				t.Lo = bl
			}
		}
		if ah != nil && bh != nil {
			t.Hi = ah
			if bh.Cmp(ah) > 0 {
				t.Hi = bh
			}
		}
	}
	return pAtom(t)
}

// ---- ranges

func (t *Term) atomRange() (lo, hi *big.Int) {
	lo, hi = t.Lo, t.Hi
	if t.W > 0 {
		if !t.Sg {
			if lo == nil {
				lo = bigZero
			}
			if hi == nil {
				hi = new(big.Int).Sub(pow2(t.W), bigOne)
			}
		} else {
			if lo == nil {
				lo = new(big.Int).Neg(pow2(t.W - 1))
			}
			if hi == nil {
				hi = new(big.Int).Sub(pow2(t.W-1), bigOne)
			}
		}
	}
	return
}

// Range of the polynomial given the ranges of its atoms.  bounds may refine
// the range of an atom.
func (p *Poly) rng(bounds func(*Term) (lo, hi *big.Int)) (lo, hi *big.Int) {
	lo, hi = p.c, p.c
	for _, m := range p.ms {
		mlo, mhi := bigOne, bigOne
		for _, a := range m.as {
			var alo, ahi *big.Int
			if bounds != nil {
				alo, ahi = bounds(a)
			} else {
				alo, ahi = a.atomRange()
			}
			mlo, mhi = mulRange(mlo, mhi, alo, ahi)
		}
		if m.pow != nil {
			plo, phi := m.pow.rng(bounds)
			var a, b *big.Int = bigOne, nil
			if plo != nil && plo.Sign() > 0 && plo.BitLen() < 14 {
				a = pow2(uint(plo.Int64()))
			} else if plo == nil || plo.Sign() < 0 {
				a = bigZero
			}
			if phi != nil && phi.Sign() >= 0 && phi.BitLen() < 14 {
				b = pow2(uint(phi.Int64()))
			}
			mlo, mhi = mulRange(mlo, mhi, a, b)
		}
		mlo, mhi = mulRange(mlo, mhi, m.c, m.c)
		if lo != nil && mlo != nil {
			lo = new(big.Int).Add(lo, mlo)
		} else {
			lo = nil
		}
		if hi != nil && mhi != nil {
			hi = new(big.Int).Add(hi, mhi)
		} else {
			hi = nil
		}
	}
	return
}

func mulRange(alo, ahi, blo, bhi *big.Int) (lo, hi *big.Int) {
	// nil is unbounded
	if alo != nil && ahi != nil && blo != nil && bhi != nil {
		c := []*big.Int{new(big.Int).Mul(alo, blo), new(big.Int).Mul(alo, bhi),
			new(big.Int).Mul(ahi, blo), new(big.Int).Mul(ahi, bhi)}
		lo, hi = c[0], c[0]
		for _, x := range c[1:] {
			if x.Cmp(lo) < 0 {
				lo = x
			}
			if x.Cmp(hi) > 0 {
				hi = x
			}
		}
		return
	}
	nonneg := func(l *big.Int) bool { return l != nil && l.Sign() >= 0 }
	neg := func(h *big.Int) bool { return h != nil && h.Sign() < 0 }
	if nonneg(alo) && nonneg(blo) {
		return new(big.Int).Mul(alo, blo), nil
	}
	if nonneg(alo) && neg(bhi) && blo != nil { // b negative and bounded, a unbounded
		return nil, new(big.Int).Mul(alo, bhi)
	}
	if nonneg(blo) && neg(ahi) && alo != nil {
		return nil, new(big.Int).Mul(blo, ahi)
	}
	return nil, nil
}

// ---- booleans

var tTrue = mkTerm("true", "", 0, 0, 1, false)
var tFalse = mkTerm("false", "", 0, 0, 1, false)

func bConst(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func bGE0(p *Poly) *Term {
	lo, hi := p.rng(nil)
	if lo != nil && lo.Sign() >= 0 {
		return tTrue
	}
	if hi != nil && hi.Sign() < 0 {
		return tFalse
	}
	if a, c := iteConst(p); a != nil {
		return bIte(a.Args[0], bGE0(pAdd(pScale(a.Args[1].P, c), mkPoly(p.c, nil))), bGE0(pAdd(pScale(a.Args[2].P, c), mkPoly(p.c, nil))))
	}
	return mkTerm("ge0", "", 0, 0, 1, false, mkInt(p, 0, false))
}

// p = c*ite(.., constant, constant) + constant
func iteConst(p *Poly) (*Term, *big.Int) {
	if len(p.ms) != 1 || len(p.ms[0].as) != 1 || p.ms[0].pow != nil {
		return nil, nil
	}
	a := p.ms[0].as[0]
	if a.Op != "ite" || a.Args[1].P == nil || a.Args[2].P == nil || !a.Args[1].P.isConst() || !a.Args[2].P.isConst() {
		return nil, nil
	}
	return a, p.ms[0].c
}

func bEQ0(p *Poly) *Term {
	lo, hi := p.rng(nil)
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return tFalse
	}
	if p.isConst() {
		return bConst(p.c.Sign() == 0)
	}
	if p.ms[0].c.Sign() < 0 {
		p = pNeg(p)
	}
	// one bit values: x == 1 is not(x == 0)
	if p.c.Sign() != 0 && len(p.ms) == 1 {
		if a := p.ms[0]; len(a.as) == 1 && a.pow == nil && a.as[0].W == 1 && !a.as[0].Sg &&
			new(big.Int).Neg(p.c).Cmp(a.c) == 0 {
			return bNot(bEQ0(mkPoly(bigZero, p.ms)))
		}
	}
	// divide by common power of two
	if len(p.ms) == 1 && p.c.Sign() == 0 && p.ms[0].c.Cmp(bigOne) != 0 {
		p = mkPoly(bigZero, []mon{{c: bigOne, as: p.ms[0].as, pow: p.ms[0].pow}})
	}
	if a, ok := p.single(); ok && a.Op == "ite" {
		return bIte(a.Args[0], bEQ0(a.Args[1].P), bEQ0(a.Args[2].P))
	}
	if a, c := iteConst(p); a != nil {
		return bIte(a.Args[0], bEQ0(pAdd(pScale(a.Args[1].P, c), mkPoly(p.c, nil))), bEQ0(pAdd(pScale(a.Args[2].P, c), mkPoly(p.c, nil))))
	}
	return mkTerm("eq0", "", 0, 0, 1, false, mkInt(p, 0, false))
}

func bNot(t *Term) *Term {
	switch t.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return t.Args[0]
	case "eq0":
		return mkTerm("ne0", "", 0, 0, 1, false, t.Args[0])
	case "ne0":
		return mkTerm("eq0", "", 0, 0, 1, false, t.Args[0])
	case "ge0":
		return bGE0(pSub(pNeg(t.Args[0].P), pOne))
	}
	return mkTerm("not", "", 0, 0, 1, false, t)
}

func bAnd(a, b *Term) *Term {
	if a == tFalse || b == tFalse {
		return tFalse
	}
	if a == tTrue || a == b {
		return b
	}
	if b == tTrue {
		return a
	}
	if bNot(a) == b {
		return tFalse
	}
	if a.Op == "and" && (a.Args[0] == b || a.Args[1] == b) {
		return a
	}
	if b.Op == "and" && (b.Args[0] == a || b.Args[1] == a) {
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkTerm("and", "", 0, 0, 1, false, a, b)
}

func bOr(a, b *Term) *Term { return bNot(bAnd(bNot(a), bNot(b))) }

func bIte(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == tTrue && b == tFalse {
		return c
	}
	if a == tFalse && b == tTrue {
		return bNot(c)
	}
	if b == tFalse {
		return bAnd(c, a)
	}
	if a == tTrue {
		return bOr(c, b)
	}
	if a == tFalse {
		return bAnd(bNot(c), b)
	}
	if b == tTrue {
		return bOr(bNot(c), a)
	}
	return mkTerm("bite", "", 0, 0, 1, false, c, a, b)
}

// ---- strings

func strC(s string) *Term { return mkTerm("str", s, 0, 0, 0, false) }

// ---- printing

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d <= 0 {
		return "…"
	}
	switch t.Op {
	case "int":
		return t.P.str(d)
	case "sym":
		return t.Str
	case "str":
		return fmt.Sprintf("%q", t.Str)
	case "true", "false":
		return t.Op
	case "ge0":
		return "(" + t.Args[0].P.str(d-1) + " >= 0)"
	case "eq0":
		return "(" + t.Args[0].P.str(d-1) + " == 0)"
	case "ne0":
		return "(" + t.Args[0].P.str(d-1) + " != 0)"
	case "ext":
		return fmt.Sprintf("%s[%d:%d]", t.Args[0].str(d-1), t.n1, t.n1+t.n2)
	}
	var as []string
	for i, a := range t.Args {
		if i > 40 {
			as = append(as, "...")
			break
		}
		as = append(as, a.str(d-1))
	}
	s := t.Op
	if t.Str != "" {
		s += ":" + t.Str
	}
	if t.n1 != 0 || t.n2 != 0 {
		s += fmt.Sprintf("<%d,%d>", t.n1, t.n2)
	}
	if len(as) == 0 {
		return s
	}
	return s + "(" + strings.Join(as, ", ") + ")"
}

func (p *Poly) String() string { return p.str(6) }
func (p *Poly) str(d int) string {
	var parts []string
	for _, m := range p.ms {
		var f []string
		if m.c.Cmp(bigOne) != 0 || (len(m.as) == 0 && m.pow == nil) {
			if m.c.Sign() > 0 && m.c.BitLen() > 6 && m.c.Cmp(pow2(m.c.TrailingZeroBits())) == 0 {
				f = append(f, fmt.Sprintf("2^%d", m.c.TrailingZeroBits()))
			} else {
				f = append(f, m.c.String())
			}
		}
		for _, a := range m.as {
			f = append(f, a.str(d-1))
		}
		if m.pow != nil {
			f = append(f, "2^("+m.pow.str(d-1)+")")
		}
		parts = append(parts, strings.Join(f, "*"))
	}
	if p.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, p.c.String())
	}
	return strings.Join(parts, " + ")
}

// ---- typed integer operations

func tAdd(a, b *Term) *Term { return mkInt(pAdd(a.P, b.P), a.W, a.Sg) }
func tSub(a, b *Term) *Term { return mkInt(pSub(a.P, b.P), a.W, a.Sg) }
func tMul(a, b *Term) *Term { return mkInt(pMul(a.P, b.P), a.W, a.Sg) }

func fits(p *Poly, w uint, sg bool) bool {
	lo, hi := p.rng(nil)
	if lo == nil || hi == nil {
		return false
	}
	if sg {
		return lo.Cmp(new(big.Int).Neg(pow2(w-1))) >= 0 && hi.Cmp(pow2(w-1)) < 0
	}
	return lo.Sign() >= 0 && hi.Cmp(pow2(w)) < 0
}

func tShl(a, k *Term) *Term {
	if kc, ok := k.P.constI(); ok {
		if kc >= int64(a.W) {
			return intC(0, a.W, a.Sg)
		}
		p := pScale(a.P, pow2(uint(kc)))
		if !a.Sg && !p.isConst() && !fits(p, a.W, false) {
			if ss, ok := p.segs(int(a.W)); ok {
				p = fromSegs(ss)
			}
		}
		return mkInt(p, a.W, a.Sg)
	}
	return mkInt(pMul(a.P, pPow2(k.P)), a.W, a.Sg)
}

func tShr(a, k *Term) *Term {
	if kc, ok := k.P.constI(); ok {
		if a.P.isConst() {
			return mkInt(pConst(new(big.Int).Rsh(a.P.c, uint(kc))), a.W, a.Sg)
		}
		if kc >= int64(a.W) && !a.Sg {
			return intC(0, a.W, a.Sg)
		}
		if kc == 0 {
			return a
		}
		// exact division by 2^k of all monomials
		if ok, p := divExact(a.P, pow2(uint(kc))); ok {
			return mkInt(p, a.W, a.Sg)
		}
		if lo, _ := a.P.rng(nil); !a.Sg || (lo != nil && lo.Sign() >= 0) {
			return mkInt(pExt(a.P, int(kc), int(a.W)-int(kc)), a.W, a.Sg)
		}
		return mkInt(pAtom(mkTerm("sar", "", 0, 0, a.W, a.Sg, a, k)), a.W, a.Sg)
	}
	if a.P.isConst() && a.P.c.Sign() == 0 {
		return a
	}
	if s, ok := a.P.single(); ok && s.Op == "shr" {
		return mkInt(pAtom(mkTerm("shr", "", 0, 0, a.W, a.Sg, s.Args[0], mkInt(pAdd(s.Args[1].P, k.P), 0, false))), a.W, a.Sg)
	}
	return mkInt(pAtom(mkTerm("shr", "", 0, 0, a.W, a.Sg, mkInt(a.P, 0, false), mkInt(k.P, 0, false))), a.W, a.Sg)
}

func divExact(p *Poly, d *big.Int) (bool, *Poly) {
	if new(big.Int).Mod(p.c, d).Sign() != 0 {
		return false, nil
	}
	ms := make([]mon, len(p.ms))
	for i, m := range p.ms {
		q, r := new(big.Int).QuoRem(m.c, d, new(big.Int))
		if r.Sign() != 0 {
			return false, nil
		}
		ms[i] = mon{q, m.as, m.pow}
	}
	return true, mkPoly(new(big.Int).Quo(p.c, d), ms)
}

func tBit(op string, a, b *Term) *Term {
	if a.P.isConst() && b.P.isConst() {
		v := new(big.Int)
		switch op {
		case "and":
			v.And(a.P.c, b.P.c)
		case "or":
			v.Or(a.P.c, b.P.c)
		case "xor":
			v.Xor(a.P.c, b.P.c)
		case "andnot":
			v.AndNot(a.P.c, b.P.c)
		}
		return mkInt(pConst(v), a.W, a.Sg)
	}
	if op == "andnot" {
		nb := mkInt(pSub(pConst(new(big.Int).Sub(pow2(a.W), bigOne)), b.P), a.W, false)
		return tBit("and", a, nb)
	}
	if op == "and" {
		for i := 0; i < 2; i++ {
			// x & (2^e - 1) with symbolic e
			q := pAdd(b.P, pOne)
			if len(q.ms) == 1 && q.c.Sign() == 0 && len(q.ms[0].as) == 0 && q.ms[0].pow != nil {
				e := q.ms[0].pow
				c := q.ms[0].c
				if c.Cmp(bigOne) != 0 && c.Sign() > 0 && c.Cmp(pow2(c.TrailingZeroBits())) == 0 {
					e = pAdd(e, pConstI(int64(c.TrailingZeroBits())))
					c = bigOne
				}
				if c.Cmp(bigOne) == 0 {
					return mkInt(pAtom(mkTerm("mod2", "", 0, 0, a.W, a.Sg, mkInt(a.P, 0, false), mkInt(e, 0, false))), a.W, a.Sg)
				}
			}
			a, b = b, a
		}
	}
	// parity of 2*x etc.
	return mkInt(pBit(op, a.P, b.P, a.W), a.W, a.Sg)
}

func tDiv(a, b *Term) *Term {
	if a.P.isConst() && b.P.isConst() && b.P.c.Sign() != 0 {
		return mkInt(pConst(new(big.Int).Quo(a.P.c, b.P.c)), a.W, a.Sg)
	}
	if b.P.isConst() && b.P.c.Sign() > 0 {
		if ok, p := divExact(a.P, b.P.c); ok {
			return mkInt(p, a.W, a.Sg)
		}
		k := b.P.c.TrailingZeroBits()
		if b.P.c.Cmp(pow2(k)) == 0 {
			if lo, _ := a.P.rng(nil); !a.Sg || lo != nil && lo.Sign() >= 0 {
				return tShr(a, intC(int64(k), 64, false))
			}
		}
	}
	t := mkTerm("div", "", 0, 0, a.W, a.Sg, mkInt(a.P, 0, false), mkInt(b.P, 0, false))
	if b.P.isConst() && b.P.c.Sign() > 0 {
		lo, hi := a.P.rng(nil)
		if lo != nil && lo.Sign() >= 0 {
			t.Lo = new(big.Int).Quo(lo, b.P.c)
			if hi != nil {
				t.Hi = new(big.Int).Quo(hi, b.P.c)
			}
		}
	} else if lo, hi := a.P.rng(nil); lo != nil && lo.Sign() >= 0 {
		if l2, _ := b.P.rng(nil); !b.Sg || l2 != nil && l2.Sign() >= 0 {
			t.Lo, t.Hi = bigZero, hi
		}
	}
	return mkInt(pAtom(t), a.W, a.Sg)
}

func tRem(a, b *Term) *Term {
	if a.P.isConst() && b.P.isConst() && b.P.c.Sign() != 0 {
		return mkInt(pConst(new(big.Int).Rem(a.P.c, b.P.c)), a.W, a.Sg)
	}
	lo, _ := a.P.rng(nil)
	nonneg := !a.Sg || lo != nil && lo.Sign() >= 0
	if b.P.isConst() && b.P.c.Sign() > 0 && nonneg {
		k := b.P.c.TrailingZeroBits()
		if b.P.c.Cmp(pow2(k)) == 0 {
			return mkInt(pExt(a.P, 0, int(k)), a.W, a.Sg)
		}
		if ok, _ := divExact(a.P, b.P.c); ok {
			return intC(0, a.W, a.Sg)
		}
	}
	t := mkTerm("rem", "", 0, 0, a.W, a.Sg, mkInt(a.P, 0, false), mkInt(b.P, 0, false))
	if nonneg {
		t.Lo = bigZero
		if b.P.isConst() && b.P.c.Sign() > 0 {
			t.Hi = new(big.Int).Sub(b.P.c, bigOne)
		}
	}
	return mkInt(pAtom(t), a.W, a.Sg)
}

func tConv(a *Term, w uint, sg bool) *Term {
	if a.P.isConst() {
		return mkInt(a.P, w, sg)
	}
	if fits(a.P, w, sg) {
		return mkInt(a.P, w, sg)
	}
	if w >= a.W {
		return mkInt(a.P, w, sg) // sign changes are assumed not to matter
	}
	return mkInt(pExt(a.P, 0, int(w)), w, sg)
}
