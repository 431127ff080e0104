package main

// Random expressions: the value of the normalised term has to be the value of
// the expression.

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"testing"
)

type env map[string]*big.Int

func (e env) term(t *testing.T, a *Term) *big.Int {
	arg := func(i int) *big.Int { return e.term(t, a.Args[i]) }
	switch a.Op {
	case "int":
		return e.poly(t, a.P)
	case "sym":
		return e[a.Str]
	case "ext":
		v := mod2(arg(0), 4096)
		return mod2(new(big.Int).Rsh(v, uint(a.n1)), uint(a.n2))
	case "wrap":
		return mod2(arg(0), a.W)
	case "ite":
		if e.boolean(t, a.Args[0]) {
			return arg(1)
		}
		return arg(2)
	case "and":
		return new(big.Int).And(mod2(arg(0), a.W), mod2(arg(1), a.W))
	case "or":
		return new(big.Int).Or(mod2(arg(0), a.W), mod2(arg(1), a.W))
	case "xorn":
		r := new(big.Int)
		for i := range a.Args {
			r.Xor(r, mod2(arg(i), a.W))
		}
		return r
	case "xorc":
		k, _ := new(big.Int).SetString(a.Str, 16)
		return k.Xor(k, mod2(arg(0), a.W))
	case "div":
		return new(big.Int).Quo(arg(0), arg(1))
	case "rem":
		return new(big.Int).Rem(arg(0), arg(1))
	case "shr", "sar":
		return new(big.Int).Rsh(arg(0), uint(arg(1).Int64()))
	case "mod2":
		return mod2(arg(0), uint(arg(1).Int64()))
	}
	t.Fatalf("unknown operation %s", a.Op)
	return nil
}

func mod2(v *big.Int, w uint) *big.Int { return new(big.Int).Mod(v, pow2(w)) }

func (e env) poly(t *testing.T, p *Poly) *big.Int {
	r := new(big.Int).Set(p.c)
	for _, m := range p.ms {
		x := new(big.Int).Set(m.c)
		for _, a := range m.as {
			x.Mul(x, e.term(t, a))
		}
		if m.pow != nil {
			x.Lsh(x, uint(e.poly(t, m.pow).Int64()))
		}
		r.Add(r, x)
	}
	return r
}

func (e env) boolean(t *testing.T, c *Term) bool {
	switch c.Op {
	case "true":
		return true
	case "false":
		return false
	case "not":
		return !e.boolean(t, c.Args[0])
	case "and":
		for _, x := range c.Args {
			if !e.boolean(t, x) {
				return false
			}
		}
		return true
	case "bite":
		if e.boolean(t, c.Args[0]) {
			return e.boolean(t, c.Args[1])
		}
		return e.boolean(t, c.Args[2])
	case "eq0":
		return e.poly(t, c.Args[0].P).Sign() == 0
	case "ne0":
		return e.poly(t, c.Args[0].P).Sign() != 0
	case "ge0":
		return e.poly(t, c.Args[0].P).Sign() >= 0
	}
	t.Fatalf("unknown condition %s", c.Op)
	return false
}

type gen struct {
	r *rand.Rand
	e env
	t *testing.T
}

// a term and its value
func (g *gen) expr(depth int, w uint) (*Term, *big.Int) {
	if depth == 0 || g.r.Intn(8) == 0 {
		if g.r.Intn(3) == 0 {
			v := new(big.Int).Rsh(new(big.Int).SetUint64(g.r.Uint64()), uint(64-g.r.Intn(int(w)+1)))
			v = mod2(v, w)
			return mkInt(pConst(v), w, false), v
		}
		n := string(rune('a'+g.r.Intn(3))) + string(rune('0'+w/8))
		if g.e[n] == nil {
			g.e[n] = mod2(new(big.Int).SetUint64(g.r.Uint64()>>uint(g.r.Intn(64))), w)
		}
		return symInt(n, w, false), g.e[n]
	}
	narrow := func(t *Term, v *big.Int) *Term { return mkInt(pExt(t.P, 0, int(w)), w, false) }
	switch g.r.Intn(13) {
	case 0, 1:
		a, x := g.expr(depth-1, w)
		b, y := g.expr(depth-1, w)
		return tAdd(a, b), mod2(new(big.Int).Add(x, y), w)
	case 2:
		a, x := g.expr(depth-1, w)
		b, y := g.expr(depth-1, w)
		return tSub(a, b), mod2(new(big.Int).Sub(x, y), w)
	case 3:
		a, x := g.expr(depth-1, w)
		b, y := g.expr(depth-1, w)
		return tMul(a, b), mod2(new(big.Int).Mul(x, y), w)
	case 4, 5:
		a, x := g.expr(depth-1, w)
		k := g.r.Intn(int(w) + 2)
		return tShl(a, intC(int64(k), 64, false)), mod2(new(big.Int).Lsh(x, uint(k)), w)
	case 6:
		a, x := g.expr(depth-1, w)
		k := g.r.Intn(int(w) + 2)
		return tShr(narrow(a, x), intC(int64(k), 64, false)), new(big.Int).Rsh(x, uint(k))
	case 7:
		a, x := g.expr(depth-1, w)
		b, y := g.expr(depth-1, w)
		return tBit("and", a, b), new(big.Int).And(x, y)
	case 8:
		a, x := g.expr(depth-1, w)
		b, y := g.expr(depth-1, w)
		return tBit("or", a, b), new(big.Int).Or(x, y)
	case 9:
		a, x := g.expr(depth-1, w)
		b, y := g.expr(depth-1, w)
		return tBit("xor", a, b), new(big.Int).Xor(x, y)
	case 10:
		// other widths
		u := []uint{8, 16, 32, 64}[g.r.Intn(4)]
		a, x := g.expr(depth-1, u)
		if u < w {
			a = mkInt(pExt(a.P, 0, int(u)), u, false)
		}
		return tConv(a, w, false), mod2(x, w)
	case 11:
		a, x := g.expr(depth-1, w)
		d := int64(1 + g.r.Intn(100))
		a = narrow(a, x)
		if g.r.Intn(2) == 0 {
			return tDiv(a, intC(d, w, false)), new(big.Int).Quo(x, big.NewInt(mod2(big.NewInt(d), w).Int64()))
		}
		return tRem(a, intC(d, w, false)), new(big.Int).Rem(x, big.NewInt(d))
	default:
		a, x := g.expr(depth-1, w)
		b, y := g.expr(depth-1, w)
		p, u := g.expr(depth-1, w)
		q, v := g.expr(depth-1, w)
		p, q = narrow(p, u), narrow(q, v)
		var c *Term
		var is bool
		switch g.r.Intn(3) {
		case 0:
			c, is = bGE0(pSub(p.P, q.P)), u.Cmp(v) >= 0
		case 1:
			c, is = bEQ0(pSub(p.P, q.P)), u.Cmp(v) == 0
		default:
			c, is = bAnd(bGE0(pSub(p.P, q.P)), bNot(bEQ0(pSub(p.P, q.P)))), u.Cmp(v) > 0
		}
		a, b = narrow(a, x), narrow(b, y)
		r := x
		if !is {
			r = y
		}
		return mkInt(pIte(c, a.P, b.P, w), w, false), r
	}
}

func TestTerms(t *testing.T) {
	n := 50000
	if v := os.Getenv("TERMS"); v != "" {
		fmt.Sscan(v, &n)
	}
	for i := 0; i < n; i++ {
		g := &gen{rand.New(rand.NewSource(int64(i))), env{}, t}
		w := []uint{8, 16, 32, 64}[g.r.Intn(4)]
		x, v := g.expr(1+g.r.Intn(4), w)
		got := mod2(g.e.poly(t, x.P), w)
		if got.Cmp(v) != 0 {
			t.Fatalf("seed %d: %s is %v instead of %v in %v", i, x.P.str(8), got, v, g.e)
		}
		// as bytes and back
		bs := beBytes(x.P, int(w/8))
		back := beNum(bs)
		if got := g.e.poly(t, back); got.Cmp(v) != 0 {
			t.Fatalf("seed %d: through bytes, %s is %v instead of %v", i, back.str(8), got, v)
		}
		// ranges
		lo, hi := x.P.rng(nil)
		e := g.e.poly(t, x.P)
		if lo != nil && e.Cmp(lo) < 0 || hi != nil && e.Cmp(hi) > 0 {
			t.Fatalf("seed %d: %v outside of %v-%v", i, e, lo, hi)
		}
	}
}
