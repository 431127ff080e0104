package main

import (
	"fmt"
	"go/types"
)

// Cut points: calls of functions which are verified by themselves are
// replaced by uninterpreted terms of their contents.

const cutPre = "(*%s.Context)."

func (p *Prog) ctxMethod(name string) string {
	f := p.fn("Context." + name)
	if f == nil {
		return ""
	}
	return f.String()
}

// bytes of an uninterpreted application
func uiBytes(op string, n int, args ...*Term) []*Term {
	h := opaqueT(op, "", 0, args...)
	r := make([]*Term, n)
	for i := range r {
		r[i] = mkInt(pAtom(mkTerm("val", "", 0, 0, 8, false, opaqueT("sel", "", i, h))), 8, false)
	}
	return r
}

func uiF(ph *Term, addr, in []*Term) []*Term {
	a := append([]*Term{ph}, withWord(addr, 7, pZero)...)
	return uiBytes("F", len(in), append(a, in...)...)
}

func addrWords(st *State, v Val) []*Term {
	a, ok := v.(*Agg)
	if !ok || a.N != 8 {
		return nil
	}
	r := make([]*Term, 8)
	for i := range r {
		t, ok := a.get(st, pConstI(int64(i))).(*Term)
		if !ok || t.P == nil {
			return nil
		}
		r[i] = mkInt(t.P, 32, false)
	}
	return r
}

// Summary of precomputeHashes: evaluates the real function, and names the
// result by the seeds it was made of.
func cutPrecompute(p *Prog) func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
	name := p.ctxMethod("precomputeHashes")
	return func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		if cs.Fn == nil || cs.Name != name || len(cs.Args) != 3 {
			return nil, false
		}
		tag := phTag(st, cs.Args[1], cs.Args[2])
		os := in.Exec(st, fr, cs.Fn, cs.Args, cs.Bind, cs.Instr)
		for i := range os {
			if a, ok := os[i].Ret.(*Agg); ok {
				freeze(a)
				b := a.mutable(-1)
				freeze(b)
				b.Tag = tag
				os[i].Ret = b
			}
		}
		return os, true
	}
}

func phTag(st *State, pub, sk Val) *Term {
	t := func(v Val) *Term {
		if s, ok := v.(*Slice); ok && s.Obj != nil {
			return st.bytesTerm(s)
		}
		return opaqueT("none", "", 0)
	}
	return opaqueT("ph", "", 0, t(pub), t(sk))
}

func tagOf(v Val) *Term {
	if a, ok := v.(*Agg); ok && a.Tag != nil {
		return a.Tag
	}
	return nil
}

// Summary of fInto(pad, in, ph, addr, out): out = F(ph, addr, in)
func cutF(p *Prog) func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
	name := p.ctxMethod("fInto")
	return func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		if cs.Fn == nil || cs.Name != name || len(cs.Args) != 6 {
			return nil, false
		}
		src, dst := asSlice(cs.Args[2]), asSlice(cs.Args[5])
		tag, aw := tagOf(cs.Args[3]), addrWords(st, cs.Args[4])
		if src == nil || dst == nil || tag == nil || aw == nil {
			in.undecided("arguments of fInto in %s", fnName(fr.Fn))
			return nil, false
		}
		bs := st.bytesOf(src)
		if len(bs) == 0 {
			return nil, false
		}
		out := uiF(tag, aw, bs)
		in.boundsCheck(st, fr, cs.Instr, pConstI(int64(len(out)-1)), dst.Len.P)
		st.putBytes(dst, 0, out)
		return ret1(st, Tuple{}), true
	}
}

func chain(hs ...func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool)) func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
	return func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		for _, h := range hs {
			if os, ok := h(in, st, fr, cs); ok {
				return os, true
			}
		}
		return nil, false
	}
}

// Evaluates guarded values under additional facts.
type resolver struct {
	f    *Facts
	memo map[*Term]int
}

func newResolver(f *Facts) *resolver { return &resolver{f, map[*Term]int{}} }

func (r *resolver) decide(c *Term) int {
	if d, ok := r.memo[c]; ok {
		return d
	}
	d := r.f.decide(c)
	r.memo[c] = d
	return d
}

func (r *resolver) term(t *Term) *Term {
	for t.P != nil {
		a, ok := t.P.single()
		if !ok || a.Op != "ite" {
			return t
		}
		switch r.decide(a.Args[0]) {
		case 1:
			t = a.Args[1]
		case -1:
			t = a.Args[2]
		default:
			return t
		}
	}
	return t
}

func (r *resolver) bytes(ts []*Term) []*Term {
	o := make([]*Term, len(ts))
	for i, t := range ts {
		o[i] = r.term(t)
	}
	return o
}

// base-w digits of a byte string, most significant first
func (s *Spec) baseW(bs []*Term, n int) []*Poly {
	lg := map[int64]int{4: 2, 16: 4, 256: 8}[s.pa.W]
	per := 8 / lg
	r := make([]*Poly, n)
	for i := range r {
		k := 8 - lg*(i%per+1)
		r[i] = pExt(bs[i/per].P, k, lg)
	}
	return r
}

func (s *Spec) wotsLens() (len1, len2, lg int) {
	lg = map[int64]int{4: 2, 16: 4, 256: 8}[s.pa.W]
	len1 = (8*s.n + lg - 1) / lg
	max := len1 * int(s.pa.W-1)
	for v := max; v > 0; v >>= uint(lg) {
		len2++
	}
	return
}

// the digits signed for a message, including the checksum
func (s *Spec) chainLengths(msg []*Term) []*Poly {
	len1, len2, lg := s.wotsLens()
	d := s.baseW(msg, len1)
	c := pZero
	for _, x := range d {
		c = pAdd(c, pSub(pConstI(s.pa.W-1), x))
	}
	sh := (8 - (len2*lg)%8) % 8
	c = pScale(c, pow2(uint(sh)))
	return append(d, s.baseW(s.toByte(c, (len2*lg+7)/8), len2)...)
}

func isZeroConst(t *Term) bool { return t.P == pZero }

func describe(got, want []*Term, i int) string {
	if i < 0 {
		return fmt.Sprintf("length %d instead of %d", len(got), len(want))
	}
	g, w := got[i].String(), want[i].String()
	if len(g) > 160 {
		g = g[:160] + "..."
	}
	if len(w) > 160 {
		w = w[:160] + "..."
	}
	return fmt.Sprintf("byte %d is %s instead of %s", i, g, w)
}

func sliceOf(bs []*Term, i, n int) []*Term { return bs[i*n : (i+1)*n] }

var _ types.Type

// precompute evaluates precomputeHashes and names its result by its seeds.
func (r *Rep) precompute(in *Interp, st *State, ctx, pub, sk Val) (*State, Val) {
	tag := phTag(st, pub, sk)
	st, ph := exec1(in, st, r.P.needFn("Context.precomputeHashes"), ctx, pub, sk)
	if a, ok := ph.(*Agg); ok {
		freeze(a)
		b := a.mutable(-1)
		freeze(b)
		b.Tag = tag
		return st, b
	}
	panic(abortAll{"unexpected result of precomputeHashes"})
}
