package main

// Structured strings: concatenations of constants, decimal representations of
// integers and opaque words, which do not contain certain characters.

import (
	"go/types"
	"math/big"
	"strings"
)

// word that contains none of the characters in free
func strAtom(name, free string) *Term { return mkTerm("satom", free+"\x00"+name, 0, 0, 0, false) }

func atomFree(t *Term) string { return strings.SplitN(t.Str, "\x00", 2)[0] }

func strDec(t *Term) *Term { return mkTerm("sdec", "", 0, 0, 0, false, t) }

func isDigitC(c byte) bool { return c >= '0' && c <= '9' }

func isStrTerm(v Val) (*Term, bool) {
	t, ok := v.(*Term)
	if !ok || t.P != nil {
		return nil, false
	}
	switch t.Op {
	case "str", "scat", "satom", "sdec", "ssub":
		return t, true
	}
	return nil, false
}

func strParts(t *Term) []*Term {
	if t.Op == "scat" {
		return t.Args
	}
	if t.Op == "str" && t.Str == "" {
		return nil
	}
	return []*Term{t}
}

func strCat(ps []*Term) *Term {
	var r []*Term
	for _, p := range ps {
		for _, q := range strParts(p) {
			if len(r) > 0 && q.Op == "str" && r[len(r)-1].Op == "str" {
				r[len(r)-1] = strC(r[len(r)-1].Str + q.Str)
			} else {
				r = append(r, q)
			}
		}
	}
	switch len(r) {
	case 0:
		return strC("")
	case 1:
		return r[0]
	}
	return mkTerm("scat", "", 0, 0, 0, false, r...)
}

// does the part certainly not contain the character?
func partFree(p *Term, c byte) bool {
	switch p.Op {
	case "str":
		return strings.IndexByte(p.Str, c) < 0
	case "sdec":
		lo, _ := p.Args[0].P.rng(nil)
		return !isDigitC(c) && (c != '-' || lo != nil && lo.Sign() >= 0)
	case "satom":
		return strings.IndexByte(atomFree(p), c) >= 0
	case "ssub":
		return partFree(p.Args[0], c)
	}
	return false
}

// Splits at the separator; ok is false if it is not known where it occurs.
func strSplit(t *Term, sep string, n int) (r []*Term, ok bool) {
	if sep == "" {
		return nil, false
	}
	var cur []*Term
	ps := strParts(t)
	for _, p := range ps {
		if p.Op != "str" {
			for i := 0; i < len(sep); i++ {
				if !partFree(p, sep[i]) && (n <= 0 || len(r) < n-1) {
					return nil, false
				}
			}
			cur = append(cur, p)
			continue
		}
		s := p.Str
		for n <= 0 || len(r) < n-1 {
			i := strings.Index(s, sep)
			if i < 0 {
				break
			}
			r = append(r, strCat(append(cur, strC(s[:i]))))
			cur = nil
			s = s[i+len(sep):]
		}
		cur = append(cur, strC(s))
	}
	return append(r, strCat(cur)), true
}

func partLen(p *Term) *Poly {
	if p.Op == "str" {
		return pConstI(int64(len(p.Str)))
	}
	if p.Op == "ssub" {
		return pSub(partLen(p.Args[0]), p.Args[1].P)
	}
	ln := mkTerm("len", "", 0, 0, 64, true, p)
	ln.Lo = bigZero
	if p.Op == "sdec" {
		ln.Lo = bigOne
	}
	return pAtom(ln)
}

func strLenP(t *Term) *Poly {
	r := pZero
	for _, p := range strParts(t) {
		r = pAdd(r, partLen(p))
	}
	return r
}

// t[lo:hi] if the bounds are the ends of parts, or within constant ones.
func strSub(st *State, t *Term, lo, hi *Poly) (*Term, bool) {
	ps := strParts(t)
	cut := func(ps []*Term, at *Poly) ([]*Term, []*Term, bool) {
		at = st.facts.norm(at)
		off := pZero
		for i, p := range ps {
			if d, ok := st.facts.norm(pSub(at, off)).constI(); ok {
				if d == 0 {
					return ps[:i], ps[i:], true
				}
				if p.Op == "str" && d > 0 && d <= int64(len(p.Str)) {
					a := append(append([]*Term{}, ps[:i]...), strC(p.Str[:d]))
					return a, append([]*Term{strC(p.Str[d:])}, ps[i+1:]...), true
				}
			}
			off = st.facts.norm(pAdd(off, partLen(p)))
		}
		if at == off {
			return ps, nil, true
		}
		return nil, nil, false
	}
	if hi != nil {
		a, _, ok := cut(ps, hi)
		if !ok {
			return nil, false
		}
		ps = a
	}
	if lo != nil {
		_, b, ok := cut(ps, lo)
		if !ok {
			d, c := lo.constI()
			if len(ps) == 1 && c && d > 0 && (ps[0].Op == "satom" || ps[0].Op == "ssub") {
				p := ps[0]
				if p.Op == "ssub" {
					k, _ := p.Args[1].P.constI()
					p, d = p.Args[0], d+k
				}
				return mkTerm("ssub", "", 0, 0, 0, false, p, intT(d)), true
			}
			return nil, false
		}
		ps = b
	}
	return strCat(ps), true
}

// Condition under which the string is the constant; nil if not known.
func strEqC(ps []*Term, s string) *Term {
	if len(ps) == 0 {
		return bConst(s == "")
	}
	p := ps[0]
	if len(ps) == 1 && (p.Op == "satom" || p.Op == "ssub") {
		for i := 0; i < len(s); i++ {
			if partFree(p, s[i]) {
				return tFalse
			}
		}
		return mkTerm("streq", s, 0, 0, 1, false, p)
	}
	switch p.Op {
	case "str":
		if !strings.HasPrefix(s, p.Str) {
			return tFalse
		}
		return strEqC(ps[1:], s[len(p.Str):])
	case "sdec":
		if len(ps) > 1 && (ps[1].Op != "str" || isDigitC(ps[1].Str[0])) {
			return nil
		}
		i := 0
		if i < len(s) && s[i] == '-' {
			i++
		}
		for i < len(s) && isDigitC(s[i]) {
			i++
		}
		v, ok := new(big.Int).SetString(s[:i], 10)
		if !ok || v.String() != s[:i] {
			return tFalse
		}
		rest := strEqC(ps[1:], s[i:])
		if rest == nil {
			return nil
		}
		return bAnd(bEQ0(pSub(p.Args[0].P, pConst(v))), rest)
	case "satom", "ssub":
		if ps[1].Op != "str" || !partFree(p, ps[1].Str[0]) {
			return nil
		}
		i := 0
		for i < len(s) && s[i] != ps[1].Str[0] {
			i++
		}
		a, b := strEqC(ps[:1], s[:i]), strEqC(ps[1:], s[i:])
		if a == nil || b == nil {
			return nil
		}
		return bAnd(a, b)
	}
	return nil
}

func strEq(x, y *Term) *Term {
	if x == y {
		return tTrue
	}
	if x.Op == "str" {
		x, y = y, x
	}
	if y.Op == "str" {
		return strEqC(strParts(x), y.Str)
	}
	return nil
}

// Value of the number the string spells in base 10 and whether it does;
// independent of the function that parses it.
func strNum(st *State, t *Term) (v *Term, ok *Term) {
	if s, c := constStr(t); c {
		n, good := new(big.Int).SetString(s, 10)
		if !good || strings.HasPrefix(s, "_") {
			return intT(0), tFalse
		}
		return mkInt(pConst(n), 0, true), tTrue
	}
	switch t.Op {
	case "sdec":
		return mkInt(t.Args[0].P, 0, true), tTrue
	case "scat":
		// anything but digits in the middle
		for i, p := range t.Args {
			if p.Op == "str" {
				for j := 0; j < len(p.Str); j++ {
					if !isDigitC(p.Str[j]) && (i+j > 0 || p.Str[j] != '-' && p.Str[j] != '+') {
						return intT(0), tFalse
					}
				}
			}
		}
	}
	a := mkTerm("strnum", "", 0, 0, 64, true, t)
	return mkInt(pAtom(a), 0, true), mkTerm("isnum", "", 0, 0, 1, false, t)
}

// Outcomes of parsing t to an integer of the given size.
func parseOutcomes(st *State, t *Term, w uint, signed bool, rw uint) ([]Outcome, bool) {
	if _, ok := isStrTerm(t); !ok {
		return nil, false
	}
	v, isnum := strNum(st, t)
	lo, hi := bigZero, new(big.Int).Sub(pow2(w), bigOne)
	if signed {
		lo, hi = new(big.Int).Neg(pow2(w-1)), new(big.Int).Sub(pow2(w-1), bigOne)
	}
	good := bAnd(isnum, bAnd(bGE0(pSub(v.P, pConst(lo))), bGE0(pSub(pConst(hi), v.P))))
	if !signed {
		// unsigned parsers refuse signs
		if t.Op != "sdec" {
			good = bAnd(good, mkTerm("unsignednum", "", 0, 0, 1, false, t))
		}
	}
	var outs []Outcome
	d := st.facts.decide(good)
	if d != -1 {
		s := st
		if d == 0 {
			s = st.clone()
			s.assume(good, true)
			s.pc = append(s.pc, good)
		}
		if !s.facts.bad {
			outs = append(outs, Outcome{St: s, Ret: Tuple{mkInt(s.facts.norm(v.P), rw, signed), nilError()}})
		}
	}
	if d != 1 {
		if d == 0 {
			st.assume(good, false)
			st.pc = append(st.pc, bNot(good))
		}
		if !st.facts.bad {
			outs = append(outs, Outcome{St: st, Ret: Tuple{symInt(freshName("unparsed"), rw, signed), newErr(st, "parse")}})
		}
	}
	return outs, true
}

func termSlice(st *State, ss []*Term) *Slice {
	o := newObj("strings", types.NewArray(types.Typ[types.String], int64(len(ss))))
	ag := &Agg{T: o.T, N: len(ss)}
	for i, s := range ss {
		ag.el.set(i, s)
	}
	st.heap[o] = ag
	n := intT(int64(len(ss)))
	return &Slice{Obj: o, Off: intT(0), Len: n, Cap: n, Elem: types.Typ[types.String]}
}

// Whether t starts with the constant: 1, 0 if not known, -1
func strHasPrefix(t *Term, s string) int {
	ps := strParts(t)
	for {
		if s == "" {
			return 1
		}
		if len(ps) == 0 {
			return -1
		}
		p := ps[0]
		if p.Op != "str" {
			if partFree(p, s[0]) {
				// may be empty, unless it is a number
				if p.Op == "sdec" {
					return -1
				}
			}
			return 0
		}
		n := len(p.Str)
		if n > len(s) {
			n = len(s)
		}
		if p.Str[:n] != s[:n] {
			return -1
		}
		s = s[n:]
		ps = ps[1:]
	}
}

func init() {
	I := intrinsics
	lift := func(name string, f func(in *Interp, st *State, a *Term, cs *CallSite) ([]Outcome, bool)) {
		old := I[name]
		I[name] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
			if a, ok := isStrTerm(cs.Args[0]); ok && a.Op != "str" {
				return f(in, st, a, cs)
			}
			return old(in, st, fr, cs)
		}
	}
	lift("strings.Split", func(in *Interp, st *State, a *Term, cs *CallSite) ([]Outcome, bool) {
		sep, ok := constStr(cs.Args[1])
		if !ok {
			return nil, false
		}
		ps, ok := strSplit(a, sep, -1)
		if !ok {
			return nil, false
		}
		return ret1(st, termSlice(st, ps)), true
	})
	lift("strings.SplitN", func(in *Interp, st *State, a *Term, cs *CallSite) ([]Outcome, bool) {
		sep, ok := constStr(cs.Args[1])
		n, ok2 := cs.Args[2].(*Term).P.constI()
		if !ok || !ok2 || n == 0 {
			return nil, false
		}
		ps, ok := strSplit(a, sep, int(n))
		if !ok {
			return nil, false
		}
		return ret1(st, termSlice(st, ps)), true
	})
	lift("strings.Contains", func(in *Interp, st *State, a *Term, cs *CallSite) ([]Outcome, bool) {
		sep, ok := constStr(cs.Args[1])
		if !ok {
			return nil, false
		}
		ps, ok := strSplit(a, sep, -1)
		if !ok {
			return nil, false
		}
		return ret1(st, bConst(len(ps) > 1)), true
	})
	lift("strings.Count", func(in *Interp, st *State, a *Term, cs *CallSite) ([]Outcome, bool) {
		sep, ok := constStr(cs.Args[1])
		if !ok {
			return nil, false
		}
		ps, ok := strSplit(a, sep, -1)
		if !ok {
			return nil, false
		}
		return ret1(st, intT(int64(len(ps)-1))), true
	})
	lift("strings.Cut", func(in *Interp, st *State, a *Term, cs *CallSite) ([]Outcome, bool) {
		sep, ok := constStr(cs.Args[1])
		if !ok {
			return nil, false
		}
		ps, ok := strSplit(a, sep, 2)
		if !ok {
			return nil, false
		}
		if len(ps) == 2 {
			return ret1(st, Tuple{ps[0], ps[1], tTrue}), true
		}
		return ret1(st, Tuple{a, strC(""), tFalse}), true
	})
	index := func(sepOf func(v Val) (string, bool)) func(in *Interp, st *State, a *Term, cs *CallSite) ([]Outcome, bool) {
		return func(in *Interp, st *State, a *Term, cs *CallSite) ([]Outcome, bool) {
			sep, ok := sepOf(cs.Args[1])
			if !ok {
				return nil, false
			}
			ps, ok := strSplit(a, sep, 2)
			if !ok {
				return nil, false
			}
			if len(ps) == 1 {
				return ret1(st, intT(-1)), true
			}
			return ret1(st, mkInt(strLenP(ps[0]), 64, true)), true
		}
	}
	lift("strings.Index", index(func(v Val) (string, bool) { return constStr(v) }))
	lift("strings.IndexByte", index(func(v Val) (string, bool) {
		t, ok := v.(*Term)
		if !ok || t.P == nil {
			return "", false
		}
		k, ok := t.P.constI()
		return string(rune(k)), ok
	}))
	lift("strings.HasPrefix", func(in *Interp, st *State, a *Term, cs *CallSite) ([]Outcome, bool) {
		s, ok := constStr(cs.Args[1])
		if !ok {
			return nil, false
		}
		if k := strHasPrefix(a, s); k != 0 {
			return ret1(st, bConst(k > 0)), true
		}
		if ps := strParts(a); len(s) == 1 && (len(ps) == 1 || ps[0].Op != "str") {
			// same as comparing the first character of a non-empty word
			c := bAnd(bGE0(pSub(partLen(ps[0]), pOne)), bEQ0(pSub(strAt(ps[0], 0).P, pConstI(int64(s[0])))))
			return ret1(st, c), true
		}
		return ret1(st, mkTerm("hasprefix", s, 0, 0, 1, false, a)), true
	})
	trim := I["strings.TrimPrefix"]
	I["strings.TrimPrefix"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		a, ok := isStrTerm(cs.Args[0])
		s, ok2 := constStr(cs.Args[1])
		if !ok || !ok2 || a.Op == "str" {
			return trim(in, st, fr, cs)
		}
		switch strHasPrefix(a, s) {
		case -1:
			return ret1(st, a), true
		}
		os, ok := I["strings.HasPrefix"](in, st, fr, cs)
		if ok && len(os) == 1 {
			switch st.facts.decide(asBool(os[0].Ret)) {
			case 1:
				if r, ok := strSub(st, a, pConstI(int64(len(s))), nil); ok {
					return ret1(st, r), true
				}
			case -1:
				return ret1(st, a), true
			}
		}
		return nil, false
	}
	lift("strconv.Atoi", func(in *Interp, st *State, a *Term, cs *CallSite) ([]Outcome, bool) {
		return parseOutcomes(st, a, 64, true, 64)
	})
	for _, sg := range []bool{true, false} {
		sg := sg
		name := "strconv.ParseUint"
		if sg {
			name = "strconv.ParseInt"
		}
		lift(name, func(in *Interp, st *State, a *Term, cs *CallSite) ([]Outcome, bool) {
			b, ok := cs.Args[1].(*Term).P.constI()
			w, ok2 := cs.Args[2].(*Term).P.constI()
			if !ok || !ok2 || b != 10 || w < 0 || w > 64 {
				return nil, false
			}
			if w == 0 {
				w = 64
			}
			return parseOutcomes(st, a, uint(w), sg, 64)
		})
	}
	for _, name := range []string{"strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint"} {
		old := I[name]
		I[name] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
			if os, ok := old(in, st, fr, cs); ok {
				return os, ok
			}
			a, ok := cs.Args[0].(*Term)
			if !ok || a.P == nil || len(cs.Args) > 1 && cs.Args[1].(*Term).P != pConstI(10) {
				return nil, false
			}
			return ret1(st, strDec(a)), true
		}
	}
	old := I["strings.Join"]
	I["strings.Join"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		if os, ok := old(in, st, fr, cs); ok {
			return os, ok
		}
		s := asSlice(cs.Args[0])
		sep, ok := constStr(cs.Args[1])
		if s == nil || !ok {
			return nil, false
		}
		n, ok := s.Len.P.constI()
		if !ok {
			return nil, false
		}
		var parts []*Term
		for i := int64(0); i < n; i++ {
			p, ok := isStrTerm(st.sliceGet(s, pConstI(i)))
			if !ok {
				return nil, false
			}
			if i > 0 {
				parts = append(parts, strC(sep))
			}
			parts = append(parts, p)
		}
		return ret1(st, strCat(parts)), true
	}
}

func strAt(p *Term, i int64) *Term {
	if p.Op == "ssub" {
		k, _ := p.Args[1].P.constI()
		p, i = p.Args[0], i+k
	}
	if p.Op == "str" && i < int64(len(p.Str)) {
		return intC(int64(p.Str[i]), 8, false)
	}
	return symVal(types.Typ[types.Uint8], opaqueT("strat", "", 0, p, mkInt(pConstI(i), 0, false))).(*Term)
}
