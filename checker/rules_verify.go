package main

// V01: what verification accepts.

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("V01", "Abstract interpretation over value graphs: public keys and signatures are decoded from symbolic bytes and verified; on every path the result is compared with "+
		"the root recomputed by RFC 8391, with recovered one-time keys uninterpreted (they are compared with the specification by themselves). All positions of small shapes, "+
		"selected positions of large ones.", runV01)
}

// the constant header which encodes pa
func (r *Rep) header(in *Interp, base *State, pa Params) []*Term {
	st := base.clone()
	pv := r.P.paramsVal(st, pa)
	os := in.Exec(st, nil, r.P.needFn("Params.MarshalBinary"), []Val{&Ptr{Obj: o0(st, pv)}}, nil, nil)
	for _, o := range os {
		if o.Panic {
			continue
		}
		t, ok := o.Ret.(Tuple)
		if !ok || errNil(o.St, t[1]) != 1 {
			continue
		}
		if s := asSlice(t[0]); s != nil {
			return o.St.bytesOf(s)
		}
	}
	panic(abortAll{"parameters can't be encoded: " + pa.String()})
}

// decode executes UnmarshalBinary of the type on the bytes and returns the
// state of success.
// buf is decoded into a value which holds what was decoded before, if used
// are given
func (r *Rep) decodeOK(in *Interp, st *State, typ string, buf Val, used ...Params) (*State, *Ptr) {
	p := r.alloc(st, strings.ToLower(typ), r.P.namedType(typ))
	for i, pa := range used {
		n := newSpec(pa).sigLen()
		if typ != "Signature" {
			n = int(4 + 2*pa.N)
		}
		old := symBytes(st, fmt.Sprintf("used%d%s", i, typ), int64(n))
		st.putBytes(old, 0, r.header(in, st, pa))
		st = r.decodeInto(in, st, typ, p, old)
	}
	return r.decodeInto(in, st, typ, p, buf), p
}

func (r *Rep) decodeInto(in *Interp, st *State, typ string, p *Ptr, buf Val) *State {
	os := in.Exec(st, nil, r.P.needFn(typ+".UnmarshalBinary"), []Val{p, buf}, nil, nil)
	var res *State
	for _, o := range os {
		if !o.Panic && errNil(o.St, o.Ret) == 1 {
			if res != nil {
				panic(abortAll{"decoding of " + typ + " succeeds in several ways"})
			}
			res = o.St
		}
	}
	if res == nil {
		panic(abortAll{"valid encoding of " + typ + " is refused"})
	}
	return res
}

// Summary of wotsPkFromSigInto(pad, sig, msg, ph, addr, out).
func cutPkFromSig(r *Rep, n int) func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
	name := r.P.ctxMethod("wotsPkFromSigInto")
	return func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		if cs.Fn == nil || cs.Name != name || len(cs.Args) != 7 {
			return nil, false
		}
		sig, msg, dst := asSlice(cs.Args[2]), asSlice(cs.Args[3]), asSlice(cs.Args[6])
		tag, aw := tagOf(cs.Args[4]), addrWords(st, cs.Args[5])
		if sig == nil || msg == nil || dst == nil || tag == nil || aw == nil {
			in.undecided("arguments of wotsPkFromSigInto in %s", fnName(fr.Fn))
			return nil, false
		}
		f := newResolver(st.facts)
		out := uiPkFromSig(tag, aw, f.bytes(st.bytesOf(sig)), f.bytes(st.bytesOf(msg)), n)
		in.boundsCheck(st, fr, cs.Instr, pConstI(int64(len(out)-1)), dst.Len.P)
		st.putBytes(dst, 0, out)
		return ret1(st, Tuple{}), true
	}
}

func uiPkFromSig(tag *Term, aw, sig, msg []*Term, n int) []*Term {
	a := append([]*Term{tag}, aw...)
	// chain, step and mask are set for each step
	a[6], a[7], a[8] = intC(0, 32, false), intC(0, 32, false), intC(0, 32, false)
	return uiBytes("pkFromSig", n, append(a, opaqueT("bytes", "", 0, sig...), opaqueT("bytes", "", 0, msg...))...)
}

// a signature as bytes: parameters, index, randomizer, then per layer the
// one-time signature and the authentication path
type sigBytes struct {
	idx   []*Term
	r     []*Term
	wots  [][]*Term
	auth  [][]*Term
	total int
}

func (s *Spec) split(b []*Term) (sg sigBytes) {
	l1, l2, _ := s.wotsLens()
	sz := specSizes(s.pa)
	at := 4
	take := func(n int) []*Term {
		x := b[at : at+n]
		at += n
		return x
	}
	sg.idx = take(int(sz.index.Int64()))
	sg.r = take(s.n)
	th := int(s.pa.H / s.pa.D)
	for i := 0; i < int(s.pa.D); i++ {
		sg.wots = append(sg.wots, take((l1+l2)*s.n))
		sg.auth = append(sg.auth, take(th*s.n))
	}
	sg.total = at
	return
}

func (s *Spec) sigLen() int {
	sz := specSizes(s.pa)
	return 4 + int(sz.sig.Int64())
}

// big endian number
func beNum(b []*Term) *Poly {
	v := pZero
	for _, x := range b {
		v = pAdd(pScale(v, pow2(8)), x.P)
	}
	return v
}

func layerAddr(layer int64, tree *Poly, typ int64) []*Term {
	a := make([]*Term, 8)
	for i := range a {
		a[i] = intC(0, 32, false)
	}
	a[0] = intC(layer, 32, false)
	a[1] = mkInt(pExt(tree, 32, 32), 32, false)
	a[2] = mkInt(pExt(tree, 0, 32), 32, false)
	a[3] = intC(typ, 32, false)
	return a
}

// recompute evaluates the verification algorithm of RFC 8391 (sections 4.1.10
// and 4.2.5), under facts which decide the bits of the index.
func (s *Spec) recompute(f *Facts, tag *Term, pub []*Term, idx *Poly, sg sigBytes, mhash []*Term) (root []*Term, ok bool) {
	l1, l2, _ := s.wotsLens()
	L := l1 + l2
	th := int(s.pa.H / s.pa.D)
	bit := func(k int) int {
		switch f.decide(bEQ0(pExt(idx, k, 1))) {
		case 1:
			return 0
		case -1:
			return 1
		}
		ok = false
		return 0
	}
	ok = true
	node := mhash
	for i := 0; i < int(s.pa.D); i++ {
		tree := pExt(idx, th*(i+1), 64-th*(i+1))
		pos := pExt(idx, th*i, th)
		leaf := int64(0)
		for k := 0; k < th; k++ {
			leaf |= int64(bit(th*i+k)) << uint(k)
		}
		lay := int64(i)
		pk := uiPkFromSig(tag, withWord(layerAddr(lay, tree, 0), 4, pos), sg.wots[i], node, L*s.n)
		var parts [][]*Term
		for j := 0; j < L; j++ {
			parts = append(parts, sliceOf(pk, j, s.n))
		}
		node = s.ltree(pub, withWord(layerAddr(lay, tree, 1), 4, pos), parts)
		for k := 0; k < th; k++ {
			sib := sliceOf(sg.auth[i], k, s.n)
			a := withWord(withWord(layerAddr(lay, tree, 2), 5, pConstI(int64(k))), 6, pExt(pos, k+1, th-k-1))
			if leaf>>uint(k)&1 == 0 {
				node = s.RandHash(pub, a, node, sib)
			} else {
				node = s.RandHash(pub, a, sib, node)
			}
		}
	}
	return node, ok
}

// H_msg of the specification
func (s *Spec) hmsg(rnd, root []*Term, idx *Poly, m []*Term) []*Term {
	var d []*Term
	d = append(d, s.toByte(pConstI(2), s.pl)...)
	d = append(d, rnd...)
	d = append(d, root...)
	d = append(d, s.toByte(idx, s.n)...)
	return s.H(append(d, m...))
}

// 1 the byte strings are equal, -1 they differ, 0 not known
func eqKnown(st *State, a, b []*Term) int {
	x, y := opaqueT("bytes", "", 0, a...), opaqueT("bytes", "", 0, b...)
	if x == y {
		return 1
	}
	if x.id > y.id {
		x, y = y, x
	}
	if d := st.facts.decide(mkTerm("byteseq", "", 0, 0, 1, false, x, y)); d != 0 {
		return d
	}
	all := true
	for i := range a {
		switch st.facts.decide(bEQ0(pSub(a[i].P, b[i].P))) {
		case -1:
			return -1
		case 0:
			all = false
		}
	}
	if all {
		return 1
	}
	return 0
}

type verifyCase struct {
	pa  Params
	idx []int64 // bytes of the index, nil if it is symbolic
	api bool    // through the function Verify
	// what was decoded into the key and the signature before
	used []Params
}

func (c verifyCase) String() string {
	s := c.pa.String()
	if c.idx != nil {
		s += fmt.Sprintf(" index %x", c.idx)
	}
	if c.api {
		s += " Verify"
	}
	for _, u := range c.used {
		s += " after " + u.String()
	}
	return s
}

func (r *Rep) verify(base *State, c verifyCase) {
	name := c.String()
	pa := c.pa
	sp := newSpec(pa)
	l1, l2, _ := sp.wotsLens()
	in := newInterp(r.P)
	in.Bounded = 8
	in.H.Call = chain(cutPrecompute(r.P), cutPkFromSig(r, (l1+l2)*sp.n))
	st := base.clone()
	r.P.setX4(st, false)
	hdr := r.header(in, st, pa)
	pk := symBytes(st, "pk", 4+2*pa.N)
	sig := symBytes(st, "sig", int64(sp.sigLen()))
	st.putBytes(pk, 0, hdr)
	st.putBytes(sig, 0, hdr)
	for i, b := range c.idx {
		st.putBytes(sig, 4+i, []*Term{intC(b, 8, false)})
	}
	pb, sb := st.bytesOf(pk), st.bytesOf(sig)
	root, pub := pb[4:4+sp.n], pb[4+sp.n:]
	sg := sp.split(sb)
	idx := beNum(sg.idx)
	// the message
	var os []Outcome
	var msg, rerr *Term
	if c.api {
		m := r.symBuf(st, "msg", 1<<40)
		msg = st.bytesTerm(m)
		os = in.Exec(st, nil, r.P.needFn("Verify"), []Val{pk, sig, m}, nil, nil)
	} else {
		rd := &Iface{Sym: mkTerm("sym", "reader", 0, 0, 0, false)}
		msg = opaqueT("stream", "", 0, st.valTerm(rd))
		rerr = opaqueT("readerr", "", 0, st.valTerm(rd))
		s1, pp := r.decodeOK(in, st, "PublicKey", pk, c.used...)
		s2, sp2 := r.decodeOK(in, s1, "Signature", sig, c.used...)
		os = in.Exec(s2, nil, r.P.needFn("PublicKey.VerifyFrom"), []Val{pp, sp2, rd}, nil, nil)
	}
	tag := opaqueT("ph", "", 0, opaqueT("bytes", "", 0, pub...), opaqueT("none", "", 0))
	r.judge(base, in, sp, name, os, func(st *State) (int, bool, string) {
		// without an error of the reader, the root must decide
		if !c.api {
			switch st.facts.decide(st.eqVal(&Iface{Sym: rerr}, NilV{})) {
			case -1:
				return -1, true, ""
			case 0:
				return 0, false, "the message was not read"
			}
		}
		if d := st.facts.decide(bGE0(pSub(idx, pConst(pow2(uint(pa.H)))))); d == 1 {
			return 0, true, ""
		}
		mh := sp.hmsg(sg.r, root, idx, []*Term{msg})
		want, ok := sp.recompute(st.facts, tag, pub, idx, sg, mh)
		if !ok {
			return 0, false, "the position is not known"
		}
		return eqKnown(st, want, root), true, r.seqDiff(st, want, root)
	})
	r.undecAll(in, "root", name)
}

// judge compares the outcomes of a verification with what is to be accepted
// in the state: 1 accept, -1 refuse, 0 either (and whether that is known)
func (r *Rep) judge(base *State, in *Interp, sp *Spec, name string, os []Outcome, want func(st *State) (int, bool, string)) {
	yes, no := 0, 0
	for _, o := range os {
		if o.Panic {
			r.viol("root", name, r.P.pos(o.Pos), "verification panics: %s", o.Why)
			continue
		}
		t, ok := o.Ret.(Tuple)
		if !ok || len(t) != 2 {
			r.undec("root", name, "", "unexpected result")
			continue
		}
		res := asBool(t[0])
		for _, v := range []bool{true, false} {
			s := o.St.clone()
			s.facts = s.facts.assume(res, v)
			if s.facts.bad {
				continue
			}
			e := errNil(s, t[1])
			if v {
				yes++
				r.check(e == 1, "error", name, "", "no error is returned with true")
				d, known, why := want(s)
				switch {
				case d == 1:
					r.ok("root", name, "accepted signatures have the root of the public key")
				case !known || d == 0:
					r.viol("root", name, "", "true is returned without the recomputed root of the specification being equal to the whole root of the public key %s; %s", pcString(s), why)
				default:
					r.viol("root", name, "", "true is returned although the root differs or the message could not be read %s; %s", pcString(s), why)
				}
				continue
			}
			no++
			r.check(e == -1, "error", name, "", "an error is returned with false")
			d, known, why := want(s)
			switch {
			case d == -1 || d == 0 && known && e == -1:
				r.ok("refuse", name, "only signatures with another root are refused")
			default:
				r.viol("refuse", name, "", "false may be returned although the recomputed root of the specification is that of the public key %s; %s", pcString(s), why)
			}
		}
	}
	r.check(yes > 0 && no > 0, "root", name, "", "both results of verification were analysed")
}

// Keys and signatures with different parameters.
func (r *Rep) mismatch(base *State, a, b Params) {
	name := a.String() + " " + b.String()
	in := newInterp(r.P)
	in.H.Call = chain(cutPrecompute(r.P))
	st := base.clone()
	r.P.setX4(st, false)
	sa, sb := newSpec(a), newSpec(b)
	l1, l2, _ := sa.wotsLens()
	in.H.Call = chain(cutPrecompute(r.P), cutPkFromSig(r, (l1+l2)*sa.n))
	pk := symBytes(st, "pk", 4+2*a.N)
	sig := symBytes(st, "sig", int64(sb.sigLen()))
	st.putBytes(pk, 0, r.header(in, st, a))
	st.putBytes(sig, 0, r.header(in, st, b))
	for i := 0; i < int(specSizes(b).index.Int64()); i++ {
		st.putBytes(sig, 4+i, []*Term{intC(0, 8, false)})
	}
	m := r.symBuf(st, "msg", 1<<40)
	for i, o := range in.Exec(st, nil, r.P.needFn("Verify"), []Val{pk, sig, m}, nil, nil) {
		if i > 8 {
			break
		}
		if o.Panic {
			r.viol("params", name, r.P.pos(o.Pos), "verification panics: %s", o.Why)
			continue
		}
		t := o.Ret.(Tuple)
		r.check(o.St.facts.decide(asBool(t[0])) == -1 && errNil(o.St, t[1]) == -1, "params", name, "", "a signature with other parameters is refused with an error")
	}
	r.undecAll(in, "params", name)
}

func idxBytes(v int64, n int) []int64 {
	b := make([]int64, n)
	for i := range b {
		if k := uint(8 * (n - 1 - i)); k < 64 {
			b[i] = v >> k & 255
		}
	}
	return b
}

func verifyCases(r *Rep) (cs []verifyCase) {
	// every position of small shapes, for every hash
	for _, pa := range tuples(16, 2, 1) {
		cs = append(cs, verifyCase{pa: pa})
	}
	for _, hd := range [][2]int64{{1, 1}, {4, 1}, {2, 2}, {4, 2}, {3, 3}} {
		cs = append(cs, verifyCase{pa: Params{0, 16, hd[0], hd[1], 256, 0}})
	}
	cs = append(cs, verifyCase{pa: Params{1, 32, 2, 2, 16, 0}, api: true}, verifyCase{pa: Params{0, 16, 2, 1, 4, 0}, api: true},
		verifyCase{pa: Params{2, 24, 1, 1, 256, 1}, api: true})
	// keys and signatures decoded into values which held others
	cs = append(cs, verifyCase{pa: Params{0, 16, 2, 2, 256, 0}, used: []Params{{0, 16, 2, 2, 256, 0}}},
		verifyCase{pa: Params{0, 16, 2, 1, 256, 0}, used: []Params{{1, 32, 4, 2, 16, 0}}},
		verifyCase{pa: Params{1, 24, 1, 1, 256, 1}, used: []Params{{1, 24, 2, 1, 256, 1}}})
	// selected positions of large ones
	add := func(pa Params, at ...int64) {
		for _, x := range at {
			cs = append(cs, verifyCase{pa: pa, idx: idxBytes(x, int(specSizes(pa).index.Int64()))})
		}
	}
	full := func(h int64) int64 { return int64(1)<<uint(h) - 1 }
	add(Params{0, 32, 60, 12, 16, 0}, 0, full(60), full(60)/3, full(60)/7)
	add(Params{0, 16, 60, 3, 256, 0}, full(60)/3, full(60)/5, 1<<59, 1<<31, 1<<32, 1<<20)
	add(Params{2, 24, 40, 2, 256, 1}, full(40), full(40)/3*2, 1<<32, 1<<20)
	add(Params{0, 16, 63, 7, 256, 0}, full(63), 1<<62, full(63)/3, full(63)/5)
	add(Params{0, 16, 63, 63, 256, 0}, full(63), full(63)/3, full(63)/5)
	add(Params{0, 16, 20, 1, 256, 0}, full(20), full(20)/3, 1<<19, 1<<16, 255<<8, 1)
	if r.Tier != "quick" {
		for h := int64(1); h <= 63; h++ {
			for d := int64(1); d <= h; d++ {
				if h%d != 0 || h/d > 27 {
					continue
				}
				pa := Params{0, 16, h, d, 256, 0}
				add(pa, full(h)/3)
			}
		}
		for k := 0; k < 60; k += 2 {
			add(Params{0, 16, 60, 3, 256, 0}, int64(1)<<uint(k), full(60)&^(int64(1)<<uint(k)))
		}
	}
	return
}

func runV01(r *Rep) {
	r.rule("root", "true is returned only if the root recomputed by the specification is the whole root of the public key", 60)
	r.rule("refuse", "false is returned only if it is not, or the message could not be read", 50)
	r.rule("error", "an error is returned with false and only then", 60)
	r.rule("params", "signatures with other parameters than the key are refused", 6)
	r.rule("pkFromSig", "recovered one-time public keys are those of the specification", 100)
	r.rule("H_msg", "the message hash is that of the specification", 4)
	base := r.initState()
	var jobs []func()
	var costs []int
	add := func(c int, f func()) { jobs = append(jobs, f); costs = append(costs, c) }
	for _, c := range verifyCases(r) {
		c := c
		if onlyTuple != "" && !strings.Contains(c.String(), onlyTuple) {
			continue
		}
		n := 1
		if c.idx == nil {
			n = 1 << uint(c.pa.H)
		}
		l1, l2, _ := newSpec(c.pa).wotsLens()
		add(n*int(c.pa.N)*int(c.pa.D)*(l1+l2+int(c.pa.H/c.pa.D)), func() { r.verify(base, c) })
	}
	t := Params{0, 32, 20, 2, 16, 0}
	for _, o := range []Params{{1, 32, 20, 2, 16, 0}, {0, 32, 20, 4, 16, 0}, {0, 32, 40, 2, 16, 0}, {0, 32, 20, 2, 4, 0}, {0, 32, 20, 2, 16, 1}, {0, 16, 20, 2, 16, 0}, {0, 32, 40, 4, 16, 0}} {
		o := o
		add(100, func() { r.mismatch(base, t, o) })
	}
	for _, pa := range []Params{{0, 16, 10, 1, 16, 0}, {1, 32, 10, 1, 4, 0}, {0, 24, 10, 1, 256, 1}, {0, 64, 10, 1, 16, 0}} {
		pa := pa
		add(200000, func() { r.wotsTuple(base, pa) })
		add(1000, func() { r.hashTuple(base, pa, false) })
	}
	r.each(len(jobs), func(i int) int { return costs[i] }, func(i int) { jobs[i]() })
	r.keep("root", "refuse", "error", "params", "pkFromSig", "H_msg", "F", "H", "PRF", "context")
}

var _ types.Type

// the comparison of byte strings a path depends on, compared with the one
// wanted
func (r *Rep) seqDiff(st *State, want, root []*Term) string {
	var res string
	seen := map[*Term]bool{}
	var walk func(t *Term, d int)
	walk = func(t *Term, d int) {
		if t == nil || seen[t] || d > 8 || res != "" {
			return
		}
		seen[t] = true
		if t.Op == "byteseq" {
			for _, a := range t.Args {
				if i, ok := sameBytes(a.Args, root); ok {
					continue
				} else if j, ok := sameBytes(a.Args, want); !ok {
					if j >= 0 {
						res = fmt.Sprintf("byte %d: %s", j, termDiff(a.Args[j], want[j], 0))
					} else {
						res = describe(a.Args, want, j)
					}
					_ = i
				}
			}
			return
		}
		for _, a := range t.Args {
			walk(a, d+1)
		}
		if t.P != nil {
			for _, m := range t.P.ms {
				for _, a := range m.as {
					walk(a, d+1)
				}
			}
		}
	}
	for _, c := range st.pc {
		walk(c, 0)
	}
	return res
}

// the first places where two terms differ
func termDiff(a, b *Term, d int) string {
	if a == b || d > 40 {
		return ""
	}
	if a.P != nil && b.P != nil && a.P != b.P {
		if len(a.P.ms) == len(b.P.ms) && a.P.c.Cmp(b.P.c) == 0 {
			for i := range a.P.ms {
				x, y := a.P.ms[i], b.P.ms[i]
				if len(x.as) == len(y.as) && x.c.Cmp(y.c) == 0 {
					for j := range x.as {
						if x.as[j] != y.as[j] {
							return termDiff(x.as[j], y.as[j], d+1)
						}
					}
				}
			}
		}
		return fmt.Sprintf("%s instead of %s", a.P.str(4), b.P.str(4))
	}
	if a.Op == "xorn" && b.Op == "xorn" {
		rest := func(a, b *Term) (r []*Term) {
			has := map[*Term]bool{}
			for _, x := range b.Args {
				has[x] = true
			}
			for _, x := range a.Args {
				if !has[x] {
					r = append(r, x)
				}
			}
			return
		}
		if x, y := rest(a, b), rest(b, a); len(x) == 1 && len(y) == 1 {
			return "xor " + termDiff(x[0], y[0], d+1)
		}
	}
	if a.Op == b.Op && a.Str == b.Str && len(a.Args) == len(b.Args) && a.n1 == b.n1 && a.n2 == b.n2 {
		for i := range a.Args {
			if a.Args[i] != b.Args[i] {
				return fmt.Sprintf("%s.%d ", a.Op, i) + termDiff(a.Args[i], b.Args[i], d+1)
			}
		}
	}
	return fmt.Sprintf("%s instead of %s", a.str(4), b.str(4))
}
