package main

// E02, E03: encodings of signatures and public keys.

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("E02", "Abstract interpretation of decoder and encoder of signatures: symbolic bytes are decoded and encoded again for representative parameters, with symbolic lengths for all; "+
		"the positions of the fields are those verification, compared with RFC 8391, uses them at.", runE02)
	register("E03", "Abstract interpretation of decoder and encoder of public keys: symbolic bytes are decoded and encoded again, as text too, with symbolic lengths; "+
		"the positions of the fields are those verification uses them at.", runE03)
}

// texts made by an encoding are only known as those of their bytes
func init() {
	enc := func(st *State, e Val, b *Term) []*Term {
		n := len(b.Args)
		return uiBytes("b64", (n+2)/3*4, st.valTerm(e), b)
	}
	known := func(st *State, v Val) *Term {
		s := asSlice(v)
		if s == nil {
			return nil
		}
		b := st.bytesTerm(s)
		if b.Op != "bytes" {
			return nil
		}
		return b
	}
	// bytes a text is the encoding of
	dec := func(st *State, e Val, t *Term) *Term {
		if t.Op != "bytes" || len(t.Args) == 0 {
			return nil
		}
		var src *Term
		for i, x := range t.Args {
			if x.P == nil {
				return nil
			}
			a, ok := x.P.single()
			if !ok || a.Op != "val" || a.Args[0].Op != "sel" || a.Args[0].n1 != i || a.Args[0].Args[0].Op != "b64" {
				return nil
			}
			b := a.Args[0].Args[0]
			if b.Args[0] != st.valTerm(e) || src != nil && src != b.Args[1] {
				return nil
			}
			src = b.Args[1]
		}
		if len(t.Args) != (len(src.Args)+2)/3*4 {
			return nil
		}
		return src
	}
	const E = "(*encoding/base64.Encoding)."
	intrinsics[E+"EncodeToString"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		b := known(st, cs.Args[1])
		if b == nil {
			return nil, false
		}
		return ret1(st, opaqueT("string", "", 0, opaqueT("bytes", "", 0, enc(st, cs.Args[0], b)...))), true
	}
	intrinsics[E+"Encode"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		d, b := asSlice(cs.Args[1]), known(st, cs.Args[2])
		if b == nil || d == nil {
			return nil, false
		}
		t := enc(st, cs.Args[0], b)
		in.boundsCheck(st, fr, cs.Instr, pConstI(int64(len(t)-1)), d.Len.P)
		st.putBytes(d, 0, t)
		return ret1(st, Tuple{}), true
	}
	intrinsics[E+"EncodedLen"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		n := st.intOf(cs.Args[1])
		if n < 0 {
			return nil, false
		}
		return ret1(st, intT((n+2)/3*4)), true
	}
	intrinsics[E+"DecodeString"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		t, ok := cs.Args[1].(*Term)
		if !ok {
			return nil, false
		}
		if t.Op == "string" {
			if src := dec(st, cs.Args[0], t.Args[0]); src != nil {
				return ret1(st, Tuple{st.sliceFromBytes(src, u8()), NilV{}}), true
			}
		}
		// some bytes and perhaps an error
		n := freshName("decoded")
		s := symBytes(st, n, 1<<33)
		s.Len = symRange(n+".len", 64, true, 0, 1<<33)
		s.Cap = s.Len
		return ret1(st, Tuple{s, &Iface{Sym: fresh("b64err")}}), true
	}
}

func codecTuples() []Params {
	return []Params{{0, 16, 4, 1, 256, 0}, {1, 32, 4, 2, 16, 0}, {0, 24, 9, 3, 256, 1}, {2, 32, 63, 63, 256, 0}, {0, 64, 10, 5, 16, 0},
		{1, 16, 33, 3, 4, 0}, {0, 32, 20, 1, 16, 0}, {0, 16, 60, 3, 256, 0}, {2, 24, 1, 1, 256, 1}, {0, 16, 8, 2, 4, 1}}
}

// the parameters of what is decoded, and of what was decoded before
func usedTuples() [][]Params {
	a, b, c := Params{0, 16, 4, 2, 256, 0}, Params{1, 32, 6, 3, 16, 0}, Params{0, 24, 2, 1, 4, 1}
	return [][]Params{{a, a}, {a, b}, {b, a}, {b, c, b}, {c, a}, {c, c}}
}

// decoding and encoding again
func (r *Rep) reencode(base *State, typ string, pa Params, n int, used ...Params) {
	name := typ + " " + pa.String()
	for _, u := range used {
		name += " after " + u.String()
	}
	in := newInterp(r.P)
	in.H.Call = cutPrecompute(r.P)
	st := base.clone()
	r.P.setX4(st, false)
	hdr := r.header(in, st, pa)
	buf := symBytes(st, "in", int64(n))
	st.putBytes(buf, 0, hdr)
	want := st.allBytes(buf)
	s1, p := r.decodeOK(in, st, typ, buf, used...)
	d := r.paramsDiff(s1, r.ctxParams(s1, r.ctxOf(in, s1, typ, p)), r.P.paramsVal(s1, pa))
	r.check(d == "", "params", name, "", "the parameters are those of the header%s", pre(": ", d))
	_, same := sameBytes(s1.allBytes(buf), want)
	r.check(same, "decode", name, "", "the encoding is not changed by decoding it")
	marshalled := 0
	for _, o := range r.outcomes(in, s1.clone(), "decode", name, typ+".MarshalBinary", p) {
		t := o.Ret.(Tuple)
		if errNil(o.St, t[1]) != 1 {
			r.viol("decode", name, "", "what was decoded may not be encoded again %s", pcString(o.St))
			continue
		}
		s := specSlice(o.St, t[0])
		if s == nil {
			r.undec("decode", name, "", "encoding is not known")
			continue
		}
		marshalled++
		r.cmp("decode", name, "encoding of the decoded value", o.St.allBytes(s), want)
	}
	r.check(marshalled > 0, "decode", name, "", "what was decoded is encoded again")
	// into a larger buffer
	big := symBytes(s1, "big", int64(n+16))
	old := s1.allBytes(big)
	for _, o := range r.outcomes(in, s1.clone(), "into", name, typ+".WriteInto", p, subSlice(big, 5, int64(n+3))) {
		if errNil(o.St, o.Ret) != 1 {
			r.viol("into", name, "", "writing to a large buffer fails %s", pcString(o.St))
			continue
		}
		w := append(append(append([]*Term{}, old[:5]...), want...), old[5+n:]...)
		r.cmp("into", name, "WriteInto", o.St.allBytes(big), w)
	}
	if typ == "Signature" {
		sg := newSpec(pa).split(want)
		_, v := exec1(in, s1.clone(), r.P.needFn("Signature.SeqNo"), p)
		t, _ := v.(*Term)
		r.check(t != nil && t.P == mkInt(beNum(sg.idx), 64, false).P, "seqno", name, "", "the sequence number is the big endian number after the parameters")
	} else {
		r.textTrip(in, s1, name, p, want, used)
	}
	r.undecAll(in, "decode", name)
}

func (r *Rep) ctxOf(in *Interp, st *State, typ string, p Val) Val {
	_, v := exec1(in, st.clone(), r.P.needFn(typ+".Context"), p)
	return v
}

func (r *Rep) textTrip(in *Interp, st *State, name string, p Val, want []*Term, used []Params) {
	n := 0
	for _, o := range r.outcomes(in, st.clone(), "text", name, "PublicKey.MarshalText", p) {
		t := o.Ret.(Tuple)
		s := specSlice(o.St, t[0])
		if errNil(o.St, t[1]) != 1 || s == nil {
			r.viol("text", name, "", "a public key may have no text %s", pcString(o.St))
			continue
		}
		q, so := r.alloc(o.St, "other", r.P.namedType("PublicKey")), o.St
		for i, u := range used {
			old := symBytes(so, fmt.Sprintf("usedtext%d", i), 4+2*u.N)
			so.putBytes(old, 0, r.header(in, so, u))
			so = r.decodeInto(in, so, "PublicKey", q, old)
		}
		for _, u := range r.outcomes(in, so, "text", name, "PublicKey.UnmarshalText", q, s) {
			if errNil(u.St, u.Ret) != 1 {
				r.viol("text", name, "", "the text of a public key may be refused %s", pcString(u.St))
				continue
			}
			for _, w := range r.outcomes(in, u.St, "text", name, "PublicKey.MarshalBinary", q) {
				if b := specSlice(w.St, w.Ret.(Tuple)[0]); b != nil {
					n++
					r.cmp("text", name, "key read from its text", w.St.bytesOf(b), want)
				}
			}
		}
	}
	r.check(n > 0, "text", name, "", "text of a public key is read back")
}

// byte strings of any length
func (r *Rep) lengths(base *State, typ string, pa Params, n int64, text bool) {
	name := typ + " " + pa.String()
	in := newInterp(r.P)
	in.H.Call = cutPrecompute(r.P)
	st := base.clone()
	r.P.setX4(st, false)
	hdr := r.header(in, st, pa)
	buf := r.symBuf(st, "buf", 1<<33)
	st.putBytes(buf, 0, hdr)
	p := r.alloc(st, strings.ToLower(typ), r.P.namedType(typ))
	good := 0
	if !text {
		guardLen = buf.Len.P
		defer func() { guardLen = nil }()
	}
	for _, o := range r.outcomes(in, st, "length", name, typ+".UnmarshalBinary", p, buf) {
		switch errNil(o.St, o.Ret) {
		case 1:
			if o.St.facts.decide(bEQ0(pSub(buf.Len.P, pConstI(n)))) == 1 {
				good++
				r.ok("length", name, "only the right length is accepted")
			} else {
				r.viol("length", name, "", "a byte string which may be shorter or longer than %d bytes is accepted %s", n, pcString(o.St))
			}
		case -1:
			if o.St.facts.decide(bEQ0(pSub(buf.Len.P, pConstI(n)))) == -1 {
				r.ok("length", name, "others are refused")
			} else {
				r.viol("length", name, "", "a byte string of %d bytes may be refused %s", n, pcString(o.St))
			}
		default:
			r.undec("length", name, "", "result is not known %s", pcString(o.St))
		}
	}
	r.check(good > 0, "length", name, "", "the right length is accepted")
	r.undecAll(in, "length", name)
}

// headers which encode no parameters
func (r *Rep) badHeaders(base *State, typ string) {
	in := newInterp(r.P)
	in.H.Call = cutPrecompute(r.P)
	for _, h := range []int64{0, 1, 0xffffffff, 0xea000000, 0xeaffffff, 0x00ea0000} {
		name := fmt.Sprintf("%s %08x", typ, h)
		st := base.clone()
		r.P.setX4(st, false)
		buf := r.symBuf(st, "buf", 1<<33)
		st.putBytes(buf, 0, beBytes(pConstI(h), 4))
		// is it the encoding of parameters?
		s2 := st.clone()
		pp := r.alloc(s2, "params", r.P.namedType("Params"))
		hb := symBytes(s2, "hdr", 4)
		s2.putBytes(hb, 0, beBytes(pConstI(h), 4))
		valid := true
		for _, o := range r.outcomes(in, s2, "header", name, "Params.UnmarshalBinary", pp, hb) {
			if errNil(o.St, o.Ret) == -1 {
				valid = false
			}
		}
		p := r.alloc(st, strings.ToLower(typ), r.P.namedType(typ))
		ok := true
		for _, o := range r.outcomes(in, st, "header", name, typ+".UnmarshalBinary", p, buf) {
			if errNil(o.St, o.Ret) != -1 && !valid {
				ok = false
			}
		}
		r.check(ok, "header", name, "", "invalid parameters are refused")
	}
	r.undecAll(in, "header", typ)
}

func (r *Rep) codecRules() {
	r.rule("params", "the decoded parameters are those encoded", 6)
	r.rule("decode", "what was decoded is encoded to the same bytes", 6)
	r.rule("into", "writing into a buffer writes the encoding and nothing else", 6)
	r.rule("length", "exactly the length demanded by the parameters is accepted", 20)
	r.rule("header", "invalid parameters are refused", 6)
	r.rule("root", "verification uses the fields at the positions of the specification", 6)
}

func runE02(r *Rep) {
	r.codecRules()
	r.rule("seqno", "the sequence number is the number encoded", 6)
	base := r.initState()
	var jobs []func()
	var costs []int
	add := func(c int, f func()) { jobs = append(jobs, f); costs = append(costs, c) }
	for _, pa := range codecTuples() {
		pa := pa
		n := newSpec(pa).sigLen()
		add(n, func() { r.reencode(base, "Signature", pa, n) })
	}
	// into a value which held another
	for _, u := range usedTuples() {
		n := newSpec(u[0]).sigLen()
		add(n, func() { r.reencode(base, "Signature", u[0], n, u[1:]...) })
	}
	for _, pa := range r.lengthTuples() {
		pa := pa
		add(100, func() { r.lengths(base, "Signature", pa, int64(newSpec(pa).sigLen()), false) })
	}
	add(100, func() { r.badHeaders(base, "Signature") })
	for _, c := range []verifyCase{{pa: Params{0, 16, 4, 2, 256, 0}}, {pa: Params{0, 32, 2, 1, 16, 0}}, {pa: Params{0, 24, 2, 2, 256, 1}},
		{pa: Params{0, 16, 2, 2, 256, 0}, used: []Params{{0, 16, 2, 2, 256, 0}}}, {pa: Params{0, 16, 2, 1, 16, 0}, used: []Params{{1, 32, 4, 2, 256, 0}}}} {
		c := c
		add(20000, func() { r.verify(base, c) })
	}
	r.each(len(jobs), func(i int) int { return costs[i] }, func(i int) { jobs[i]() })
	r.keep("params", "decode", "into", "length", "header", "root", "refuse", "seqno")
}

func (r *Rep) lengthTuples() (ps []Params) {
	for _, w := range []int64{4, 16, 256} {
		ps = append(ps, tuples(w, 20, 2)...)
	}
	for _, hd := range [][2]int64{{1, 1}, {10, 1}, {20, 1}, {63, 63}, {63, 3}, {60, 12}, {8, 1}, {9, 3}, {16, 2}, {17, 17}, {56, 4}} {
		ps = append(ps, Params{0, 32, hd[0], hd[1], 16, 0})
	}
	return
}

func runE03(r *Rep) {
	r.codecRules()
	r.rule("text", "the text of a key is read back as the key", 6)
	r.rule("derived", "the public key of a private key has its seed and root", 4)
	base := r.initState()
	var jobs []func()
	var costs []int
	add := func(c int, f func()) { jobs = append(jobs, f); costs = append(costs, c) }
	for _, pa := range append(tuples(16, 20, 2), codecTuples()...) {
		pa := pa
		add(10, func() { r.reencode(base, "PublicKey", pa, int(4+2*pa.N)) })
		add(10, func() { r.lengths(base, "PublicKey", pa, 4+2*pa.N, false) })
	}
	for _, u := range usedTuples() {
		add(20, func() { r.reencode(base, "PublicKey", u[0], int(4+2*u[0].N), u[1:]...) })
	}
	add(100, func() { r.badHeaders(base, "PublicKey") })
	for _, c := range []verifyCase{{pa: Params{0, 16, 4, 2, 256, 0}}, {pa: Params{0, 32, 2, 1, 16, 0}}, {pa: Params{0, 24, 2, 2, 256, 1}},
		{pa: Params{0, 16, 2, 2, 256, 0}, used: []Params{{0, 16, 2, 2, 256, 0}}}, {pa: Params{0, 16, 2, 1, 16, 0}, used: []Params{{1, 32, 4, 2, 256, 0}}}} {
		c := c
		add(20000, func() { r.verify(base, c) })
	}
	for _, pa := range []Params{{0, 16, 4, 2, 256, 0}, {1, 32, 20, 1, 16, 0}, {0, 24, 40, 4, 16, 1}, {1, 64, 60, 3, 16, 0}} {
		pa := pa
		add(10, func() { r.derived(base, pa) })
	}
	r.each(len(jobs), func(i int) int { return costs[i] }, func(i int) { jobs[i]() })
	r.keep("params", "decode", "into", "length", "header", "root", "refuse", "text", "derived")
}

// the public key of a private key
func (r *Rep) derived(base *State, pa Params) {
	name := pa.String()
	in := newInterp(r.P)
	in.H.Call = cutPrecompute(r.P)
	st := base.clone()
	r.P.setX4(st, false)
	hdr := r.header(in, st, pa)
	st, ctx := r.newContext(in, st, pa)
	t := r.P.namedType("PrivateKey")
	sk := r.alloc(st, "sk", t)
	pub, root := symBytes(st, "pubSeed", pa.N), symBytes(st, "root", pa.N)
	if !st.setField(sk, t, "ctx", ctx) || !st.setField(sk, t, "pubSeed", pub) || !st.setField(sk, t, "root", root) {
		r.undec("derived", name, "", "fields of PrivateKey not found")
		return
	}
	want := append(append(hdr, st.bytesOf(root)...), st.bytesOf(pub)...)
	n := 0
	for _, o := range r.outcomes(in, st, "derived", name, "PrivateKey.PublicKey", sk) {
		for _, w := range r.outcomes(in, o.St, "derived", name, "PublicKey.MarshalBinary", o.Ret) {
			if b := specSlice(w.St, w.Ret.(Tuple)[0]); b != nil && errNil(w.St, w.Ret.(Tuple)[1]) == 1 {
				n++
				r.cmp("derived", name, "public key of a private key", w.St.bytesOf(b), want)
			} else {
				r.viol("derived", name, "", "the public key of a private key may not be encoded")
			}
		}
	}
	r.check(n > 0, "derived", name, "", "public key of a private key is encoded")
	r.undecAll(in, "derived", name)
}

var _ = types.Typ

// bytes of a slice of known length, however long
func (st *State) allBytes(s *Slice) []*Term {
	n, ok := st.facts.norm(s.Len.P).constI()
	if !ok {
		return nil
	}
	a := sliceAgg(st, s)
	r := make([]*Term, n)
	for i := range r {
		r[i] = st.byteOf(a, pAdd(s.Off.P, pConstI(int64(i))))
	}
	return r
}
