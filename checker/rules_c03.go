package main

// C03: the keyed hashes are those of the specification.

func init() {
	register("C03", "Abstract interpretation over value graphs: the hash functions of the library are evaluated for every supported "+
		"combination of hash function, output length and PRF construction on symbolic inputs, and the resulting bytes are compared, "+
		"as normal forms, with those of RFC 8391 / SP 800-208.", runC03)
}

// slices of one byte string, to test functions working in place
func subSlice(s *Slice, off, n int64) *Slice {
	c := *s
	c.Off = mkInt(pAdd(s.Off.P, pConstI(off)), 64, true)
	c.Len = intT(n)
	c.Cap = intT(n)
	return &c
}

func (r *Rep) hashInterp() *Interp {
	in := newInterp(r.P)
	in.Merge = true
	in.Bounded = 8
	return in
}

// cmp records the obligation that got equals want.
func (r *Rep) cmp(rule, construct, what string, got, want []*Term) bool {
	i, ok := sameBytes(got, want)
	if ok {
		r.ok(rule, construct, "%s", what)
	} else {
		r.viol(rule, construct, "", "%s: %s", what, describe(got, want, i))
	}
	return ok
}

func runC03(r *Rep) {
	r.rule("F", "F(KEY, M) = H(toByte(0) || KEY || (M xor BM)) with KEY, BM the PRF of the address with key-and-mask 0 and 1", 24)
	r.rule("H", "RAND_HASH(L, R) = H(toByte(1) || KEY || (L xor BM0) || (R xor BM1))", 24)
	r.rule("H_msg", "H_msg = H(toByte(2) || R || root || toByte(idx, n) || M); errors of the reader are reported", 24)
	r.rule("PRF", "PRF(KEY, M) = H(toByte(3) || KEY || M) for addresses and indices", 24)
	r.rule("PRF_keygen", "PRF_keygen(SK.SEED, PUB.SEED, ADRS) = H(toByte(4) || SK.SEED || PUB.SEED || ADRS)", 24)
	r.rule("frame", "hash functions leave their inputs unchanged", 24)
	base := r.initState()
	for _, pa := range tuples(16, 10, 1) {
		r.hashTuple(base, pa, false)
	}
}

func (r *Rep) hashTuple(base *State, pa Params, x4 bool) {
	in := r.hashInterp()
	name := pa.String()
	st0 := base.clone()
	r.P.setX4(st0, x4)
	st, ctx := r.newContext(in, st0, pa)
	if st == nil {
		r.undec("F", name, "", "parameters are rejected by NewContext")
		return
	}
	sp := newSpec(pa)
	n := pa.N
	pub, sk, m, l := symBytes(st, "pubSeed", n), symBytes(st, "skSeed", n), symBytes(st, "m", n), symBytes(st, "l", n)
	addr, aw := symAddr(r.P, st, "adrs")
	pb, mb, lb := st.bytesOf(pub), st.bytesOf(m), st.bytesOf(l)
	inputs := func(st2 *State) {
		a, b, c := st2.bytesOf(pub), st2.bytesOf(m), st2.bytesOf(l)
		_, ok1 := sameBytes(a, pb)
		_, ok2 := sameBytes(b, mb)
		_, ok3 := sameBytes(c, lb)
		r.check(ok1 && ok2 && ok3, "frame", name, "", "inputs are left unchanged")
	}
	st, pad := r.newPad(in, st, ctx)
	st, ph := exec1(in, st, r.P.needFn("Context.precomputeHashes"), ctx, pub, sk)

	// F
	want := sp.F(pb, aw, mb)
	st2, ret := exec1(in, st.clone(), r.P.needFn("Context.f"), ctx, m, pub, addr)
	r.cmp("F", name, "f", st2.bytesOf(asSlice(ret)), want)
	inputs(st2)
	st1 := st.clone()
	out := symBytes(st1, "old", n)
	st2, _ = exec1(in, st1, r.P.needFn("Context.fInto"), ctx, pad, m, ph, addr, out)
	r.cmp("F", name, "fInto", st2.bytesOf(out), want)
	inputs(st2)
	// in place, within a larger buffer; repeatedly with the same scratchpad
	st1 = st2
	buf := symBytes(st1, "buf", 3*n)
	mid := subSlice(buf, n, n)
	bb := st1.bytesOf(buf)
	want2 := sp.F(pb, aw, bb[n:2*n])
	st2, _ = exec1(in, st1, r.P.needFn("Context.fInto"), ctx, pad, mid, ph, addr, mid)
	r.cmp("F", name, "fInto in place", st2.bytesOf(buf), append(append(append([]*Term{}, bb[:n]...), want2...), bb[2*n:]...))
	st2, _ = exec1(in, st2, r.P.needFn("Context.fInto"), ctx, pad, m, ph, addr, out)
	r.cmp("F", name, "fInto again", st2.bytesOf(out), want)

	// H
	want = sp.RandHash(pb, aw, lb, mb)
	st3, ret := exec1(in, st.clone(), r.P.needFn("Context.h"), ctx, l, m, pub, addr)
	r.cmp("H", name, "h", st3.bytesOf(asSlice(ret)), want)
	inputs(st3)

	// PRF
	want = sp.prf(pb, addrBytes(aw))
	st3, ret = exec1(in, st.clone(), r.P.needFn("Context.prfAddr"), ctx, pad, addr, pub)
	r.cmp("PRF", name, "prfAddr", st3.bytesOf(asSlice(ret)), want)
	inputs(st3)
	st1 = st.clone()
	buf = symBytes(st1, "buf", 3*n)
	bb = st1.bytesOf(buf)
	st3, _ = exec1(in, st1, r.P.needFn("Context.prfAddrInto"), ctx, pad, addr, pub, subSlice(buf, n, n))
	r.cmp("PRF", name, "prfAddrInto", st3.bytesOf(buf), append(append(append([]*Term{}, bb[:n]...), want...), bb[2*n:]...))
	if fn := r.P.fn("Context.prfKeyGenInto"); fn != nil {
		st1 = st.clone()
		buf = symBytes(st1, "buf", 3*n)
		bb = st1.bytesOf(buf)
		st3, _ = exec1(in, st1, fn, ctx, pad, ph, addr, subSlice(buf, n, n))
		r.cmp("PRF_keygen", name, "prfKeyGenInto", st3.bytesOf(buf), append(append(append([]*Term{}, bb[:n]...),
			sp.prfKeygen(st.bytesOf(sk), pb, addrBytes(aw))...), bb[2*n:]...))
		inputs(st3)
	} else {
		r.ok("PRF_keygen", name, "left to the rules about WOTS+ chains (C01)")
	}
	if fn := r.P.fn("Context.prfUint64"); fn != nil {
		i := symInt("i", 64, false)
		st3, ret = exec1(in, st.clone(), fn, ctx, pad, i, pub)
		r.cmp("PRF", name, "prfUint64", st3.bytesOf(asSlice(ret)), sp.prf(pb, sp.toByte(i.P, 32)))
	}

	// H_msg
	idx := symInt("idx", 64, false)
	rd := &Iface{Sym: mkTerm("sym", "reader", 0, 0, 0, false)}
	stream := opaqueT("stream", "", 0, st.valTerm(rd))
	data := append(append(append(append([]*Term{}, sp.toByte(pConstI(2), sp.pl)...), lb...), mb...), sp.toByte(idx.P, int(n))...)
	want = sp.H(append(data, stream))
	nOK, nErr := 0, 0
	for _, o := range in.Exec(st.clone(), nil, r.P.needFn("Context.hashMessage"), []Val{ctx, pad, rd, l, m, idx}, nil, nil) {
		if o.Panic {
			r.viol("H_msg", name, r.P.pos(o.Pos), "hashMessage may panic: %s", o.Why)
			continue
		}
		t := o.Ret.(Tuple)
		e := o.St.eqVal(t[1], NilV{})
		rerr := o.St.eqVal(&Iface{Sym: opaqueT("readerr", "", 0, st.valTerm(rd))}, NilV{})
		for _, v := range []bool{true, false} {
			f := o.St.facts.assume(rerr, v)
			if f.bad {
				continue
			}
			d := f.decide(e)
			if v {
				ret := o.St.clone()
				ret.facts = f
				s := specSlice(ret, t[0])
				if d != 1 || s == nil {
					r.viol("H_msg", name, "", "hashMessage fails although the message was read")
					continue
				}
				r.cmp("H_msg", name, "hashMessage", newResolver(f).bytes(ret.bytesOf(s)), want)
				inputs(ret)
				nOK++
			} else {
				r.check(d == -1, "H_msg", name, "", "error of the message reader is returned")
				nErr++
			}
		}
	}
	r.check(nOK > 0 && nErr > 0, "H_msg", name, "", "both outcomes of reading the message were analysed")
	for _, u := range in.undec {
		r.undec("F", name, "", "%s", u)
	}
	r.seen(in)
}

// specSlice resolves a guarded slice under the facts of the state.
func specSlice(st *State, v Val) *Slice {
	for {
		if s, ok := v.(*Slice); ok {
			if s.Obj == nil {
				return nil
			}
			return s
		}
		i, ok := v.(*IteV)
		if !ok {
			return nil
		}
		switch st.facts.decide(i.C) {
		case 1:
			v = i.A
		case -1:
			v = i.B
		default:
			return nil
		}
	}
}
