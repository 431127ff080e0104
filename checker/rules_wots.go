package main

import "fmt"

func init() {
	register("C01", "Abstract interpretation over value graphs with the chaining function F uninterpreted (it is decided by C03): key generation, "+
		"signing and verification of WOTS+ are evaluated on symbolic seeds, message, address and signature; every chain is compared "+
		"with the specification for every value of its digit.", runC01)
}

func (r *Rep) wotsInterp() *Interp {
	in := newInterp(r.P)
	in.Merge = true
	in.Bounded = 300
	in.H.Call = chain(cutPrecompute(r.P), cutF(r.P))
	return in
}

// parameters for which WOTS+ is decided; with W=256 chains are long, so that
// only one choice per output length is part of the quick check
func wotsTuples(r *Rep) (ps []Params) {
	for _, w := range []int64{16, 4, 256} {
		for _, pa := range tuples(w, 10, 1) {
			if w == 256 && r.Tier == "quick" && onlyTuple == "" {
				k := fmt.Sprint(pa.Func, pa.N, pa.Prf)
				if k != "0 16 0" && k != "0 24 1" {
					continue
				}
			}
			// other hash functions differ in F alone
			if w == 4 && r.Tier == "quick" && onlyTuple == "" && pa.Func != 0 {
				continue
			}
			ps = append(ps, pa)
		}
	}
	return
}

func runC01(r *Rep) {
	r.rule("pkGen", "every chain of the public key is F applied w-1 times to the PRF_keygen of its address", 800)
	r.rule("sign", "every chain of the signature is F applied digit times", 800)
	r.rule("pkFromSig", "every chain of the recovered public key is F applied w-1-digit times, from step digit on", 800)
	base := r.initState()
	ps := wotsTuples(r)
	r.each(len(ps), func(i int) int { return int(ps[i].N * ps[i].N * (30 + ps[i].W)) }, func(i int) { r.wotsTuple(base, ps[i]) })
}

func (r *Rep) wotsTuple(base *State, pa Params) {
	in := r.wotsInterp()
	st0 := base.clone()
	r.P.setX4(st0, false)
	st, ctx := r.newContext(in, st0, pa)
	if st == nil {
		r.undec("context", pa.String(), "", "rejected")
		return
	}
	sp := newSpec(pa)
	len1, len2, _ := sp.wotsLens()
	n := int(pa.N)
	name := pa.String()
	pub := symBytes(st, "pubSeed", pa.N)
	sk := symBytes(st, "skSeed", pa.N)
	msg := symBytes(st, "msg", pa.N)
	addr, aw := symAddr(r.P, st, "adrs")
	pb, sb, mb := st.bytesOf(pub), st.bytesOf(sk), st.bytesOf(msg)
	st, pad := r.newPad(in, st, ctx)
	lens := sp.chainLengths(mb)
	secret := func(i int) []*Term {
		a := withWord(withWord(withWord(aw, 5, pConstI(int64(i))), 6, pZero), 7, pZero)
		return sp.prfKeygen(sb, pb, addrBytes(a))
	}
	tag := opaqueT("ph", "", 0, opaqueT("bytes", "", 0, pb...), opaqueT("bytes", "", 0, sb...))
	chainF := func(x []*Term, i, from, to int) []*Term {
		for k := from; k < to; k++ {
			x = uiF(tag, withWord(withWord(aw, 5, pConstI(int64(i))), 6, pConstI(int64(k))), x)
		}
		return x
	}
	W := int(pa.W)
	L := len1 + len2
	perChain := func(rule, what string, st *State, all []*Term, want func(i, d int) []*Term, digits bool) {
		if !r.check(len(all) == n*L, rule, name, "", "length of %s", what) {
			return
		}
		for i := 0; i < L; i++ {
			bad := ""
			for d := 0; d < W && bad == ""; d++ {
				got := sliceOf(all, i, n)
				if digits {
					f := st.facts.assume(bEQ0(pSub(lens[i], pConstI(int64(d)))), true)
					if f.bad {
						continue
					}
					got = newResolver(f).bytes(got)
				}
				w := want(i, d)
				if k, ok := sameBytes(got, w); !ok {
					bad = describe(got, w, k)
					if digits {
						bad = fmt.Sprintf("digit %d: %s", d, bad)
					}
				}
				if !digits {
					break
				}
			}
			if bad != "" {
				r.viol(rule, name+fmt.Sprintf(" chain %d", i), "", "%s: %s", what, bad)
			} else {
				r.ok(rule, name+fmt.Sprintf(" chain %d", i), "%s", what)
			}
		}
	}
	// public key
	st, ph := r.precompute(in, st, ctx, pub, sk)
	st2, ret := exec1(in, st.clone(), r.P.needFn("Context.wotsPkGen"), ctx, pad, ph, addr)
	full := make([][]*Term, L)
	perChain("pkGen", "WOTS+ public key", st2, st2.bytesOf(asSlice(ret)), func(i, _ int) []*Term {
		full[i] = chainF(secret(i), i, 0, W-1)
		return full[i]
	}, false)
	// signature
	memo := make([]map[int][]*Term, L)
	st2, ret = exec1(in, st.clone(), r.P.needFn("Context.wotsSign"), ctx, pad, msg, pub, sk, addr)
	perChain("sign", "WOTS+ signature", st2, st2.bytesOf(asSlice(ret)), func(i, d int) []*Term {
		if memo[i] == nil {
			memo[i] = map[int][]*Term{0: secret(i)}
		}
		for k := 1; k <= d; k++ {
			if memo[i][k] == nil {
				memo[i][k] = chainF(memo[i][k-1], i, k-1, k)
			}
		}
		return memo[i][d]
	}, true)
	// public key from signature
	sig := symBytes(st, "sig", int64(n*L))
	gb := st.bytesOf(sig)
	steps := make([][][]*Term, L)
	st2, ret = exec1(in, st.clone(), r.P.needFn("Context.wotsPkFromSig"), ctx, pad, sig, msg, ph, addr)
	perChain("pkFromSig", "WOTS+ public key from signature", st2, st2.bytesOf(asSlice(ret)), func(i, d int) []*Term {
		// the address of a step is its digit plus the number of steps before
		// it, whatever the digit is
		for len(steps[i]) <= W-1-d {
			k := len(steps[i])
			if k == 0 {
				steps[i] = append(steps[i], sliceOf(gb, i, n))
				continue
			}
			steps[i] = append(steps[i], uiF(tag, withWord(withWord(aw, 5, pConstI(int64(i))), 6, pAdd(lens[i], pConstI(int64(k-1)))), steps[i][k-1]))
		}
		x := steps[i][W-1-d]
		return x
	}, true)
	for _, u := range in.undec {
		r.undec("sign", name, "", "%s", u)
	}
	r.seen(in)
}
