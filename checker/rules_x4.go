package main

// C02: the vectorised paths compute what the portable ones do.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", "Abstract interpretation over value graphs with the fourway implementation enabled: the fourway PRF and F are evaluated for every "+
		"subset of active lanes and compared with four applications of the specification (Keccak-f[1600] uninterpreted), all other "+
		"parameters are evaluated to check they do not use it, WOTS+ is evaluated with fourway chains, and the assembly of the permutation is "+
		"interpreted on symbolic lanes and compared with the rounds of Keccak-f[1600].", runC02)
}

// the assembly permutation on four interleaved states
func (r *Rep) hookX4(rem int64) func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
	return func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		if cs.Fn == nil || len(cs.Fn.Blocks) > 0 || cs.Fn.Pkg == nil || !strings.HasSuffix(cs.Fn.Pkg.Pkg.Path(), "internal/f1600x4") || len(cs.Args) != 2 {
			return nil, false
		}
		p, ok := cs.Args[0].(*Ptr)
		rc, ok2 := cs.Args[1].(*Ptr)
		if !ok || !ok2 || len(p.Path) == 0 {
			in.undecided("arguments of %s", cs.Name)
			return nil, false
		}
		last := p.Path[len(p.Path)-1]
		off, isC := st.facts.norm(last.Idx).constI()
		if !isC {
			in.undecided("offset of the state passed to %s", cs.Name)
			return nil, false
		}
		r.check((off+rem)%4 == 0, "align", "state passed to the assembly", "", "is aligned to 32 bytes")
		r.check(rc.Obj.Global, "align", "round constants passed to the assembly", "", "are the package's table")
		arr := &Ptr{p.Obj, p.Path[:len(p.Path)-1]}
		a, ok := st.load(arr).(*Agg)
		if !ok || int(off)+100 > a.N {
			r.viol("align", "state passed to the assembly", "", "has less than 100 lanes")
			return nil, false
		}
		for j := int64(0); j < 4; j++ {
			lanes := make([]*Poly, 25)
			for i := range lanes {
				lanes[i] = a.get(st, pConstI(off+4*int64(i)+j)).(*Term).P
			}
			for i, v := range keccakF(lanes) {
				st.store(&Ptr{p.Obj, append(append([]PE{}, arr.Path...), PE{Idx: pConstI(off + 4*int64(i) + j)})}, mkInt(v, 64, false))
			}
		}
		return ret1(st, Tuple{}), true
	}
}

func x4Params(pa Params) bool { return pa.Func == 1 && pa.Prf == 0 && (pa.N == 16 || pa.N == 32) }

func runC02(r *Rep) {
	r.rule("prf", "every active lane of the fourway PRF equals the PRF, inactive lanes are untouched", 32)
	r.rule("F", "every active lane of the fourway F equals F, in place and out of place; inactive lanes are untouched", 32)
	r.rule("portable", "hash functions with the fourway implementation available", 24)
	r.rule("chains", "WOTS+ with fourway chains", 10)
	r.rule("asm", "assembly of the permutation", 100)
	r.rule("cpu", "the fourway implementation is only available on processors with AVX2", 1)
	r.rule("align", "memory passed to the assembly", 2)
	if r.part == 0 {
		r.x4Asm()
		r.x4CPU()
	}
	base := r.initState()
	var jobs []func()
	var cost []int
	for rem := int64(0); rem < 4; rem++ {
		for _, n := range []int64{16, 32} {
			rem, n := rem, n
			if rem != 0 && n != 16 {
				continue
			}
			jobs = append(jobs, func() { r.x4Unit(base, Params{1, n, 10, 1, 16, 0}, rem, rem == 0) })
			cost = append(cost, 10)
		}
	}
	for _, pa := range tuples(16, 10, 1) {
		pa := pa
		jobs = append(jobs, func() { r.x4Hash(base, pa) })
		cost = append(cost, 2)
	}
	for _, w := range []int64{4, 16, 256} {
		for _, n := range []int64{16, 32} {
			pa := Params{1, n, 10, 1, w, 0}
			jobs = append(jobs, func() { r.x4Chains(base, pa, -1) })
			cost = append(cost, 10*int(w))
			for k := range x4Messages(pa) {
				k := k
				jobs = append(jobs, func() { r.x4Chains(base, pa, k) })
				cost = append(cost, 10*int(w))
			}
		}
	}
	r.each(len(jobs), func(i int) int { return cost[i] }, func(i int) { jobs[i]() })
}

// The assembly consists of AVX2 instructions (see x4Asm): availability has to
// imply that the processor, and operating system, support those.
func (r *Rep) x4CPU() {
	g, c := r.P.global("internal/f1600x4", "Available"), r.P.global("golang.org/x/sys/cpu", "X86")
	if g == nil {
		r.undec("cpu", "Available", "", "there is no variable telling whether the fourway implementation can be used")
		return
	}
	if c == nil {
		r.undec("cpu", "Available", "", "golang.org/x/sys/cpu is not used to detect the features of the processor")
		return
	}
	for _, m := range r.P.repoFuncs() {
		if m.Pkg == g.Pkg && strings.HasPrefix(m.Name(), "init") {
			continue
		}
		for _, b := range m.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && s.Addr == g {
					r.viol("cpu", "Available", r.P.ipos(ins), "is set by %s", fnName(m))
					return
				}
			}
		}
	}
	st := r.initPkg(g.Pkg)
	co := r.P.globalObj(c)
	i := fieldIdx(co.T, "HasAVX2")
	if i < 0 {
		r.undec("cpu", "Available", "", "cpu.X86 has no field HasAVX2")
		return
	}
	has, ok := st.load(&Ptr{Obj: co, Path: []PE{{F: i}}}).(*Term)
	av, ok2 := st.load(&Ptr{Obj: r.P.globalObj(g)}).(*Term)
	if !ok || !ok2 {
		r.undec("cpu", "Available", "", "its value is not known")
		return
	}
	f := st.facts.assume(has, false)
	r.check(!f.bad && f.decide(av) == -1, "cpu", "Available", r.P.pos(g.Pos()), "is false unless the processor has AVX2")
}

// With the fourway implementation available all hashes are still those of
// the specification.
func (r *Rep) x4Hash(base *State, pa Params) {
	n := len(r.obls)
	r.hashTuple(base, pa, true)
	bad := false
	for i := n; i < len(r.obls); i++ {
		if r.obls[i].Status != "ok" {
			r.obls[i].Rule = "portable"
			bad = true
		}
	}
	if !bad {
		r.obls = r.obls[:n]
		r.idx = map[string]int{}
		r.ok("portable", pa.String(), "F, H, PRF and H_msg agree with the specification")
	}
	// parameters without fourway implementation must not use it
	if !x4Params(pa) {
		in := r.hashInterp()
		in.H.Call = chain(cutPrecompute(r.P), cutF(r.P))
		st := base.clone()
		r.P.setX4(st, true)
		st, ctx := r.newContext(in, st, pa)
		if st == nil {
			return
		}
		r.x4PkGen(in, st, ctx, pa, "portable")
	}
}

// WOTS+ public keys
func (r *Rep) x4PkGen(in *Interp, st *State, ctx Val, pa Params, rule string) {
	sp := newSpec(pa)
	len1, len2, _ := sp.wotsLens()
	n := int(pa.N)
	pub, sk := symBytes(st, "pubSeed", pa.N), symBytes(st, "skSeed", pa.N)
	addr, aw := symAddr(r.P, st, "adrs")
	pb, sb := st.bytesOf(pub), st.bytesOf(sk)
	st, pad := r.newPad(in, st, ctx)
	st, ph := r.precompute(in, st, ctx, pub, sk)
	st, ret := exec1(in, st, r.P.needFn("Context.wotsPkGen"), ctx, pad, ph, addr)
	all := st.bytesOf(asSlice(ret))
	tag := opaqueT("ph", "", 0, opaqueT("bytes", "", 0, pb...), opaqueT("bytes", "", 0, sb...))
	if !r.check(len(all) == n*(len1+len2), rule, pa.String(), "", "length of the public key") {
		return
	}
	for i := 0; i < len1+len2; i++ {
		a := withWord(withWord(withWord(aw, 5, pConstI(int64(i))), 6, pZero), 7, pZero)
		x := sp.prfKeygen(sb, pb, addrBytes(a))
		for k := 0; k < int(pa.W)-1; k++ {
			x = uiF(tag, withWord(withWord(aw, 5, pConstI(int64(i))), 6, pConstI(int64(k))), x)
		}
		if !r.cmp(rule, pa.String(), "WOTS+ public key", sliceOf(all, i, n), x) {
			break
		}
	}
	r.seen(in)
}

func (r *Rep) x4Unit(base *State, pa Params, rem int64, all bool) {
	in := r.hashInterp()
	in.H.Call = r.hookX4(rem)
	in.Addr = intC(1<<20+8*rem, 64, false)
	st := base.clone()
	r.P.setX4(st, true)
	st, ctx := r.newContext(in, st, pa)
	if st == nil {
		r.undec("prf", pa.String(), "", "rejected")
		return
	}
	sp := newSpec(pa)
	n := pa.N
	st, pad := r.newPad(in, st, ctx)
	key := symBytes(st, "key", n)
	kb := st.bytesOf(key)
	var addrs [4]*Agg
	var aws [4][]*Term
	at := &Agg{T: types.NewArray(r.P.namedType("address"), 4), N: 4}
	for j := range addrs {
		addrs[j], aws[j] = symAddr(r.P, st, fmt.Sprintf("adrs%d_", j))
		freeze(addrs[j])
		at.el.set(j, addrs[j])
	}
	freeze(at)
	sl4 := func(ss [4]*Slice, mask int) *Agg {
		a := &Agg{T: types.NewArray(types.NewSlice(u8()), 4), N: 4}
		for j := range ss {
			if mask>>uint(j)&1 == 1 {
				a.el.set(j, ss[j])
			} else {
				a.el.set(j, zeroVal(types.NewSlice(u8())))
			}
		}
		freeze(a)
		return a
	}
	for mask := 1; mask < 16; mask++ {
		if !all && mask != 15 && mask != 5 {
			continue
		}
		name := fmt.Sprintf("%v lanes %04b", pa, mask)
		s1 := st.clone()
		var out, inn [4]*Slice
		var ob, ib [4][]*Term
		for j := range out {
			out[j], inn[j] = symBytes(s1, fmt.Sprintf("out%d", j), n), symBytes(s1, fmt.Sprintf("in%d", j), n)
			ob[j], ib[j] = s1.bytesOf(out[j]), s1.bytesOf(inn[j])
		}
		cmp := func(rule, what string, s *State, dst [4]*Slice, old [4][]*Term, want func(j int) []*Term) {
			for j := range dst {
				w := old[j]
				if mask>>uint(j)&1 == 1 {
					w = want(j)
				}
				r.cmp(rule, name, fmt.Sprintf("%s, lane %d", what, j), s.bytesOf(dst[j]), w)
			}
		}
		if fn := r.P.fn("Context.prfAddrX4Into"); fn != nil {
			s2, _ := exec1(in, s1.clone(), fn, ctx, pad, at, key, sl4(out, mask))
			cmp("prf", "prfAddrX4Into", s2, out, ob, func(j int) []*Term { return sp.prf(kb, addrBytes(aws[j])) })
			s2, _ = exec1(in, s2, fn, ctx, pad, at, key, sl4(out, mask))
			cmp("prf", "prfAddrX4Into again", s2, out, ob, func(j int) []*Term { return sp.prf(kb, addrBytes(aws[j])) })
		}
		fn := r.P.needFn("Context.fX4Into")
		s2, _ := exec1(in, s1.clone(), fn, ctx, pad, sl4(inn, mask), key, at, sl4(out, mask))
		cmp("F", "fX4Into", s2, out, ob, func(j int) []*Term { return sp.F(kb, aws[j], ib[j]) })
		s2, _ = exec1(in, s2, fn, ctx, pad, sl4(inn, mask), key, at, sl4(inn, mask))
		cmp("F", "fX4Into in place", s2, inn, ib, func(j int) []*Term { return sp.F(kb, aws[j], ib[j]) })
		// the next call may have other active lanes
		m2 := (mask*7 + 3) & 15
		s2, _ = exec1(in, s2, fn, ctx, pad, sl4(out, m2), key, at, sl4(out, m2))
		mask, old := m2, mask
		var now [4][]*Term
		for j := range now {
			now[j] = ob[j]
			if old>>uint(j)&1 == 1 {
				now[j] = sp.F(kb, aws[j], ib[j])
			}
		}
		for j := range out {
			w := now[j]
			if mask>>uint(j)&1 == 1 {
				w = sp.F(kb, aws[j], now[j])
			}
			r.cmp("F", name, fmt.Sprintf("fX4Into after a call with other lanes, lane %d", j), s2.bytesOf(out[j]), w)
		}
	}
	for _, u := range in.undec {
		r.undec("F", pa.String(), "", "%s", u)
	}
	r.seen(in)
}

// Summary of fX4Into: F on every active lane.
func (r *Rep) cutFX4() func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
	name := r.P.ctxMethod("fX4Into")
	return func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		if cs.Fn == nil || cs.Name != name || len(cs.Args) != 6 {
			return nil, false
		}
		src, ok1 := cs.Args[2].(*Agg)
		key := asSlice(cs.Args[3])
		ad, ok2 := cs.Args[4].(*Agg)
		dst, ok3 := cs.Args[5].(*Agg)
		if !ok1 || !ok2 || !ok3 || key == nil {
			return nil, false
		}
		tag := opaqueT("ph", "", 0, st.bytesTerm(key))
		type wr struct {
			d  *Slice
			bs []*Term
		}
		var ws []wr
		for j := int64(0); j < 4; j++ {
			s, d := specSlice(st, src.get(st, pConstI(j))), specSlice(st, dst.get(st, pConstI(j)))
			if (s == nil) != (d == nil) {
				in.undecided("lanes of fX4Into in %s", fnName(fr.Fn))
				return nil, false
			}
			if s == nil {
				continue
			}
			aw := addrWords(st, ad.get(st, pConstI(j)))
			if aw == nil {
				return nil, false
			}
			ws = append(ws, wr{d, uiF(tag, aw, st.bytesOf(s))})
		}
		for _, w := range ws {
			st.putBytes(w.d, 0, w.bs)
		}
		return ret1(st, Tuple{}), true
	}
}

// Messages whose digits order the chains of a group in all possible ways.
func x4Messages(pa Params) (ms [][]byte) {
	n := int(pa.N)
	mk := func(f func(i int) byte) {
		b := make([]byte, n)
		for i := range b {
			b[i] = f(i)
		}
		ms = append(ms, b)
	}
	mk(func(i int) byte { return 0 })
	mk(func(i int) byte { return 255 })
	mk(func(i int) byte { return byte(i * 37) })
	mk(func(i int) byte { return byte(i*i*5 + 3*i + 1) })
	mk(func(i int) byte { return byte(0x1b + 64*(i%3)) })
	mk(func(i int) byte {
		if i%5 == 0 {
			return 0xf0
		}
		return 0
	})
	return
}

func (r *Rep) x4Chains(base *State, pa Params, k int) {
	in := r.wotsInterp()
	in.Addr = intC(1<<20, 64, false)
	in.H.Call = chain(cutPrecompute(r.P), cutF(r.P), r.cutFX4(), r.hookX4(0))
	st := base.clone()
	r.P.setX4(st, true)
	st, ctx := r.newContext(in, st, pa)
	if st == nil {
		r.undec("chains", pa.String(), "", "rejected")
		return
	}
	sp := newSpec(pa)
	len1, len2, _ := sp.wotsLens()
	L := len1 + len2
	n := int(pa.N)
	pub, sk := symBytes(st, "pubSeed", pa.N), symBytes(st, "skSeed", pa.N)
	addr, aw := symAddr(r.P, st, "adrs")
	pb, sb := st.bytesOf(pub), st.bytesOf(sk)
	pt := opaqueT("bytes", "", 0, pb...)
	tagP, tagX := opaqueT("ph", "", 0, pt, opaqueT("bytes", "", 0, sb...)), opaqueT("ph", "", 0, pt)
	st, pad := r.newPad(in, st, ctx)
	st, ph := r.precompute(in, st, ctx, pub, sk)
	// either summary of F may have been applied
	same := func(rule, name, what string, got []*Term, want func(tag *Term) []*Term) bool {
		if _, ok := sameBytes(got, want(tagX)); ok {
			r.ok(rule, name, "%s", what)
			return true
		}
		return r.cmp(rule, name, what, got, want(tagP))
	}
	secret := func(i int) []*Term {
		a := withWord(withWord(withWord(aw, 5, pConstI(int64(i))), 6, pZero), 7, pZero)
		return sp.prfKeygen(sb, pb, addrBytes(a))
	}
	chainF := func(tag *Term, x []*Term, i, from, to int) []*Term {
		for k := from; k < to; k++ {
			x = uiF(tag, withWord(withWord(aw, 5, pConstI(int64(i))), 6, pConstI(int64(k))), x)
		}
		return x
	}
	each := func(name, what string, st *State, v Val, want func(tag *Term, i int) []*Term) {
		all := st.bytesOf(asSlice(v))
		if !r.check(len(all) == n*L, "chains", name, "", "length of %s", what) {
			return
		}
		for i := 0; i < L; i++ {
			if !same("chains", fmt.Sprintf("%s chain %d", name, i), what, sliceOf(all, i, n), func(tag *Term) []*Term { return want(tag, i) }) {
				break
			}
		}
	}
	if k < 0 {
		s2, ret := exec1(in, st.clone(), r.P.needFn("Context.wotsPkGen"), ctx, pad, ph, addr)
		each(pa.String(), "public key", s2, ret, func(tag *Term, i int) []*Term { return chainF(tag, secret(i), i, 0, int(pa.W)-1) })
		r.seen(in)
		return
	}
	m := x4Messages(pa)[k]
	mt := make([]*Term, n)
	for i := range mt {
		mt[i] = intC(int64(m[i]), 8, false)
	}
	msg := st.sliceFromBytes(opaqueT("bytes", "", 0, mt...), u8())
	var digits []int
	for _, p := range sp.chainLengths(mt) {
		d, ok := p.constI()
		if !ok {
			panic(abortAll{"digits of a constant message are not constant"})
		}
		digits = append(digits, int(d))
	}
	name := fmt.Sprintf("%v message %d", pa, k)
	s2, ret := exec1(in, st.clone(), r.P.needFn("Context.wotsSign"), ctx, pad, msg, pub, sk, addr)
	each(name, "signature", s2, ret, func(tag *Term, i int) []*Term { return chainF(tag, secret(i), i, 0, digits[i]) })
	sig := symBytes(st, "sig", int64(n*L))
	gb := st.bytesOf(sig)
	s2, ret = exec1(in, st.clone(), r.P.needFn("Context.wotsPkFromSig"), ctx, pad, sig, msg, ph, addr)
	each(name, "public key from signature", s2, ret, func(tag *Term, i int) []*Term {
		return chainF(tag, sliceOf(gb, i, n), i, digits[i], int(pa.W)-1)
	})
	for _, u := range in.undec {
		r.undec("chains", name, "", "%s", u)
	}
	r.seen(in)
}

// ---- the assembly

var keccakRC = []uint64{
	0x0000000000000001, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000, 0x000000000000808B, 0x0000000080000001,
	0x8000000080008081, 0x8000000000008009, 0x000000000000008A, 0x0000000000000088, 0x0000000080008009, 0x000000008000000A,
	0x000000008000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
	0x000000000000800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
}

// A lane as a vector of 64 bits, each an exclusive or of products of literals
// would blow up; instead every bit is an interned term.
type bitv [64]int32

type bits struct {
	keys map[string]int32
	n    int32
	xor  [][]int32 // id -> sorted atoms of the xor, nil for atoms
}

func newBits() *bits { return &bits{keys: map[string]int32{}, xor: [][]int32{{}}} }

func (b *bits) atom(key string) int32 {
	if i, ok := b.keys[key]; ok {
		return i
	}
	i := int32(len(b.xor))
	b.xor = append(b.xor, []int32{i})
	b.keys[key] = i
	return i
}

// id 0 is the constant zero; the constant one is the atom "1"
func (b *bits) mkXor(s []int32) int32 {
	if len(s) == 0 {
		return 0
	}
	if len(s) == 1 {
		return s[0]
	}
	k := make([]byte, 0, 5*len(s)+1)
	k = append(k, 'x')
	for _, x := range s {
		k = strconv.AppendInt(append(k, ','), int64(x), 36)
	}
	if i, ok := b.keys[string(k)]; ok {
		return i
	}
	i := int32(len(b.xor))
	b.xor = append(b.xor, s)
	b.keys[string(k)] = i
	return i
}

func (b *bits) Xor(x, y int32) int32 {
	p, q := b.xor[x], b.xor[y]
	var s []int32
	i, j := 0, 0
	for i < len(p) || j < len(q) {
		switch {
		case j == len(q) || i < len(p) && p[i] < q[j]:
			s = append(s, p[i])
			i++
		case i == len(p) || q[j] < p[i]:
			s = append(s, q[j])
			j++
		default:
			i++
			j++
		}
	}
	return b.mkXor(s)
}

// ^x & y
func (b *bits) AndN(x, y int32) int32 {
	one := b.atom("1")
	switch {
	case y == 0 || x == one:
		return 0
	case x == 0:
		return y
	case x == y:
		return 0
	}
	return b.atom(fmt.Sprintf("n%d,%d", x, y))
}

func (b *bits) Or(x, y int32) (int32, bool) {
	if x == 0 {
		return y, true
	}
	if y == 0 || x == y {
		return x, true
	}
	return 0, false
}

var asmOperand = regexp.MustCompile(`^(?:(\d+)?\((\w+)\)|\$(0x[0-9a-fA-F]+|\d+)|([A-Z]+\d*)|(\w+)\+(\d+)\(FP\))$`)

// Interprets the loop body of the assembly on symbolic lanes: the state after
// each of the rounds of one iteration has to be that of Keccak-f[1600].
func (r *Rep) x4Asm() {
	path := filepath.Join(r.repo, "internal/f1600x4/f1600x4_amd64.s")
	src, err := os.ReadFile(path)
	if err != nil {
		r.undec("asm", "f1600x4", "", "%v", err)
		return
	}
	b := newBits()
	fail := func(line int, format string, a ...interface{}) {
		r.undec("asm", "f1600x4", fmt.Sprintf("%s:%d", path, line), format, a...)
	}
	reg := map[string]bitv{}
	var mem [25]bitv
	for i := range mem {
		for k := range mem[i] {
			mem[i][k] = b.atom(fmt.Sprintf("a%d.%d", i, k))
		}
	}
	var rcUsed []int64
	rcLane := func(off int64) (v bitv) {
		rcUsed = append(rcUsed, off)
		for k := range v {
			v[k] = b.atom(fmt.Sprintf("rc%d.%d", off/8, k))
		}
		return
	}
	gp := map[string]string{} // general purpose registers: what they hold
	counter, rcStep := int64(0), int64(0)
	label, jumped, returned := "", false, false
	regNames := regexp.MustCompile(`^Y([0-9]|1[0-5])$`)
	for ln, l := range strings.Split(string(src), "\n") {
		ln++
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "TEXT") {
			continue
		}
		if strings.HasSuffix(l, ":") {
			if label != "" {
				fail(ln, "more than one label")
				return
			}
			label = strings.TrimSuffix(l, ":")
			continue
		}
		f := strings.SplitN(l, " ", 2)
		op := f[0]
		var args []string
		if len(f) == 2 {
			for _, a := range strings.Split(f[1], ",") {
				args = append(args, strings.TrimSpace(a))
			}
		}
		if returned {
			fail(ln, "code after return")
			return
		}
		bad := ""
		load := func(a string) (v bitv) {
			if regNames.MatchString(a) {
				x, ok := reg[a]
				if !ok {
					bad = "register " + a + " is not initialised"
				}
				return x
			}
			m := asmOperand.FindStringSubmatch(a)
			if m == nil || m[2] == "" {
				bad = "operand " + a
				return
			}
			off, _ := strconv.ParseInt("0"+m[1], 10, 64)
			if gp[m[2]] != "state" || off%32 != 0 || off/32 >= 25 {
				bad = "operand " + a + " is not a lane of the state"
				return
			}
			return mem[off/32]
		}
		set := func(a string, v bitv) {
			if regNames.MatchString(a) {
				reg[a] = v
				return
			}
			m := asmOperand.FindStringSubmatch(a)
			if m == nil || m[2] == "" {
				bad = "operand " + a
				return
			}
			off, _ := strconv.ParseInt("0"+m[1], 10, 64)
			if gp[m[2]] != "state" || off%32 != 0 || off/32 >= 25 {
				bad = "operand " + a + " is not a lane of the state"
				return
			}
			mem[off/32] = v
		}
		imm := func(a string) int64 {
			v, err := strconv.ParseInt(strings.TrimPrefix(a, "$"), 0, 64)
			if err != nil || !strings.HasPrefix(a, "$") {
				bad = "operand " + a
			}
			return v
		}
		need := func(n int) bool {
			if len(args) != n {
				bad = "number of operands"
			}
			return bad == ""
		}
		switch op {
		case "MOVQ":
			if need(2) {
				if m := asmOperand.FindStringSubmatch(args[0]); m != nil && m[5] != "" {
					if label != "" || !(m[5] == "state" && m[6] == "0" || m[5] == "rc" && m[6] == "8") {
						bad = "argument " + args[0]
					}
					gp[args[1]] = m[5]
				} else {
					if label != "" {
						bad = "move inside loop"
					}
					counter = imm(args[0])
					gp[args[1]] = "counter"
				}
			}
		case "VMOVDQA", "VMOVDQU":
			if need(2) {
				set(args[1], load(args[0]))
			}
		case "VPXOR":
			if need(3) {
				x, y := load(args[0]), load(args[1])
				for k := range x {
					x[k] = b.Xor(x[k], y[k])
				}
				set(args[2], x)
			}
		case "VPOR":
			if need(3) {
				x, y := load(args[0]), load(args[1])
				for k := range x {
					v, ok := b.Or(x[k], y[k])
					if !ok {
						bad = "or of overlapping values"
						break
					}
					x[k] = v
				}
				set(args[2], x)
			}
		case "VPANDN": // Go operand order: dst = ^second & first
			if need(3) {
				x, y := load(args[0]), load(args[1])
				for k := range x {
					x[k] = b.AndN(y[k], x[k])
				}
				set(args[2], x)
			}
		case "VPSLLQ", "VPSRLQ":
			if need(3) {
				s := imm(args[0])
				x := load(args[1])
				var v bitv
				for k := range v {
					j := k - int(s)
					if op == "VPSRLQ" {
						j = k + int(s)
					}
					if j >= 0 && j < 64 {
						v[k] = x[j]
					}
				}
				set(args[2], v)
			}
		case "VPBROADCASTQ":
			if need(2) {
				m := asmOperand.FindStringSubmatch(args[0])
				if m == nil || m[2] == "" || gp[m[2]] != "rc" {
					bad = "operand " + args[0]
					break
				}
				off, _ := strconv.ParseInt("0"+m[1], 10, 64)
				set(args[1], rcLane(off))
			}
		case "ADDQ":
			if need(2) {
				if gp[args[1]] != "rc" || rcStep != 0 {
					bad = "addition to " + args[1]
				}
				rcStep = imm(args[0])
			}
		case "DECQ":
			if need(1) && gp[args[0]] != "counter" {
				bad = "decrement of " + args[0]
			}
			jumped = false
			if bad == "" {
				gp["flags"] = "counter"
			}
		case "JNZ":
			if need(1) && (args[0] != label || gp["flags"] != "counter") {
				bad = "jump"
			}
			jumped = true
		case "RET":
			returned = true
		default:
			bad = "unknown instruction " + op
		}
		if bad != "" {
			fail(ln, "%s: %s", l, bad)
			return
		}
		if rcStep != 0 && strings.HasPrefix(op, "VPBROADCAST") {
			fail(ln, "round constants are read after advancing")
			return
		}
	}
	rounds := rcStep / 8
	r.check(jumped && returned && rounds > 0 && rcStep%8 == 0 && counter*rounds == 24, "asm", "f1600x4", path,
		"performs 24 rounds: %d iterations of %d", counter, rounds)
	// specification
	var a [25]bitv
	for i := range a {
		for k := range a[i] {
			a[i][k] = b.atom(fmt.Sprintf("a%d.%d", i, k))
		}
	}
	rot := func(v bitv, s int) (o bitv) {
		for k := range o {
			o[k] = v[((k-s)%64+64)%64]
		}
		return
	}
	xor := func(x, y bitv) bitv {
		for k := range x {
			x[k] = b.Xor(x[k], y[k])
		}
		return x
	}
	for rd := int64(0); rd < rounds; rd++ {
		var c [5]bitv
		for x := 0; x < 5; x++ {
			c[x] = a[x]
			for y := 1; y < 5; y++ {
				c[x] = xor(c[x], a[x+5*y])
			}
		}
		for x := 0; x < 5; x++ {
			d := xor(c[(x+4)%5], rot(c[(x+1)%5], 1))
			for y := 0; y < 5; y++ {
				a[x+5*y] = xor(a[x+5*y], d)
			}
		}
		var bb [25]bitv
		x, y := 1, 0
		bb[0] = a[0]
		for t := 0; t < 24; t++ {
			// the lane (x,y) is rotated and goes to (y, 2x+3y)
			bb[y+5*((2*x+3*y)%5)] = rot(a[x+5*y], (t+1)*(t+2)/2%64)
			x, y = y, (2*x+3*y)%5
		}
		for y := 0; y < 5; y++ {
			for x := 0; x < 5; x++ {
				var v bitv
				for k := range v {
					v[k] = b.Xor(bb[x+5*y][k], b.AndN(bb[(x+1)%5+5*y][k], bb[(x+2)%5+5*y][k]))
				}
				a[x+5*y] = v
			}
		}
		for k := range a[0] {
			a[0][k] = b.Xor(a[0][k], b.atom(fmt.Sprintf("rc%d.%d", rd, k)))
		}
	}
	for i := range a {
		for _, part := range []int{0, 16, 32, 48} {
			ok := true
			for k := part; k < part+16; k++ {
				ok = ok && a[i][k] == mem[i][k]
			}
			r.check(ok, "asm", fmt.Sprintf("lane %d bits %d..%d", i, part, part+15), path, "after one iteration (%d rounds)", rounds)
		}
	}
	// constants
	g := r.P.global("internal/f1600x4", "rc")
	if g == nil {
		r.undec("asm", "round constants", "", "table not found")
		return
	}
	st := r.initPkg(g.Pkg)
	t, ok := st.root(r.P.globalObj(g)).(*Agg)
	if !ok || t.N != 24 {
		r.undec("asm", "round constants", "", "not a table of 24 values")
		return
	}
	for i, want := range keccakRC {
		v, ok := t.get(st, pConstI(int64(i))).(*Term)
		r.check(ok && v.P != nil && v.P.isConst() && v.P.c.Cmp(new(big.Int).SetUint64(want)) == 0, "asm", fmt.Sprintf("round constant %d", i), "", "has the specified value")
	}
}
