package main

// V02: what signing produces.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("V02", "Abstract interpretation over value graphs: a key with symbolic seeds is derived into a model of the container, set to a sequence number, and signs a symbolic message; "+
		"every byte of the encoded signature is compared with the algorithm of RFC 8391, with nodes of subtrees and one-time signatures uninterpreted (they are compared with the "+
		"specification by themselves).  All sequence numbers of small shapes, selected numbers of large ones; also after a reload, with cached subtrees, and by the one-shot function.", runV02)
}

// arguments by their type
type argTypes struct {
	bytes []*Slice
	ph    Val
	addr  Val
	sta   Val
	mt    Val
}

func (r *Rep) argsByType(cs *CallSite) (a argTypes, ok bool) {
	sig := cs.Fn.Signature
	off := len(cs.Args) - sig.Params().Len()
	if off < 0 {
		return a, false
	}
	pkg := r.P.Main.Pkg.Path()
	for i := 0; i < sig.Params().Len(); i++ {
		t, v := sig.Params().At(i).Type(), cs.Args[i+off]
		switch {
		case r.P.isHashes(t):
			a.ph = v
		case isNamed(t, pkg, "address"):
			a.addr = v
		case isNamed(t, pkg, "SubTreeAddress"):
			a.sta = v
		case r.P.isTree(t):
			a.mt = v
		default:
			if s := asSlice(v); s != nil && isByte(s.Elem) {
				a.bytes = append(a.bytes, s)
			}
		}
	}
	return a, true
}

func uiWotsSig(tag *Term, aw, msg []*Term, n int) []*Term {
	a := append([]*Term{tag}, aw...)
	a[6], a[7], a[8] = intC(0, 32, false), intC(0, 32, false), intC(0, 32, false)
	return uiBytes("wsig", n, append(a, opaqueT("bytes", "", 0, msg...))...)
}

func uiNode(tag *Term, layer int64, tree *Poly, h, i int64, n int) []*Term {
	return uiBytes("node", n, tag, intC(layer, 32, false), mkInt(pExt(tree, 0, 64), 64, false), intC(h, 32, false), intC(i, 32, false))
}

// Summary of wotsSignInto(pad, msg, ph, addr, out).
func cutWotsSign(r *Rep, n int) func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
	name := r.P.ctxMethod("wotsSignInto")
	return func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		if cs.Fn == nil || cs.Name != name {
			return nil, false
		}
		a, ok := r.argsByType(cs)
		if !ok || len(a.bytes) != 2 || a.ph == nil || a.addr == nil {
			in.undecided("arguments of %s in %s", name, fnName(fr.Fn))
			return nil, false
		}
		tag, aw := tagOf(a.ph), addrWords(st, a.addr)
		if tag == nil || aw == nil {
			in.undecided("arguments of %s in %s", name, fnName(fr.Fn))
			return nil, false
		}
		out := uiWotsSig(tag, aw, st.bytesOf(a.bytes[0]), n)
		in.boundsCheck(st, fr, cs.Instr, pConstI(int64(len(out)-1)), a.bytes[1].Len.P)
		st.putBytes(a.bytes[1], 0, out)
		return ret1(st, Tuple{}), true
	}
}

func (r *Rep) staOf(st *State, v Val) (layer int64, tree *Poly, ok bool) {
	if p, is := v.(*Ptr); is {
		v = st.load(p)
	}
	ag, is := v.(*Agg)
	if !is {
		return 0, nil, false
	}
	t := r.P.namedType("SubTreeAddress")
	l := polyOf(ag.get(st, pConstI(int64(fieldIdx(t, "Layer")))))
	tree = polyOf(ag.get(st, pConstI(int64(fieldIdx(t, "Tree")))))
	if l == nil || tree == nil {
		return 0, nil, false
	}
	layer, ok = st.facts.norm(l).constI()
	return layer, st.facts.norm(tree), ok
}

// Summary of genSubTreeInto(pad, skSeed, ph, sta, mt).
// Given nodes, only those are filled in.
func cutSubTree(r *Rep, n, th int, nodes ...[2]int64) func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
	name := r.P.fillTree()
	return func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		if cs.Fn == nil || cs.Name != name {
			return nil, false
		}
		a, ok := r.argsByType(cs)
		if !ok || a.ph == nil || a.sta == nil || a.mt == nil || len(a.bytes) > 1 {
			in.undecided("arguments of %s in %s", name, fnName(fr.Fn))
			return nil, false
		}
		tag := tagOf(a.ph)
		layer, tree, ok := r.staOf(st, a.sta)
		if tag == nil || !ok {
			in.undecided("arguments of %s in %s", name, fnName(fr.Fn))
			return nil, false
		}
		if len(a.bytes) == 1 {
			// the seed must be that of the precomputed hashes
			if sb := opaqueT("bytes", "", 0, st.bytesOf(a.bytes[0])...); len(tag.Args) != 2 || tag.Args[1] != sb {
				r.viol("sig", fnName(fr.Fn), r.P.ipos(cs.Instr), "a subtree is generated with two different secret seeds")
			}
		}
		mt := a.mt
		if ag, is := mt.(*Agg); is {
			mt = &Ptr{Obj: o0(st, ag)}
		}
		node := r.P.treeNode()
		i2 := newInterp(r.P)
		fill := nodes
		if len(fill) == 0 {
			for h := 0; h <= th; h++ {
				for i := 0; i < 1<<uint(th-h); i++ {
					fill = append(fill, [2]int64{int64(h), int64(i)})
				}
			}
		}
		for _, hi := range fill {
			h, i := hi[0], hi[1]
			os := i2.Exec(st, nil, node, []Val{mt, intC(h, 32, false), intC(i, 32, false)}, nil, nil)
			if len(os) != 1 || os[0].Panic || asSlice(os[0].Ret) == nil {
				r.viol("sig", fnName(fr.Fn), r.P.ipos(cs.Instr), "the tree passed to %s has no room for node %d,%d", name, h, i)
				return nil, false
			}
			st = os[0].St
			s := asSlice(os[0].Ret)
			if k, ok := st.facts.norm(s.Len.P).constI(); !ok || k != int64(n) {
				r.viol("sig", fnName(fr.Fn), r.P.ipos(cs.Instr), "nodes of a subtree are not n bytes")
				return nil, false
			}
			st.putBytes(s, 0, uiNode(tag, layer, tree, h, i, n))
		}
		return ret1(st, Tuple{}), true
	}
}

// A container that works.
type ctrModel struct {
	r    *Rep
	pa   Params
	ctrT types.Type
}

type ctrState struct {
	seq  Val
	sk   []*Term
	stas []string
	addr map[string]Val
	buf  map[string]*Slice
	set  []*Poly // values of SetSeqNo
	n    int     // closed
}

func ctrOf(st *State) *ctrState { return st.user["ctr"].(*ctrState) }

func (st *State) ctrUpd(f func(c *ctrState)) {
	o := ctrOf(st)
	n := *o
	n.addr, n.buf = map[string]Val{}, map[string]*Slice{}
	for k, v := range o.addr {
		n.addr[k] = v
	}
	for k, v := range o.buf {
		n.buf[k] = v
	}
	n.stas = append([]string{}, o.stas...)
	n.set = append([]*Poly{}, o.set...)
	f(&n)
	st.user["ctr"] = &n
}

func ctrVal() *Iface {
	return &Iface{T: fakeType("container"), V: &Ptr{Obj: newObj("container", types.NewStruct(nil, nil))}}
}

func (m *ctrModel) call(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
	if cs.Fn != nil && cs.Fn.Name() == "OpenFSPrivateKeyContainer" {
		return ret1(st, Tuple{ctrVal(), nilError()}), true
	}
	switch cs.Name {
	case "github.com/cespare/xxhash.Sum64":
		s := asSlice(cs.Args[0])
		if s == nil {
			return nil, false
		}
		return ret1(st, mkInt(pAtom(mkTerm("val", "", 0, 0, 64, false, opaqueT("xxhash", "", 0, st.sparseTerm(s)))), 64, false)), true
	case "container/heap.Init":
		if h, ok := heapElems(st, cs.Args[0]); ok && len(h) < 2 {
			return ret1(st, Tuple{}), true
		}
		return nil, false
	case "container/heap.Push", "container/heap.Pop":
		return smallHeap(st, cs)
	case "(*sync.Cond).Wait":
		m.r.viol("sig", fnName(fr.Fn), m.r.P.ipos(cs.Instr), "a single signing call waits for another one")
		return nil, true
	}
	if strings.HasPrefix(cs.Name, "(*sync.") {
		return ret1(st, Tuple{}), true
	}
	if cs.Method == "" || cs.Instr == nil || !types.Identical(cs.Instr.Common().Value.Type(), m.ctrT) {
		return nil, false
	}
	res := cs.Sig.Results()
	c := ctrOf(st)
	switch cs.Method {
	case "Reset":
		b := st.bytesOf(asSlice(cs.Args[1]))
		st.ctrUpd(func(c *ctrState) {
			c.sk = b
			c.seq = intC(0, 64, false)
			c.stas, c.addr, c.buf = nil, map[string]Val{}, map[string]*Slice{}
		})
		return ret1(st, nilError()), true
	case "Initialized":
		return ret1(st, &Ptr{Obj: o0(st, m.r.P.paramsVal(st, m.pa))}), true
	case "CacheInitialized":
		return ret1(st, tTrue), true
	case "GetPrivateKey":
		s := symBytes(st, freshName("sk"), int64(len(c.sk)))
		st.putBytes(s, 0, c.sk)
		return ret1(st, Tuple{s, nilError()}), true
	case "GetSeqNo":
		return ret1(st, Tuple{c.seq, intC(0, 32, false), nilError()}), true
	case "SetSeqNo":
		v := polyOf(cs.Args[1])
		st.ctrUpd(func(c *ctrState) { c.seq = cs.Args[1]; c.set = append(c.set, v) })
		return ret1(st, nilError()), true
	case "ListSubTrees":
		t := m.r.P.namedType("SubTreeAddress")
		o := newObj("stas", types.NewArray(t, int64(len(c.stas))))
		a := &Agg{T: o.T, N: len(c.stas)}
		for i, k := range c.stas {
			a.el.set(i, c.addr[k])
		}
		st.heap[o] = a
		return ret1(st, Tuple{&Slice{Obj: o, Off: intT(0), Len: intT(int64(len(c.stas))), Cap: intT(int64(len(c.stas))), Elem: t}, nilError()}), true
	case "GetSubTree":
		l, tr, ok := m.r.staOf(st, cs.Args[1])
		if !ok {
			in.undecided("address of a subtree in %s", fnName(fr.Fn))
			return nil, false
		}
		key := fmt.Sprintf("%d/%s", l, tr.str(6))
		if b := c.buf[key]; b != nil {
			return ret1(st, Tuple{b, tTrue, nilError()}), true
		}
		b := symBytes(st, freshName("slot"), m.cached())
		st.ctrUpd(func(c *ctrState) {
			c.stas = append(c.stas, key)
			c.addr[key], c.buf[key] = cs.Args[1], b
		})
		return ret1(st, Tuple{b, tFalse, nilError()}), true
	case "DropSubTree":
		l, tr, ok := m.r.staOf(st, cs.Args[1])
		if !ok {
			in.undecided("address of a subtree in %s", fnName(fr.Fn))
			return nil, false
		}
		key := fmt.Sprintf("%d/%s", l, tr.str(6))
		st.ctrUpd(func(c *ctrState) {
			delete(c.buf, key)
			var s []string
			for _, k := range c.stas {
				if k != key {
					s = append(s, k)
				}
			}
			c.stas = s
		})
		return ret1(st, nilError()), true
	case "Close":
		st.ctrUpd(func(c *ctrState) { c.n++ })
		return ret1(st, nilError()), true
	}
	if res.Len() == 1 && errIdx(cs.Sig) == 0 {
		return ret1(st, nilError()), true
	}
	in.undecided("%s of the container in %s", cs.Method, fnName(fr.Fn))
	return nil, false
}

// contents of a slice; of large ones the parts that were written
func (st *State) sparseTerm(s *Slice) *Term {
	n, ok := st.facts.norm(s.Len.P).constI()
	off, ok2 := st.facts.norm(s.Off.P).constI()
	a := sliceAgg(st, s)
	if !ok || !ok2 || n <= 1<<16 || a == nil || !a.Sym || len(a.log) > 0 {
		return st.bytesTermN(s, 1<<20)
	}
	ts := []*Term{a.bt, intC(off, 64, false), intC(n, 64, false)}
	for _, k := range a.el.keys() {
		if int64(k) >= off && int64(k) < off+n {
			ts = append(ts, intC(int64(k), 64, false), st.byteOf(a, pConstI(int64(k))))
		}
	}
	return opaqueT("sparse", "", 0, ts...)
}

// nodes of authentication paths, and roots, used for signatures
func authNodes(pa Params, at []uint64) (r [][2]int64) {
	th := uint(pa.H / pa.D)
	seen := map[[2]int64]bool{}
	add := func(h uint, i uint64) {
		k := [2]int64{int64(h), int64(i)}
		if !seen[k] {
			seen[k] = true
			r = append(r, k)
		}
	}
	add(th, 0)
	for _, x := range at {
		for _, y := range []uint64{x, x + 1} {
			for l := uint(0); l < uint(pa.D); l++ {
				leaf := shr64(y, l*th) & (1<<th - 1)
				for h := uint(0); h < th; h++ {
					add(h, leaf>>h^1)
				}
			}
		}
	}
	return
}

// elements of a heap backed by a slice
func heapElems(st *State, h Val) ([]Val, bool) {
	i, ok := h.(*Iface)
	if !ok {
		return nil, false
	}
	p, ok := i.V.(*Ptr)
	if !ok {
		return nil, false
	}
	s, ok := st.load(p).(*Slice)
	if !ok {
		return nil, false
	}
	n, ok := st.facts.norm(s.Len.P).constI()
	if !ok || n > 64 {
		return nil, false
	}
	var out []Val
	for i := int64(0); i < n; i++ {
		out = append(out, st.sliceGet(s, pConstI(i)))
	}
	return out, true
}

// heaps of few numbers, kept sorted
func smallHeap(st *State, cs *CallSite) ([]Outcome, bool) {
	h, ok := heapElems(st, cs.Args[0])
	if !ok {
		return nil, false
	}
	p := cs.Args[0].(*Iface).V.(*Ptr)
	s := st.load(p).(*Slice)
	put := func(vs []Val) {
		o := newObj("heap", types.NewArray(s.Elem, int64(len(vs))))
		a := &Agg{T: o.T, N: len(vs)}
		for i, v := range vs {
			a.el.set(i, v)
		}
		st.heap[o] = a
		n := intT(int64(len(vs)))
		st.store(p, &Slice{Obj: o, Off: intT(0), Len: n, Cap: n, Elem: s.Elem})
	}
	if strings.HasSuffix(cs.Name, "Pop") {
		if len(h) == 0 {
			return nil, false
		}
		put(h[1:])
		return ret1(st, &Iface{T: s.Elem, V: h[0]}), true
	}
	x := cs.Args[1]
	if i, ok := x.(*Iface); ok {
		x = i.V
	}
	at := 0
	for ; at < len(h); at++ {
		a, b := polyOf(h[at]), polyOf(x)
		if a == nil || b == nil {
			return nil, false
		}
		d := st.facts.decide(bGE0(pSub(a, b)))
		if d == 1 {
			break
		}
		if d == 0 {
			return nil, false
		}
	}
	put(append(append(append([]Val{}, h[:at]...), x), h[at:]...))
	return ret1(st, Tuple{}), true
}

// size of the buffer of a subtree: nodes, signature of the root and checksum
func (m *ctrModel) cached() int64 {
	sp := newSpec(m.pa)
	l1, l2, _ := sp.wotsLens()
	th := uint(m.pa.H / m.pa.D)
	return (int64(1)<<(th+1)-1)*m.pa.N + int64(l1+l2)*m.pa.N + 8
}

type signRun struct {
	r      *Rep
	pa     Params
	sp     *Spec
	name   string
	in     *Interp
	m      *ctrModel
	hdr    []*Term
	tag    *Term
	sk, pk Val
	pub    []*Term // public seed
	prf    []*Term
	root   []*Term
}

// bytes of the signature the specification prescribes
func (g *signRun) want(seq uint64, m []*Term) []*Term {
	sp, pa := g.sp, g.pa
	l1, l2, _ := sp.wotsLens()
	L := (l1 + l2) * sp.n
	th := uint(pa.H / pa.D)
	idx := pConst(bigU(seq))
	rnd := sp.prf(g.prf, sp.toByte(idx, 32))
	out := append([]*Term{}, g.hdr...)
	out = append(out, sp.toByte(idx, int(specSizes(pa).index.Int64()))...)
	out = append(out, rnd...)
	msg := sp.hmsg(rnd, g.root, idx, m)
	for i := int64(0); i < pa.D; i++ {
		at := uint(i) * th
		leaf := int64(seq >> at & (1<<th - 1))
		tree := pConst(bigU(shr64(seq, at+th)))
		out = append(out, uiWotsSig(g.tag, withWord(layerAddr(i, tree, 0), 4, pConstI(leaf)), msg, L)...)
		for h := uint(0); h < th; h++ {
			out = append(out, uiNode(g.tag, i, tree, int64(h), leaf>>h^1, sp.n)...)
		}
		msg = uiNode(g.tag, i, tree, int64(th), 0, sp.n)
	}
	return out
}

func shr64(x uint64, n uint) uint64 {
	if n > 63 {
		return 0
	}
	return x >> n
}

// the single outcome without a panic
func (g *signRun) one(what string, os []Outcome) (st *State, ret Val, ok bool) {
	for _, o := range os {
		if o.Panic {
			g.r.viol("sig", g.name, g.r.P.pos(o.Pos), "%s panics: %s", what, o.Why)
			return nil, nil, false
		}
	}
	if len(os) != 1 {
		g.r.undec("sig", g.name, "", "%s has %d outcomes", what, len(os))
		return nil, nil, false
	}
	return os[0].St, os[0].Ret, true
}

func (g *signRun) exec(st *State, fn string, args ...Val) []Outcome {
	return g.in.Exec(st, nil, g.r.P.needFn(fn), args, nil, nil)
}

func (r *Rep) newSignRun(base *State, pa Params, nodes ...[2]int64) (*signRun, *State) {
	g := &signRun{r: r, pa: pa, sp: newSpec(pa), name: pa.String()}
	l1, l2, _ := g.sp.wotsLens()
	g.m = &ctrModel{r: r, pa: pa, ctrT: r.P.namedType("PrivateKeyContainer")}
	g.in = newInterp(r.P)
	g.in.Recurse, g.in.MaxDepth = 140, 600
	g.in.H.Call = chain(g.m.call, cutPrecompute(r.P), cutWotsSign(r, (l1+l2)*g.sp.n), cutSubTree(r, g.sp.n, int(pa.H/pa.D), nodes...))
	st := base.clone()
	r.P.setX4(st, false)
	g.hdr = r.header(g.in, st, pa)
	st.user["ctr"] = &ctrState{addr: map[string]Val{}, buf: map[string]*Slice{}, seq: intC(0, 64, false)}
	st, ctx := r.newContext(g.in, st, pa)
	if st == nil {
		r.undec("sig", g.name, "", "rejected")
		return nil, nil
	}
	pub, sk, prf := symBytes(st, "pubSeed", pa.N), symBytes(st, "skSeed", pa.N), symBytes(st, "skPrf", pa.N)
	g.pub, g.prf = st.bytesOf(pub), st.bytesOf(prf)
	g.tag = opaqueT("ph", "", 0, opaqueT("bytes", "", 0, g.pub...), opaqueT("bytes", "", 0, st.bytesOf(sk)...))
	g.root = uiNode(g.tag, pa.D-1, pZero, int64(pa.H/pa.D), 0, g.sp.n)
	st, ret, ok := g.one("DeriveInto", g.exec(st, "Context.DeriveInto", ctx, ctrVal(), pub, sk, prf))
	if !ok {
		return nil, nil
	}
	t := ret.(Tuple)
	if !r.check(errNil(st, t[2]) == 1, "sig", g.name, "", "a key is derived") {
		return nil, nil
	}
	g.sk, g.pk = t[0], t[1]
	g.checkPk(st, "DeriveInto", t[1])
	if st2, p, ok := g.one("PublicKey", g.exec(st.clone(), "PrivateKey.PublicKey", g.sk)); ok {
		g.checkPk(st2, "PublicKey", p)
	}
	return g, st
}

func (g *signRun) checkPk(st *State, what string, pk Val) {
	st2, b, ok := g.one("MarshalBinary", g.exec(st.clone(), "PublicKey.MarshalBinary", pk))
	if !ok {
		return
	}
	t := b.(Tuple)
	if !g.r.check(errNil(st2, t[1]) == 1, "pk", g.name, "", "the public key of %s is encoded", what) {
		return
	}
	want := append(append(append([]*Term{}, g.hdr...), g.root...), g.pub...)
	g.r.cmp("pk", g.name, "public key of "+what, st2.bytesOf(asSlice(t[0])), want)
}

func (g *signRun) setSeq(st *State, seq uint64) *State {
	s, _, ok := g.one("DangerousSetSeqNo", g.exec(st, "PrivateKey.DangerousSetSeqNo", g.sk, mkInt(pConst(bigU(seq)), 64, false)))
	if !ok {
		return nil
	}
	return s
}

// signs with the key and compares; gives the state afterwards
func (g *signRun) sign(st *State, seq uint64, from bool) *State {
	r := g.r
	name := fmt.Sprintf("%s index %x", g.name, seq)
	var os []Outcome
	var msg *Term
	if from {
		rd := &Iface{Sym: mkTerm("sym", "reader", 0, 0, 0, false)}
		msg = opaqueT("stream", "", 0, st.valTerm(rd))
		rerr := opaqueT("readerr", "", 0, st.valTerm(rd))
		all := g.exec(st, "PrivateKey.SignFrom", g.sk, rd)
		bad := 0
		for _, o := range all {
			if o.Panic {
				os = append(os, o)
				continue
			}
			d := o.St.facts.decide(o.St.eqVal(&Iface{Sym: rerr}, NilV{}))
			if d == 1 {
				os = append(os, o)
				continue
			}
			bad++
			t := o.Ret.(Tuple)
			r.check(d == -1 && errNil(o.St, t[1]) == -1 && o.St.facts.decide(o.St.eqVal(t[0], NilV{})) == 1, "readerr", name, "", "if reading the message fails an error and no signature is returned")
		}
		r.check(bad > 0, "readerr", name, "", "failures of the reader were analysed")
	} else {
		m := r.symBuf(st, "msg", 1<<40)
		msg = st.bytesTerm(m)
		os = g.exec(st, "PrivateKey.Sign", g.sk, m)
	}
	st, ret, ok := g.one("signing", os)
	if !ok {
		return nil
	}
	t := ret.(Tuple)
	if !r.check(errNil(st, t[1]) == 1, "sig", name, "", "signing succeeds") {
		return nil
	}
	s2, b, ok := g.one("MarshalBinary", g.exec(st.clone(), "Signature.MarshalBinary", t[0]))
	if !ok {
		return nil
	}
	bt := b.(Tuple)
	if r.check(errNil(s2, bt[1]) == 1, "sig", name, "", "the signature is encoded") {
		r.cmp("sig", name, "signature", s2.bytesOf(asSlice(bt[0])), g.want(seq, []*Term{msg}))
	}
	return st
}

type signCase struct {
	pa     Params
	at     []uint64 // each is signed and the next one
	reload bool
}

func (c signCase) String() string { return c.pa.String() }

func (r *Rep) signCase(base *State, c signCase) {
	t0 := time.Now()
	defer func() { dbg("%s: %v", c, time.Since(t0)) }()
	var nodes [][2]int64
	if c.pa.H/c.pa.D > 10 {
		nodes = authNodes(c.pa, c.at)
	}
	g, st := r.newSignRun(base, c.pa, nodes...)
	if g == nil {
		return
	}
	max := uint64(1)<<uint(c.pa.H) - 1
	for i, x := range c.at {
		s := g.setSeq(st.clone(), x)
		for j := uint64(0); j < 2 && s != nil && x+j < max; j++ {
			s = g.sign(s, x+j, (uint64(i)+j)%2 == 0)
		}
	}
	if c.reload {
		g.reload(st, c.at)
	}
	r.undecAll(g.in, "sig", g.name)
}

// The key is loaded again, with the subtrees it has cached so far, and by the
// one-shot function.
func (g *signRun) reload(st *State, at []uint64) {
	r := g.r
	for i, x := range at {
		s := g.setSeq(st.clone(), x)
		if s == nil {
			return
		}
		if s = g.sign(s, x, false); s == nil {
			return
		}
		if got := polyOf(ctrOf(s).seq); got == nil || !s.eq(got, pConst(bigU(x+1))) {
			r.viol("sig", g.name, "", "the sequence number is not recorded")
			return
		}
		if x+1 >= uint64(1)<<uint(g.pa.H)-1 {
			continue
		}
		if i%2 == 0 {
			s2, ret, ok := g.one("LoadPrivateKeyFrom", g.exec(s.clone(), "LoadPrivateKeyFrom", ctrVal()))
			if !ok {
				return
			}
			t := ret.(Tuple)
			if !r.check(errNil(s2, t[3]) == 1, "reload", g.name, "", "the key is loaded again") {
				return
			}
			g.checkPk(s2, "LoadPrivateKeyFrom", t[1])
			old := g.sk
			g.sk = t[0]
			if g.sign(s2, x+1, false) != nil {
				r.ok("reload", fmt.Sprintf("%s index %x", g.name, x+1), "signing goes on after a reload with cached subtrees")
			}
			g.sk = old
			continue
		}
		m := r.symBuf(s, "msg", 1<<40)
		msg := s.bytesTerm(m)
		s2, ret, ok := g.one("Sign", g.exec(s, "Sign", symVal(types.Typ[types.String], fresh("path")), m))
		if !ok {
			return
		}
		t := ret.(Tuple)
		if !r.check(errNil(s2, t[1]) == 1, "reload", g.name, "", "the one-shot function signs") {
			return
		}
		r.cmp("sig", fmt.Sprintf("%s index %x", g.name, x+1), "signature of the one-shot function", s2.bytesOf(asSlice(t[0])), g.want(x+1, []*Term{msg}))
	}
}

func signCases(r *Rep) (cs []signCase) {
	all := func(pa Params) {
		c := signCase{pa: pa, reload: true}
		for x := uint64(0); x < 1<<uint(pa.H)-1; x += 2 {
			c.at = append(c.at, x)
		}
		cs = append(cs, c)
	}
	for _, hd := range [][2]int64{{2, 1}, {4, 1}, {4, 2}, {4, 4}, {3, 3}, {6, 3}} {
		all(Params{0, 16, hd[0], hd[1], 256, 0})
	}
	for _, pa := range tuples(16, 2, 2) {
		all(pa)
	}
	all(Params{0, 32, 2, 1, 4, 0})
	all(Params{2, 24, 2, 2, 256, 1})
	full := func(h uint) uint64 { return 1<<h - 1 }
	add := func(pa Params, at ...uint64) { cs = append(cs, signCase{pa, at, true}) }
	add(Params{0, 32, 60, 12, 16, 0}, 0, full(60)-1, full(60)/3, full(60)/7, 31)
	add(Params{0, 16, 60, 6, 256, 0}, full(60)/3, full(60)/5, 1<<59, 1<<32-1, 1<<31, 1<<20-1)
	add(Params{0, 16, 63, 63, 256, 0}, full(63)-1, full(63)/3, full(63)/5, 1<<32-1)
	add(Params{0, 16, 63, 9, 256, 0}, full(63)-1, full(63)/3, 1<<62-1, 1<<56-1)
	add(Params{0, 16, 10, 1, 256, 0}, 0, 1, 511, 1021, 682, 341)
	add(Params{1, 32, 20, 4, 16, 0}, 1<<20-2, 31, 1023, 32767, 699050)
	add(Params{0, 16, 40, 2, 256, 0}, full(40)/3, full(40)-1, 1<<39-1)
	add(Params{1, 16, 20, 1, 256, 0}, full(20)/3, full(20)-1, 1<<19)
	add(Params{0, 16, 54, 2, 256, 0}, full(54)/5, full(54)-1, 1<<53-1)
	if r.Tier != "quick" {
		for h := int64(1); h <= 63; h++ {
			for d := int64(1); d <= h; d++ {
				if h%d != 0 || h/d > 9 {
					continue
				}
				add(Params{0, 16, h, d, 256, 0}, full(uint(h))/3, full(uint(h))/5, full(uint(h-1)))
			}
		}
		for _, pa := range tuples(16, 4, 2) {
			all(pa)
		}
		for _, pa := range tuples(4, 3, 1) {
			all(pa)
		}
		for _, pa := range tuples(256, 6, 2) {
			all(pa)
		}
		all(Params{0, 16, 8, 2, 256, 0})
		all(Params{0, 16, 8, 8, 256, 0})
	}
	return
}

func runV02(r *Rep) {
	r.rule("sig", "every byte of an encoded signature is the one RFC 8391 prescribes for its sequence number", 60)
	r.rule("pk", "the public key of a private key is its parameters, root and public seed", 20)
	r.rule("readerr", "if reading the message fails an error is returned", 20)
	r.rule("reload", "a key that was loaded again makes the same signatures", 10)
	r.rule("sign", "one-time signatures are those of the specification", 100)
	r.rule("tree", "every node of a subtree is the specified hash of its children", 2)
	r.rule("leaf", "a leaf is the root of the L-tree over its WOTS+ public key", 2)
	r.rule("H_msg", "the message hash is that of the specification", 4)
	r.rule("layout", "nodes of a subtree do not overlap; authentication paths consist of siblings", 2)
	base := r.initState()
	var jobs []func()
	var costs []int
	add := func(c int, f func()) { jobs = append(jobs, f); costs = append(costs, c) }
	for _, c := range signCases(r) {
		c := c
		if onlyTuple != "" && !strings.Contains(c.String(), onlyTuple) {
			continue
		}
		add(len(c.at)*int(c.pa.D)*int(c.pa.N)*(1<<uint(min(c.pa.H/c.pa.D, 10))), func() { r.signCase(base, c) })
	}
	for _, pa := range []Params{{0, 16, 10, 1, 16, 0}, {1, 32, 10, 1, 4, 0}, {0, 24, 10, 1, 256, 1}, {0, 64, 10, 1, 16, 0}} {
		pa := pa
		add(200000, func() { r.wotsTuple(base, pa) })
		add(1000, func() { r.hashTuple(base, pa, false) })
		add(1000, func() { r.leaf(base, pa) })
	}
	add(2000, func() { r.subTree(base, Params{0, 16, 8, 2, 16, 0}, 1, 3) })
	add(2000, func() { r.subTree(base, Params{0, 16, 8, 2, 16, 0}, 0, 3) })
	add(1000, func() { r.layout(base) })
	r.each(len(jobs), func(i int) int { return costs[i] }, func(i int) { jobs[i]() })
	r.keep("sig", "pk", "readerr", "reload", "sign", "tree", "leaf", "layout", "threads", "H_msg", "F", "H", "PRF", "PRFkg", "context")
}

var _ *ssa.Function

func bigU(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
