package main

// More rules about private keys: closing (S05), locking (S06), retiring (S09),
// borrowing (B01), errors of the container (S03) and its lifetime (S04).

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S05", "Path-sensitive typestate analysis of closing a key, and of its background work.", s05)
	register("S06", "Path-sensitive lock analysis of every method of a key, and flow-insensitive effect analysis of what is shared without a lock.", s06)
	register("S09", "Path-sensitive analysis of retiring numbers and dropping subtrees against the numbers in use.", s09)
}

func (k *keyRun) evs(o Outcome, kind, name string) (r []*Event) {
	for _, e := range o.St.trace() {
		if e.Kind == kind && (name == "" || e.Name == name) {
			r = append(r, e)
		}
	}
	return
}

func isMethod(fn *ssa.Function, name string) bool {
	return fn.Name() == name && fn.Signature.Recv() != nil
}

// ---- S05

func s05(r *Rep) {
	r.rule("close.join", "background work is waited for, and reports its end exactly once", 4)
	r.rule("close.record", "closing records the numbers that were not used", 1)
	r.rule("close.once", "closing closes the container exactly once", 2)
	r.rule("close.error", "errors on the way are reported", 1)
	r.rule("close.after", "the container is not used once it is closed", 1)
	r.rule("close.deadlock", "background work is not waited for with the lock held", 1)
	m := newKeyModel(r)
	n := 0
	m.all(func(p keyPath) {
		if p.ctor {
			return
		}
		if isMethod(p.fn, "Close") {
			p.k.closePath(p)
			n++
			return
		}
		cl := p.k.evs(p.o, "ctr", "Close")
		p.k.chk(len(cl) == 0, "close.once", nil, nil, "no other method closes the container")
	})
	r.keep("close")
}

func (k *keyRun) closePath(p keyPath) {
	m := k.m
	g := kg(p.o.St)
	waited, closed, wrote, wroteBad := false, 0, false, false
	for _, e := range p.o.St.trace() {
		switch e.Kind {
		case "wgwait":
			if closed == 0 {
				waited = true
			}
		case "go":
			k.viol("close.join", nil, e.Instr, "background work is started while closing")
		case "ctr":
			switch e.Name {
			case "Close":
				closed++
				k.chk(waited || len(m.wgs) == 0, "close.join", nil, e.Instr, "background work has ended when the container is closed")
				k.chk(true, "close.after", nil, e.Instr, "the container is closed last")
			case "SetSeqNo":
				wrote = true
				s := m.cell(p.o.St, m.seq)
				if e.X == true {
					wroteBad = true
				}
				v := polyOf(e.Args[1])
				k.chk(v != nil && p.o.St.eq(v, s), "close.record", nil, e.Instr, "the number recorded when closing is the next unused one")
			}
		}
	}
	k.chk(closed == 1, "close.once", nil, nil, "the container is closed exactly once")
	if g.bStart != nil && !p.o.St.eq(g.bStart, pZero) {
		k.chk(wrote, "close.record", nil, nil, "borrowed numbers that were not used are given back")
	}
	_ = wroteBad
	want := 1
	if len(g.failed) > 0 {
		want = -1
	}
	k.chk(k.retErr(p.o, p.fn) == want, "close.error", nil, nil, "an error is returned if and only if an operation failed")
}

// ---- S06

func s06(r *Rep) {
	r.rule("lock.container", "the container is used with the lock of the key held", 6)
	r.rule("lock.fields", "state that methods change is only touched with the lock held", 20)
	r.rule("lock.balance", "the lock is released on all paths and never taken twice", 20)
	r.rule("lock.loop", "loops leave the key consistent", 1)
	r.rule("lock.immutable", "what is shared without the lock is not modified after it was made", 10)
	m := newKeyModel(r)
	r.rule("threads", "goroutines generating leafs do not interfere and are waited for", 3)
	m.all(func(p keyPath) {})
	// what generates subtrees, and is called without the lock
	base := r.initState()
	ths := []int64{0, 2, 3}
	r.each(len(ths), func(int) int { return 1 }, func(i int) { r.subTree(base, Params{0, 16, 4, 2, 16, 0}, ths[i], 3) })
	if !r.spawned && r.parts > 0 && r.part > 0 {
		r.keep("lock", "threads")
		return
	}
	immutable(r, m)
	r.keep("lock", "threads")
}

// ---- S09

func s09(r *Rep) {
	r.rule("retire.once", "every number taken is retired exactly once before the call returns", 4)
	r.rule("retire", "the account of retired numbers is exact", 4)
	r.rule("retire.drop", "only subtrees below the least number in use are dropped", 2)
	r.rule("retire.tables", "dropped subtrees are forgotten", 2)
	r.rule("retire.count", "the number of unretired numbers is exact", 1)
	r.rule("retire.heap", "the heap of retired numbers orders by value and keeps them whole", 5)
	m := newKeyModel(r)
	if m.lst == nil || m.heap < 0 {
		r.undec("retire.once", "PrivateKey", "", "no record of the numbers in use found")
		return
	}
	m.all(func(p keyPath) {
		g := kg(p.o.St)
		if p.k.dangerous {
			return
		}
		taken := len(g.took)
		if g.obj == nil {
			return
		}
		p.k.chk(g.ret == taken, "retire.once", nil, nil, "every number taken is retired exactly once")
		p.k.chk(g.pop == nil, "retire", nil, nil, "every number removed from the heap is accounted for")
		if isMethod(p.fn, "UnretiredSeqNos") {
			st := p.o.St
			hp, _ := st.load(&Ptr{g.obj, []PE{{F: m.heap}}}).(*Ptr)
			s, _ := st.load(hp).(*Slice)
			want := pSub(pSub(m.cell(st, m.seq), m.cell(st, m.lst)), s.Len.P)
			ok := false
			if x := polyOf(p.o.Ret); x != nil {
				// the numbers in between are at most 2^32-1
				ok = modEq(st, x, want, 32)
			}
			p.k.chk(ok, "retire.count", nil, nil, "the number of unretired numbers is the next number, less the least one in use and the retired ones")
		}
	})
	if r.parts == 0 || r.part == 0 {
		m.heapRules(r)
	}
	r.keep("retire")
}

// a = b modulo 2^w
func modEq(st *State, a, b *Poly, w int) bool {
	d := pSub(stripMod(st, a, w), stripMod(st, b, w))
	d = st.facts.norm(d)
	m := pow2(uint(w))
	z := func(c *big.Int) bool { return new(big.Int).Mod(c, m).Sign() == 0 }
	if !z(d.c) {
		return false
	}
	for _, x := range d.ms {
		if !z(x.c) {
			return false
		}
	}
	return true
}

// a polynomial congruent to p modulo 2^w, without reductions
func stripMod(st *State, p *Poly, w int) *Poly {
	p = st.facts.norm(p)
	r := pConst(p.c)
	for _, x := range p.ms {
		t := mkPoly(bigZero, []mon{x})
		if len(x.as) == 1 && x.pow == nil {
			a := x.as[0]
			switch {
			case a.Op == "ext" && a.n1 == 0 && a.n2 >= w:
				t = pScale(stripMod(st, pAtom(a.Args[0]), w), x.c)
			case a.Op == "wrap" && int(a.W) >= w:
				t = pScale(stripMod(st, a.Args[0].P, w), x.c)
			}
		}
		r = pAdd(r, t)
	}
	return r
}

// The heap of retired numbers, as container/heap uses it.
func (m *keyModel) heapRules(r *Rep) {
	pt := m.S.Field(m.heap).Type().(*types.Pointer)
	ht := pt.Elem()
	elem := ht.Underlying().(*types.Slice).Elem()
	w, sg, ok := basicInfo(elem)
	r.check(ok && w == 64 && !sg, "retire.heap", "element", "", "the elements are whole sequence numbers")
	method := func(name string) *ssa.Function {
		ms := types.NewMethodSet(pt)
		for i := 0; i < ms.Len(); i++ {
			f := ms.At(i).Obj().(*types.Func)
			if f.Name() == name {
				return m.p.SSA.FuncValue(f)
			}
		}
		panic(abortAll{"heap without " + name})
	}
	type setup struct {
		st   *State
		o    *Obj
		s    *Slice
		i, j *Term
	}
	mk := func() setup {
		st := newState()
		o := newObj("heap", ht)
		s := symVal(ht, fresh("heap")).(*Slice)
		st.heap[o] = s
		i, j := symRange("i", 64, true, 0, -1), symRange("j", 64, true, 0, -1)
		for _, x := range []*Term{i, j} {
			st.assume(bGE0(pSub(pSub(s.Len.P, pOne), x.P)), true)
		}
		return setup{st, o, s, i, j}
	}
	run := func(x setup, name string, args ...Val) []Outcome {
		fn := method(name)
		in := newInterp(m.p)
		var recv Val = &Ptr{Obj: x.o}
		if _, isP := fn.Signature.Recv().Type().(*types.Pointer); !isP {
			recv = x.s
		}
		os := in.Exec(x.st, nil, fn, append([]Val{recv}, args...), nil, nil)
		r.seen(in)
		for _, u := range in.undec {
			r.undec("retire.heap", name, "", "%s", u)
		}
		return os
	}
	x := mk()
	good := true
	for _, o := range run(x, "Less", x.i, x.j) {
		if o.Panic {
			continue
		}
		a, b := polyOf(o.St.sliceGet(x.s, x.i.P)), polyOf(o.St.sliceGet(x.s, x.j.P))
		lt := bGE0(pSub(pSub(b, a), pOne))
		c, ok := o.Ret.(*Term)
		good = good && ok && (c == lt || o.St.facts.decide(c) != 0 && o.St.facts.decide(c) == o.St.facts.decide(lt))
	}
	r.check(good, "retire.heap", "Less", "", "elements are compared by value")
	x = mk()
	good = true
	for _, o := range run(x, "Len") {
		if !o.Panic {
			p := polyOf(o.Ret)
			good = good && p != nil && o.St.eq(p, x.s.Len.P)
		}
	}
	r.check(good, "retire.heap", "Len", "", "the length is that of the slice")
	x = mk()
	a, b := polyOf(x.st.sliceGet(x.s, x.i.P)), polyOf(x.st.sliceGet(x.s, x.j.P))
	good = true
	for _, o := range run(x, "Swap", x.i, x.j) {
		if o.Panic {
			continue
		}
		cur := o.St.load(&Ptr{Obj: x.o}).(*Slice)
		a2, b2 := polyOf(o.St.sliceGet(cur, x.i.P)), polyOf(o.St.sliceGet(cur, x.j.P))
		st := o.St
		// the two may be the same element
		d := st.clone()
		d.assume(bGE0(pSub(pSub(x.j.P, x.i.P), pOne)), true)
		cur = d.load(&Ptr{Obj: x.o}).(*Slice)
		a2, b2 = polyOf(d.sliceGet(cur, x.i.P)), polyOf(d.sliceGet(cur, x.j.P))
		good = good && a2 != nil && b2 != nil && d.eq(a2, b) && d.eq(b2, a)
	}
	r.check(good, "retire.heap", "Swap", "", "two elements are exchanged")
	x = mk()
	v := symInt("v", 64, false)
	good = true
	for _, o := range run(x, "Push", &Iface{T: elem, V: v}) {
		if o.Panic {
			continue
		}
		cur, ok := o.St.load(&Ptr{Obj: x.o}).(*Slice)
		good = good && ok && o.St.eq(cur.Len.P, pAdd(x.s.Len.P, pOne))
		if good {
			e := polyOf(o.St.sliceGet(cur, x.s.Len.P))
			good = e != nil && o.St.eq(e, v.P)
		}
	}
	r.check(good, "retire.heap", "Push", "", "the element is appended whole")
	x = mk()
	x.st.assume(bGE0(pSub(x.s.Len.P, pOne)), true)
	last := polyOf(x.st.sliceGet(x.s, pSub(x.s.Len.P, pOne)))
	good = true
	for _, o := range run(x, "Pop") {
		if o.Panic {
			continue
		}
		cur, ok := o.St.load(&Ptr{Obj: x.o}).(*Slice)
		good = good && ok && o.St.eq(cur.Len.P, pSub(x.s.Len.P, pOne))
		i, ok := o.Ret.(*Iface)
		good = good && ok && types.Identical(i.T, elem)
		if good {
			e := polyOf(i.V)
			good = e != nil && o.St.eq(e, last)
		}
	}
	r.check(good, "retire.heap", "Pop", "", "the last element is removed and returned")
	// nothing but container/heap changes it
	for _, f := range m.p.repoFuncs() {
		if rc := f.Signature.Recv(); rc != nil && (types.Identical(rc.Type(), pt) || types.Identical(rc.Type(), ht)) {
			continue
		}
		for _, bl := range f.Blocks {
			for _, ins := range bl.Instrs {
				if s, ok := ins.(*ssa.Store); ok && types.Identical(s.Addr.Type(), pt) {
					if _, isAlloc := s.Addr.(*ssa.Alloc); !isAlloc {
						r.viol("retire.heap", fnName(f), m.p.ipos(ins), "the heap is changed without keeping its order")
					}
				}
				if ix, ok := ins.(*ssa.IndexAddr); ok && types.Identical(ix.X.Type(), ht) {
					for _, u := range *ix.Referrers() {
						if s, ok := u.(*ssa.Store); ok && s.Addr == ix {
							r.viol("retire.heap", fnName(f), m.p.ipos(s), "an element of the heap is changed")
						}
					}
				}
				if ci, ok := ins.(ssa.CallInstruction); ok {
					c := ci.Common().StaticCallee()
					if c != nil && c.Signature.Recv() != nil && (types.Identical(c.Signature.Recv().Type(), pt) || types.Identical(c.Signature.Recv().Type(), ht)) &&
						(c.Name() == "Push" || c.Name() == "Pop" || c.Name() == "Swap") && !strings.Contains(f.String(), "$bound") && f.Synthetic == "" {
						r.viol("retire.heap", fnName(f), m.p.ipos(ins), "%s is called without container/heap", c.Name())
					}
				}
			}
		}
	}
}
