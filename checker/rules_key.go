package main

// Rules about the state of a private key (S01, ...).

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S01", "Path-sensitive typestate analysis of the key and its container: rely/guarantee on the lock, every container call failing in every way; "+
		"the container itself: what it reports as stored is what is read back after a crash.", s01)
}

// restricts the report to some rules
func (r *Rep) keep(rules ...string) {
	var n []Obl
	idx := map[string]int{}
	for _, o := range r.obls {
		ok := o.Rule == "analysis" || o.Rule == "paths"
		for _, x := range rules {
			if o.Rule == x || len(o.Rule) > len(x) && o.Rule[:len(x)+1] == x+"." {
				ok = true
			}
		}
		if ok {
			idx[o.Rule+"\x00"+o.Construct+"\x00"+o.What] = len(n)
			n = append(n, o)
		}
	}
	r.obls, r.idx = n, idx
}

func s01(r *Rep) {
	r.rule("index.invariant", "at every release of the key's lock the container has recorded all used and borrowed numbers, and the next number has not decreased", 10)
	r.rule("index.lower", "the container is never told a number below one that was used", 2)
	r.rule("index.use", "the number of a signature was taken in a critical section of its own call and is within range", 4)
	r.rule("index.load", "a loaded or new key continues where the container is", 2)
	m := newKeyModel(r)
	m.all(func(p keyPath) {
		if p.ctor {
			p.k.loadCheck(p.fn, p.o)
		}
		p.k.useCheck(p.fn, p.o)
	})
	r.keep("index", "store")
	storeRules(r, "store", "index")
}

// signatures a path returns
func (k *keyRun) useCheck(fn *ssa.Function, o Outcome) {
	if k.retErr(o, fn) == -1 {
		return
	}
	t, ok := o.Ret.(Tuple)
	if !ok {
		t = Tuple{o.Ret}
	}
	res := fn.Signature.Results()
	for i := 0; i < res.Len() && i < len(t); i++ {
		if !isNamed(res.At(i).Type(), m_pkg(k), "Signature") {
			continue
		}
		k.sigCheck(fn, o, t[i])
	}
}

func (k *keyRun) sigCheck(fn *ssa.Function, o Outcome, v Val) {
	p, ok := v.(*Ptr)
	if !ok || p.Obj.Sym != nil {
		k.viol("index.use", nil, nil, "signature returned is not known")
		return
	}
	in := newInterp(k.m.p)
	st := o.St.clone()
	os := in.Exec(st, nil, k.m.p.needFn("Signature.SeqNo"), []Val{p}, nil, nil)
	if len(os) != 1 || polyOf(os[0].Ret) == nil {
		k.viol("index.use", nil, nil, "sequence number of the signature is not known")
		return
	}
	x := polyOf(os[0].Ret)
	g := kg(o.St)
	own := false
	for _, tk := range g.took {
		if o.St.ge(x, tk[0]) && o.St.ge(pSub(tk[1], pOne), x) {
			own = true
		}
	}
	k.chk(own, "index.use", nil, nil, "the number of the signature was taken by this call")
	max := pSub(pConst(pow2(uint(k.H))), pOne)
	k.chk(o.St.ge(max, x), "index.use", nil, nil, "the number of the signature is below 2^%d", k.H)
}

// A method of a key that was made in this analysis: it is shared from now on.
func (k *keyRun) newKeyHook(st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
	g := kg(st)
	if cs.Fn == nil || len(cs.Args) == 0 || cs.Fn.Signature.Recv() == nil || !types.Identical(cs.Fn.Signature.Recv().Type(), types.NewPointer(k.m.T)) {
		return nil, false
	}
	p, ok := cs.Args[0].(*Ptr)
	if !ok || len(p.Path) != 0 || g.obj == p.Obj {
		return nil, false
	}
	if cs.Fn.Object() != nil && cs.Fn.Object().Exported() && p.Obj.Sym == nil {
		// the invariant must hold from here on
		k.newKey(st, fr, p)
		st.upd(func(g *keyG) { g.obj = p.Obj; g.shared = true })
	}
	return nil, false
}

func (k *keyRun) newKey(st *State, fr *Frame, p *Ptr) {
	g := kg(st)
	s, b := polyOf(st.load(&Ptr{p.Obj, k.m.seq})), polyOf(st.load(&Ptr{p.Obj, k.m.bor}))
	if s == nil || b == nil || g.C == nil {
		k.viol("index.load", fr, nil, "a new key does not take its sequence number from the container")
		return
	}
	k.chk(st.eq(s, g.C) && st.eq(b, pZero), "index.load", fr, nil, "a new key starts with the sequence number of the container and no borrowed numbers")
	if k.m.lst != nil {
		l := polyOf(st.load(&Ptr{p.Obj, k.m.lst}))
		k.chk(l != nil && st.eq(l, s), "retire.start", fr, nil, "the least number in use of a new key is its next one")
	}
}

func (k *keyRun) loadCheck(fn *ssa.Function, o Outcome) {
	if k.retErr(o, fn) == -1 {
		return
	}
	t, ok := o.Ret.(Tuple)
	if !ok {
		return
	}
	res := fn.Signature.Results()
	for i := 0; i < res.Len() && i < len(t); i++ {
		if !types.Identical(res.At(i).Type(), types.NewPointer(k.m.T)) {
			continue
		}
		p, ok := t[i].(*Ptr)
		if !ok || p.Obj.Sym != nil {
			k.viol("index.load", nil, nil, "key returned is not known: %s", fmt.Sprint(t[i]))
			continue
		}
		k.newKey(o.St, nil, p)
	}
}
