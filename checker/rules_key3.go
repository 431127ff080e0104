package main

// The part of the key in rules about its container: errors (S03), ownership
// of the container (S04), counting (B01) and caches that are gone (S11).

import (
	"go/types"
)

// what happened while the lock was held
type secRec struct {
	s0, s, b0, b *Poly
	slack0       *Poly
	C            *Poly
	writes       []*Event
}

// The methods and functions that make keys are also analysed; they are
// another list of jobs.
func keySide(r *Rep, f func(m *keyModel, p keyPath)) {
	m := newKeyModel(r)
	m.all(func(p keyPath) { f(m, p) })
}

func results(o Outcome) Tuple {
	if t, ok := o.Ret.(Tuple); ok {
		return t
	}
	return Tuple{o.Ret}
}

func isNilV(st *State, v Val) int { return st.facts.decide(st.eqVal(v, NilV{})) }

// ---- S03

func s03key(r *Rep) {
	r.rule("err.key", "methods that get an error of their container report an error", 15)
	keySide(r, func(m *keyModel, p keyPath) {
		k := p.k
		rooted := false // a new key is complete, what follows fills the cache
		for _, e := range p.o.St.trace() {
			switch e.Kind {
			case "ctr":
				if e.X != true || e.Name == "DropSubTree" {
					continue
				}
			case "rec":
				if e.X != true {
					rooted = rooted || k.rootTree(p.o.St, e)
					continue
				}
				if p.ctor && rooted {
					continue
				}
			default:
				continue
			}
			k.chk(k.retErr(p.o, p.fn) == -1 && errIdx(p.fn.Signature) >= 0, "err.key", e.Fr, e.Instr,
				"%s returns an error if %s fails", fnName(p.fn), e.Name)
		}
	})
}

// is this about the subtree on top?
func (k *keyRun) rootTree(st *State, e *Event) bool {
	li := fieldIdx(k.m.p.namedType("SubTreeAddress"), "Layer")
	for _, a := range e.Args {
		if ag, ok := a.(*Agg); ok && types.Identical(ag.T, k.m.p.namedType("SubTreeAddress")) && li >= 0 {
			l := polyOf(ag.get(st, pConstI(int64(li))))
			return l != nil && st.facts.decideEQ(pSub(l, pConstI(int64(k.D-1)))) == 1
		}
	}
	return false
}

// ---- S04

func s04key(r *Rep) {
	r.rule("lock.owner", "who owns a container closes it, or passes it on", 5)
	keySide(r, func(m *keyModel, p keyPath) {
		k := p.k
		closed := len(k.evs(p.o, "ctr", "Close"))
		if !p.ctor {
			if !isMethod(p.fn, "Close") {
				k.chk(closed == 0, "lock.owner", nil, nil, "%s does not close the container", fnName(p.fn))
			} else {
				k.chk(closed >= 1, "lock.owner", nil, nil, "closing a key closes the container")
			}
			return
		}
		own := len(k.evs(p.o, "open", "")) > 0 || p.fn.Name() == "LoadPrivateKeyFrom"
		key := false
		res := p.fn.Signature.Results()
		for i, v := range results(p.o) {
			if i < res.Len() && types.Identical(res.At(i).Type(), types.NewPointer(m.T)) {
				key = isNilV(p.o.St, v) == -1
			}
		}
		switch {
		case k.retErr(p.o, p.fn) == -1 || !key:
			if own {
				k.chk(closed >= 1, "lock.owner", nil, nil, "the container is closed when %s returns no key", fnName(p.fn))
			}
		default:
			k.chk(closed == 0, "lock.owner", nil, nil, "the container of a key that is returned is open")
		}
	})
}

// ---- S11

func s11key(r *Rep) {
	r.rule("damage.load", "loading a key makes a new cache if there is none", 3)
	r.rule("damage.refuse", "no key is returned with an error, or from a container that has none", 5)
	good := false
	keySide(r, func(m *keyModel, p keyPath) {
		if !p.ctor {
			return
		}
		k, st := p.k, p.o.St
		err := k.retErr(p.o, p.fn)
		have, asked, no := false, false, false
		for _, e := range st.trace() {
			use := e.Kind == "rec"
			if e.Kind == "ctr" {
				switch e.Name {
				case "CacheInitialized":
					d := 0
					if c, ok := e.Ret.(*Term); ok {
						d = st.facts.decide(c)
					}
					asked = true
					have = have || d == 1
					no = no || d == -1
				case "ResetCache", "Reset":
					have = have || e.X != true
				case "GetSubTree", "ListSubTrees", "DropSubTree", "HasSubTree":
					use = true
				case "Initialized":
					if isNilV(st, e.Ret) != -1 {
						k.chk(err == -1, "damage.refuse", nil, e.Instr, "%s reports an error if the container has no key", fnName(p.fn))
					}
				}
			}
			if use {
				k.chk(have, "damage.load", e.Fr, e.Instr, "the cache is initialised before it is used")
			}
		}
		if asked && no && err == 1 {
			good = true
			k.ok("damage.load", nil, "a key without a cache can be used")
		}
		if err == -1 {
			res := p.fn.Signature.Results()
			for i, v := range results(p.o) {
				if i < res.Len() && types.Identical(res.At(i).Type(), types.NewPointer(m.T)) {
					k.chk(isNilV(st, v) == 1, "damage.refuse", nil, nil, "%s returns no key with an error", fnName(p.fn))
				}
			}
		}
	})
	_ = good
}

// ---- B01

func b01key(r *Rep) {
	r.rule("count.exact", "without an error exactly the given number of signatures is reserved", 3)
	r.rule("count.error", "with an error no more signatures are counted on than the container has reserved", 1)
	r.rule("count.sign", "a signature uses up one reserved number without a write, or one that was written", 4)
	r.rule("count.lost", "the number of lost signatures is the one the container reports", 2)
	r.rule("count.close", "closing records exactly the next unused number, and removes the record of reserved ones", 2)
	r.rule("count.get", "the number of reserved signatures is reported", 1)
	keySide(r, func(m *keyModel, p keyPath) {
		k, st := p.k, p.o.St
		g := kg(st)
		err := k.retErr(p.o, p.fn)
		if p.ctor {
			if err != 1 {
				return
			}
			var lost Val
			for _, e := range k.evs(p.o, "ctr", "GetSeqNo") {
				if t, ok := e.Ret.(Tuple); ok && e.X != true {
					lost = t[1]
				}
			}
			res := p.fn.Signature.Results()
			for i, v := range results(p.o) {
				if i < res.Len() && types.Identical(res.At(i).Type(), types.Typ[types.Uint32]) {
					a, b := polyOf(v), polyOf(lost)
					k.chk(a != nil && b != nil && st.eq(a, b), "count.lost", nil, nil, "%s returns the number of lost signatures", fnName(p.fn))
				}
			}
			return
		}
		writes := func(s secRec, rule string) bool { return true }
		_ = writes
		switch {
		case isMethod(p.fn, "BorrowExactly") || isMethod(p.fn, "BorrowExactlyIfBelow"):
			if err != 1 {
				for _, s := range g.log {
					k.chk(st.ge(s.C, pAdd(s.s, s.b)), "count.error", nil, nil, "with an error the key counts on no more numbers than the container has reserved")
				}
				return
			}
			if len(g.log) != 1 {
				k.viol("count.exact", nil, nil, "the numbers are reserved in %d steps", len(g.log))
				return
			}
			s, amount := g.log[0], polyOf(p.args[1])
			if isMethod(p.fn, "BorrowExactlyIfBelow") {
				thr := polyOf(p.args[2])
				switch st.facts.decideGE(pSub(thr, s.b0)) {
				case -1:
					k.chk(st.eq(s.b, s.b0) && len(s.writes) == 0, "count.exact", nil, nil, "nothing happens if more are left than the threshold")
					return
				case 0:
					k.chk(st.eq(s.b, s.b0) && st.eq(s.b, amount), "count.exact", nil, nil, "without looking at the threshold, nothing changes")
					return
				}
			}
			k.chk(st.eq(s.b, amount), "count.exact", nil, nil, "exactly the given number is reserved")
			k.chk(st.eq(s.s, s.s0), "count.exact", nil, nil, "reserving uses no number")
			sl := pSub(s.C, pAdd(s.s, s.b))
			k.chk(st.eq(sl, s.slack0) || st.eq(sl, pZero), "count.exact", nil, nil, "the container has reserved exactly the same")
		case isMethod(p.fn, "BorrowedSeqNos"):
			v := polyOf(p.o.Ret)
			k.chk(v != nil && st.eq(v, m.cell(st, m.bor)), "count.get", nil, nil, "the number of reserved signatures is returned")
		case isMethod(p.fn, "Close"):
			if err != 1 {
				return
			}
			k.chk(g.L != nil && st.eq(g.L, pZero), "count.close", nil, nil, "after closing the container reports no lost signatures")
			for _, s := range g.log {
				if st.eq(s.b0, pZero) {
					continue
				}
				ok := false
				for _, e := range s.writes {
					ok = e.Name == "SetSeqNo" && e.X != true
				}
				k.chk(ok && st.eq(s.C, s.s) && st.eq(s.s, s.s0), "count.close", nil, nil, "the container is told the next unused number")
			}
		default:
			for _, s := range g.log {
				if st.eq(s.s, s.s0) && !k.dangerous {
					k.chk(st.eq(s.b, s.b0), "count.sign", nil, nil, "nothing is used up if no number is taken")
					continue
				}
				if k.dangerous {
					continue
				}
				k.chk(st.eq(s.s, pAdd(s.s0, pOne)), "count.sign", nil, nil, "one number is taken at once")
				if st.eq(s.b0, pZero) {
					k.chk(len(s.writes) == 1 && st.eq(s.b, pZero) && st.eq(s.C, s.s), "count.sign", nil, nil, "if none are reserved, one is written")
				} else {
					k.chk(st.ge(s.b0, pOne) && st.eq(s.b, pSub(s.b0, pOne)) && len(s.writes) == 0, "count.sign", nil, nil, "one that is reserved is used up without a write")
				}
			}
		}
	})
}

// events that change what is stored
func storing(name string) bool {
	return name == "SetSeqNo" || name == "BorrowSeqNos" || name == "Reset"
}
