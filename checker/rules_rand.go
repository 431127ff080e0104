package main

// K01: where the bytes of new keys come from.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("K01", "Path-sensitive tracking of every byte of a new key back to a read of the cryptographic random source, each of which may fail.", k01)
}

func k01(r *Rep) {
	r.rule("rand.full", "every byte of a new key is a byte of its own from the cryptographic random source", 8)
	r.rule("rand.error", "a read of the random source that fails makes key generation fail before a key is stored", 8)
	m := newKeyModel(r)
	var fns []*ssa.Function
	for _, fn := range m.ctors() {
		if m.makesKey(fn) {
			fns = append(fns, fn)
		}
	}
	var pas []Params
	for _, n := range []int64{16, 24, 32, 64} {
		for _, f := range []int64{0, 1} {
			for _, prf := range []int64{0, 1} {
				pas = append(pas, Params{f, n, 4, 2, 16, prf})
			}
		}
	}
	r.each(len(fns)*len(pas), func(int) int { return 1 }, func(i int) {
		m.randJob(fns[i/len(pas)], pas[i%len(pas)])
	})
	r.keep("rand")
}

// Functions that make a key without being given one: no container and no
// bytes among their parameters.
func (m *keyModel) makesKey(fn *ssa.Function) bool {
	key := false
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		key = key || types.Identical(res.At(i).Type(), types.NewPointer(m.T))
	}
	ps := fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		t := ps.At(i).Type()
		if _, ok := t.Underlying().(*types.Slice); ok || types.Identical(t, m.ctrT) {
			return false
		}
	}
	// loading doesn't store a key
	return key && m.stores(fn)
}

func (m *keyModel) stores(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				if mc, ok := x.(*ssa.MakeClosure); ok && walk(mc.Fn.(*ssa.Function)) {
					return true
				}
				ci, ok := x.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if cc.IsInvoke() && cc.Method.Name() == "Reset" && types.Identical(cc.Value.Type(), m.ctrT) {
					return true
				}
				if walk(cc.StaticCallee()) {
					return true
				}
			}
		}
		return false
	}
	return walk(fn)
}

func reachesPkg(fn *ssa.Function, pkgs map[string]bool, memo map[*ssa.Function]bool) bool {
	if fn == nil {
		return false
	}
	if v, ok := memo[fn]; ok {
		return v
	}
	memo[fn] = false
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			for _, op := range x.Operands(nil) {
				switch v := (*op).(type) {
				case *ssa.Function:
					if v.Pkg != nil && pkgs[v.Pkg.Pkg.Path()] || reachesPkg(v, pkgs, memo) {
						memo[fn] = true
						return true
					}
				case *ssa.Global:
					if v.Pkg != nil && pkgs[v.Pkg.Pkg.Path()] {
						memo[fn] = true
						return true
					}
				}
			}
		}
	}
	return memo[fn]
}

type randG struct {
	bytes  map[*Term]bool // bytes of successful reads
	stored []*Term
	set    bool
}

func rg(st *State) *randG { return st.user["rand"].(*randG) }

func (m *keyModel) randJob(fn *ssa.Function, pa Params) {
	name := fmt.Sprintf("%s (%v)", fnName(fn), pa)
	in := newInterp(m.p)
	in.Merge = true
	st := m.base.clone()
	m.p.setX4(st, false)
	st, ctx := m.r.newContext(in, st, pa)
	if st == nil {
		return // not supported, see R03
	}
	k := &keyRun{m: m, name: name, h: uint64(pa.H / pa.D), H: uint64(pa.H), D: uint64(pa.D), noCut: true}
	st.user["key"] = &keyG{}
	st.user["ctx"] = ctx
	st.user["rand"] = &randG{}
	st.ev = nil
	rdT := fakeType("crypto/rand.Reader")
	if g := m.p.global("crypto/rand", "Reader"); g != nil {
		st.heap[m.p.globalObj(g)] = &Iface{T: rdT, V: &Ptr{Obj: newObj("rand", types.NewStruct(nil, nil))}}
	}
	k.interp()
	memo := map[*ssa.Function]bool{}
	pk := map[string]bool{"crypto/rand": true, "math/rand": true, "math/rand/v2": true}
	k.keepFn = func(f *ssa.Function) bool { return reachesPkg(f, pk, memo) }
	isRd := func(v Val) bool {
		i, ok := v.(*Iface)
		return ok && i.T == rdT
	}
	k.extra = func(st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		var buf Val
		all := true
		switch {
		case cs.Name == "crypto/rand.Read":
			buf = cs.Args[0]
		case cs.Name == "io.ReadFull" && isRd(cs.Args[0]):
			buf = cs.Args[1]
		case cs.Name == "io.ReadAtLeast" && isRd(cs.Args[0]):
			buf = cs.Args[1]
			s, ok := buf.(*Slice)
			all = ok && st.eq(polyOf(cs.Args[2]), s.Len.P)
		case cs.Method == "Read" && isRd(cs.Recv):
			buf, all = cs.Args[len(cs.Args)-1], false
		case k.isCtrCall(cs) && cs.Method == "Reset":
			s, ok := cs.Args[1].(*Slice)
			if !ok {
				k.viol("rand.full", fr, cs.Instr, "%s: the key stored is not known", name)
				return nil, false
			}
			g := *rg(st)
			g.stored, g.set = st.bytesOf(s), true
			k.randKey(st, fr, cs, name, pa, &g)
			st.user["rand"] = &g
			return nil, false
		default:
			return k.newKeyHook(st, fr, cs)
		}
		s, ok := buf.(*Slice)
		if !ok || s.Obj == nil {
			k.m.r.undec("rand.full", name, m.p.ipos(cs.Instr), "the buffer given to the random source is not known")
			return nil, false
		}
		n, ok := st.facts.norm(s.Len.P).constI()
		if !ok || n > 1<<16 {
			k.m.r.undec("rand.full", name, m.p.ipos(cs.Instr), "the length of the buffer given to the random source is not known")
			return nil, false
		}
		st.havocSlice(s, "random")
		bad := st.clone()
		bad.havocSlice(s, "partial")
		st.emit(&Event{Kind: "rand", Instr: cs.Instr, Fr: fr, X: false})
		bad.emit(&Event{Kind: "rand", Instr: cs.Instr, Fr: fr, X: true})
		if all {
			g := *rg(st)
			g.bytes = map[*Term]bool{}
			for b := range rg(st).bytes {
				g.bytes[b] = true
			}
			for _, b := range st.bytesOf(s) {
				g.bytes[b] = true
			}
			st.user["rand"] = &g
		}
		cnt := s.Len
		if !all {
			cnt = symInt(freshName("got"), 64, true)
		}
		return []Outcome{{St: st, Ret: Tuple{cnt, nilError()}}, {St: bad, Ret: Tuple{symInt(freshName("got"), 64, true), newErr(bad, "rand")}}}, true
	}
	args := k.args(st, fn, ctx)
	outs := k.in.Exec(st, nil, fn, args, nil, nil)
	good := 0
	for _, o := range outs {
		if o.Panic {
			continue
		}
		e := k.retErr(o, fn)
		for _, ev := range k.evs(o, "rand", "") {
			if ev.X == true {
				k.chk(e == -1 && !rg(o.St).set, "rand.error", nil, ev.Instr, "%s: an error is returned, and no key stored, if the random source fails", name)
			}
		}
		if e == 1 {
			good++
			k.chk(rg(o.St).set, "rand.full", nil, nil, "%s: a new key is stored", name)
		}
	}
	if good == 0 {
		m.r.undec("rand.full", name, "", "no path makes a key")
	}
	for _, u := range k.in.undec {
		m.r.undec("paths", name, "", "%s", u)
	}
	m.r.seen(k.in)
}

// the bytes that are stored
func (k *keyRun) randKey(st *State, fr *Frame, cs *CallSite, name string, pa Params, g *randG) {
	used := map[*Term]int{}
	bad := ""
	if int64(len(g.stored)) != 3*pa.N {
		bad = fmt.Sprintf("%d bytes instead of %d", len(g.stored), 3*pa.N)
	}
	for i, b := range g.stored {
		if !g.bytes[b] {
			bad = fmt.Sprintf("byte %d is %s", i, b.str(4))
			break
		}
		if j, ok := used[b]; ok {
			bad = fmt.Sprintf("byte %d is byte %d again", i, j)
			break
		}
		used[b] = i
	}
	if bad != "" {
		k.viol("rand.full", fr, cs.Instr, "%s: not every byte of the key is a fresh random byte: %s", name, bad)
	} else {
		k.ok("rand.full", nil, "%s: %d bytes of the key are bytes of their own from the random source", name, len(g.stored))
	}
}
