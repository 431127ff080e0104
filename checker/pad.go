package main

import "go/types"

// Scratch space holds what earlier computations left in it: the rules about
// hashes and chains are checked with arbitrary contents.

func (r *Rep) newPad(in *Interp, st *State, ctx Val) (*State, Val) {
	st, pad := exec1(in, st, r.P.needFn("Context.newScratchPad"), ctx)
	k := 0
	st.dirty(pad, &k, map[*Obj]bool{}, 0)
	if k == 0 {
		panic(abortAll{"the scratch pad holds no memory"})
	}
	return st, pad
}

// dirty replaces the numbers in slices, and the state of hashes, reachable
// from v by unknown ones.
func (st *State) dirty(v Val, k *int, seen map[*Obj]bool, d int) {
	if d > 6 {
		return
	}
	switch x := v.(type) {
	case *Agg:
		for i := 0; i < x.N && i < 64; i++ {
			if e, ok := x.el.get(i); ok {
				st.dirty(e, k, seen, d+1)
			}
		}
	case *Slice:
		if x.Obj == nil {
			return
		}
		if b, ok := x.Elem.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			*k++
			st.havocSliceAs(x, fresh("scratch"))
		}
	case *Iface:
		if x.V != nil {
			st.dirty(x.V, k, seen, d+1)
		}
	case *ReflV:
		st.dirty(x.V, k, seen, d+1)
	case *Ptr:
		if x.Obj == nil || seen[x.Obj] || x.Obj.Global {
			return
		}
		seen[x.Obj] = true
		switch h := st.heap[x.Obj].(type) {
		case *HashV:
			*k++
			st.heap[x.Obj] = &HashV{alg: h.alg, data: []*Term{fresh("absorbed")}, pos: 1}
		case *Agg:
			st.dirty(h, k, seen, d+1)
		}
	}
}
