package main

// Values and the memory model of the abstract interpreter.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// A memory object: an allocation site instance, a global, or the (unknown)
// target of a symbolic pointer.
type Obj struct {
	ID     int
	Name   string
	T      types.Type // type of contents
	Sym    *Term      // identity for symbolic objects, nil for allocations
	Site   ssa.Instruction
	Global bool
	Tag    string // for rules
}

type PE struct { // path element
	F   int // field
	Idx *Poly
}

type Ptr struct {
	Obj  *Obj
	Path []PE
}

type Slice struct {
	Obj           *Obj // nil for the nil slice
	Path          []PE
	Off, Len, Cap *Term
	Elem          types.Type
}

type Agg struct {
	owner int
	T     types.Type
	N     int  // number of elements or -1 if not constant
	Sym   bool // contents are symbolic (derived from bt) instead of zero
	bt    *Term
	el    Els
	log   []lent
	Tag   *Term // identity given by a summary, lost on modification
}

// Known elements of an aggregate: dense for small indices.
type Els struct {
	s []Val
	m map[int]Val
	n int
}

const maxDense = 1 << 15

func (e *Els) get(i int) (Val, bool) {
	if i >= 0 && i < len(e.s) {
		v := e.s[i]
		return v, v != nil
	}
	v, ok := e.m[i]
	return v, ok
}

func (e *Els) set(i int, v Val) {
	if i >= 0 && i < maxDense {
		if i >= len(e.s) {
			if i < cap(e.s) {
				e.s = e.s[:i+1]
			} else {
				n := make([]Val, i+1, 2*i+8)
				copy(n, e.s)
				e.s = n
			}
		}
		if e.s[i] == nil {
			e.n++
		}
		e.s[i] = v
		return
	}
	if e.m == nil {
		e.m = map[int]Val{}
	}
	if _, ok := e.m[i]; !ok {
		e.n++
	}
	e.m[i] = v
}

func (e *Els) clone() Els {
	r := Els{n: e.n}
	if len(e.s) > 0 {
		r.s = make([]Val, len(e.s))
		copy(r.s, e.s)
	}
	if len(e.m) > 0 {
		r.m = make(map[int]Val, len(e.m)+1)
		for k, v := range e.m {
			r.m[k] = v
		}
	}
	return r
}

func (e *Els) keys() []int {
	r := make([]int, 0, e.n)
	for i, v := range e.s {
		if v != nil {
			r = append(r, i)
		}
	}
	if len(e.m) > 0 {
		k := len(r)
		for i := range e.m {
			r = append(r, i)
		}
		sort.Ints(r[k:])
	}
	return r
}

type lent struct {
	lo, n *Poly // range written; n nil means everything
	val   Val   // single value (n == 1)
	src   *Agg  // or copied from
	soff  *Poly
	hv    *Term // or havoc
}

type MapAgg struct {
	owner int
	T     *types.Map
	Sym   bool
	bt    *Term
	log   []mapEnt
}

type mapEnt struct {
	key, val Val
	present  *Term // nil for havoc entry
}

type MapV struct{ Obj *Obj }

type Iface struct {
	T   types.Type
	V   Val
	Sym *Term // unknown dynamic type
}

type Func struct {
	Fn   *ssa.Function
	Bind []Val
	Sym  *Term
	Blt  *ssa.Builtin
	Recv Val // bound method
}

type Tuple []Val
type NilV struct{}

// identity of (interface) values
func idVal(a, b Val) bool {
	x, ok1 := a.(Tuple)
	y, ok2 := b.(Tuple)
	if ok1 || ok2 {
		if !ok1 || !ok2 || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !idVal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

type IteV struct {
	C    *Term
	A, B Val
}

var nextObj = 1
var symObjs = map[string]*Obj{}
var nextOwner = 1

func newObj(name string, t types.Type) *Obj {
	o := &Obj{ID: nextObj, Name: name, T: t}
	nextObj++
	return o
}

func symObj(bt *Term, t types.Type) *Obj {
	k := fmt.Sprintf("%d|%s", bt.id, t.String())
	if o, ok := symObjs[k]; ok {
		return o
	}
	o := newObj(bt.String(), t)
	o.Sym = bt
	symObjs[k] = o
	return o
}

func opaqueT(op, str string, n1 int, args ...*Term) *Term {
	return mkTerm(op, str, n1, 0, 0, false, args...)
}

func fresh(name string) *Term { return mkTerm("sym", freshName(name), 0, 0, 0, false) }

func basicInfo(t types.Type) (w uint, sg bool, ok bool) {
	b, ok2 := t.Underlying().(*types.Basic)
	if !ok2 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int:
		return intBits, true, true
	case types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uintptr:
		return intBits, false, true
	case types.Uint64:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// The symbolic value of type t with identity bt.
func symVal(t types.Type, bt *Term) Val {
	if w, sg, ok := basicInfo(t); ok {
		return mkInt(pAtom(mkTerm("val", "", 0, 0, w, sg, bt)), w, sg)
	}
	if isBool(t) {
		return mkTerm("bval", "", 0, 0, 1, false, bt)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return mkTerm("strv", "", 0, 0, 0, false, bt)
	case *types.Pointer:
		return &Ptr{Obj: symObj(bt, u.Elem())}
	case *types.Slice:
		ln := mkTerm("len", "", 0, 0, 64, true, bt)
		ln.Lo = bigZero
		cp := mkTerm("cap", "", 0, 0, 64, true, bt)
		cp.Lo = bigZero
		return &Slice{Obj: symObj(opaqueT("arr", "", 0, bt), types.NewArray(u.Elem(), -1)),
			Off: intT(0), Len: mkInt(pAtom(ln), 64, true), Cap: mkInt(pAtom(cp), 64, true), Elem: u.Elem()}
	case *types.Struct:
		return &Agg{T: t, N: u.NumFields(), Sym: true, bt: bt}
	case *types.Array:
		return &Agg{T: t, N: int(u.Len()), Sym: true, bt: bt}
	case *types.Interface:
		return &Iface{Sym: bt}
	case *types.Map:
		return &MapV{Obj: symObj(bt, t)}
	case *types.Signature:
		return &Func{Sym: bt}
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = symVal(u.At(i).Type(), opaqueT("res", "", i, bt))
		}
		return r
	case *types.Chan:
		return opaqueT("chan", "", 0, bt)
	}
	return bt
}

func zeroVal(t types.Type) Val {
	if w, sg, ok := basicInfo(t); ok {
		return intC(0, w, sg)
	}
	if isBool(t) {
		return tFalse
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer {
			return NilV{}
		}
		if u.Info()&types.IsString != 0 {
			return strC("")
		}
		return opaqueT("zero", t.String(), 0)
	case *types.Struct:
		return &Agg{T: t, N: u.NumFields()}
	case *types.Array:
		return &Agg{T: t, N: int(u.Len())}
	case *types.Slice:
		return &Slice{Off: intT(0), Len: intT(0), Cap: intT(0), Elem: u.Elem()}
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zeroVal(u.At(i).Type())
		}
		return r
	}
	return NilV{}
}

func (a *Agg) elemType(i int) types.Type {
	switch u := a.T.Underlying().(type) {
	case *types.Struct:
		return u.Field(i).Type()
	case *types.Array:
		return u.Elem()
	}
	panic("elemType of " + a.T.String())
}

func (a *Agg) isStruct() bool { _, ok := a.T.Underlying().(*types.Struct); return ok }

func (a *Agg) baseAt(i int) Val {
	t := a.elemType(i)
	if !a.Sym {
		return zeroVal(t)
	}
	name := ""
	if s, ok := a.T.Underlying().(*types.Struct); ok {
		name = s.Field(i).Name()
	}
	return symVal(t, opaqueT("sel", name, i, a.bt))
}

// Value of element at (possibly symbolic) index.
func (a *Agg) get(st *State, idx *Poly) Val {
	return a.getFrom(st, idx, len(a.log))
}

func (a *Agg) getFrom(st *State, idx *Poly, nlog int) Val {
	for i := nlog - 1; i >= 0; i-- {
		e := a.log[i]
		in, out := false, false
		if e.n == nil {
			in = true
		} else {
			d := pSub(idx, e.lo)
			if d.isConst() && e.n.isConst() {
				in = d.c.Sign() >= 0 && d.c.Cmp(e.n.c) < 0
				out = !in
			} else {
				a1, b1 := st.facts.decideGE(d), st.facts.decideGE(pSub(pSub(e.n, pOne), d))
				in = a1 == 1 && b1 == 1
				out = a1 == -1 || b1 == -1
				if !in && !out && strideDisjoint(st, idx, pOne, e.lo, e.n) {
					out = true
				}
			}
		}
		if out {
			continue
		}
		if !in {
			k := fresh("select")
			return symVal(a.elemType(0), k)
		}
		if e.hv != nil {
			if c, ok := idx.constI(); ok {
				return symVal(a.elemType(0), opaqueT("sel", "", int(c), e.hv))
			}
			return symVal(a.elemType(0), opaqueT("selx", "", 0, e.hv, mkInt(idx, 0, false)))
		}
		if e.src != nil {
			return e.src.get(st, pAdd(pSub(idx, e.lo), e.soff))
		}
		return e.val
	}
	if c, ok := idx.constI(); ok {
		if v, ok := a.el.get(int(c)); ok {
			return v
		}
		return a.baseAt(int(c))
	}
	// symbolic index in constant part
	if a.el.n == 0 || !a.isArr() {
		if !a.Sym {
			return zeroVal(a.elemType(0))
		}
		return symVal(a.elemType(0), opaqueT("selx", "", 0, a.bt, mkInt(idx, 0, false)))
	}
	// constrained by facts to one value?
	if lo, hi := st.facts.rng(st.facts.norm(idx)); lo != nil && hi != nil && lo.Cmp(hi) == 0 && lo.IsInt64() {
		return a.getFrom(st, pConst(lo), nlog)
	}
	if a.N >= 0 && a.N <= 64 {
		var r Val
		for i := a.N - 1; i >= 0; i-- {
			v := a.getFrom(st, pConstI(int64(i)), nlog)
			if r == nil {
				r = v
			} else {
				r = mergeVal(bEQ0(pSub(idx, pConstI(int64(i)))), v, r)
			}
		}
		return r
	}
	return symVal(a.elemType(0), fresh("select"))
}

func (a *Agg) isArr() bool { return !a.isStruct() }

// Ranges [s*x+c, +m) and [s*y+d, +n) where x != y are known, and which do not
// leave their stride.
func strideDisjoint(st *State, lo, n, lo2, n2 *Poly) bool {
	d := pSub(lo, lo2)
	for _, f := range st.facts.ne {
		// d = s*f + r
		f = st.facts.norm(f)
		if len(f.ms) == 0 {
			continue
		}
		for _, m := range d.ms {
			q := mulRatio(m, f.ms[0])
			if q == nil {
				continue
			}
			r := pSub(d, pMul(q, f))
			// |q| must be at least the length of both ranges plus slack
			if st.facts.decideGE(q) != 1 {
				q = pNeg(q)
			}
			if st.facts.decideGE(q) == 1 &&
				st.facts.decideGE(pSub(pSub(q, n2), pNeg(r))) == 1 && // q + r >= n2
				st.facts.decideGE(pSub(pSub(q, n), r)) == 1 { // q - r >= n
				return true
			}
		}
	}
	return false
}

// m / f as a polynomial if f divides m
func mulRatio(m, f mon) *Poly {
	q, r := new(big.Int).QuoRem(m.c, f.c, new(big.Int))
	if r.Sign() != 0 || f.pow != m.pow && f.pow != nil {
		return nil
	}
	rest := append([]*Term{}, m.as...)
	for _, a := range f.as {
		ok := false
		for i, b := range rest {
			if a == b {
				rest = append(rest[:i:i], rest[i+1:]...)
				ok = true
				break
			}
		}
		if !ok {
			return nil
		}
	}
	mm := mon{c: q, as: rest}
	if f.pow == nil {
		mm.pow = m.pow
	}
	if len(mm.as) == 0 && mm.pow == nil {
		return pConst(q)
	}
	return mkPoly(bigZero, []mon{mm})
}

func (a *Agg) mutable(owner int) *Agg {
	if a.owner == owner {
		return a
	}
	n := &Agg{owner: owner, T: a.T, N: a.N, Sym: a.Sym, bt: a.bt}
	n.el = a.el.clone()
	n.log = a.log[:len(a.log):len(a.log)]
	return n
}

func (a *Agg) frozen() *Agg {
	// a loaded aggregate is shared: later writes must copy
	freeze(a)
	return a
}

func freeze(v Val) {
	if a, ok := v.(*Agg); ok && a.owner != 0 {
		a.owner = 0
		for _, x := range a.el.s {
			freeze(x)
		}
		for _, x := range a.el.m {
			freeze(x)
		}
	}
}

// set element (on a mutable aggregate)
func (a *Agg) set(idx *Poly, v Val) {
	if c, ok := idx.constI(); ok && len(a.log) == 0 {
		a.el.set(int(c), v)
		return
	}
	a.log = append(a.log, lent{lo: idx, n: pOne, val: v})
}

// ---- State

type State struct {
	owner int
	heap  map[*Obj]Val
	facts *Facts
	ev    *EvNode
	user  map[string]interface{}
	pc    []*Term
}

func newState() *State {
	nextOwner++
	return &State{owner: nextOwner, heap: map[*Obj]Val{}, facts: newFacts(), user: map[string]interface{}{}}
}

func (st *State) clone() *State {
	nextOwner++
	n := &State{owner: nextOwner, facts: st.facts, ev: st.ev}
	n.heap = make(map[*Obj]Val, len(st.heap)+4)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.user = make(map[string]interface{}, len(st.user))
	for k, v := range st.user {
		n.user[k] = v
	}
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	nextOwner++
	st.owner = nextOwner // both copies must now copy on write
	return n
}

func (st *State) assume(t *Term, v bool) { st.facts = st.facts.assume(t, v) }

func (st *State) root(o *Obj) Val {
	if v, ok := st.heap[o]; ok {
		return v
	}
	var v Val
	if m, ok := o.T.Underlying().(*types.Map); ok {
		v = &MapAgg{T: m, Sym: o.Sym != nil || o.Global, bt: o.Sym}
	} else if o.Sym != nil {
		v = symVal(o.T, opaqueT("deref", "", 0, o.Sym))
		if a, ok := v.(*Agg); ok && a.N < 0 && false {
			_ = a
		}
	} else if o.Global {
		v = symVal(o.T, opaqueT("global", o.Name, 0))
	} else {
		v = zeroVal(o.T)
	}
	st.heap[o] = v
	return v
}

func (st *State) load(p *Ptr) Val {
	v := st.root(p.Obj)
	for _, e := range p.Path {
		a, ok := v.(*Agg)
		if !ok {
			if it, ok := v.(*IteV); ok {
				_ = it
			}
			return symVal0(fresh("badpath"))
		}
		if e.Idx != nil {
			v = a.get(st, e.Idx)
		} else {
			v = a.get(st, pConstI(int64(e.F)))
		}
		// remember materialised symbolic aggregates for identity
	}
	if a, ok := v.(*Agg); ok {
		freeze(a)
	}
	return v
}

func symVal0(t *Term) Val { return t }

func (st *State) store(p *Ptr, v Val) {
	if a, ok := v.(*Agg); ok {
		freeze(a)
	}
	if len(p.Path) == 0 {
		st.heap[p.Obj] = v
		return
	}
	r := st.root(p.Obj)
	a, ok := r.(*Agg)
	if !ok {
		return
	}
	st.heap[p.Obj] = st.storeIn(a, p.Path, v)
}

func (st *State) storeIn(a *Agg, path []PE, v Val) *Agg {
	a = a.mutable(st.owner)
	idx := path[0].Idx
	if idx == nil {
		idx = pConstI(int64(path[0].F))
	}
	if len(path) == 1 {
		a.set(idx, v)
		return a
	}
	sub := a.get(st, idx)
	sa, ok := sub.(*Agg)
	if !ok {
		return a
	}
	a.set(idx, st.storeIn(sa, path[1:], v))
	return a
}

func pathKey(p []PE) string {
	s := ""
	for _, e := range p {
		if e.Idx != nil {
			s += fmt.Sprintf("[%d]", e.Idx.id)
		} else {
			s += fmt.Sprintf(".%d", e.F)
		}
	}
	return s
}

func subPath(p []PE, e PE) []PE { return append(p[:len(p):len(p)], e) }

func sliceAgg(st *State, s *Slice) *Agg {
	if s.Obj == nil {
		return nil
	}
	v := st.load(&Ptr{s.Obj, s.Path})
	a, _ := v.(*Agg)
	return a
}

// Element idx of slice
func (st *State) sliceGet(s *Slice, idx *Poly) Val {
	a := sliceAgg(st, s)
	if a == nil {
		return symVal(s.Elem, fresh("nilslice"))
	}
	return a.get(st, pAdd(s.Off.P, idx))
}

func (st *State) sliceSet(s *Slice, idx *Poly, v Val) {
	if s.Obj == nil {
		return
	}
	st.store(&Ptr{s.Obj, subPath(s.Path, PE{Idx: pAdd(s.Off.P, idx)})}, v)
}

// modifies array below slice
func (st *State) modArr(s *Slice, f func(a *Agg)) {
	p := &Ptr{s.Obj, s.Path}
	v := st.load(p)
	a, ok := v.(*Agg)
	if !ok {
		return
	}
	freeze(a)
	a = a.mutable(st.owner)
	f(a)
	if len(s.Path) == 0 {
		st.heap[s.Obj] = a
	} else {
		st.store(p, a)
	}
}

const maxElementwise = 1 << 15

func (st *State) copySlice(dst, src *Slice, n *Poly) {
	if dst.Obj == nil || src.Obj == nil {
		return
	}
	n = st.facts.norm(n)
	sa := sliceAgg(st, src)
	if sa == nil {
		return
	}
	if c, ok := n.constI(); ok && c <= maxElementwise {
		vals := make([]Val, c)
		for i := range vals {
			vals[i] = sa.get(st, pAdd(src.Off.P, pConstI(int64(i))))
		}
		st.modArr(dst, func(a *Agg) {
			for i, v := range vals {
				a.set(pAdd(dst.Off.P, pConstI(int64(i))), v)
			}
		})
		return
	}
	st.modArr(dst, func(a *Agg) {
		a.log = append(a.log, lent{lo: dst.Off.P, n: n, src: sa, soff: src.Off.P})
	})
}

// forgets contents of the slice
func (st *State) havocSlice(s *Slice, name string) *Term {
	h := fresh(name)
	if s.Obj == nil {
		return h
	}
	st.havocSliceAs(s, h)
	return h
}

// element i of the slice becomes sel<i>(h)
func (st *State) havocSliceAs(s *Slice, h *Term) {
	ln := st.facts.norm(s.Len.P)
	if c, ok := ln.constI(); ok && c <= maxElementwise {
		st.modArr(s, func(a *Agg) {
			for i := int64(0); i < c; i++ {
				a.set(pAdd(s.Off.P, pConstI(i)), symVal(s.Elem, opaqueT("sel", "", int(i), h)))
			}
		})
		return
	}
	src := &Agg{T: types.NewArray(s.Elem, -1), N: -1, Sym: true, bt: h}
	st.modArr(s, func(a *Agg) {
		a.log = append(a.log, lent{lo: s.Off.P, n: ln, src: src, soff: pZero})
	})
}

// ---- merging

func mergeVal(c *Term, a, b Val) Val {
	if idVal(a, b) {
		return a
	}
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			break
		}
		if x.P != nil && y.P != nil {
			return mkInt(pIte(c, x.P, y.P, x.W), x.W, x.Sg)
		}
		if x.W == 1 && y.W == 1 && x.P == nil && y.P == nil {
			return bIte(c, x, y)
		}
		return mkTerm("tite", "", 0, 0, 0, false, c, x, y)
	case *Ptr:
		if y, ok := b.(*Ptr); ok && x.Obj == y.Obj && pathKey(x.Path) == pathKey(y.Path) {
			return x
		}
	case *Slice:
		if y, ok := b.(*Slice); ok && x.Obj == y.Obj && x.Obj != nil && pathKey(x.Path) == pathKey(y.Path) {
			return &Slice{x.Obj, x.Path, mergeVal(c, x.Off, y.Off).(*Term), mergeVal(c, x.Len, y.Len).(*Term),
				mergeVal(c, x.Cap, y.Cap).(*Term), x.Elem}
		} else if ok && x.Obj == nil && y.Obj == nil {
			return x
		}
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || x.N != y.N {
			break
		}
		if len(x.log) == 0 && len(y.log) == 0 && x.Sym == y.Sym && x.bt == y.bt {
			n := &Agg{T: x.T, N: x.N, Sym: x.Sym, bt: x.bt}
			for _, i := range x.el.keys() {
				v, _ := x.el.get(i)
				w, ok := y.el.get(i)
				if !ok {
					w = y.baseAt(i)
				}
				n.el.set(i, mergeVal(c, v, w))
			}
			for _, i := range y.el.keys() {
				w, _ := y.el.get(i)
				if _, ok := x.el.get(i); !ok {
					n.el.set(i, mergeVal(c, x.baseAt(i), w))
				}
			}
			return n
		}
		if len(x.log) == 0 && len(y.log) == 0 && x.N >= 0 && x.N <= 4096 {
			n := &Agg{T: x.T, N: x.N}
			for i := 0; i < x.N; i++ {
				v, ok := x.el.get(i)
				if !ok {
					v = x.baseAt(i)
				}
				w, ok := y.el.get(i)
				if !ok {
					w = y.baseAt(i)
				}
				n.el.set(i, mergeVal(c, v, w))
			}
			return n
		}
	case Tuple:
		if y, ok := b.(Tuple); ok && len(x) == len(y) {
			r := make(Tuple, len(x))
			for i := range x {
				r[i] = mergeVal(c, x[i], y[i])
			}
			return r
		}
	case NilV:
		if _, ok := b.(NilV); ok {
			return a
		}
	case *Iface:
		if y, ok := b.(*Iface); ok {
			if x.Sym != nil && x.Sym == y.Sym {
				return x
			}
			if x.T != nil && y.T != nil && types.Identical(x.T, y.T) {
				return &Iface{T: x.T, V: mergeVal(c, x.V, y.V)}
			}
		}
	case *MapV:
		if y, ok := b.(*MapV); ok && x.Obj == y.Obj {
			return x
		}
	case *MapAgg:
		return &MapAgg{T: x.T, Sym: true, bt: fresh("mergedmap")}
	case *Func:
		if y, ok := b.(*Func); ok && x.Fn == y.Fn && len(x.Bind) == len(y.Bind) && x.Sym == y.Sym {
			n := &Func{Fn: x.Fn, Sym: x.Sym, Blt: x.Blt}
			for i := range x.Bind {
				n.Bind = append(n.Bind, mergeVal(c, x.Bind[i], y.Bind[i]))
			}
			return n
		}
	}
	return &IteV{c, a, b}
}

// ---- identity of values, as terms (for uninterpreted applications)

func (st *State) valTerm(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *Ptr:
		return opaqueT("ptr", fmt.Sprintf("%d%s", x.Obj.ID, pathKey(x.Path)), 0)
	case *Slice:
		if x.Obj == nil {
			return opaqueT("nilslice", "", 0)
		}
		return opaqueT("slice", fmt.Sprintf("%d%s", x.Obj.ID, pathKey(x.Path)), 0, x.Off, x.Len)
	case *Agg:
		return opaqueT("agg", fmt.Sprintf("%p", x), 0)
	case *Iface:
		if x.Sym != nil {
			return x.Sym
		}
		return opaqueT("iface", x.T.String(), 0, st.valTerm(x.V))
	case NilV:
		return opaqueT("nil", "", 0)
	case *Func:
		if x.Sym != nil {
			return x.Sym
		}
		if x.Fn != nil {
			return opaqueT("func", x.Fn.String(), 0)
		}
	case *MapV:
		return opaqueT("map", fmt.Sprint(x.Obj.ID), 0)
	case *IteV:
		return opaqueT("itev", "", 0, x.C, st.valTerm(x.A), st.valTerm(x.B))
	case Tuple:
		var as []*Term
		for _, y := range x {
			as = append(as, st.valTerm(y))
		}
		return opaqueT("tuple", "", 0, as...)
	}
	return opaqueT("unk", fmt.Sprintf("%T", v), 0)
}

// structural identity including contents of small aggregates
func (st *State) deepTerm(v Val) *Term {
	if a, ok := v.(*Agg); ok && a.N >= 0 && a.N <= 64 {
		var as []*Term
		for i := 0; i < a.N; i++ {
			as = append(as, st.deepTerm(a.get(st, pConstI(int64(i)))))
		}
		return opaqueT("agg", "", 0, as...)
	}
	return st.valTerm(v)
}

// equality of values as a boolean term
func (st *State) eqVal(a, b Val) *Term {
	if idVal(a, b) {
		return tTrue
	}
	if it, ok := a.(*IteV); ok {
		return bIte(it.C, st.eqVal(it.A, b), st.eqVal(it.B, b))
	}
	if it, ok := b.(*IteV); ok {
		return bIte(it.C, st.eqVal(a, it.A), st.eqVal(a, it.B))
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			if x.P != nil && y.P != nil {
				return bEQ0(pSub(x.P, y.P))
			}
			if x.W == 1 && y.W == 1 {
				return bIte(x, y, bNot(y))
			}
			if x == y {
				return tTrue
			}
			if x.Op == "str" && y.Op == "str" {
				return bConst(x.Str == y.Str)
			}
			if y.Op == "hex" && x.Op == "str" {
				x, y = y, x
			}
			if x.Op == "hex" && y.Op == "str" && x.Args[0].Op == "bytes" {
				return hexEq(x.Args[0].Args, y.Str)
			}
			if p, ok := isStrTerm(x); ok {
				if q, ok := isStrTerm(y); ok {
					if c := strEq(p, q); c != nil {
						return c
					}
				}
			}
			if x.id > y.id {
				x, y = y, x
			}
			return mkTerm("eq", "", 0, 0, 1, false, x, y)
		}
	case *Ptr:
		switch y := b.(type) {
		case *Ptr:
			if x.Obj == y.Obj && pathKey(x.Path) == pathKey(y.Path) {
				return tTrue
			}
			if x.Obj.Sym == nil || y.Obj.Sym == nil || x.Obj == y.Obj {
				return tFalse
			}
			return mkTerm("eq", "", 0, 0, 1, false, st.valTerm(x), st.valTerm(y))
		case NilV:
			if x.Obj.Sym == nil || len(x.Path) > 0 || nonNil[x.Obj.Sym] {
				return tFalse
			}
			return mkTerm("isnil", "", 0, 0, 1, false, x.Obj.Sym)
		}
	case *Slice:
		if _, ok := b.(NilV); ok {
			return isNilSlice(x)
		}
		if y, ok := b.(*Slice); ok && y.Obj == nil {
			return isNilSlice(x)
		} else if ok && x.Obj == nil {
			return isNilSlice(y)
		}
	case *Iface:
		switch y := b.(type) {
		case NilV:
			if x.Sym != nil {
				return mkTerm("isnil", "", 0, 0, 1, false, x.Sym)
			}
			return bConst(x.T == nil)
		case *Iface:
			if x.T == nil && x.Sym == nil {
				return st.eqVal(b, NilV{})
			}
			if y.T == nil && y.Sym == nil {
				return st.eqVal(a, NilV{})
			}
			if x.T != nil && y.T != nil {
				if !types.Identical(x.T, y.T) {
					return tFalse
				}
				return st.eqVal(x.V, y.V)
			}
			p, q := st.valTerm(a), st.valTerm(b)
			if p == q {
				return tTrue
			}
			if p.id > q.id {
				p, q = q, p
			}
			return mkTerm("eq", "", 0, 0, 1, false, p, q)
		}
	case NilV:
		if _, ok := b.(NilV); ok {
			return tTrue
		}
		return st.eqVal(b, a)
	case *Func:
		if _, ok := b.(NilV); ok {
			if x.Sym != nil {
				return mkTerm("isnil", "", 0, 0, 1, false, x.Sym)
			}
			return tFalse
		}
	case *MapV:
		if _, ok := b.(NilV); ok {
			if x.Obj.Sym != nil {
				return mkTerm("isnil", "", 0, 0, 1, false, x.Obj.Sym)
			}
			return tFalse
		}
	case *Agg:
		if y, ok := b.(*Agg); ok && x.N == y.N && x.N >= 0 && x.N <= 64 {
			r := tTrue
			for i := 0; i < x.N; i++ {
				p := pConstI(int64(i))
				r = bAnd(r, st.eqVal(x.get(st, p), y.get(st, p)))
			}
			return r
		}
	}
	return mkTerm("eq", "", 0, 0, 1, false, st.valTerm(a), st.valTerm(b))
}

// do the bytes read like this in hexadecimal digits?
func hexEq(bs []*Term, s string) *Term {
	if len(s) != 2*len(bs) {
		return tFalse
	}
	r := tTrue
	for i, b := range bs {
		v := int64(0)
		for _, c := range s[2*i : 2*i+2] {
			k := strings.IndexRune("0123456789abcdef", c)
			if k < 0 {
				return tFalse
			}
			v = v<<4 | int64(k)
		}
		r = bAnd(r, bEQ0(pSub(b.P, pConstI(v))))
	}
	return r
}

func isNilSlice(x *Slice) *Term {
	if x.Obj == nil {
		return tTrue
	}
	if x.Obj.Sym != nil && x.Obj.Sym.Op == "arr" && x.Off.P == pZero {
		return mkTerm("isnil", "", 0, 0, 1, false, x.Obj.Sym.Args[0])
	}
	return tFalse
}

// ---- maps

func (st *State) mapLookup(m Val, key Val, elem types.Type) (Val, *Term) {
	mv, ok := m.(*MapV)
	if !ok {
		if _, ok := m.(NilV); ok {
			return zeroVal(elem), tFalse
		}
		t := fresh("maplookup")
		return symVal(elem, t), symVal(types.Typ[types.Bool], opaqueT("has", "", 0, t)).(*Term)
	}
	ma, ok := st.root(mv.Obj).(*MapAgg)
	if !ok {
		t := fresh("maplookup")
		return symVal(elem, t), symVal(types.Typ[types.Bool], opaqueT("has", "", 0, t)).(*Term)
	}
	for i := len(ma.log) - 1; i >= 0; i-- {
		e := ma.log[i]
		switch st.facts.decide(st.eqVal(e.key, key)) {
		case 1:
			if e.present == tFalse {
				return zeroVal(elem), tFalse
			}
			return e.val, e.present
		case -1:
			continue
		}
		t := fresh("maplookup")
		return symVal(elem, t), symVal(types.Typ[types.Bool], opaqueT("has", "", 0, t)).(*Term)
	}
	if !ma.Sym {
		return zeroVal(elem), tFalse
	}
	k := st.deepTerm(key)
	bt := ma.bt
	if bt == nil {
		bt = opaqueT("global", mv.Obj.Name, 0)
	}
	t := opaqueT("mapget", "", 0, bt, k)
	has := mkTerm("bval", "", 0, 0, 1, false, opaqueT("maphas", "", 0, bt, k))
	v := symVal(elem, t)
	// the zero value is returned for absent keys
	if st.facts.decide(has) == -1 {
		return zeroVal(elem), has
	}
	if b, ok := v.(*Term); ok && b.W == 1 && b.P == nil {
		v = bAnd(has, b)
	}
	return v, has
}

func (st *State) mapUpdate(m Val, key, val Val, present *Term) {
	mv, ok := m.(*MapV)
	if !ok {
		return
	}
	ma, ok := st.root(mv.Obj).(*MapAgg)
	if !ok {
		return
	}
	n := *ma
	n.log = append(ma.log[:len(ma.log):len(ma.log)], mapEnt{key, val, present})
	st.heap[mv.Obj] = &n
}

// sorted list of objects
func (st *State) objs() []*Obj {
	r := make([]*Obj, 0, len(st.heap))
	for o := range st.heap {
		r = append(r, o)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// size of int, uint and uintptr on the platform analysed
var intBits uint = 64
