package main

// Shared scaffolding of the rules over the cryptographic core: contexts for
// concrete parameters, symbolic byte strings, and the specification of the
// hash functions (RFC 8391, NIST SP 800-208) as value graphs.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Params struct {
	Func, N, H, D, W, Prf int64
}

func (p Params) String() string {
	return fmt.Sprintf("%s n=%d h=%d d=%d w=%d %s", [...]string{"SHA2", "SHAKE", "SHAKE256"}[p.Func%3], p.N, p.H, p.D, p.W,
		[...]string{"RFC", "NIST"}[p.Prf%2])
}

func fieldIdx(t types.Type, name string) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// Runs the package initialisers of the repository's main package.
func (r *Rep) initState() *State { return r.initPkg(r.P.Main) }

func (r *Rep) initPkg(pkg *ssa.Package) *State {
	in := newInterp(r.P)
	in.Merge = true
	in.H.Call = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		if cs.Fn != nil && cs.Fn.Name() == "init" && cs.Fn.Pkg != pkg && cs.Fn.Signature.Recv() == nil {
			return ret1(st, Tuple{}), true
		}
		return nil, false
	}
	fn := pkg.Func("init")
	st := newState()
	// not yet initialised: globals have their zero values
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			o := r.P.globalObj(g)
			st.heap[o] = zeroVal(o.T)
		}
	}
	os := in.Exec(st, nil, fn, nil, nil, nil)
	var res *State
	for _, o := range os {
		if !o.Panic {
			if res != nil {
				panic(abortAll{"package initialisation is not deterministic"})
			}
			res = o.St
		}
	}
	if res == nil {
		panic(abortAll{"package initialisation does not return"})
	}
	res.ev = nil
	return res
}

// global of any loaded package, by package path suffix and name
func (p *Prog) global(pkg, name string) *ssa.Global {
	for _, pk := range p.SSA.AllPackages() {
		if pk.Pkg.Path() == pkg || strings.HasSuffix(pk.Pkg.Path(), "/"+pkg) {
			if g, ok := pk.Members[name].(*ssa.Global); ok {
				return g
			}
		}
	}
	return nil
}

func (p *Prog) setX4(st *State, v bool) {
	if g := p.global("internal/f1600x4", "Available"); g != nil {
		st.heap[p.globalObj(g)] = bConst(v)
	}
}

func (p *Prog) paramsVal(st *State, pa Params) *Agg {
	t := p.namedType("Params")
	a := &Agg{T: t, N: t.Underlying().(*types.Struct).NumFields()}
	set := func(n string, v int64) {
		i := fieldIdx(t, n)
		if i < 0 {
			panic(abortAll{"Params has no field " + n})
		}
		w, sg, _ := basicInfo(a.elemType(i))
		a.el.set(i, intC(v, w, sg))
	}
	set("Func", pa.Func)
	set("N", pa.N)
	set("FullHeight", pa.H)
	set("D", pa.D)
	set("WotsW", pa.W)
	set("Prf", pa.Prf)
	return a
}

func (p *Prog) needFn(name string) *ssa.Function {
	f := p.fn(name)
	if f == nil {
		panic(abortAll{"function " + name + " not found"})
	}
	return f
}

// Abstract evaluation of NewContext; nil if it reports an error.
func (r *Rep) newContext(in *Interp, st *State, pa Params) (*State, Val) {
	os := in.Exec(st, nil, r.P.needFn("NewContext"), []Val{r.P.paramsVal(st, pa)}, nil, nil)
	if len(os) != 1 || os[0].Panic {
		panic(abortAll{fmt.Sprintf("NewContext(%v) has %d outcomes", pa, len(os))})
	}
	t := os[0].Ret.(Tuple)
	e := st.eqVal(t[1], NilV{})
	switch os[0].St.facts.decide(e) {
	case 1:
		return os[0].St, t[0]
	case -1:
		return nil, nil
	}
	panic(abortAll{fmt.Sprintf("NewContext(%v): undecided", pa)})
}

func exec1(in *Interp, st *State, fn *ssa.Function, args ...Val) (*State, Val) {
	os := in.Exec(st, nil, fn, args, nil, nil)
	if len(os) != 1 || os[0].Panic {
		why := ""
		for _, o := range os {
			why += fmt.Sprintf(" panic=%v %s %s;", o.Panic, o.Why, in.P.pos(o.Pos))
		}
		panic(abortAll{fmt.Sprintf("%s has %d outcomes:%s", fnName(fn), len(os), why)})
	}
	return os[0].St, os[0].Ret
}

// fresh byte string with its own memory
func symBytes(st *State, name string, n int64) *Slice {
	bt := mkTerm("sym", name, 0, 0, 0, false)
	o := newObj(name, types.NewArray(u8(), n))
	st.heap[o] = &Agg{T: o.T, N: int(n), Sym: true, bt: bt}
	return &Slice{Obj: o, Off: intT(0), Len: intT(n), Cap: intT(n), Elem: u8()}
}

func (st *State) bytesOf(s *Slice) []*Term {
	return st.bytesTerm(s).Args
}

func symAddr(p *Prog, st *State, name string) (*Agg, []*Term) {
	t := p.namedType("address")
	a := &Agg{T: t, N: 8}
	var ws []*Term
	for i := 0; i < 8; i++ {
		w := symInt(fmt.Sprintf("%s%d", name, i), 32, false)
		a.el.set(i, w)
		ws = append(ws, w)
	}
	return a, ws
}

// ---- the specification

type Spec struct {
	pa  Params
	alg string
	pl  int
	n   int
}

func newSpec(pa Params) *Spec {
	s := &Spec{pa: pa, n: int(pa.N), pl: int(pa.N)}
	switch pa.Func {
	case 0:
		s.alg = "sha256"
		if pa.N == 64 {
			s.alg = "sha512"
		}
	case 1:
		s.alg = "shake128"
		if pa.N == 64 {
			s.alg = "shake256"
		}
	case 2:
		s.alg = "shake256"
	}
	if pa.Prf == 1 {
		s.pl = 4
	}
	return s
}

func (s *Spec) H(data ...[]*Term) []*Term {
	var all []*Term
	for _, d := range data {
		all = append(all, d...)
	}
	return digest(s.alg, all, 0, s.n)
}

func (s *Spec) toByte(v *Poly, n int) []*Term {
	r := make([]*Term, n)
	for i := range r {
		k := 8 * (n - 1 - i)
		if k >= 64 {
			r[i] = intC(0, 8, false)
		} else {
			r[i] = mkInt(pExt(v, k, 8), 8, false)
		}
	}
	return r
}

func (s *Spec) pad(k int64) []*Term { return s.toByte(pConstI(k), s.pl) }

func addrBytes(a []*Term) []*Term {
	var r []*Term
	for _, w := range a {
		r = append(r, beBytes(w.P, 4)...)
	}
	return r
}

func withWord(a []*Term, i int, v *Poly) []*Term {
	r := append([]*Term{}, a...)
	r[i] = mkInt(v, 32, false)
	return r
}

func xorBytes(a, b []*Term) []*Term {
	r := make([]*Term, len(a))
	for i := range r {
		r[i] = tBit("xor", a[i], b[i])
	}
	return r
}

func (s *Spec) prf(key, addr []*Term) []*Term { return s.H(s.pad(3), key, addr) }
func (s *Spec) prfKeygen(skSeed, pubSeed, addr []*Term) []*Term {
	return s.H(s.pad(4), skSeed, pubSeed, addr)
}

func (s *Spec) F(pubSeed, addr, m []*Term) []*Term {
	k := s.prf(pubSeed, addrBytes(withWord(addr, 7, pZero)))
	bm := s.prf(pubSeed, addrBytes(withWord(addr, 7, pOne)))
	return s.H(s.pad(0), k, xorBytes(m, bm))
}

func (s *Spec) RandHash(pubSeed, addr, l, r []*Term) []*Term {
	k := s.prf(pubSeed, addrBytes(withWord(addr, 7, pZero)))
	b0 := s.prf(pubSeed, addrBytes(withWord(addr, 7, pOne)))
	b1 := s.prf(pubSeed, addrBytes(withWord(addr, 7, pConstI(2))))
	return s.H(s.pad(1), k, xorBytes(l, b0), xorBytes(r, b1))
}

func sameBytes(a, b []*Term) (int, bool) {
	if len(a) != len(b) {
		return -1, false
	}
	for i := range a {
		if a[i] != b[i] && !(a[i].P != nil && a[i].P == b[i].P) {
			return i, false
		}
	}
	return 0, true
}

// all (Func, N, Prf) accepted by the library, for given W, H, D
func tuples(W, H, D int64) (r []Params) {
	for f := int64(0); f < 3; f++ {
		for _, n := range []int64{16, 24, 32, 64} {
			for prf := int64(0); prf < 2; prf++ {
				pa := Params{f, n, H, D, W, prf}
				if strings.Contains(pa.String(), onlyTuple) {
					r = append(r, pa)
				}
			}
		}
	}
	return
}
