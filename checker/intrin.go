package main

// Summaries of library functions.

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool)

var intrinsics map[string]intrinsic

var fakePkg = types.NewPackage("fake", "fake")
var fakeTypes = map[string]*types.Named{}

// A stand-in for a library type whose methods have summaries.
func fakeType(name string) types.Type {
	if t, ok := fakeTypes[name]; ok {
		return types.NewPointer(t)
	}
	t := types.NewNamed(types.NewTypeName(0, fakePkg, name, nil), types.NewStruct(nil, nil), nil)
	fakeTypes[name] = t
	return types.NewPointer(t)
}

func fakeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok && n.Obj().Pkg() == fakePkg {
			return n.Obj().Name()
		}
	}
	return ""
}

// State of a hash object: everything written so far.
type HashV struct {
	alg  string
	data []*Term // byte terms, or opaque chunks (W == 0)
	pos  int     // bytes read (XOFs)
	bad  bool
}

type ReflV struct{ V Val }

func u8() types.Type { return types.Typ[types.Uint8] }

func (in *Interp) builtin(st *State, fr *Frame, cs *CallSite) []Outcome {
	a := cs.Args
	switch cs.Blt.Name() {
	case "len", "cap":
		cp := cs.Blt.Name() == "cap"
		return ret1(st, mapIte(a[0], func(v Val) Val {
			switch x := v.(type) {
			case *Slice:
				if cp {
					return normT(st, x.Cap.P)
				}
				return normT(st, x.Len.P)
			case *Term:
				return strLen(x)
			case *Agg:
				return intT(int64(x.N))
			case NilV:
				return intT(0)
			case *MapV:
				return in.mapLen(st, x)
			case *Ptr:
				if arr, ok := typeAt(x).Underlying().(*types.Array); ok {
					return intT(arr.Len())
				}
			}
			l := symRange(freshName("len"), 64, true, 0, -1)
			return l
		}))
	case "append":
		return ret1(st, in.appendSlice(st, fr, cs, a[0], a[1]))
	case "copy":
		return ret1(st, in.copyVals(st, fr, cs, a[0], a[1]))
	case "delete":
		if in.H.MapUpdate != nil {
			in.H.MapUpdate(in, st, fr, cs.Instr, a[0], a[1], nil, true)
		}
		if m, ok := a[0].(*MapV); ok {
			st.mapUpdate(a[0], a[1], zeroVal(m.Obj.T.Underlying().(*types.Map).Elem()), tFalse)
		}
		return ret1(st, Tuple{})
	case "print", "println", "close":
		if in.H.Chan != nil && cs.Blt.Name() == "close" {
			in.H.Chan(in, st, fr, "close", a[0], nil)
		}
		return ret1(st, Tuple{})
	case "ssa:wrapnilchk":
		return ret1(st, a[0])
	case "min", "max":
		p, ok1 := a[0].(*Term)
		q, ok2 := a[1].(*Term)
		if ok1 && ok2 && p.P != nil && q.P != nil && len(a) == 2 {
			c := bGE0(pSub(q.P, p.P)) // p <= q
			if cs.Blt.Name() == "max" {
				c = bNot(c)
			}
			switch st.facts.decide(c) {
			case 1:
				return ret1(st, p)
			case -1:
				return ret1(st, q)
			}
			return ret1(st, mkInt(pIte(c, p.P, q.P, p.W), p.W, p.Sg))
		}
	case "clear":
		switch x := a[0].(type) {
		case *Slice:
			in.fill(st, x, intC(0, 8, false))
		case *MapV:
			st.heap[x.Obj] = &MapAgg{T: x.Obj.T.Underlying().(*types.Map)}
		}
		return ret1(st, Tuple{})
	}
	res := cs.Sig.Results()
	if res.Len() == 1 {
		return ret1(st, symVal(res.At(0).Type(), fresh(cs.Name)))
	}
	return ret1(st, Tuple{})
}

func (in *Interp) fill(st *State, s *Slice, v Val) {
	if s.Obj == nil {
		return
	}
	if n, ok := st.facts.norm(s.Len.P).constI(); ok && n <= maxElementwise {
		st.modArr(s, func(a *Agg) {
			for i := int64(0); i < n; i++ {
				a.set(pAdd(s.Off.P, pConstI(i)), zeroVal(s.Elem))
			}
		})
		return
	}
	z := &Agg{T: types.NewArray(s.Elem, -1), N: -1}
	st.modArr(s, func(a *Agg) {
		a.log = append(a.log, lent{lo: s.Off.P, n: st.facts.norm(s.Len.P), src: z, soff: pZero})
	})
}

func (in *Interp) mapLen(st *State, m *MapV) *Term {
	if ma, ok := st.root(m.Obj).(*MapAgg); ok {
		if !ma.Sym {
			// distinct constant keys
			n := 0
			seen := map[*Term]bool{}
			ok := true
			for _, e := range ma.log {
				if e.present != tTrue {
					ok = false
				}
				k := st.deepTerm(e.key)
				if !seen[k] {
					seen[k] = true
					n++
				}
			}
			if ok && n <= 1 {
				return intT(int64(n))
			}
			if ok {
				for k := range seen {
					if k.Op != "str" && !(k.P != nil && k.P.isConst()) {
						ok = false
					}
				}
				if ok {
					return intT(int64(n))
				}
			}
		}
		if !ma.Sym {
			if ks, ok := liveKeys(st, m); ok {
				return intT(int64(len(ks)))
			}
		}
		t := mkTerm("maplen", "", len(ma.log), 0, 64, true, opaqueT("mapid", mapID(ma), 0))
		t.Lo = bigZero
		return mkInt(pAtom(t), 64, true)
	}
	return symRange(freshName("maplen"), 64, true, 0, -1)
}

func mapID(m *MapAgg) string {
	if m.bt != nil {
		return m.bt.String()
	}
	return "?" + freshName("m")
}

func (in *Interp) copyVals(st *State, fr *Frame, cs *CallSite, dst, src Val) Val {
	if ite, ok := dst.(*IteV); ok {
		_ = ite
		in.undecided("copy to guarded slice in %s", fnName(fr.Fn))
		return symRange(freshName("copied"), 64, true, 0, -1)
	}
	d, ok := dst.(*Slice)
	if !ok {
		return intT(0)
	}
	if t, ok := src.(*Term); ok { // string
		s := in.convert(st, t, types.Typ[types.String], types.NewSlice(u8()))
		src = s
	}
	if ite, ok := src.(*IteV); ok {
		// elementwise
		a, oka := ite.A.(*Slice)
		b, okb := ite.B.(*Slice)
		if oka && okb {
			la, lb := st.facts.norm(a.Len.P), st.facts.norm(b.Len.P)
			n, okn := la.constI()
			if la == lb && okn && n <= maxElementwise {
				n = in.minLen(st, d, n)
				vals := make([]Val, n)
				for i := range vals {
					vals[i] = mergeVal(ite.C, st.sliceGet(a, pConstI(int64(i))), st.sliceGet(b, pConstI(int64(i))))
				}
				for i, v := range vals {
					st.sliceSet(d, pConstI(int64(i)), v)
				}
				return intT(n)
			}
		}
		in.undecided("copy from guarded slice in %s", fnName(fr.Fn))
		return symRange(freshName("copied"), 64, true, 0, -1)
	}
	s, ok := src.(*Slice)
	if !ok {
		return intT(0)
	}
	dl, sl := st.facts.norm(d.Len.P), st.facts.norm(s.Len.P)
	var n *Poly
	switch {
	case dl == sl:
		n = dl
	case st.facts.decideGE(pSub(dl, sl)) == 1:
		n = sl
	case st.facts.decideGE(pSub(sl, dl)) == 1:
		n = dl
	default:
		n = pIte(bGE0(pSub(dl, sl)), sl, dl, 64)
	}
	if d.Obj != nil && s.Obj != nil {
		st.emitCopy(in, fr, cs, d, s, n)
		st.copySlice(d, s, n)
	}
	return mkInt(n, 64, true)
}

func (st *State) emitCopy(in *Interp, fr *Frame, cs *CallSite, d, s *Slice, n *Poly) {
	if in.H.Store != nil {
		in.H.Store(in, st, fr, cs.Instr, &Ptr{d.Obj, d.Path}, nil)
	}
}

func (in *Interp) minLen(st *State, d *Slice, n int64) int64 {
	if m, ok := st.facts.norm(d.Len.P).constI(); ok && m < n {
		return m
	}
	return n
}

func (in *Interp) appendSlice(st *State, fr *Frame, cs *CallSite, dst, src Val) Val {
	d, ok := dst.(*Slice)
	if !ok {
		in.undecided("append to guarded slice in %s", fnName(fr.Fn))
		return dst
	}
	var s *Slice
	switch x := src.(type) {
	case *Slice:
		s = x
	case *Term:
		s = in.convert(st, x, types.Typ[types.String], types.NewSlice(u8())).(*Slice)
	case NilV:
		return dst
	default:
		in.undecided("append of guarded slice in %s", fnName(fr.Fn))
		return dst
	}
	dl, sl := st.facts.norm(d.Len.P), st.facts.norm(s.Len.P)
	if sl == pZero {
		return d
	}
	nl := pAdd(dl, sl)
	// in place?
	if d.Obj != nil && st.facts.decideGE(pSub(st.facts.norm(d.Cap.P), nl)) == 1 {
		r := &Slice{d.Obj, d.Path, d.Off, mkInt(nl, 64, true), d.Cap, d.Elem}
		tail := &Slice{d.Obj, d.Path, mkInt(pAdd(d.Off.P, dl), 64, true), mkInt(sl, 64, true), mkInt(sl, 64, true), d.Elem}
		st.copySlice(tail, s, sl)
		return r
	}
	n := int64(-1)
	if c, ok := nl.constI(); ok {
		n = c
	}
	o := newObj("append", types.NewArray(d.Elem, n))
	o.Site = cs.Instr
	st.root(o)
	r := &Slice{Obj: o, Off: intT(0), Len: mkInt(nl, 64, true), Cap: mkInt(nl, 64, true), Elem: d.Elem}
	if d.Obj != nil {
		st.copySlice(&Slice{o, nil, intT(0), mkInt(dl, 64, true), mkInt(dl, 64, true), d.Elem}, d, dl)
	}
	tail := &Slice{o, nil, mkInt(dl, 64, true), mkInt(sl, 64, true), mkInt(sl, 64, true), d.Elem}
	st.copySlice(tail, s, sl)
	return r
}

// writes byte terms into a slice
func (st *State) putBytes(s *Slice, off int, bs []*Term) {
	for i, b := range bs {
		st.sliceSet(s, pConstI(int64(off+i)), b)
	}
}

func beBytes(p *Poly, n int) []*Term {
	r := make([]*Term, n)
	for i := range r {
		r[i] = mkInt(pExt(p, 8*(n-1-i), 8), 8, false)
	}
	return r
}

func leBytes(p *Poly, n int) []*Term {
	r := make([]*Term, n)
	for i := range r {
		r[i] = mkInt(pExt(p, 8*i, 8), 8, false)
	}
	return r
}

func asSlice(v Val) *Slice {
	s, _ := v.(*Slice)
	return s
}

func regEndian(name string, big bool) {
	for _, w := range []int{16, 32, 64} {
		w := w
		n := w / 8
		intrinsics["(encoding/binary."+name+").PutUint"+strconv.Itoa(w)] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
			t, ok := cs.Args[2].(*Term)
			if !ok || t.P == nil {
				return nil, false
			}
			if _, ok := cs.Args[1].(*Slice); !ok {
				return nil, false
			}
			s := asSlice(cs.Args[1])
			in.boundsCheck(st, fr, cs.Instr, pConstI(int64(n-1)), s.Len.P)
			bs := leBytes(t.P, n)
			if big {
				bs = beBytes(t.P, n)
			}
			if in.H.Store != nil {
				in.H.Store(in, st, fr, cs.Instr, &Ptr{s.Obj, s.Path}, nil)
			}
			st.putBytes(s, 0, bs)
			return ret1(st, Tuple{}), true
		}
		intrinsics["(encoding/binary."+name+").Uint"+strconv.Itoa(w)] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
			return ret1(st, mapIte(cs.Args[1], func(v Val) Val {
				s := asSlice(v)
				if s == nil {
					return symInt(freshName("uint"), uint(w), false)
				}
				in.boundsCheck(st, fr, cs.Instr, pConstI(int64(n-1)), s.Len.P)
				p := pZero
				a := sliceAgg(st, s)
				for i := 0; i < n; i++ {
					b := st.byteOf(a, pAdd(s.Off.P, pConstI(int64(i))))
					k := 8 * i
					if big {
						k = 8 * (n - 1 - i)
					}
					p = pAdd(p, pScale(b.P, pow2(uint(k))))
				}
				return mkInt(p, uint(w), false)
			})), true
		}
		intrinsics["(encoding/binary."+name+").AppendUint"+strconv.Itoa(w)] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
			t, ok := cs.Args[2].(*Term)
			if !ok || t.P == nil {
				return nil, false
			}
			bs := leBytes(t.P, n)
			if big {
				bs = beBytes(t.P, n)
			}
			src := st.sliceFromBytes(opaqueT("bytes", "", 0, bs...), u8())
			return ret1(st, in.appendSlice(st, fr, cs, cs.Args[1], src)), true
		}
	}
}

// ---- hashes

var hashSize = map[string]int{"sha256": 32, "sha512": 64}

func newHash(st *State, alg string) *Iface {
	o := newObj("hash:"+alg, types.NewStruct(nil, nil))
	st.heap[o] = &HashV{alg: alg}
	return &Iface{T: fakeType(alg), V: &Ptr{Obj: o}}
}

func hashOf(st *State, v Val) (*Ptr, *HashV) {
	if i, ok := v.(*Iface); ok {
		v = i.V
	}
	p, ok := v.(*Ptr)
	if !ok {
		return nil, nil
	}
	h, _ := st.heap[p.Obj].(*HashV)
	return p, h
}

// output bytes of a hash
func digest(alg string, data []*Term, off, n int) []*Term {
	r := make([]*Term, n)
	if rate, ok := xofRate[alg]; ok {
		if lanes := sponge(alg, data, rate); lanes != nil && off+n <= rate {
			for i := range r {
				k := off + i
				r[i] = mkInt(pExt(lanes[k/8], 8*(k%8), 8), 8, false)
			}
			return r
		}
	}
	h := opaqueT("hash", alg, 0, data...)
	for i := range r {
		r[i] = mkInt(pAtom(mkTerm("val", "", 0, 0, 8, false, opaqueT("sel", "", off+i, h))), 8, false)
	}
	return r
}

var xofRate = map[string]int{"shake128": 168, "shake256": 136}

// Lanes of the state after absorbing a single padded block.
func sponge(alg string, data []*Term, rate int) []*Poly {
	if len(data) >= rate {
		return nil
	}
	for _, d := range data {
		if d.P == nil {
			return nil
		}
	}
	blk := make([]*Poly, 200)
	for i := range blk {
		blk[i] = pZero
	}
	for i, d := range data {
		blk[i] = d.P
	}
	blk[len(data)] = pConstI(0x1f)
	blk[rate-1] = pAdd(blk[rate-1], pConstI(0x80))
	lanes := make([]*Poly, 25)
	for i := range lanes {
		p := pZero
		for j := 0; j < 8; j++ {
			p = pAdd(p, pScale(blk[8*i+j], pow2(uint(8*j))))
		}
		lanes[i] = p
	}
	return keccakF(lanes)
}

// uninterpreted permutation
func keccakF(lanes []*Poly) []*Poly {
	as := make([]*Term, len(lanes))
	for i, p := range lanes {
		as[i] = mkInt(p, 64, false)
	}
	k := opaqueT("keccakf", "", 0, as...)
	r := make([]*Poly, len(lanes))
	for i := range r {
		r[i] = pAtom(mkTerm("val", "", 0, 0, 64, false, opaqueT("sel", "", i, k)))
	}
	return r
}

func (in *Interp) hashWrite(st *State, p *Ptr, h *HashV, s *Slice) {
	n := *h
	if c, ok := st.facts.norm(s.Len.P).constI(); ok && c <= maxElementwise {
		n.data = append(h.data[:len(h.data):len(h.data)], st.bytesTerm(s).Args...)
	} else {
		n.data = append(h.data[:len(h.data):len(h.data)], st.bytesTerm(s))
	}
	if h.pos > 0 {
		n.bad = true
	}
	st.heap[p.Obj] = &n
}

func regHash(alg string, size int) {
	pre := "fake:" + alg + "."
	nilErr := &Iface{}
	intrinsics[pre+"Reset"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		p, h := hashOf(st, cs.Args[0])
		if h == nil {
			return nil, false
		}
		st.heap[p.Obj] = &HashV{alg: h.alg}
		return ret1(st, Tuple{}), true
	}
	intrinsics[pre+"Write"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		p, h := hashOf(st, cs.Args[0])
		s := in.oneSlice(st, cs.Args[1])
		if h == nil || s == nil {
			return nil, false
		}
		in.hashWrite(st, p, h, s)
		return ret1(st, Tuple{s.Len, nilErr}), true
	}
	intrinsics[pre+"Size"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		return ret1(st, intT(int64(size))), true
	}
	intrinsics[pre+"BlockSize"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		return ret1(st, intT(int64(map[string]int{"sha256": 64, "sha512": 128, "shake128": 168, "shake256": 136}[alg]))), true
	}
	intrinsics[pre+"Read"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		p, h := hashOf(st, cs.Args[0])
		s := asSlice(cs.Args[1])
		if h == nil || s == nil {
			return nil, false
		}
		n, ok := st.facts.norm(s.Len.P).constI()
		if !ok {
			return nil, false
		}
		st.putBytes(s, 0, digest(h.alg, h.data, h.pos, int(n)))
		h2 := *h
		h2.pos += int(n)
		st.heap[p.Obj] = &h2
		return ret1(st, Tuple{s.Len, nilErr}), true
	}
	intrinsics[pre+"Sum"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		_, h := hashOf(st, cs.Args[0])
		if h == nil {
			return nil, false
		}
		if _, isnil := cs.Args[1].(NilV); isnil {
			cs.Args[1] = &Slice{Off: intT(0), Len: intT(0), Cap: intT(0), Elem: u8()}
		}
		src := st.sliceFromBytes(opaqueT("bytes", "", 0, digest(h.alg, h.data, 0, size)...), u8())
		return ret1(st, in.appendSlice(st, fr, cs, cs.Args[1], src)), true
	}
}

// materialises a guarded slice of equal constant length
func (in *Interp) oneSlice(st *State, v Val) *Slice {
	if s, ok := v.(*Slice); ok {
		return s
	}
	ite, ok := v.(*IteV)
	if !ok {
		return nil
	}
	a, b := in.oneSlice(st, ite.A), in.oneSlice(st, ite.B)
	if a == nil || b == nil {
		return nil
	}
	la, ok1 := st.facts.norm(a.Len.P).constI()
	lb, ok2 := st.facts.norm(b.Len.P).constI()
	if !ok1 || !ok2 || la != lb {
		return nil
	}
	x, y := st.bytesTerm(a), st.bytesTerm(b)
	bs := make([]*Term, la)
	for i := range bs {
		bs[i] = mergeVal(ite.C, x.Args[i], y.Args[i]).(*Term)
	}
	return st.sliceFromBytes(opaqueT("bytes", "", 0, bs...), u8())
}

func nilError() *Iface { return &Iface{} }

func (in *Interp) sumFn(alg string, size int) intrinsic {
	return func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		s := in.oneSlice(st, cs.Args[0])
		if s == nil {
			return nil, false
		}
		var data []*Term
		bt := st.bytesTerm(s)
		if bt.Op == "bytes" {
			data = bt.Args
		} else {
			data = []*Term{bt}
		}
		ag := &Agg{T: cs.Sig.Results().At(0).Type(), N: size}
		for i, b := range digest(alg, data, 0, size) {
			ag.el.set(i, b)
		}
		return ret1(st, ag), true
	}
}

func noop(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
	return ret1(st, Tuple{}), true
}

func ev(kind string) intrinsic {
	return func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		st.emit(&Event{Kind: kind, Name: cs.Name, Args: cs.Args, Instr: cs.Instr, Fr: fr})
		return ret1(st, Tuple{}), true
	}
}

func constStr(v Val) (string, bool) {
	t, ok := v.(*Term)
	if !ok || t.Op != "str" {
		return "", false
	}
	return t.Str, true
}

func strSlice(st *State, ss []string) *Slice {
	o := newObj("strings", types.NewArray(types.Typ[types.String], int64(len(ss))))
	ag := &Agg{T: o.T, N: len(ss)}
	for i, s := range ss {
		ag.el.set(i, strC(s))
	}
	st.heap[o] = ag
	n := intT(int64(len(ss)))
	return &Slice{Obj: o, Off: intT(0), Len: n, Cap: n, Elem: types.Typ[types.String]}
}

func newErr(st *State, what string) *Iface {
	o := newObj("error:"+what, types.NewStruct(nil, nil))
	return &Iface{T: fakeType("error"), V: &Ptr{Obj: o}}
}

func init() {
	intrinsics = map[string]intrinsic{}
	regEndian("bigEndian", true)
	regEndian("littleEndian", false)
	regHash("sha256", 32)
	regHash("sha512", 64)
	regHash("shake128", 0)
	regHash("shake256", 0)
	I := intrinsics
	for alg, pk := range map[string]string{"sha256": "crypto/sha256", "sha512": "crypto/sha512"} {
		alg := alg
		I[pk+".New"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
			return ret1(st, newHash(st, alg)), true
		}
	}
	I["crypto/sha256.Sum256"] = (*Interp)(nil).sumFn("sha256", 32)
	I["crypto/sha512.Sum512"] = (*Interp)(nil).sumFn("sha512", 64)
	for alg, f := range map[string]string{"shake128": "NewShake128", "shake256": "NewShake256"} {
		alg := alg
		for _, pk := range []string{"golang.org/x/crypto/sha3.", "crypto/sha3."} {
			I[pk+f] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
				return ret1(st, newHash(st, alg)), true
			}
		}
	}
	for _, w := range []string{"128", "256"} {
		w := w
		I["golang.org/x/crypto/sha3.ShakeSum"+w] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
			d, s := asSlice(cs.Args[0]), in.oneSlice(st, cs.Args[1])
			if d == nil || s == nil {
				return nil, false
			}
			n, ok := st.facts.norm(d.Len.P).constI()
			bt := st.bytesTerm(s)
			if !ok || bt.Op != "bytes" {
				return nil, false
			}
			st.putBytes(d, 0, digest("shake"+w, bt.Args, 0, int(n)))
			return ret1(st, Tuple{}), true
		}
	}
	// reflect, as used to copy the state of hashes
	I["reflect.ValueOf"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		return ret1(st, &ReflV{cs.Args[0]}), true
	}
	I["(reflect.Value).Elem"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		r, ok := cs.Args[0].(*ReflV)
		if !ok {
			return nil, false
		}
		if i, ok := r.V.(*Iface); ok {
			return ret1(st, &ReflV{i.V}), true
		}
		return ret1(st, r), true
	}
	I["(reflect.Value).Set"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		a, ok1 := cs.Args[0].(*ReflV)
		b, ok2 := cs.Args[1].(*ReflV)
		if !ok1 || !ok2 {
			return nil, false
		}
		p, _ := hashOf(st, a.V)
		_, h := hashOf(st, b.V)
		if p == nil || h == nil {
			return nil, false
		}
		st.heap[p.Obj] = h
		return ret1(st, Tuple{}), true
	}
	I["reflect.DeepEqual"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		return ret1(st, st.eqVal(cs.Args[0], cs.Args[1])), true
	}
	I["github.com/templexxx/xorsimd.Bytes"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		d := asSlice(cs.Args[0])
		a, b := in.oneSlice(st, cs.Args[1]), in.oneSlice(st, cs.Args[2])
		if d == nil || a == nil || b == nil {
			return nil, false
		}
		n := int64(-1)
		for _, s := range []*Slice{d, a, b} {
			m, ok := st.facts.norm(s.Len.P).constI()
			if !ok {
				return nil, false
			}
			if n < 0 || m < n {
				n = m
			}
		}
		x, y := sliceAgg(st, a), sliceAgg(st, b)
		bs := make([]*Term, n)
		for i := range bs {
			k := pConstI(int64(i))
			bs[i] = tBit("xor", st.byteOf(x, pAdd(a.Off.P, k)), st.byteOf(y, pAdd(b.Off.P, k)))
		}
		st.putBytes(d, 0, bs)
		return ret1(st, intT(n)), true
	}
	I["github.com/templexxx/xorsimd.Encode"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) { return nil, false }
	I["crypto/subtle.ConstantTimeCompare"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		a, b := in.oneSlice(st, cs.Args[0]), in.oneSlice(st, cs.Args[1])
		if a == nil || b == nil {
			return nil, false
		}
		c := bytesEq(st, a, b)
		return ret1(st, mkInt(pIte(c, pOne, pZero, 64), 64, true)), true
	}
	I["bytes.Equal"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		a, b := in.oneSlice(st, cs.Args[0]), in.oneSlice(st, cs.Args[1])
		if a == nil || b == nil {
			return nil, false
		}
		return ret1(st, bytesEq(st, a, b)), true
	}
	I["io.Copy"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		p, h := hashOf(st, cs.Args[0])
		if h == nil {
			return nil, false
		}
		n := *h
		if i, ok := cs.Args[1].(*Iface); ok {
			if q, ok := i.V.(*Ptr); ok && q.Obj.Sym != nil && q.Obj.Sym.Op == "reader" {
				// all of the bytes, without any error
				b := q.Obj.Sym.Args[0]
				if b.Op == "bytes" {
					n.data = append(h.data[:len(h.data):len(h.data)], b.Args...)
				} else {
					n.data = append(h.data[:len(h.data):len(h.data)], b)
				}
				st.heap[p.Obj] = &n
				return ret1(st, Tuple{symInt(freshName("copied"), 64, true), NilV{}}), true
			}
		}
		src := st.valTerm(cs.Args[1])
		n.data = append(h.data[:len(h.data):len(h.data)], opaqueT("stream", "", 0, src))
		errT := opaqueT("readerr", "", 0, src)
		st.heap[p.Obj] = &n
		return ret1(st, Tuple{symInt(freshName("copied"), 64, true), &Iface{Sym: errT}}), true
	}
	I["io.CopyBuffer"] = I["io.Copy"]
	// synchronisation
	for _, m := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Cond).Wait", "(*sync.Cond).Broadcast", "(*sync.Cond).Signal",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait"} {
		I[m] = ev("sync")
	}
	I["sync.NewCond"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		t := cs.Sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		o := newObj("cond", t)
		o.Site = cs.Instr
		st.root(o)
		// remember the lock
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "L" {
					st.store(&Ptr{o, []PE{{F: i}}}, cs.Args[0])
				}
			}
		}
		return ret1(st, &Ptr{Obj: o}), true
	}
	I["fmt.Sprintf"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		return in.sprintf(st, fr, cs)
	}
	I["bytes.NewReader"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		s := asSlice(cs.Args[0])
		if s == nil {
			return nil, false
		}
		bt := opaqueT("reader", "", 0, st.bytesTerm(s))
		t := cs.Sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		return ret1(st, &Ptr{Obj: symObjNN(bt, t)}), true
	}
	I["bytes.NewBuffer"] = I["bytes.NewReader"]
	I["strings.SplitN"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		a, ok1 := constStr(cs.Args[0])
		b, ok2 := constStr(cs.Args[1])
		n, ok3 := cs.Args[2].(*Term)
		if !ok1 || !ok2 || !ok3 || !n.P.isConst() {
			return nil, false
		}
		k, _ := n.P.constI()
		return ret1(st, strSlice(st, strings.SplitN(a, b, int(k)))), true
	}
	I["strings.Split"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		a, ok1 := constStr(cs.Args[0])
		b, ok2 := constStr(cs.Args[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		return ret1(st, strSlice(st, strings.Split(a, b))), true
	}
	str2b := func(f func(a, b string) bool) intrinsic {
		return func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
			a, ok1 := constStr(cs.Args[0])
			b, ok2 := constStr(cs.Args[1])
			if !ok1 || !ok2 {
				return nil, false
			}
			return ret1(st, bConst(f(a, b))), true
		}
	}
	I["strings.Contains"] = str2b(strings.Contains)
	I["strings.HasPrefix"] = str2b(strings.HasPrefix)
	I["strings.HasSuffix"] = str2b(strings.HasSuffix)
	I["strings.EqualFold"] = str2b(strings.EqualFold)
	str2s := func(f func(a, b string) string) intrinsic {
		return func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
			a, ok1 := constStr(cs.Args[0])
			b, ok2 := constStr(cs.Args[1])
			if !ok1 || !ok2 {
				return nil, false
			}
			return ret1(st, strC(f(a, b))), true
		}
	}
	I["strings.TrimPrefix"] = str2s(strings.TrimPrefix)
	I["strings.TrimSuffix"] = str2s(strings.TrimSuffix)
	I["strings.Trim"] = str2s(strings.Trim)
	str1s := func(f func(a string) string) intrinsic {
		return func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
			a, ok1 := constStr(cs.Args[0])
			if !ok1 {
				return nil, false
			}
			return ret1(st, strC(f(a))), true
		}
	}
	I["strings.ToUpper"] = str1s(strings.ToUpper)
	I["strings.ToLower"] = str1s(strings.ToLower)
	I["strings.TrimSpace"] = str1s(strings.TrimSpace)
	I["strings.IndexByte"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		a, ok1 := constStr(cs.Args[0])
		b, ok2 := cs.Args[1].(*Term)
		if !ok1 || !ok2 || b.P == nil || !b.P.isConst() {
			return nil, false
		}
		k, _ := b.P.constI()
		return ret1(st, intT(int64(strings.IndexByte(a, byte(k))))), true
	}
	str2i := func(f func(a, b string) int) intrinsic {
		return func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
			a, ok1 := constStr(cs.Args[0])
			b, ok2 := constStr(cs.Args[1])
			if !ok1 || !ok2 {
				return nil, false
			}
			return ret1(st, intT(int64(f(a, b)))), true
		}
	}
	I["strings.Index"] = str2i(strings.Index)
	I["strings.LastIndex"] = str2i(strings.LastIndex)
	I["strings.Count"] = str2i(strings.Count)
	I["strings.Cut"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		a, ok1 := constStr(cs.Args[0])
		b, ok2 := constStr(cs.Args[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		x, y, f := strings.Cut(a, b)
		return ret1(st, Tuple{strC(x), strC(y), bConst(f)}), true
	}
	I["strings.Join"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		s := asSlice(cs.Args[0])
		sep, ok := constStr(cs.Args[1])
		if s == nil || !ok {
			return nil, false
		}
		n, ok := s.Len.P.constI()
		if !ok {
			return nil, false
		}
		var parts []string
		for i := int64(0); i < n; i++ {
			p, ok := constStr(st.sliceGet(s, pConstI(i)))
			if !ok {
				return nil, false
			}
			parts = append(parts, p)
		}
		return ret1(st, strC(strings.Join(parts, sep))), true
	}
	I["strconv.Atoi"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		a, ok := constStr(cs.Args[0])
		if !ok {
			return nil, false
		}
		v, err := strconv.Atoi(a)
		if err != nil {
			return ret1(st, Tuple{intT(int64(v)), newErr(st, "Atoi")}), true
		}
		return ret1(st, Tuple{intT(int64(v)), nilError()}), true
	}
	parseInt := func(signed bool) intrinsic {
		return func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
			a, ok := constStr(cs.Args[0])
			b, ok2 := cs.Args[1].(*Term)
			c, ok3 := cs.Args[2].(*Term)
			if !ok || !ok2 || !ok3 {
				return nil, false
			}
			bs, ok2 := b.P.constI()
			sz, ok3 := c.P.constI()
			if !ok2 || !ok3 {
				return nil, false
			}
			var r *Term
			var err error
			if signed {
				var v int64
				v, err = strconv.ParseInt(a, int(bs), int(sz))
				r = intC(v, 64, true)
			} else {
				var v uint64
				v, err = strconv.ParseUint(a, int(bs), int(sz))
				r = mkInt(pConst(new(big.Int).SetUint64(v)), 64, false)
			}
			if err != nil {
				return ret1(st, Tuple{r, newErr(st, "Parse")}), true
			}
			return ret1(st, Tuple{r, nilError()}), true
		}
	}
	I["strconv.ParseInt"] = parseInt(true)
	I["strconv.ParseUint"] = parseInt(false)
	itoa := func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		a, ok := cs.Args[0].(*Term)
		if !ok || !a.P.isConst() {
			return nil, false
		}
		return ret1(st, strC(a.P.c.String())), true
	}
	I["strconv.Itoa"] = itoa
	fmtInt := func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		a, ok := cs.Args[0].(*Term)
		b, ok2 := cs.Args[1].(*Term)
		if !ok || !ok2 || !a.P.isConst() || b.P != pConstI(10) {
			return nil, false
		}
		return ret1(st, strC(a.P.c.String())), true
	}
	I["strconv.FormatInt"] = fmtInt
	I["strconv.FormatUint"] = fmtInt
	I["encoding/hex.DecodeString"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		a, ok := constStr(cs.Args[0])
		if !ok || len(a)%2 != 0 {
			return nil, false
		}
		var bs []*Term
		for i := 0; i < len(a); i += 2 {
			v, err := strconv.ParseUint(a[i:i+2], 16, 8)
			if err != nil {
				return nil, false
			}
			bs = append(bs, intC(int64(v), 8, false))
		}
		return ret1(st, Tuple{st.sliceFromBytes(opaqueT("bytes", "", 0, bs...), u8()), nilError()}), true
	}
	I["encoding/hex.EncodeToString"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		s := asSlice(cs.Args[0])
		if s == nil {
			return nil, false
		}
		bt := st.bytesTerm(s)
		if bt.Op == "bytes" {
			h := ""
			for _, b := range bt.Args {
				c, ok := st.facts.norm(b.P).constI()
				if !ok {
					return ret1(st, opaqueT("hex", "", 0, bt)), true
				}
				h += fmt.Sprintf("%02x", c)
			}
			return ret1(st, strC(h)), true
		}
		return ret1(st, opaqueT("hex", "", 0, bt)), true
	}
	I["sort.Slice"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		return in.sortSlice(st, fr, cs)
	}
	I["sort.SliceStable"] = I["sort.Slice"]
	I["container/heap.Init"] = noop
	I["runtime.NumCPU"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		return ret1(st, symRange("numcpu", 64, true, 1, 65536)), true
	}
	I["os.Getpagesize"] = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		return ret1(st, symRange("pagesize", 64, true, 1, 1<<30)), true
	}
}

func constBytes(bs []*Term) bool {
	for _, b := range bs {
		if b.P == nil {
			return false
		}
		if _, ok := b.P.constI(); !ok {
			return false
		}
	}
	return len(bs) > 0
}

func bytesEq(st *State, a, b *Slice) *Term {
	la, lb := st.facts.norm(a.Len.P), st.facts.norm(b.Len.P)
	if la != lb {
		le := bEQ0(pSub(la, lb))
		if le == tFalse {
			return tFalse
		}
	}
	if n, ok := la.constI(); ok && la == lb && n <= 64 {
		// comparison with a constant
		xs, ys := st.bytesOf(a), st.bytesOf(b)
		if constBytes(xs) || constBytes(ys) {
			c := tTrue
			for i := range xs {
				if xs[i].P == nil || ys[i].P == nil {
					c = nil
					break
				}
				c = bAnd(c, bEQ0(pSub(xs[i].P, ys[i].P)))
			}
			if c != nil {
				return c
			}
		}
	}
	x, y := st.bytesTerm(a), st.bytesTerm(b)
	if x == y {
		return tTrue
	}
	if x.id > y.id {
		x, y = y, x
	}
	return mkTerm("byteseq", "", 0, 0, 1, false, x, y)
}

// symbolic object which is known not to be nil
func symObjNN(bt *Term, t types.Type) *Obj {
	o := newObj(bt.String(), t)
	o.Sym = bt
	nonNil[bt] = true
	return o
}

var nonNil = map[*Term]bool{}

// fmt.Sprintf with constant format and constant operands
func (in *Interp) sprintf(st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
	f, ok := constStr(cs.Args[0])
	if !ok {
		return nil, false
	}
	s := asSlice(cs.Args[1])
	if s == nil {
		if _, isnil := cs.Args[1].(NilV); !isnil {
			return nil, false
		}
	}
	var args []Val
	if s != nil {
		n, ok := s.Len.P.constI()
		if !ok {
			return nil, false
		}
		for i := int64(0); i < n; i++ {
			args = append(args, st.sliceGet(s, pConstI(i)))
		}
	}
	var out []*Term
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, strC(f[i:i+1]))
			continue
		}
		i++
		if i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			out = append(out, strC("%"))
			continue
		}
		if f[i] != 'd' && f[i] != 's' && f[i] != 'v' || ai >= len(args) {
			return nil, false
		}
		v := args[ai]
		ai++
		p, ok := in.fmtVal(st, fr, cs, v, f[i])
		if !ok {
			return nil, false
		}
		out = append(out, p)
	}
	if ai != len(args) {
		return nil, false
	}
	return ret1(st, strCat(out)), true
}

func (in *Interp) fmtVal(st *State, fr *Frame, cs *CallSite, v Val, verb byte) (*Term, bool) {
	i, ok := v.(*Iface)
	if !ok || i.T == nil {
		return nil, false
	}
	if verb != 'd' {
		for _, name := range []string{"Error", "String"} {
			ms := in.P.SSA.MethodSets.MethodSet(i.T)
			sel := ms.Lookup(in.P.Main.Pkg, name)
			if sel == nil {
				continue
			}
			fn := in.P.SSA.MethodValue(sel)
			if fn == nil || fn.Blocks == nil {
				return nil, false
			}
			os := in.Exec(st.clone(), fr, fn, []Val{i.V}, nil, cs.Instr)
			if len(os) != 1 || os[0].Panic {
				return nil, false
			}
			return isStrTerm(os[0].Ret)
		}
	}
	if t, ok := i.V.(*Term); ok {
		if t.P != nil && verb != 's' {
			p := st.facts.norm(t.P)
			if p.isConst() {
				return strC(p.c.String()), true
			}
			return strDec(mkInt(p, t.W, t.Sg)), true
		}
		if s, ok := isStrTerm(t); ok && verb != 'd' {
			return s, true
		}
	}
	return nil, false
}

// Sorting: if the comparison of all pairs is decided, the slice is permuted
// accordingly, otherwise a hook is needed.
func (in *Interp) sortSlice(st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
	i, ok := cs.Args[0].(*Iface)
	if !ok {
		return nil, false
	}
	s := asSlice(i.V)
	less, ok := cs.Args[1].(*Func)
	if s == nil || !ok || less.Fn == nil {
		return nil, false
	}
	n, ok := st.facts.norm(s.Len.P).constI()
	if !ok || n > 300 {
		return nil, false
	}
	vals := make([]Val, n)
	for k := range vals {
		vals[k] = st.sliceGet(s, pConstI(int64(k)))
		if a, ok := vals[k].(*Agg); ok {
			freeze(a)
		}
	}
	cmp := func(a, b Val) int {
		t := st.clone()
		t.sliceSet(s, pConstI(0), a)
		t.sliceSet(s, pConstI(1), b)
		os := in.Exec(t, fr, less.Fn, []Val{intT(0), intT(1)}, less.Bind, cs.Instr)
		if len(os) != 1 || os[0].Panic {
			return 0
		}
		return os[0].St.facts.decide(asBool(os[0].Ret))
	}
	if n == 1 {
		return ret1(st, Tuple{}), true
	}
	// insertion sort
	for a := 1; a < len(vals); a++ {
		for b := a; b > 0; b-- {
			d := cmp(vals[b], vals[b-1])
			if d == 0 {
				return nil, false
			}
			if d == -1 {
				break
			}
			vals[b], vals[b-1] = vals[b-1], vals[b]
		}
	}
	for k, v := range vals {
		st.sliceSet(s, pConstI(int64(k)), v)
	}
	return ret1(st, Tuple{}), true
}

var _ = ssa.NewProgram
