package main

// Model of the private key for the rules about its state: which fields are
// shared, its lock, and the container behind it.  The methods are analysed
// path by path; taking the lock forgets what other goroutines may change
// except for the invariant of the shared state, which is checked again when
// the lock is given up (rely/guarantee).  Calls of the container may succeed
// or fail in every way.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type keyModel struct {
	r    *Rep
	p    *Prog
	T    types.Type
	S    *types.Struct
	seq  []PE // next sequence number
	bor  []PE // borrowed
	lst  []PE // least number in use
	mux  map[string]bool
	wgs  map[string]bool
	cond int
	ctr  int // field with the container
	heap int // field with the heap of retired numbers, -1 if none
	maps []int
	mut  map[int]bool // fields changed after construction
	rel  map[*ssa.Function]bool
	hash map[*ssa.Function]bool
	rec  map[*ssa.Function]bool
	ctrT types.Type
	mod  map[*ssa.Function]*keyMod
	base *State
}

// fields a function may change, for summaries
type keyMod struct{ fields map[int]bool }

func isNamed(t types.Type, pkg, name string) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && (n.Obj().Pkg() == nil && pkg == "" || n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg)
}

// The field of the private key an address is inside of, and the base pointer.
func (m *keyModel) fieldOf(v ssa.Value) (int, ssa.Value, bool) {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), m.T) {
				return x.Field, x.X, true
			}
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return 0, nil, false
		}
	}
}

// The field a value was loaded from.
func (m *keyModel) loadedFrom(v ssa.Value) (int, ssa.Value, bool) {
	if u, ok := v.(*ssa.UnOp); ok {
		return m.fieldOf(u.X)
	}
	return 0, nil, false
}

func isCtor(base ssa.Value) bool {
	_, ok := base.(*ssa.Alloc)
	return ok
}

func newKeyModel(r *Rep) *keyModel {
	m := &keyModel{r: r, p: r.P, T: r.P.namedType("PrivateKey"), ctrT: r.P.namedType("PrivateKeyContainer"),
		mux: map[string]bool{}, wgs: map[string]bool{}, mut: map[int]bool{}, rel: map[*ssa.Function]bool{},
		hash: map[*ssa.Function]bool{}, rec: map[*ssa.Function]bool{}, ctr: -1, heap: -1, cond: -1}
	if m.T == nil || m.ctrT == nil {
		panic(abortAll{"types PrivateKey and PrivateKeyContainer not found"})
	}
	m.S = m.T.Underlying().(*types.Struct)
	seqT := r.P.namedType("SignatureSeqNo")
	var find func(t types.Type, path []PE)
	find = func(t types.Type, path []PE) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			p := subPath(path, PE{F: i})
			ft := s.Field(i).Type()
			switch {
			case isNamed(ft, "sync", "Mutex") || isNamed(ft, "sync", "RWMutex"):
				m.mux[pathKey(p)] = true
			case isNamed(ft, "sync", "WaitGroup"):
				m.wgs[pathKey(p)] = true
			case isNamed(ft, "sync", "Cond"):
				m.cond = i
			case types.Identical(ft, m.ctrT):
				m.ctr = i
			}
			if n, ok := ft.(*types.Named); ok && n.Obj().Pkg() == r.P.Main.Pkg {
				find(ft, p)
			}
			if len(path) == 0 {
				if mt, ok := ft.Underlying().(*types.Map); ok && types.Identical(mt.Key(), r.P.namedType("SubTreeAddress")) {
					m.maps = append(m.maps, i)
				}
				if pt, ok := ft.(*types.Pointer); ok {
					if sl, ok := pt.Elem().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), seqT) {
						m.heap = i
					}
				}
			}
		}
	}
	find(m.T, nil)
	if len(m.mux) == 0 || m.ctr < 0 {
		panic(abortAll{"private key without a lock or container"})
	}
	m.seq = m.role("PrivateKey.SeqNo")
	m.bor = m.role("PrivateKey.BorrowedSeqNos")
	var walk func(t types.Type, path []PE)
	walk = func(t types.Type, path []PE) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			p := subPath(path, PE{F: i})
			if types.Identical(s.Field(i).Type(), seqT) && pathKey(p) != pathKey(m.seq) {
				if m.lst != nil {
					panic(abortAll{"more than two sequence numbers in the private key"})
				}
				m.lst = p
			}
			if n, ok := s.Field(i).Type().(*types.Named); ok && n.Obj().Pkg() == r.P.Main.Pkg {
				walk(s.Field(i).Type(), p)
			}
		}
	}
	walk(m.T, nil)
	m.effects()
	m.base = r.initState()
	return m
}

// The cell of the key a getter returns.
func (m *keyModel) role(getter string) []PE {
	fn := m.p.needFn(getter)
	in := newInterp(m.p)
	st := newState()
	o := newObj("sk", m.T)
	st.heap[o] = symVal(m.T, fresh("sk"))
	type ld struct {
		p []PE
		v Val
	}
	var lds []ld
	in.H.Load = func(in *Interp, st *State, fr *Frame, instr ssa.Instruction, p *Ptr) {
		if p.Obj == o {
			lds = append(lds, ld{p.Path, st.load(p)})
		}
	}
	for _, out := range in.Exec(st, nil, fn, []Val{&Ptr{Obj: o}}, nil, nil) {
		if out.Panic {
			continue
		}
		for _, l := range lds {
			if a, ok := l.v.(*Term); ok {
				if b, ok := out.Ret.(*Term); ok && a == b {
					return l.p
				}
			}
		}
	}
	panic(abortAll{getter + " does not return a field of the key"})
}

// Effects: fields changed outside of constructors, functions that matter for
// the state of the key, functions that hash, and recursive functions.
func (m *keyModel) effects() {
	fns := m.p.repoFuncs()
	calls := map[*ssa.Function][]*ssa.Function{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				switch x := x.(type) {
				case *ssa.Store:
					if i, base, ok := m.fieldOf(x.Addr); ok && !isCtor(base) {
						m.mut[i] = true
					}
				case *ssa.MapUpdate:
					if i, base, ok := m.loadedFrom(x.Map); ok && !isCtor(base) {
						m.mut[i] = true
					}
				}
				if ci, ok := x.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
						if i, base, ok := m.loadedFrom(cc.Args[0]); ok && !isCtor(base) {
							m.mut[i] = true
						}
					}
					if cc.IsInvoke() {
						if types.Identical(cc.Value.Type(), m.ctrT) {
							m.rel[f] = true
						}
						if strings.HasPrefix(cc.Value.Type().String(), "hash.") || strings.Contains(cc.Value.Type().String(), "crypto/sha3") {
							m.hash[f] = true
						}
					} else if c := cc.StaticCallee(); c != nil {
						calls[f] = append(calls[f], c)
						pk := ""
						if c.Pkg != nil {
							pk = c.Pkg.Pkg.Path()
						}
						switch {
						case strings.Contains(pk, "xorsimd"), strings.Contains(pk, "crypto/sha"), strings.Contains(pk, "f1600x4"):
							m.hash[f] = true
						case strings.HasPrefix(c.String(), "(*sync."):
							if len(cc.Args) > 0 {
								if _, _, ok := m.fieldOf(cc.Args[0]); ok {
									m.rel[f] = true
								} else if _, _, ok := m.loadedFrom(cc.Args[0]); ok {
									m.rel[f] = true
								}
							}
						}
					}
				}
				if mc, ok := x.(*ssa.MakeClosure); ok {
					calls[f] = append(calls[f], mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	if m.heap >= 0 {
		m.mut[m.heap] = true
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				if fa, ok := x.(*ssa.FieldAddr); ok {
					if i, _, ok := m.fieldOf(fa); ok && m.mut[i] {
						m.rel[f] = true
					}
				}
			}
		}
	}
	for _, set := range []map[*ssa.Function]bool{m.rel, m.hash} {
		for ch := true; ch; {
			ch = false
			for f, cs := range calls {
				if set[f] {
					continue
				}
				for _, c := range cs {
					if set[c] {
						set[f], ch = true, true
					}
				}
			}
		}
	}
	// recursion
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range fns {
		seen := map[*ssa.Function]bool{}
		work := append([]*ssa.Function{}, calls[f]...)
		for len(work) > 0 {
			g := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[g] {
				continue
			}
			seen[g] = true
			work = append(work, calls[g]...)
		}
		reach[f] = seen
	}
	// of the functions that call each other, those called from elsewhere
	for _, f := range fns {
		if !reach[f][f] {
			continue
		}
		for _, g := range fns {
			if reach[f][g] && reach[g][f] {
				continue
			}
			for _, c := range calls[g] {
				if c == f {
					m.rec[f] = true
				}
			}
		}
	}
	for _, f := range fns {
		if !reach[f][f] {
			continue
		}
		has := false
		for g := range reach[f] {
			has = has || m.rec[g] && reach[g][f]
		}
		if !has {
			m.rec[f] = true
		}
	}
}

func (m *keyModel) field(i int) string { return m.S.Field(i).Name() }

// ---- ghost state

type keyG struct {
	obj    *Obj // the shared key
	held   bool
	shared bool // the key is reachable by other goroutines
	s0, b0 *Poly
	l0     *Poly
	C      *Poly // what the container has stored
	L      *Poly // number of signatures it reports as possibly lost
	last   *Poly // sequence number seen when the lock was given up last
	took   [][2]*Poly
	ret    int // retirements of the number taken
	pop    *Poly
	slack0 *Poly
	failed []*Event // failed calls of the container
	open   bool
	closed int
	drops  []Val
	secs   int
	bgs    int // background goroutines started
	wgAdd  int64
	done   int
	dels   []delEv
	bStart *Poly
	writes []*Event // calls that change the stored number since the lock was taken
	log    []secRec
}

type delEv struct {
	m   Val
	key Val
}

func kg(st *State) *keyG { return st.user["key"].(*keyG) }
func (st *State) upd(f func(g *keyG)) {
	n := *kg(st)
	n.took = n.took[:len(n.took):len(n.took)]
	n.failed = n.failed[:len(n.failed):len(n.failed)]
	n.drops = n.drops[:len(n.drops):len(n.drops)]
	n.dels = n.dels[:len(n.dels):len(n.dels)]
	n.writes = n.writes[:len(n.writes):len(n.writes)]
	n.log = n.log[:len(n.log):len(n.log)]
	f(&n)
	st.user["key"] = &n
}

func polyOf(v Val) *Poly {
	if t, ok := v.(*Term); ok && t.P != nil {
		return t.P
	}
	return nil
}

func (m *keyModel) cell(st *State, path []PE) *Poly {
	p := polyOf(st.load(&Ptr{kg(st).obj, path}))
	if p == nil {
		panic(abortAll{"counter of the private key is not a number"})
	}
	return p
}

func (st *State) setCell(o *Obj, path []PE, name string) *Poly {
	p := &Ptr{o, path}
	t := typeAt(p)
	v := symVal(t, fresh(name))
	st.store(p, v)
	return polyOf(v)
}

// the run of one entry point
type keyRun struct {
	m     *keyModel
	in    *Interp
	name  string
	h     uint64 // height of subtrees
	H     uint64
	D     uint64
	ruleS map[string]bool
	// hooks of special rules
	extra     func(st *State, fr *Frame, cs *CallSite) ([]Outcome, bool)
	noCut     bool // only functions that hash are cut
	keepFn    func(f *ssa.Function) bool
	dangerous bool
	inGo      bool
}

func (k *keyRun) viol(rule string, fr *Frame, instr ssa.Instruction, f string, a ...interface{}) {
	where := k.name
	if fr != nil {
		where = fnName(fr.Fn)
		for g := fr; g != nil; g = g.Up {
			if g.Up == nil && fnName(g.Fn) != where {
				where += " from " + fnName(g.Fn)
			}
		}
	}
	k.m.r.viol(rule, where, k.m.p.ipos(instr), f, a...)
}
func (k *keyRun) ok(rule string, fr *Frame, f string, a ...interface{}) {
	where := k.name
	if fr != nil {
		where = fnName(fr.Fn)
	}
	k.m.r.ok(rule, where, f, a...)
}
func (k *keyRun) chk(c bool, rule string, fr *Frame, instr ssa.Instruction, f string, a ...interface{}) bool {
	if c {
		k.ok(rule, fr, f, a...)
	} else {
		k.viol(rule, fr, instr, "not so: "+f, a...)
	}
	return c
}

func (st *State) ge(a, b *Poly) bool { return st.facts.decideGE(pSub(a, b)) == 1 }
func (st *State) eq(a, b *Poly) bool { return st.facts.decideEQ(pSub(a, b)) == 1 }

// Is p (a pointer) the key's lock?
func (k *keyRun) isMux(st *State, v Val) bool {
	p, ok := v.(*Ptr)
	return ok && p.Obj == kg(st).obj && k.m.mux[pathKey(p.Path)]
}

func (k *keyRun) havoc(st *State) {
	g := kg(st)
	o := g.obj
	var fs []int
	for i := range k.m.mut {
		fs = append(fs, i)
	}
	sort.Ints(fs)
	for _, i := range fs {
		t := k.m.S.Field(i).Type()
		if _, ok := t.Underlying().(*types.Struct); ok && !isSyncType(t) {
			st.store(&Ptr{o, []PE{{F: i}}}, symVal(t, fresh("shared_"+k.m.field(i))))
			continue
		}
		switch u := t.Underlying().(type) {
		case *types.Map:
			// same map, other contents
			if mv, ok := st.load(&Ptr{o, []PE{{F: i}}}).(*MapV); ok {
				st.heap[mv.Obj] = &MapAgg{T: u, Sym: true, bt: fresh("shared_" + k.m.field(i))}
				continue
			}
		case *types.Pointer:
			if i == k.m.heap {
				ob := newObj("heap", u.Elem())
				st.heap[ob] = symVal(u.Elem(), fresh("heap"))
				st.store(&Ptr{o, []PE{{F: i}}}, &Ptr{Obj: ob})
				continue
			}
		}
		if isSyncType(t) {
			continue
		}
		st.store(&Ptr{o, []PE{{F: i}}}, symVal(t, fresh("shared_"+k.m.field(i))))
	}
}

func isSyncType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
}

// The lock has been taken: other goroutines may have changed everything it
// protects, within the invariant.
func (k *keyRun) locked(st *State) {
	k.havoc(st)
	s, b := k.m.cell(st, k.m.seq), k.m.cell(st, k.m.bor)
	C := symInt(freshName("stored"), 64, false).P
	st.facts = st.facts.assume(bGE0(pSub(C, pAdd(s, b))), true)
	L := symInt(freshName("lost"), 32, false).P
	g := kg(st)
	if g.last != nil {
		st.facts = st.facts.assume(bGE0(pSub(s, g.last)), true)
	}
	if k.m.lst != nil {
		l := k.m.cell(st, k.m.lst)
		st.facts = st.facts.assume(bGE0(pSub(s, l)), true)
		st.upd(func(g *keyG) { g.l0 = l })
	}
	st.upd(func(g *keyG) {
		g.held, g.s0, g.b0, g.C, g.L = true, s, b, C, L
		g.slack0 = pSub(C, pAdd(s, b))
		g.drops, g.dels = nil, nil
		g.writes = nil
		g.secs++
		if g.bStart == nil {
			g.bStart = b
		}
	})
}

// The lock is about to be given up.
func (k *keyRun) unlocking(st *State, fr *Frame, instr ssa.Instruction) {
	g := kg(st)
	s, b := k.m.cell(st, k.m.seq), k.m.cell(st, k.m.bor)
	if k.dangerous {
		k.chk(st.eq(b, pZero) || st.ge(g.C, pAdd(s, b)), "index.invariant", fr, instr,
			"setting the sequence number forgets the borrowed numbers of the old position")
	} else {
		k.chk(st.ge(s, g.s0), "index.invariant", fr, instr, "the next sequence number never decreases")
		k.chk(st.ge(g.C, pAdd(s, b)), "index.invariant", fr, instr,
			"when the lock is released, the container has recorded all used and borrowed sequence numbers")
	}
	if !st.eq(s, g.s0) && !k.dangerous {
		st.upd(func(g *keyG) { g.took = append(g.took, [2]*Poly{g.s0, s}) })
	}
	if g.pop != nil {
		k.viol("retire", fr, instr, "a retired number was removed without being accounted for")
	}
	k.dropped(st, fr, instr)
	st.upd(func(g *keyG) {
		g.log = append(g.log, secRec{g.s0, s, g.b0, b, g.slack0, g.C, g.writes})
		g.held = false
		g.last = s
	})
}

// what has been dropped from the cache is not in the tables any more
func (k *keyRun) dropped(st *State, fr *Frame, instr ssa.Instruction) {
	g := kg(st)
	for _, d := range g.drops {
		for _, i := range k.m.maps {
			mv := st.load(&Ptr{g.obj, []PE{{F: i}}})
			et := k.m.S.Field(i).Type().Underlying().(*types.Map).Elem()
			v, has := st.mapLookup(mv, d, et)
			_ = v
			k.chk(st.facts.decide(has) == -1, "retire.tables", fr, instr,
				"a subtree dropped from the container is removed from table %d of the key", i)
		}
	}
}

// The state between two iterations of a loop with the lock held.
func (k *keyRun) consistent(st *State, fr *Frame, instr ssa.Instruction) {
	g := kg(st)
	s, b := k.m.cell(st, k.m.seq), k.m.cell(st, k.m.bor)
	okl := k.m.lst == nil || st.ge(s, k.m.cell(st, k.m.lst))
	k.chk(st.eq(s, g.s0) && st.ge(g.C, pAdd(s, b)) && g.pop == nil && okl, "lock.loop", fr, instr,
		"the state of the key is consistent between the iterations of a loop")
}

func (k *keyRun) isCtrCall(cs *CallSite) bool {
	if cs.Method == "" || cs.Instr == nil {
		return false
	}
	return types.Identical(cs.Instr.Common().Value.Type(), k.m.ctrT)
}

func errIdx(sig *types.Signature) int {
	n := sig.Results().Len()
	for i := n - 1; i >= 0; i-- {
		if types.Implements(sig.Results().At(i).Type(), errorIface) {
			return i
		}
	}
	return -1
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// outcomes of a container call
func (k *keyRun) ctrCall(st *State, fr *Frame, cs *CallSite) []Outcome {
	g := kg(st)
	if g.shared {
		k.chk(g.held, "lock.container", fr, cs.Instr, "the container is used with the lock held (%s)", cs.Method)
	}
	if g.closed > 0 {
		k.viol("close.after", fr, cs.Instr, "the container is used after it has been closed (%s)", cs.Method)
	}
	res := cs.Sig.Results()
	ei := errIdx(cs.Sig)
	mk := func(st *State, fail bool, vals map[int]Val) Outcome {
		e := &Event{Kind: "ctr", Name: cs.Method, Args: cs.Args, Instr: cs.Instr, Fr: fr, X: fail}
		st.emit(e)
		if fail {
			st.upd(func(g *keyG) { g.failed = append(g.failed, e) })
		}
		if storing(cs.Method) {
			st.upd(func(g *keyG) { g.writes = append(g.writes, e) })
		}
		if res.Len() == 0 {
			return Outcome{St: st, Ret: Tuple{}}
		}
		tp := make(Tuple, res.Len())
		for i := range tp {
			t := res.At(i).Type()
			switch {
			case i == ei && fail:
				tp[i] = newErr(st, cs.Method)
			case i == ei:
				tp[i] = nilError()
			case vals[i] != nil:
				tp[i] = vals[i]
			case fail:
				tp[i] = zeroVal(t)
			default:
				tp[i] = symVal(t, fresh("ctr_"+cs.Method))
			}
		}
		if res.Len() == 1 {
			e.Ret = tp[0]
			return Outcome{St: st, Ret: tp[0]}
		}
		e.Ret = tp
		return Outcome{St: st, Ret: tp}
	}
	var out []Outcome
	arg := func(i int) Val {
		if i+1 < len(cs.Args) {
			return cs.Args[i+1]
		}
		return nil
	}
	switch cs.Method {
	case "SetSeqNo":
		v := polyOf(arg(0))
		if v == nil {
			k.viol("index.lower", fr, cs.Instr, "value of SetSeqNo is not known")
			v = fresh("v").P
		}
		low := g.s0
		if g.held && low != nil && !k.dangerous {
			cur := k.m.cell(st, k.m.seq)
			k.chk(st.ge(v, low), "index.lower", fr, cs.Instr,
				"the stored sequence number is never set below one that was used")
			// anything at or above the next number, within the numbers borrowed or just past
			_ = cur
		}
		ok, f1, f2 := st, st.clone(), st.clone()
		ok.upd(func(g *keyG) { g.C, g.L = v, pZero })
		f2.upd(func(g *keyG) { g.C = v })
		out = []Outcome{mk(ok, false, nil), mk(f1, true, nil), mk(f2, true, nil)}
	case "BorrowSeqNos":
		a := polyOf(arg(0))
		C := g.C
		if C == nil {
			C = symInt(freshName("stored"), 64, false).P
		}
		ok, f1, f2 := st, st.clone(), st.clone()
		ok.upd(func(g *keyG) { g.C, g.L = pAdd(C, a), symInt(freshName("lost"), 32, false).P })
		f2.upd(func(g *keyG) { g.C = pAdd(C, a) })
		out = []Outcome{mk(ok, false, map[int]Val{0: mkInt(C, 64, false)}), mk(f1, true, nil), mk(f2, true, nil)}
	case "GetSeqNo":
		C := g.C
		if C == nil {
			C = symInt(freshName("stored"), 64, false).P
		}
		L := g.L
		if L == nil {
			L = symInt(freshName("lost"), 32, false).P
		}
		f1 := st.clone()
		st.upd(func(g *keyG) { g.C, g.L = C, L })
		out = []Outcome{mk(st, false, map[int]Val{0: mkInt(C, 64, false), 1: mkInt(L, 32, false)}), mk(f1, true, nil)}
	case "Reset":
		f1 := st.clone()
		st.upd(func(g *keyG) { g.C = pZero })
		out = []Outcome{mk(st, false, nil), mk(f1, true, nil)}
	case "Close":
		f1 := st.clone()
		for _, s := range []*State{st, f1} {
			s.upd(func(g *keyG) { g.closed++ })
		}
		out = []Outcome{mk(st, false, nil), mk(f1, true, nil)}
	case "Initialized":
		f1 := st.clone()
		out = []Outcome{mk(st, false, nil), mk(f1, false, map[int]Val{0: NilV{}})}
		o := newObj("params", k.m.p.namedType("Params"))
		st.heap[o] = k.m.p.paramsVal(st, Params{0, 32, int64(k.H), int64(k.D), 16, 0})
		out[0].Ret = &Ptr{Obj: o}
		ev := *st.ev.E
		ev.Ret = out[0].Ret
		st.ev = st.ev.prev
		st.emit(&ev)
	case "DropSubTree":
		f1 := st.clone()
		if g.held && k.m.lst != nil {
			k.dropOK(st, fr, cs, arg(0))
		}
		st.upd(func(g *keyG) { g.drops = append(g.drops, arg(0)) })
		out = []Outcome{mk(st, false, nil), mk(f1, true, nil)}
	case "ListSubTrees":
		f1 := st.clone()
		out = []Outcome{mk(st, false, nil), mk(f1, true, nil)}
	default:
		out = []Outcome{mk(st, false, nil)}
		if ei >= 0 {
			f1 := st.clone()
			f1.ev = f1.ev.prev
			f1.user["key"] = g
			out = append(out, mk(f1, true, nil))
		}
	}
	return out
}

// A subtree is dropped: all numbers below it must have been retired.
func (k *keyRun) dropOK(st *State, fr *Frame, cs *CallSite, a Val) {
	ag, ok := a.(*Agg)
	li, ti := fieldIdx(k.m.p.namedType("SubTreeAddress"), "Layer"), fieldIdx(k.m.p.namedType("SubTreeAddress"), "Tree")
	if !ok || li < 0 || ti < 0 {
		k.viol("retire.drop", fr, cs.Instr, "subtree dropped is not known")
		return
	}
	layer, tree := polyOf(ag.get(st, pConstI(int64(li)))), polyOf(ag.get(st, pConstI(int64(ti))))
	ly, ok := st.facts.norm(layer).constI()
	if !ok || tree == nil {
		k.viol("retire.drop", fr, cs.Instr, "layer of the subtree dropped is not known")
		return
	}
	if ly < 0 || uint64(ly) >= k.D {
		k.viol("retire.drop", fr, cs.Instr, "layer %d does not exist", ly)
		return
	}
	sh := uint(ly+1) * uint(k.h)
	end := pScale(pAdd(tree, pOne), pow2(sh))
	l := k.m.cell(st, k.m.lst)
	k.chk(st.ge(l, end), "retire.drop", fr, cs.Instr,
		"a subtree is dropped only if all its sequence numbers are below the least one in use (layer %d, height %d)", ly, k.h)
}

func (k *keyRun) interp() *Interp {
	m := k.m
	in := newInterp(m.p)
	k.in = in
	in.MaxUnroll = 16
	in.H.Call = k.call
	in.H.Inline = func(in *Interp, fr *Frame, fn *ssa.Function) bool { return m.p.inRepo(fn) }
	in.H.Load = func(in *Interp, st *State, fr *Frame, instr ssa.Instruction, p *Ptr) {
		g := kg(st)
		if p.Obj == g.obj && g.shared && len(p.Path) > 0 && m.mut[p.Path[0].F] {
			k.chk(g.held, "lock.fields", fr, instr, "field %s is read with the lock held", m.field(p.Path[0].F))
		}
	}
	in.H.Store = func(in *Interp, st *State, fr *Frame, instr ssa.Instruction, p *Ptr, v Val) {
		g := kg(st)
		if p.Obj != g.obj || len(p.Path) == 0 || !m.mut[p.Path[0].F] {
			return
		}
		if g.shared {
			k.chk(g.held, "lock.fields", fr, instr, "field %s is written with the lock held", m.field(p.Path[0].F))
		}
		if m.lst != nil && pathKey(p.Path) == pathKey(m.lst) && !k.dangerous && g.held {
			k.incLeast(st, fr, instr, polyOf(v))
		}
	}
	in.H.MapUpdate = func(in *Interp, st *State, fr *Frame, instr ssa.Instruction, mp, key, v Val, del bool) {
		g := kg(st)
		if !g.shared {
			return
		}
		for _, i := range m.maps {
			if mv, ok := st.load(&Ptr{g.obj, []PE{{F: i}}}).(*MapV); ok {
				if x, ok := mp.(*MapV); ok && x.Obj == mv.Obj {
					k.chk(g.held, "lock.fields", fr, instr, "table %s is changed with the lock held", m.field(i))
				}
			}
		}
	}
	in.H.LoopHead = func(in *Interp, entry, head *State, fr *Frame, h *ssa.BasicBlock) {
		if !kg(head).held {
			return
		}
		k.dropped(entry, fr, h.Instrs[0])
		head.upd(func(g *keyG) { g.drops = nil })
		if m.lst != nil && m.cell(entry, m.lst) != m.cell(head, m.lst) {
			// numbers retired are below the next number: see heapOp
			head.assume(bGE0(pSub(m.cell(head, m.seq), m.cell(head, m.lst))), true)
		}
		for _, path := range [][]PE{m.seq, m.bor} {
			if m.cell(entry, path) != m.cell(head, path) {
				// the loop gives up the lock, or changes the counters: every
				// iteration has to start in a consistent state
				k.consistent(entry, fr, h.Instrs[0])
				k.locked(head)
				return
			}
		}
	}
	in.H.LoopBack = func(in *Interp, head, back *State, fr *Frame, h *ssa.BasicBlock) {
		a, b := kg(head), kg(back)
		bad := a.held != b.held || len(a.took) != len(b.took) || a.closed != b.closed || a.ret != b.ret || (a.pop == nil) != (b.pop == nil)
		for _, e := range b.failed[min(len(a.failed), len(b.failed)):] {
			// subtrees may be left behind
			bad = bad || e.Name != "DropSubTree"
		}
		for n := back.ev; n != nil && n != head.ev; n = n.prev {
			if n.E.Kind == "rec" && n.E.X == true {
				k.viol("err.key", fr, h.Instrs[0], "a loop goes on after %s failed", n.E.Name)
			}
		}
		if bad {
			k.viol("lock.loop", fr, h.Instrs[0], "the state of the key changes from one iteration of a loop to the next")
		} else if b.held {
			k.dropped(back, fr, h.Instrs[0])
			k.consistent(back, fr, h.Instrs[0])
		}
	}
	in.H.Go = func(in *Interp, st *State, fr *Frame, c *CallSite) { k.goStmt(st, fr, c) }
	return in
}

// Background work: analysed as code of its own, started without the lock.
func (k *keyRun) goStmt(st *State, fr *Frame, c *CallSite) {
	g := kg(st)
	if g.obj == nil || c.Fn == nil || !k.m.rel[c.Fn] {
		return
	}
	st.emit(&Event{Kind: "go", Instr: c.Instr, Fr: fr, Name: c.Name})
	st.upd(func(g *keyG) { g.bgs++ })
	k.chk(kg(st).wgAdd >= int64(kg(st).bgs), "close.join", fr, c.Instr, "background work is registered with the wait group before it is started")
	s2 := st.clone()
	s2.ev = nil
	s2.upd(func(g *keyG) {
		*g = keyG{obj: g.obj, shared: true}
	})
	k2 := *k
	k2.name = k.name + " (background)"
	k2.inGo = true
	in2 := k2.interp()
	for _, o := range in2.Exec(s2, nil, c.Fn, c.Args, c.Bind, nil) {
		if o.Panic {
			continue
		}
		g := kg(o.St)
		k2.chk(g.done == 1, "close.join", fr, c.Instr, "background work reports its end exactly once on every path")
		k2.chk(!g.held, "lock.balance", fr, c.Instr, "background work gives up the lock")
	}
	k.m.r.seen(in2)
}

// The least number in use is changed.
func (k *keyRun) incLeast(st *State, fr *Frame, instr ssa.Instruction, v *Poly) {
	g := kg(st)
	old := k.m.cell(st, k.m.lst)
	if v == nil || !st.eq(v, pAdd(old, pOne)) {
		k.viol("retire", fr, instr, "the least number in use is not increased by one")
		return
	}
	if g.pop != nil {
		k.chk(st.eq(g.pop, old), "retire", fr, instr, "a retired number is accounted for only if it is the least one in use")
		st.upd(func(g *keyG) { g.pop = nil })
		return
	}
	if len(g.took) == 0 || g.ret > 0 {
		k.viol("retire", fr, instr, "the least number in use is increased without a number being retired")
		return
	}
	x := g.took[len(g.took)-1][0]
	k.chk(st.eq(x, old), "retire", fr, instr, "the least number in use is increased only if the number retired equals it")
	st.upd(func(g *keyG) { g.ret++ })
}

func (k *keyRun) call(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
	m := k.m
	g := kg(st)
	if k.extra != nil {
		if os, ok := k.extra(st, fr, cs); ok {
			return os, true
		}
	}
	if k.isCtrCall(cs) {
		return k.ctrCall(st, fr, cs), true
	}
	switch cs.Name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		if k.isMux(st, cs.Args[0]) {
			k.chk(!g.held, "lock.balance", fr, cs.Instr, "the lock is not taken twice")
			st.emit(&Event{Kind: "lock", Instr: cs.Instr, Fr: fr})
			k.locked(st)
			return ret1(st, Tuple{}), true
		}
		return ret1(st, Tuple{}), true
	case "(*sync.Mutex).TryLock":
		if k.isMux(st, cs.Args[0]) {
			s2 := st.clone()
			st.emit(&Event{Kind: "lock", Instr: cs.Instr, Fr: fr})
			k.locked(st)
			return []Outcome{{St: st, Ret: tTrue}, {St: s2, Ret: tFalse}}, true
		}
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		if k.isMux(st, cs.Args[0]) {
			k.chk(g.held, "lock.balance", fr, cs.Instr, "only a lock that is held is released")
			if g.held {
				k.unlocking(st, fr, cs.Instr)
			}
			st.emit(&Event{Kind: "unlock", Instr: cs.Instr, Fr: fr})
			return ret1(st, Tuple{}), true
		}
		return ret1(st, Tuple{}), true
	case "(*sync.Cond).Wait":
		k.chk(g.held, "lock.balance", fr, cs.Instr, "waiting for a condition requires the lock")
		if g.held {
			k.unlocking(st, fr, cs.Instr)
			st.emit(&Event{Kind: "condwait", Instr: cs.Instr, Fr: fr})
			k.locked(st)
		}
		return ret1(st, Tuple{}), true
	case "(*sync.Cond).Broadcast", "(*sync.Cond).Signal":
		st.emit(&Event{Kind: "signal", Name: cs.Name, Instr: cs.Instr, Fr: fr})
		return ret1(st, Tuple{}), true
	case "(*sync.WaitGroup).Wait":
		k.chk(!g.held, "close.deadlock", fr, cs.Instr, "background work, which needs the lock, is not waited for with the lock held")
		st.emit(&Event{Kind: "wgwait", Instr: cs.Instr, Fr: fr, Args: cs.Args})
		return ret1(st, Tuple{}), true
	case "(*sync.WaitGroup).Add":
		n, ok := int64(0), false
		if p := polyOf(cs.Args[1]); p != nil {
			n, ok = p.constI()
		}
		if ptr, is := cs.Args[0].(*Ptr); is && ptr.Obj == g.obj && ok {
			k.chk(!k.inGo || g.done == 0, "close.join", fr, cs.Instr, "no work is registered after the end was reported")
			st.upd(func(g *keyG) { g.wgAdd += n })
			return ret1(st, Tuple{}), true
		}
		return ret1(st, Tuple{}), true
	case "(*sync.WaitGroup).Done":
		if ptr, is := cs.Args[0].(*Ptr); is && ptr.Obj == g.obj {
			st.emit(&Event{Kind: "wgdone", Instr: cs.Instr, Fr: fr})
			st.upd(func(g *keyG) { g.done++ })
		}
		return ret1(st, Tuple{}), true
	case "(*sync.WaitGroup).Go":
		return ret1(st, Tuple{}), true
	case "container/heap.Init":
		return ret1(st, Tuple{}), true
	case "container/heap.Push", "container/heap.Pop":
		return k.heapOp(st, fr, cs)
	}
	if cs.Fn == nil || !m.p.inRepo(cs.Fn) {
		return nil, false
	}
	if k.inGo && g.done > 0 && m.rel[cs.Fn] {
		k.viol("close.join", fr, cs.Instr, "the key is used after the end of the background work was reported")
	}
	if m.rec[cs.Fn] && m.rel[cs.Fn] {
		return k.recCall(st, fr, cs), true
	}
	if cs.Fn.Pkg != nil && cs.Fn.Name() == "OpenFSPrivateKeyContainer" {
		return k.openCall(st, fr, cs), true
	}
	if res := cs.Sig.Results(); !m.rel[cs.Fn] && res.Len() == 2 && isNamed(res.At(0).Type(), m_pkg(k), "Context") && errIdx(cs.Sig) == 1 {
		return k.ctxCall(st, cs), true
	}
	if k.keepFn != nil && k.keepFn(cs.Fn) {
		return nil, false
	}
	if !m.rel[cs.Fn] && (m.hash[cs.Fn] || !k.noCut && m.bytesSig(cs.Fn)) {
		return k.cutCall(st, cs), true
	}
	return nil, false
}

func (k *keyRun) ctxCall(st *State, cs *CallSite) []Outcome {
	s2 := st.clone()
	return []Outcome{{St: st, Ret: Tuple{k.ctx(st), nilError()}}, {St: s2, Ret: Tuple{NilV{}, newErr(s2, "context")}}}
}

func (k *keyRun) ctx(st *State) Val { return st.user["ctx"].(Val) }

// does the signature mention byte strings?
func (m *keyModel) bytesSig(fn *ssa.Function) bool {
	var has func(t types.Type, d int) bool
	has = func(t types.Type, d int) bool {
		if d > 3 {
			return false
		}
		if types.Identical(t, m.T) || types.Identical(t, m.ctrT) {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return isByte(u.Elem()) || has(u.Elem(), d+1)
		case *types.Pointer:
			if isNamed(t, m.p.Main.Pkg.Path(), "Context") {
				return false
			}
			return has(u.Elem(), d+1)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if has(u.Field(i).Type(), d+1) {
					return true
				}
			}
		case *types.Array:
			return has(u.Elem(), d+1)
		}
		return false
	}
	s := fn.Signature
	for _, t := range []*types.Tuple{s.Params(), s.Results()} {
		for i := 0; i < t.Len(); i++ {
			if has(t.At(i).Type(), 0) {
				return true
			}
		}
	}
	return s.Recv() != nil && has(s.Recv().Type(), 0)
}

// A function that does not touch the state of the key.
func (k *keyRun) cutCall(st *State, cs *CallSite) []Outcome {
	for _, a := range cs.Args {
		if s, ok := a.(*Slice); ok && s.Obj != nil && isByte(s.Elem) {
			st.havocSlice(s, "out")
		}
	}
	res := cs.Sig.Results()
	if res.Len() == 0 {
		return ret1(st, Tuple{})
	}
	bt := fresh("cut_" + cs.Fn.Name())
	ei := errIdx(cs.Sig)
	mk := func(st *State, fail bool) Outcome {
		tp := make(Tuple, res.Len())
		for i := range tp {
			t := res.At(i).Type()
			if i == ei {
				if fail {
					tp[i] = newErr(st, cs.Fn.Name())
					if _, ok := t.Underlying().(*types.Interface); !ok {
						tp[i] = &Ptr{Obj: newObj("error", t.Underlying().(*types.Pointer).Elem())}
					}
				} else {
					tp[i] = nilError()
					if _, ok := t.Underlying().(*types.Interface); !ok {
						tp[i] = NilV{}
					}
				}
				continue
			}
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				o := newObj("cut_"+cs.Fn.Name(), pt.Elem())
				st.heap[o] = symVal(pt.Elem(), fresh("cut"))
				tp[i] = &Ptr{Obj: o}
				continue
			}
			tp[i] = symVal(t, opaqueT("res", "", i, bt))
		}
		if res.Len() == 1 {
			return Outcome{St: st, Ret: tp[0]}
		}
		return Outcome{St: st, Ret: tp}
	}
	// errors are reported when the function can fail
	if ei >= 0 && !isNamed(res.At(ei).Type(), m_pkg(k), "errorImpl") {
		s2 := st.clone()
		return []Outcome{mk(st, false), mk(s2, true)}
	}
	if ei >= 0 {
		return []Outcome{mk(st, true)}
	}
	return []Outcome{mk(st, false)}
}

func m_pkg(k *keyRun) string { return k.m.p.Main.Pkg.Path() }

// A recursive function that takes the lock itself.
func (k *keyRun) recCall(st *State, fr *Frame, cs *CallSite) []Outcome {
	g := kg(st)
	if p, ok := cs.Args[0].(*Ptr); ok && p.Obj == g.obj {
		k.chk(!g.held, "lock.balance", fr, cs.Instr, "%s, which takes the lock, is called without it", fnName(cs.Fn))
	}
	if k.inGo && g.done > 0 {
		k.viol("close.join", fr, cs.Instr, "the key is used after the end of the background work was reported")
	}
	outs := k.cutCall(st, cs)
	for i := range outs {
		o := &outs[i]
		fail := false
		if t, ok := o.Ret.(Tuple); ok && len(t) > 0 {
			fail = o.St.facts.decide(o.St.eqVal(t[len(t)-1], NilV{})) == -1
		}
		o.St.emit(&Event{Kind: "rec", Name: fnName(cs.Fn), Args: cs.Args, Ret: o.Ret, Instr: cs.Instr, Fr: fr, X: fail})
	}
	return outs
}

func (k *keyRun) newCtr(st *State) *Iface { return &Iface{Sym: fresh("container")} }

func (k *keyRun) openCall(st *State, fr *Frame, cs *CallSite) []Outcome {
	s2 := st.clone()
	st.emit(&Event{Kind: "open", Instr: cs.Instr, Fr: fr})
	st.upd(func(g *keyG) { g.open = true; g.closed = 0 })
	// never nil on success
	o := newObj("container", types.NewStruct(nil, nil))
	c := &Iface{T: fakeType("container"), V: &Ptr{Obj: o}}
	return []Outcome{{St: st, Ret: Tuple{c, nilError()}}, {St: s2, Ret: Tuple{NilV{}, newErr(s2, "open")}}}
}

// Operations of the heap of retired numbers.
func (k *keyRun) heapOp(st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
	g := kg(st)
	if k.m.heap < 0 {
		return nil, false
	}
	hp, ok := cs.Args[0].(*Iface)
	if !ok {
		return nil, false
	}
	p, ok := hp.V.(*Ptr)
	if !ok {
		return nil, false
	}
	cur, ok := st.load(&Ptr{g.obj, []PE{{F: k.m.heap}}}).(*Ptr)
	if !ok || cur.Obj != p.Obj {
		return nil, false
	}
	s, ok := st.load(p).(*Slice)
	if !ok {
		return nil, false
	}
	if g.shared {
		k.chk(g.held, "lock.fields", fr, cs.Instr, "the retired numbers are changed with the lock held")
	}
	t := typeAt(p)
	ns := symVal(t, fresh("heap")).(*Slice)
	if cs.Name == "container/heap.Push" {
		ns.Len = mkInt(pAdd(s.Len.P, pOne), 64, true)
		st.store(p, ns)
		var x *Poly
		if i, ok := cs.Args[1].(*Iface); ok {
			x = polyOf(i.V)
		} else {
			x = polyOf(cs.Args[1])
		}
		if len(g.took) == 0 || g.ret > 0 || x == nil {
			k.viol("retire", fr, cs.Instr, "a number is retired that this call does not own")
			return ret1(st, Tuple{}), true
		}
		k.chk(st.eq(x, g.took[len(g.took)-1][0]), "retire", fr, cs.Instr, "the number retired is the one this call has used")
		st.upd(func(g *keyG) { g.ret++ })
		return ret1(st, Tuple{}), true
	}
	min := st.sliceGet(s, pZero)
	ns.Len = mkInt(pSub(s.Len.P, pOne), 64, true)
	st.store(p, ns)
	if g.pop != nil {
		k.viol("retire", fr, cs.Instr, "a retired number was removed without being accounted for")
	}
	if p := polyOf(min); p != nil {
		// only numbers that were taken are pushed
		st.assume(bGE0(pSub(pSub(k.m.cell(st, k.m.seq), pOne), p)), true)
	}
	st.upd(func(g *keyG) { g.pop = polyOf(min) })
	return ret1(st, &Iface{T: s.Elem, V: min}), true
}

// ---- running an entry point

type keyConf struct{ H, D uint64 }

var keyConfs = []keyConf{{10, 1}, {40, 2}}

func (m *keyModel) start(name string, c keyConf) (*keyRun, *State) {
	k := &keyRun{m: m, name: name, h: c.H / c.D, H: c.H, D: c.D}
	in := newInterp(m.p)
	in.Merge = true
	st := m.base.clone()
	m.p.setX4(st, false)
	st, ctx := m.r.newContext(in, st, Params{0, 32, int64(c.H), int64(c.D), 16, 0})
	if st == nil {
		panic(abortAll{"context rejected"})
	}
	st.user["key"] = &keyG{}
	st.user["ctx"] = ctx
	st.ev = nil
	k.interp()
	return k, st
}

// a key other goroutines can use
func (k *keyRun) sharedKey(st *State) *Ptr {
	o := newObj("sk", k.m.T)
	a := symVal(k.m.T, fresh("sk")).(*Agg)
	st.heap[o] = a
	for i := 0; i < k.m.S.NumFields(); i++ {
		f := k.m.S.Field(i)
		if isNamed(f.Type(), m_pkg(k), "Context") {
			st.store(&Ptr{o, []PE{{F: i}}}, k.ctx(st))
		}
	}
	c := newObj("container", types.NewStruct(nil, nil))
	st.store(&Ptr{o, []PE{{F: k.m.ctr}}}, &Iface{T: fakeType("container"), V: &Ptr{Obj: c}})
	st.upd(func(g *keyG) { g.obj = o; g.shared = true })
	k.havoc(st)
	return &Ptr{Obj: o}
}

func (k *keyRun) args(st *State, fn *ssa.Function, recv Val) []Val {
	var as []Val
	for i, p := range fn.Params {
		if i == 0 && fn.Signature.Recv() != nil {
			as = append(as, recv)
			continue
		}
		switch {
		case types.Identical(p.Type(), k.m.ctrT):
			c := newObj("container", types.NewStruct(nil, nil))
			as = append(as, &Iface{T: fakeType("container"), V: &Ptr{Obj: c}})
		default:
			as = append(as, symVal(p.Type(), mkTerm("sym", "arg_"+p.Name(), 0, 0, 0, false)))
		}
	}
	return as
}

// the error a path reports: 1 nil, -1 an error, 0 unknown
func (k *keyRun) retErr(o Outcome, fn *ssa.Function) int {
	i := errIdx(fn.Signature)
	if i < 0 {
		return 1
	}
	v := o.Ret
	if t, ok := v.(Tuple); ok {
		v = t[i]
	}
	return o.St.facts.decide(o.St.eqVal(v, NilV{}))
}

func (m *keyModel) methods() []*ssa.Function {
	var r []*ssa.Function
	ms := types.NewMethodSet(types.NewPointer(m.T))
	for i := 0; i < ms.Len(); i++ {
		f, ok := ms.At(i).Obj().(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		if sf := m.p.SSA.FuncValue(f); sf != nil && sf.Blocks != nil {
			r = append(r, sf)
		}
	}
	for f := range m.rec {
		if m.rel[f] && f.Signature.Recv() != nil && types.Identical(f.Signature.Recv().Type(), types.NewPointer(m.T)) {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// One path of an entry point.
type keyPath struct {
	k    *keyRun
	fn   *ssa.Function
	args []Val
	o    Outcome
	ctor bool // makes a key, instead of being a method of one
}

type keyJob struct {
	c    keyConf
	fn   *ssa.Function
	ctor bool
}

// Runs all exported methods on a shared key, and all functions that make
// keys, and calls f for every path that returns.
func (m *keyModel) all(f func(p keyPath)) {
	m.some(func(keyJob) bool { return true }, f)
}

func (m *keyModel) some(sel func(j keyJob) bool, f func(p keyPath)) {
	confs := keyConfs
	if m.r.Tier == "thorough" {
		confs = append(confs[:len(confs):len(confs)], keyConf{60, 3}, keyConf{20, 4})
	}
	var jobs []keyJob
	for _, c := range confs {
		for _, fn := range m.methods() {
			jobs = append(jobs, keyJob{c, fn, false})
		}
		cs := m.ctors()
		if len(cs) < 3 {
			m.r.undec("paths", "constructors", "", "only %d functions that make keys", len(cs))
		}
		for _, fn := range cs {
			jobs = append(jobs, keyJob{c, fn, true})
		}
	}
	var js []keyJob
	for _, j := range jobs {
		if sel(j) {
			js = append(js, j)
		}
	}
	m.r.each(len(js), func(i int) int {
		n := m.reach(js[i].fn)
		return n * n * int(js[i].c.D)
	}, func(i int) { m.job(js[i], f) })
}

func (m *keyModel) reach(fn *ssa.Function) int {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || !m.rel[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				if ci, ok := x.(ssa.CallInstruction); ok {
					walk(ci.Common().StaticCallee())
				}
			}
		}
	}
	walk(fn)
	return len(seen) + 1
}

func (m *keyModel) job(j keyJob, f func(p keyPath)) {
	fn := j.fn
	k, st := m.start(fnName(fn), j.c)
	var args []Val
	if j.ctor {
		args = k.args(st, fn, k.ctx(st))
		for _, a := range args {
			if s, ok := a.(*Slice); ok {
				st.assume(bGE0(pSub(pConstI(1<<32), s.Len.P)), true)
			}
		}
		k.extra = k.newKeyHook
	} else {
		k.dangerous = fn.Name() == "DangerousSetSeqNo"
		args = k.args(st, fn, k.sharedKey(st))
	}
	t0 := time.Now()
	outs := k.in.Exec(st, nil, fn, args, nil, nil)
	dbg("%s H=%d D=%d: %d paths, %v", fnName(fn), j.c.H, j.c.D, len(outs), time.Since(t0))
	n := 0
	for _, o := range outs {
		if o.Panic {
			continue
		}
		n++
		if !j.ctor {
			k.chk(!kg(o.St).held, "lock.balance", nil, nil, "the lock is released on every path")
		}
		f(keyPath{k, fn, args, o, j.ctor})
	}
	if n == 0 {
		m.r.undec("paths", fnName(fn), "", "no path returns")
	}
	for _, u := range k.in.undec {
		m.r.undec("paths", fnName(fn), "", "%s", u)
	}
	m.r.seen(k.in)
}

// Functions that make keys.
func (m *keyModel) ctors() (r []*ssa.Function) {
	for _, fn := range m.p.repoFuncs() {
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || !m.rel[fn] || fn.Pkg != m.p.Main || fn.Name() == "init" {
			continue
		}
		if rc := fn.Signature.Recv(); rc != nil && !isNamed(rc.Type(), m.p.Main.Pkg.Path(), "Context") {
			continue
		}
		r = append(r, fn)
	}
	return
}

func (k *keyRun) String() string { return fmt.Sprintf("%s H=%d D=%d", k.name, k.H, k.D) }

func dbg(f string, a ...interface{}) {
	if os.Getenv("CHK_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
