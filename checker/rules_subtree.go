package main

// S07: only complete and checked subtrees are used.

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S07", "Path-sensitive typestate analysis of the function that provides subtrees, with the contents of the cache as value graphs: a subtree is announced as ready and checked only "+
		"if its buffer holds every node, the signature of its root and the checksum over both, or contents that match their checksum; whoever claims a subtree gives it up again on every path; "+
		"waiting goroutines are woken; all positions symbolic, the lock forgets what others may change, nested subtrees fail in every way.", s07)
}

// state of the analysis of one call
type subG struct {
	key    Val // the subtree asked for
	buf    *Slice
	owned  bool
	done   bool // announced by this call
	wake   bool // waiting goroutines have to be woken
	woken  bool
	seen   []*Term // conditions under which it was ready and checked while the lock was held
	other  bool
	placed bool
}

func sg(st *State) *subG { return st.user["sub"].(*subG) }
func (st *State) subUpd(f func(g *subG)) {
	n := *sg(st)
	n.seen = n.seen[:len(n.seen):len(n.seen)]
	f(&n)
	st.user["sub"] = &n
}

type subRun struct {
	k              *keyRun
	r              *Rep
	sp             *Spec
	th             int
	layer          int64
	tree           *Poly
	tag            *Term
	ready, checked int // fields with the tables
	cut            func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool)
	name           string
}

func (s *subRun) chk(c bool, rule string, fr *Frame, instr ssa.Instruction, f string, a ...interface{}) {
	where := s.name
	if fr != nil {
		where = fnName(fr.Fn) + " " + s.name
	}
	if c {
		s.r.ok(rule, where, f, a...)
	} else {
		s.r.viol(rule, where, s.r.P.ipos(instr), "not so: "+f, a...)
	}
}

// The field with the table whose size a getter returns.
func (m *keyModel) readyField() int {
	fn := m.p.needFn("PrivateKey.CachedSubTrees")
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			if c, ok := x.(*ssa.Call); ok {
				if bt, ok := c.Call.Value.(*ssa.Builtin); ok && bt.Name() == "len" {
					if i, _, ok := m.loadedFrom(c.Call.Args[0]); ok {
						return i
					}
				}
			}
		}
	}
	return -1
}

func (s *subRun) table(st *State, field int) Val {
	return st.load(&Ptr{kg(st).obj, []PE{{F: field}}})
}

// the entry for the subtree in a table
func (s *subRun) entry(st *State, field int, key Val) (val, has *Term) {
	et := s.k.m.S.Field(field).Type().Underlying().(*types.Map).Elem()
	v, h := st.mapLookup(s.table(st, field), key, et)
	return asBool(v), h
}

// contents of a complete subtree
func (s *subRun) want() []*Term {
	n := s.sp.n
	var out []*Term
	for h := 0; h <= s.th; h++ {
		for i := 0; i < 1<<uint(s.th-h); i++ {
			out = append(out, uiNode(s.tag, s.layer, s.tree, int64(h), int64(i), n)...)
		}
	}
	if s.layer != s.sp.pa.D-1 {
		l1, l2, _ := s.sp.wotsLens()
		root := uiNode(s.tag, s.layer, s.tree, int64(s.th), 0, n)
		a := layerAddr(s.layer+1, pExt(s.tree, s.th, 64-s.th), 0)
		out = append(out, uiWotsSig(s.tag, withWord(a, 4, pExt(s.tree, 0, s.th)), root, (l1+l2)*n)...)
	}
	return out
}

func xxh(bs []*Term) *Term {
	return mkInt(pAtom(mkTerm("val", "", 0, 0, 64, false, opaqueT("xxhash", "", 0, opaqueT("bytes", "", 0, bs...)))), 64, false)
}

// Is the buffer complete, or does it match its checksum?
func (s *subRun) complete(st *State) (string, bool) {
	g := sg(st)
	if g.buf == nil {
		return "its buffer is not known", false
	}
	b := newResolver(st.facts).bytes(st.bytesOf(g.buf))
	n := len(b) - 8
	sum, want := beNum(b[n:]), xxh(b[:n])
	if st.facts.decide(bEQ0(pSub(sum, want.P))) != 1 {
		return "the checksum stored is not that of its contents", false
	}
	if !g.owned {
		return "", true
	}
	w := s.want()
	if k, ok := sameBytes(b[:len(w)], w); !ok {
		return "it was claimed to be generated, but " + describe(b[:len(w)], w, k), false
	}
	return "", true
}

func (s *subRun) isKey(st *State, key Val) int { return st.facts.decide(st.eqVal(key, sg(st).key)) }

// a table is about to be changed
func (s *subRun) update(st *State, fr *Frame, instr ssa.Instruction, mp, key, v Val, del bool) {
	field := -1
	x, ok := mp.(*MapV)
	if !ok {
		return
	}
	for _, i := range s.k.m.maps {
		if mv, ok := s.table(st, i).(*MapV); ok && mv.Obj == x.Obj {
			field = i
		}
	}
	if field < 0 {
		return
	}
	if s.isKey(st, key) != 1 {
		s.chk(false, "ready.own", fr, instr, "only the state of the subtree asked for is changed")
		return
	}
	g := sg(st)
	rv, rh := s.entry(st, s.ready, key)
	cv, _ := s.entry(st, s.checked, key)
	dec := func(t *Term) int { return st.facts.decide(t) }
	val := 0
	if !del {
		val = dec(asBool(v))
		if val == 0 {
			s.chk(false, "ready.complete", fr, instr, "the state of a subtree is not known")
			return
		}
	}
	if field == s.ready {
		switch {
		case del:
			s.chk(g.owned, "ready.own", fr, instr, "a subtree is only given up by who claimed it")
			st.subUpd(func(g *subG) { g.owned, g.wake, g.woken = false, true, false })
		case val == -1:
			// claimed: it does not exist, or it is known to be corrupt
			free := dec(rh) == -1
			corrupt := dec(rh) == 1 && dec(rv) == 1 && dec(cv) == -1 && s.mismatch(st)
			s.chk(!g.owned && (free || corrupt), "ready.own", fr, instr, "a subtree is only claimed if it is not there, or fails its check; never while another goroutine fills it")
			st.subUpd(func(g *subG) { g.owned, g.placed = true, true })
		default:
			why, ok := s.complete(st)
			s.chk(g.owned && ok, "ready.complete", fr, instr, "a subtree is announced only by who filled it, once its nodes, the signature of its root and the checksum are in place: %s", why)
			st.subUpd(func(g *subG) { g.owned, g.done, g.wake, g.woken = false, true, true, false })
		}
		return
	}
	if del || val == -1 {
		s.chk(g.owned || g.wake, "ready.own", fr, instr, "the mark of a check is only removed by who claimed the subtree")
		return
	}
	if g.owned || g.done {
		return // not ready yet, or announced already
	}
	if dec(rh) == -1 || dec(rh) == 1 && dec(rv) == -1 {
		// becomes the owner's
		s.chk(dec(rh) == -1, "ready.own", fr, instr, "the state of a subtree another goroutine fills is not changed")
		return
	}
	why, ok := s.complete(st)
	s.chk(ok, "ready.complete", fr, instr, "a subtree is marked as checked only if its checksum matches: %s", why)
	st.subUpd(func(g *subG) { g.done = g.done || ok })
}

// the contents are known not to match the checksum
func (s *subRun) mismatch(st *State) bool {
	g := sg(st)
	if g.buf == nil {
		return false
	}
	b := st.bytesOf(g.buf)
	n := len(b) - 8
	return st.facts.decide(bEQ0(pSub(beNum(b[n:]), xxh(b[:n]).P))) == -1
}

func (s *subRun) hook(st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
	k := s.k
	in := k.in
	if k.isCtrCall(cs) {
		if cs.Method != "GetSubTree" {
			return nil, false
		}
		outs := k.ctrCall(st, fr, cs)
		for i := range outs {
			o := &outs[i]
			t, ok := o.Ret.(Tuple)
			if !ok || len(t) != 3 || errNil(o.St, t[2]) != 1 {
				continue
			}
			if s.isKey(o.St, cs.Args[1]) != 1 {
				s.chk(false, "ready.own", fr, cs.Instr, "only the subtree asked for is taken from the container")
				continue
			}
			m := &ctrModel{r: s.r, pa: s.sp.pa}
			b := symBytes(o.St, freshName("slot"), m.cached())
			t = append(Tuple{}, t...)
			t[0] = b
			o.Ret = t
			o.St.subUpd(func(g *subG) {
				if g.owned {
					g.other = true
				}
				g.buf = b
			})
			// what is in the tables is in the container
			_, h := s.entry(o.St, s.ready, cs.Args[1])
			if ex := asBool(t[1]); ex != nil {
				st3 := o.St
				st3.assume(bOr(bNot(h), ex), true)
			}
		}
		return outs, true
	}
	switch cs.Name {
	case "github.com/cespare/xxhash.Sum64":
		if b := asSlice(cs.Args[0]); b != nil {
			return ret1(st, xxh(newResolver(st.facts).bytes(st.bytesOf(b)))), true
		}
		return nil, false
	case "(*sync.Cond).Broadcast":
		st.subUpd(func(g *subG) { g.woken = true })
		return nil, false
	case "(*sync.Cond).Wait":
		s.blocking(st, fr, cs)
		return nil, false
	case "(*sync.Mutex).Unlock":
		if k.isMux(st, cs.Args[0]) {
			s.section(st)
		}
		return nil, false
	}
	if cs.Fn == nil || !k.m.p.inRepo(cs.Fn) {
		return nil, false
	}
	if k.m.rec[cs.Fn] && k.m.rel[cs.Fn] {
		s.blocking(st, fr, cs)
		if fr != nil && len(cs.Args) > 0 {
			// the same subtree again: it must not be claimed by this call
			for _, a := range cs.Args {
				if ag, ok := a.(*Agg); ok && isNamed(ag.T, m_pkg(k), "SubTreeAddress") && s.isKey(st, ag) != -1 {
					s.chk(!sg(st).owned, "ready.wait", fr, cs.Instr, "a goroutine does not wait for a subtree it fills itself")
					if s.isKey(st, ag) == 1 {
						outs := k.recCall(st, fr, cs)
						for i := range outs {
							o := &outs[i]
							if t, ok := o.Ret.(Tuple); ok && errNil(o.St, t[len(t)-1]) == 1 {
								o.St.subUpd(func(g *subG) { g.seen = append(g.seen, tTrue) })
							}
						}
						return outs, true
					}
				}
			}
		}
		return nil, false
	}
	if os, ok := s.cut(in, st, fr, cs); ok {
		return os, true
	}
	if !k.m.rel[cs.Fn] && !k.m.hash[cs.Fn] && cs.Fn.Blocks != nil && !fr.onStack(cs.Fn) {
		return in.Exec(st, fr, cs.Fn, cs.Args, cs.Bind, cs.Instr), true
	}
	return nil, false
}

// a critical section ends
func (s *subRun) section(st *State) {
	rv, rh := s.entry(st, s.ready, sg(st).key)
	cv, _ := s.entry(st, s.checked, sg(st).key)
	st.subUpd(func(g *subG) { g.seen = append(g.seen, bAnd(bAnd(rh, rv), cv)) })
}

// the goroutine may wait for others
func (s *subRun) blocking(st *State, fr *Frame, cs *CallSite) {
	g := sg(st)
	s.chk(!g.wake || g.woken, "ready.wake", fr, cs.Instr, "waiting goroutines are woken when the state of a subtree has changed")
	if cs.Name == "(*sync.Cond).Wait" {
		s.chk(!g.owned, "ready.wait", fr, cs.Instr, "a goroutine that fills a subtree does not wait for others")
		rv, rh := s.entry(st, s.ready, g.key)
		s.chk(st.facts.decide(bAnd(rh, bNot(rv))) == 1, "ready.wait", fr, cs.Instr, "a goroutine waits only for a subtree that another one is filling %s", pcString(st))
		s.section(st)
	}
}

func (r *Rep) subTreeRule(m *keyModel, fn *ssa.Function, c keyConf, layer int64) {
	ready := m.readyField()
	if ready < 0 || len(m.maps) != 2 {
		r.undec("ready.complete", fnName(fn), "", "the tables of subtrees were not found")
		return
	}
	checked := m.maps[0]
	if checked == ready {
		checked = m.maps[1]
	}
	k, st := m.start(fnName(fn), c)
	k.in.Merge = false
	k.in.MaxUnroll = 32
	pa := Params{0, 32, int64(c.H), int64(c.D), 16, 0}
	s := &subRun{k: k, r: r, sp: newSpec(pa), th: int(c.H / c.D), layer: layer, ready: ready, checked: checked,
		name: fmt.Sprintf("H=%d D=%d layer %d", c.H, c.D, layer)}
	l1, l2, _ := s.sp.wotsLens()
	s.cut = chain(cutWotsSign(r, (l1+l2)*s.sp.n), cutSubTree(r, s.sp.n, s.th))
	recv := k.sharedKey(st)
	s.tag = opaqueT("ph", "", 0)
	for i := 0; i < m.S.NumFields(); i++ {
		if m.p.isHashes(m.S.Field(i).Type()) {
			p := &Ptr{recv.Obj, []PE{{F: i}}}
			if a, ok := st.load(p).(*Agg); ok {
				n := *a
				n.Tag = s.tag
				st.store(p, &n)
			}
		}
	}
	args := k.args(st, fn, recv)
	t := m.p.namedType("SubTreeAddress")
	sta, _, tr := r.symSTA(st)
	key := &Agg{T: t, N: sta.N}
	key.el.set(fieldIdx(t, "Layer"), intC(layer, 32, false))
	key.el.set(fieldIdx(t, "Tree"), tr)
	freeze(key)
	s.tree = tr.P
	has := false
	for i, p := range fn.Params {
		if types.Identical(p.Type(), t) {
			args[i] = key
			has = true
		}
	}
	if !has {
		r.undec("ready.complete", fnName(fn), "", "the function that provides subtrees was not recognised")
		return
	}
	st.user["sub"] = &subG{key: key}
	k.extra = s.hook
	old := k.in.H.MapUpdate
	k.in.H.MapUpdate = func(in *Interp, st *State, fr *Frame, instr ssa.Instruction, mp, key, v Val, del bool) {
		if old != nil {
			old(in, st, fr, instr, mp, key, v, del)
		}
		s.update(st, fr, instr, mp, key, v, del)
	}
	oldHead, oldBack := k.in.H.LoopHead, k.in.H.LoopBack
	k.in.H.LoopHead = func(in *Interp, entry, head *State, fr *Frame, h *ssa.BasicBlock) {
		if oldHead != nil {
			oldHead(in, entry, head, fr, h)
		}
		head.subUpd(func(g *subG) { g.buf = nil })
	}
	k.in.H.LoopBack = func(in *Interp, head, back *State, fr *Frame, h *ssa.BasicBlock) {
		if oldBack != nil {
			oldBack(in, head, back, fr, h)
		}
		a, b := sg(head), sg(back)
		s.chk(a.owned == b.owned && a.done == b.done && a.wake == b.wake && a.woken == b.woken, "ready.own", fr, h.Instrs[0], "waiting for a subtree does not change its state")
	}
	n, okN, errN := 0, 0, 0
	for _, o := range k.in.Exec(st, nil, fn, args, nil, nil) {
		if o.Panic {
			continue
		}
		n++
		g := sg(o.St)
		s.chk(!g.owned, "ready.own", nil, nil, "a subtree that was claimed is announced or given up when the call ends, also if it fails")
		s.chk(!g.wake || g.woken, "ready.wake", nil, nil, "waiting goroutines are woken when the state of a subtree has changed")
		s.chk(!kg(o.St).held, "ready.wait", nil, nil, "the lock is released")
		e := k.retErr(o, fn)
		if len(kg(o.St).failed) > 0 || s.recFailed(o) {
			s.chk(e == -1, "ready.error", nil, nil, "if the container or another subtree fails, an error is returned")
		}
		if e != 1 {
			errN++
			continue
		}
		okN++
		use := g.done
		for _, c := range g.seen {
			use = use || o.St.facts.decide(c) == 1
		}
		s.chk(use, "ready.use", nil, nil, "a subtree is only used if it was ready and checked while the lock was held, or has been filled or checked by this call %s", pcString(o.St))
		s.result(fn, o)
	}
	s.chk(okN >= 3 && errN >= 1, "ready.use", nil, nil, "paths that use a cached subtree, check one, and fill one were analysed")
	for _, u := range k.in.undec {
		r.undec("paths", fnName(fn), "", "%s", u)
	}
	dbg("%s %s: %d paths", fnName(fn), s.name, n)
	r.seen(k.in)
}

func (s *subRun) recFailed(o Outcome) bool {
	for _, e := range o.St.trace() {
		if e.Kind == "rec" && e.X == true {
			return true
		}
	}
	return false
}

// what is returned is inside the buffer of the subtree
func (s *subRun) result(fn *ssa.Function, o Outcome) {
	g := sg(o.St)
	t, ok := o.Ret.(Tuple)
	if !ok || g.buf == nil {
		return
	}
	for _, e := range o.St.trace() {
		if e.Kind == "rec" && e.Name == fnName(fn) && len(e.Args) > 0 {
			for _, a := range e.Args {
				if ag, ok := a.(*Agg); ok && isNamed(ag.T, m_pkg(s.k), "SubTreeAddress") && s.isKey(o.St, ag) == 1 {
					return // from the call for the same subtree
				}
			}
		}
	}
	l1, l2, _ := s.sp.wotsLens()
	bare := int64(1<<uint(s.th+1)-1) * int64(s.sp.n)
	for _, v := range t {
		var b *Slice
		off, ln := int64(0), int64(0)
		switch x := v.(type) {
		case *Slice:
			b, off, ln = x, bare, int64((l1+l2)*s.sp.n)
		case *Ptr:
			a, ok := o.St.load(x).(*Agg)
			if !ok {
				continue
			}
			for i := 0; i < a.N; i++ {
				if sl := asSlice(a.get(o.St, pConstI(int64(i)))); sl != nil {
					b, off, ln = sl, 0, bare
				}
			}
		}
		if b == nil {
			continue
		}
		same := b.Obj == g.buf.Obj && o.St.eq(b.Off.P, pAdd(g.buf.Off.P, pConstI(off))) && o.St.eq(b.Len.P, pConstI(ln))
		s.chk(same, "ready.use", nil, nil, "what is returned is the tree and the signature in the buffer of the subtree")
	}
}

func s07(r *Rep) {
	r.rule("ready.complete", "a subtree is announced, or marked as checked, only if its contents are complete or match their checksum", 6)
	r.rule("ready.own", "a subtree is filled by one goroutine at a time, which announces it or gives it up", 6)
	r.rule("ready.use", "a subtree is only used once it is ready and checked", 6)
	r.rule("ready.wake", "waiting goroutines are woken whenever the state of a subtree has changed", 6)
	r.rule("ready.wait", "a goroutine never waits for a subtree it has to fill itself", 4)
	r.rule("ready.error", "failures are reported", 4)
	r.rule("ready.load", "cached subtrees of a loaded key are unchecked", 1)
	r.rule("ready.direct", "the cache is only used by the function that checks", 1)
	m := newKeyModel(r)
	confs := []keyConf{{2, 1}, {4, 2}, {6, 3}}
	if r.Tier != "quick" {
		confs = append(confs, keyConf{8, 4}, keyConf{5, 5}, keyConf{8, 2}, keyConf{12, 3})
	}
	type job struct {
		fn *ssa.Function
		c  keyConf
		l  int64
	}
	var jobs []job
	var fns []*ssa.Function
	for f := range m.rec {
		if m.rel[f] && m.getsSubTree(f) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	if len(fns) != 1 {
		r.undec("ready.complete", "PrivateKey", "", "%d functions that provide subtrees", len(fns))
		return
	}
	for _, c := range confs {
		for l := int64(0); l < int64(c.D); l++ {
			jobs = append(jobs, job{fns[0], c, l})
		}
	}
	// how keys are made, and who else takes subtrees from the container
	var ctors []*ssa.Function
	for _, fn := range m.ctors() {
		ctors = append(ctors, fn)
	}
	n := len(jobs)
	r.each(n+len(ctors)+1, func(i int) int {
		if i < n {
			return 10 * int(jobs[i].c.D)
		}
		return 5
	}, func(i int) {
		switch {
		case i < n:
			r.subTreeRule(m, jobs[i].fn, jobs[i].c, jobs[i].l)
		case i < n+len(ctors):
			r.loadTables(m, ctors[i-n])
		default:
			r.directUse(m, fns[0])
		}
	})
	r.keep("ready")
}

func (m *keyModel) getsSubTree(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] || !m.p.inRepo(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				ci, ok := x.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if cc.IsInvoke() && types.Identical(cc.Value.Type(), m.ctrT) && cc.Method.Name() == "GetSubTree" {
					return true
				}
				if walk(cc.StaticCallee()) {
					return true
				}
			}
		}
		return false
	}
	return walk(f)
}

// Every call of GetSubTree of the container is made on behalf of fn.
func (r *Rep) directUse(m *keyModel, fn *ssa.Function) {
	from := map[*ssa.Function]bool{fn: true}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range m.p.repoFuncs() {
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				if ci, ok := x.(ssa.CallInstruction); ok {
					if c := ci.Common().StaticCallee(); c != nil {
						callers[c] = append(callers[c], f)
					}
				}
				if mc, ok := x.(*ssa.MakeClosure); ok {
					callers[mc.Fn.(*ssa.Function)] = append(callers[mc.Fn.(*ssa.Function)], f)
				}
			}
		}
	}
	var inside func(f *ssa.Function, d int) bool
	inside = func(f *ssa.Function, d int) bool {
		if from[f] {
			return true
		}
		if d > 20 || len(callers[f]) == 0 || f.Object() != nil && f.Object().Exported() {
			return false
		}
		for _, c := range callers[f] {
			if c != f && !inside(c, d+1) {
				return false
			}
		}
		return true
	}
	for _, f := range m.p.repoFuncs() {
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				ci, ok := x.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if cc.IsInvoke() && types.Identical(cc.Value.Type(), m.ctrT) && cc.Method.Name() == "GetSubTree" {
					r.check(inside(f, 0), "ready.direct", fnName(f), m.p.ipos(x), "subtrees are only taken from the container by the function that checks them")
				}
			}
		}
	}
}

// The tables of a new key: nothing the container has listed is checked.
func (r *Rep) loadTables(m *keyModel, fn *ssa.Function) {
	ready := m.readyField()
	for _, c := range []keyConf{{4, 2}} {
		k, st := m.start(fnName(fn), c)
		k.in.Merge = false
		k.in.MaxUnroll = 16
		args := k.args(st, fn, k.ctx(st))
		for _, a := range args {
			if s, ok := a.(*Slice); ok {
				st.assume(bGE0(pSub(pConstI(1<<32), s.Len.P)), true)
			}
		}
		k.extra = k.newKeyHook
		old := k.in.H.MapUpdate
		k.in.H.MapUpdate = func(in *Interp, st *State, fr *Frame, instr ssa.Instruction, mp, key, v Val, del bool) {
			if old != nil {
				old(in, st, fr, instr, mp, key, v, del)
			}
			mt, ok := instr.(*ssa.MapUpdate)
			if !ok || del {
				return
			}
			i, _, ok := m.loadedFrom(mt.Map)
			if !ok || !types.Identical(mt.Key.Type(), m.p.namedType("SubTreeAddress")) {
				return
			}
			if i == ready {
				r.ok("ready.load", fnName(fr.Fn), "subtrees found in the container are entered as ready, but to be checked")
				return
			}
			if kg(st).shared {
				return
			}
			if b := asBool(v); b != nil {
				r.check(st.facts.decide(b) == -1, "ready.load", fnName(fr.Fn), m.p.ipos(instr), "subtrees found in the container are not marked as checked when a key is made")
			}
		}
		k.in.Exec(st, nil, fn, args, nil, nil)
		r.seen(k.in)
	}
}
