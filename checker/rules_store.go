package main

// The container backed by files: replacing the key file (S02), errors (S03),
// locking (S04), cache slots (S10), damaged caches (S11), reopening (E04),
// counting (B01).

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	how := "Path-sensitive typestate analysis of the container against a model of the file system in which every operation may fail: "
	register("S02", how+"writing, syncing, renaming and syncing the directory of the key file, and what is read back from the file.", func(r *Rep) { storeRules(r, "store") })
	register("S03", how+"every failed operation against what is reported.", func(r *Rep) { s03key(r); storeRules(r, "err") })
	register("S04", how+"who holds the lock, and what is open.", func(r *Rep) { s04key(r); storeRules(r, "lock") })
	register("S11", how+"caches and keys that are missing, cut off or anything else.", func(r *Rep) { s11key(r); storeRules(r, "damage") })
	register("B01", how+"the numbers a container keeps.", func(r *Rep) { b01key(r); storeRules(r, "count") })
	register("E04", how+"what is written is read back, byte by byte as value graphs.", func(r *Rep) { storeRules(r, "reopen") })
	register("S10", how+"slots of the cache as regions of the file, what is in them, and where they are found again.", func(r *Rep) { storeRules(r, "slot") })
}

// what a container says about itself
type ctrView struct {
	init   bool
	cache  bool
	params *Agg
	key    []*Term
	seq    *Poly
	lost   *Poly
}

func (m *fsModel) op(st *State, recv Val, name string, faults bool, args ...Val) []Outcome {
	fn := m.methods[name]
	if fn == nil {
		panic(abortAll{"container has no method " + name})
	}
	m.faults = faults
	if faults {
		st.fsUpd(func(g *fsG) {
			g.renamed, g.dirSync, g.failed, g.evs, g.flushed = false, false, nil, nil, nil
			g.tries, g.unlocks = 0, 0
		})
	}
	outs := m.in.Exec(st, nil, fn, append([]Val{recv}, args...), nil, nil)
	m.faults = false
	return outs
}

func (m *fsModel) openCtr(st *State, path string, faults bool) []Outcome {
	m.faults = faults
	if faults {
		st.fsUpd(func(g *fsG) {
			g.renamed, g.dirSync, g.failed, g.evs, g.flushed = false, false, nil, nil, nil
			g.tries, g.unlocks = 0, 0
		})
	}
	outs := m.in.Exec(st, nil, m.open, []Val{strAtom(path, "")}, nil, nil)
	m.faults = false
	return outs
}

func retErr(o Outcome, fn *ssa.Function) int {
	i := errIdx(fn.Signature)
	if i < 0 {
		return 1
	}
	v := o.Ret
	if t, ok := v.(Tuple); ok {
		v = t[i]
	}
	return errNil(o.St, v)
}

// the only outcome without an error
func (m *fsModel) good(what string, fn *ssa.Function, outs []Outcome) (Outcome, bool) {
	var r Outcome
	n := 0
	for _, o := range outs {
		if !o.Panic && retErr(o, fn) == 1 {
			r = o
			n++
		}
	}
	if n != 1 {
		m.r.undec("analysis", m.name, "", "%s: %d of %d outcomes are successful", what, n, len(outs))
		return r, false
	}
	return r, true
}

func (m *fsModel) mustOp(st *State, recv Val, name string, args ...Val) (Outcome, bool) {
	return m.good(name, m.methods[name], m.op(st, recv, name, false, args...))
}

func (m *fsModel) mustOpen(st *State) (*State, Val, bool) {
	o, ok := m.good("opening", m.open, m.openCtr(st, "path", false))
	if !ok {
		return nil, nil, false
	}
	return o.St, m.recv(o.Ret.(Tuple)[0]), true
}

func (m *fsModel) recv(v Val) Val {
	if i, ok := v.(*Iface); ok {
		return i.V
	}
	return v
}

func (m *fsModel) view(st *State, recv Val) (*ctrView, string) {
	s := st.clone()
	v := &ctrView{}
	one := func(name string) (Val, bool) {
		outs := m.op(s, recv, name, false)
		if len(outs) != 1 || outs[0].Panic {
			return nil, false
		}
		s = outs[0].St
		return outs[0].Ret, true
	}
	c, ok := one("CacheInitialized")
	if !ok || s.facts.decide(asBool(c)) == 0 {
		return nil, "whether the cache is initialised is not known"
	}
	v.cache = s.facts.decide(asBool(c)) == 1
	pv, ok := one("Initialized")
	if !ok || s.facts.decide(s.eqVal(pv, NilV{})) == 0 {
		return nil, "whether the container is initialised is not known"
	}
	if s.facts.decide(s.eqVal(pv, NilV{})) == 1 {
		return v, ""
	}
	v.init = true
	v.params, _ = s.deref(pv).(*Agg)
	sq, ok := one("GetSeqNo")
	if !ok || errNil(s, sq.(Tuple)[2]) != 1 {
		return nil, "the sequence number cannot be read"
	}
	v.seq, v.lost = polyOf(sq.(Tuple)[0]), polyOf(sq.(Tuple)[1])
	pk, ok := one("GetPrivateKey")
	if !ok || errNil(s, pk.(Tuple)[1]) != 1 || asSlice(pk.(Tuple)[0]) == nil {
		return nil, "the private key cannot be read"
	}
	bt := s.bytesTerm(asSlice(pk.(Tuple)[0]))
	if bt.Op != "bytes" || v.params == nil || v.seq == nil || v.lost == nil {
		return nil, "the private key is not known"
	}
	v.key = newResolver(s.facts).bytes(bt.Args)
	return v, ""
}

// differences between what two containers say
func (m *fsModel) diff(st *State, a, b *ctrView, cache bool) string {
	if a.init != b.init {
		return fmt.Sprintf("initialised: %v and %v", a.init, b.init)
	}
	if cache && a.cache != b.cache {
		return fmt.Sprintf("cache initialised: %v and %v", a.cache, b.cache)
	}
	if !a.init {
		return ""
	}
	if d := m.r.paramsDiff(st, a.params, b.params); d != "" {
		return d
	}
	if !st.eq(a.seq, b.seq) {
		return fmt.Sprintf("sequence numbers %s and %s", st.facts.norm(a.seq).str(4), st.facts.norm(b.seq).str(4))
	}
	if !st.eq(a.lost, b.lost) {
		return fmt.Sprintf("lost signatures %s and %s", st.facts.norm(a.lost).str(4), st.facts.norm(b.lost).str(4))
	}
	x, y := newResolver(st.facts).bytes(a.key), newResolver(st.facts).bytes(b.key)
	if k, ok := sameBytes(x, y); !ok {
		return "private key: " + describe(x, y, k)
	}
	return ""
}

// what is read from the disk after the container has been closed
func (m *fsModel) reopen(st *State, recv Val) (*State, Val, *ctrView, string) {
	s := st.clone()
	// closing is not what is analysed here
	q := m.r.quiet
	m.r.quiet = true
	defer func() { m.r.quiet = q }()
	var fin Outcome
	n := 0
	for _, o := range m.op(s, recv, "Close", false) {
		if !o.Panic {
			fin = o
			n++
		}
	}
	if n != 1 {
		return nil, nil, nil, "closing has no single outcome"
	}
	outs := m.openCtr(fin.St, "path", false)
	var st2 *State
	var rc Val
	var v *ctrView
	for _, o := range outs {
		if o.Panic || errNil(o.St, o.Ret.(Tuple)[1]) != 1 {
			return nil, nil, nil, "it cannot be opened again"
		}
		rc2 := m.recv(o.Ret.(Tuple)[0])
		v2, why := m.view(o.St, rc2)
		if v2 == nil {
			return nil, nil, nil, why
		}
		if v == nil {
			st2, rc, v = o.St, rc2, v2
		} else if d := m.diff(o.St, v2, v, true); d != "" {
			return nil, nil, nil, "opening again has different outcomes: " + d
		}
	}
	if v == nil {
		return nil, nil, nil, "opening again has no outcome"
	}
	return st2, rc, v, ""
}

// ---- scenarios

type storeConf struct {
	pa   Params
	page int64
}

func (m *fsModel) fresh(st *State) (*State, Val, bool) {
	st.fsUpd(func(g *fsG) {
		g.paths[m.P] = -1
		g.paths[m.cachePath()] = -1
	})
	return m.mustOpen(st)
}

func (m *fsModel) newKey(st *State, recv Val, name string, pa Params) (Outcome, []*Term, bool) {
	n := m.privSize(pa)
	b := symBytes(st, name, n)
	bs := st.bytesOf(b)
	o, ok := m.mustOp(st, recv, "Reset", b, m.p.paramsVal(st, pa))
	return o, bs, ok
}

func (m *fsModel) privSize(pa Params) int64 {
	st := newState()
	in := newInterp(m.p)
	t := m.p.needFn("Params.PrivateKeySize")
	var recv Val = m.p.paramsVal(st, pa)
	if _, ok := t.Signature.Recv().Type().(*types.Pointer); ok {
		o := newObj("params", m.p.namedType("Params"))
		st.heap[o] = recv
		recv = &Ptr{Obj: o}
	}
	_, v := exec1(in, st, t, recv)
	return st.intOf(v)
}

func (m *fsModel) size(pa Params) int64 {
	st := newState()
	in := newInterp(m.p)
	t := m.p.needFn("Params.CachedSubTreeSize")
	var recv Val = m.p.paramsVal(st, pa)
	if _, ok := t.Signature.Recv().Type().(*types.Pointer); ok {
		o := newObj("params", m.p.namedType("Params"))
		st.heap[o] = recv
		recv = &Ptr{Obj: o}
	}
	_, v := exec1(in, st, t, recv)
	return st.intOf(v)
}

// a container with a key whose numbers are arbitrary
func (m *fsModel) general(st *State, recv Val, pa Params) (*State, *ctrView, bool) {
	o, _, ok := m.newKey(st, recv, "oldkey", pa)
	if !ok {
		return nil, nil, false
	}
	s0 := symRange("seq0", 64, false, 0, 1<<60)
	b0 := symRange("lost0", 32, false, 0, 1<<30)
	o, ok = m.mustOp(o.St, recv, "SetSeqNo", s0)
	if !ok {
		return nil, nil, false
	}
	o, ok = m.mustOp(o.St, recv, "BorrowSeqNos", b0)
	if !ok {
		return nil, nil, false
	}
	v, why := m.view(o.St, recv)
	if v == nil {
		m.r.undec("analysis", m.name, "", "%s", why)
		return nil, nil, false
	}
	return o.St, v, true
}

func storeRules(r *Rep, keep string, also ...string) {
	rule := func(id, text string, min int) {
		if strings.HasPrefix(id, keep+".") && keep != "perm" {
			r.rule(id, text, min)
		}
	}
	rule("store.replace", "the key file is only ever replaced by a complete new file", 6)
	rule("store.sync", "the new file is synced before it replaces the old one", 2)
	rule("store.dir", "the directory is synced before success is reported", 3)
	rule("store.durable", "what is reported as stored is read back", 4)
	rule("store.crash", "at any time the file has the old or the new contents", 6)
	rule("reopen.key", "the key file that is written is read back, field by field", 4)
	rule("reopen.cache", "the cache that is written is read back", 3)
	rule("reopen.old", "existing files keep their meaning", 3)
	rule("slot.inside", "slots are inside the file and start where they may", 3)
	rule("slot.disjoint", "slots are disjoint", 3)
	rule("slot.clear", "a slot that is used again is cleared, and that is flushed, before it gets its new address", 2)
	rule("slot.table", "subtrees are found in their own slots", 4)
	rule("slot.reset", "the subtrees of the old key are gone before a new key is stored", 2)
	rule("err.report", "an operation that needed something that failed reports an error", 20)
	rule("err.view", "after a failed change of the numbers the container is as before", 2)
	rule("err.state", "what cannot be used reports errors", 8)
	rule("count.container", "borrowing and setting numbers add and subtract exactly", 6)
	rule("lock.first", "files are only touched by who holds the lock", 4)
	rule("lock.registry", "the table of open containers is only used with its lock, looking and marking are one step", 3)
	rule("lock.release", "the lock is released exactly once, on closing or if opening fails", 8)
	rule("lock.second", "a container that is open cannot be opened again", 2)
	rule("lock.closed", "a closed container does nothing", 8)
	rule("damage.cache", "a missing or short cache leaves the key usable", 6)
	rule("damage.key", "a key file that is not as it should be is refused", 3)
	rule("slot.fail", "failures do not mix up slots", 2)
	confs := []storeConf{{Params{0, 32, 4, 2, 256, 0}, 4096}, {Params{0, 32, 4, 2, 4, 0}, 4096}, {Params{0, 32, 4, 2, 256, 0}, 16384}, {Params{1, 64, 6, 2, 16, 1}, 65536}}
	type job struct {
		name string
		f    func(m *fsModel, st *State)
		c    storeConf
	}
	var jobs []job
	add := func(name, rules string, f func(m *fsModel, st *State), cs ...storeConf) {
		if !hasWord(rules, keep) {
			return
		}
		for _, c := range cs {
			jobs = append(jobs, job{name, f, c})
		}
	}
	add("storing a number", "store reopen err count perm", (*fsModel).scenSeq, confs[0], confs[3])
	add("storing a key", "store reopen slot err count perm", (*fsModel).scenReset, confs[0], confs[1])
	add("cache", "slot reopen perm", (*fsModel).scenCache, confs...)
	add("cache failures", "slot", (*fsModel).scenCacheFail, confs[0])
	add("many slots", "slot", (*fsModel).scenMany, confs[0], confs[1], confs[2], storeConf{Params{0, 16, 20, 1, 256, 0}, 4096}, storeConf{Params{1, 24, 10, 1, 4, 1}, 65536},
		storeConf{Params{2, 64, 10, 1, 16, 0}, 8192}, storeConf{Params{0, 32, 20, 2, 16, 0}, 4096}, storeConf{Params{0, 16, 26, 1, 256, 0}, 4096})
	add("existing files", "reopen", (*fsModel).scenOld, confs[0], confs[1], confs[3])
	add("using a container", "err lock", (*fsModel).scenErr, confs[0])
	add("opening", "err lock perm", (*fsModel).scenOpen, confs[0])
	add("closing", "err lock", (*fsModel).scenClose, confs[0])
	add("damaged caches", "damage", (*fsModel).scenDamage, confs[0], confs[2])
	add("damaged keys", "damage", (*fsModel).scenBadKey, confs[0], confs[3])
	r.each(len(jobs), func(i int) int { return 1 }, func(i int) {
		j := jobs[i]
		m, st := newFsModel(r, j.c.pa, j.c.page, fmt.Sprintf("%s (%v, pages of %d)", j.name, j.c.pa, j.c.page))
		j.f(m, st)
		for _, u := range m.in.undec {
			r.undec("analysis", m.name, "", "%s", u)
		}
		r.seen(m.in)
	})
	if strings.HasPrefix(keep, "lock") {
		r.keep("lock.first", "lock.registry", "lock.release", "lock.second", "lock.closed", "lock.owner")
	} else {
		r.keep(append(also, keep)...)
	}
}

func hasWord(s, w string) bool {
	for _, x := range strings.Fields(s) {
		if x == w {
			return true
		}
	}
	return false
}

// ---- S02, E04: numbers

// the state after an operation that stores something
func (m *fsModel) stored(name string, fn *ssa.Function, o Outcome, recv Val, old, want *ctrView) {
	e := retErr(o, fn)
	g := fs(o.St)
	_, _, v, why := m.reopen(o.St, recv)
	if v == nil {
		m.chk(false, "store.crash", nil, nil, "%s: the key file can be read at any time: %s %s", name, why, m.failing(o.St))
		return
	}
	d := m.diff(o.St, v, want, false)
	if e == 1 {
		m.chk(d == "", "store.durable", nil, nil, "%s: what was stored is read back: %s", name, d)
		m.chk(d == "", "reopen.key", nil, nil, "%s: what was stored is read back: %s", name, d)
		m.chk(!g.renamed || g.dirSync, "store.dir", nil, nil, "%s: the directory has been synced when success is reported", name)
	} else if e == 0 {
		m.r.undec("store.durable", m.name, "", "%s: whether it fails is not known", name)
	}
	if d != "" {
		d2 := m.diff(o.St, v, old, false)
		m.chk(d2 == "", "store.crash", nil, nil, "%s: the key file has the old or the new contents: %s; %s", name, d, d2)
		m.chk(e == -1, "store.durable", nil, nil, "%s: success is reported only if the new contents are stored", name)
	} else {
		m.chk(true, "store.crash", nil, nil, "%s: the key file has the old or the new contents: ", name)
	}
}

func (m *fsModel) failing(st *State) string {
	s := ""
	for _, e := range fs(st).failed {
		s += " [" + e.op + " fails]"
	}
	return s
}

func (m *fsModel) scenSeq(st *State) {
	st, recv, ok := m.fresh(st)
	if !ok {
		return
	}
	st, old, ok := m.general(st, recv, m.pa)
	if !ok {
		return
	}
	x := symRange("newseq", 64, false, 0, 1<<60)
	a := symRange("amount", 32, false, 0, 1<<30)
	set, bor := *old, *old
	set.seq, set.lost = x.P, pZero
	bor.seq, bor.lost = pAdd(old.seq, a.P), pAdd(old.lost, a.P)
	for _, c := range []struct {
		name string
		arg  Val
		want *ctrView
	}{{"SetSeqNo", x, &set}, {"BorrowSeqNos", a, &bor}} {
		n := 0
		for _, o := range m.op(st.clone(), recv, c.name, true, c.arg) {
			if o.Panic {
				m.chk(false, "store.durable", nil, nil, "%s does not panic", c.name)
				continue
			}
			n++
			m.stored(c.name, m.methods[c.name], o, recv, old, c.want)
			m.errRules(c.name, o, recv, old)
			m.counts(c.name, o, recv, old, c.want)
		}
		m.chk(n >= 8, "store.durable", nil, nil, "%s: the ways in which it may fail were analysed", c.name)
	}
}

func (m *fsModel) scenReset(st *State) {
	st, recv, ok := m.fresh(st)
	if !ok {
		return
	}
	none, _ := m.view(st, recv)
	pa2 := m.pa
	pa2.H, pa2.D, pa2.Func = 6, 3, 1
	run := func(name string, st *State, old *ctrView) {
		b := symBytes(st, "newkey", m.privSize(pa2))
		want := &ctrView{init: true, params: m.p.paramsVal(st, pa2), key: st.bytesOf(b), seq: pZero, lost: pZero}
		st.user["reset"] = true
		n := 0
		for _, o := range m.op(st, recv, "Reset", true, b, m.p.paramsVal(st, pa2)) {
			if o.Panic {
				m.chk(false, "store.durable", nil, nil, "%s does not panic", name)
				continue
			}
			n++
			delete(o.St.user, "reset")
			m.stored(name, m.methods["Reset"], o, recv, old, want)
			m.errRules("Reset", o, recv, nil)
			m.counts("Reset", o, recv, nil, want)
			if retErr(o, m.methods["Reset"]) == 1 {
				v, why := m.view(o.St, recv)
				m.chk(v != nil && m.diff(o.St, v, want, false) == "" && v.cache, "store.durable", nil, nil, "%s: the container has the new key, and a cache: %s", name, why)
				m.chk(m.list(o.St, recv, 0), "slot.reset", nil, nil, "%s: the cache of a new key is empty", name)
				_, rc, v2, why := m.reopen(o.St, recv)
				_ = rc
				m.chk(v2 != nil && v2.cache, "reopen.cache", nil, nil, "%s: the new cache is found again: %s", name, why)
			}
		}
		m.chk(n >= 8, "store.durable", nil, nil, "%s: the ways in which it may fail were analysed", name)
	}
	run("Reset of a new container", st.clone(), none)
	st2, old, ok := m.general(st.clone(), recv, m.pa)
	if !ok {
		return
	}
	o, ok := m.mustOp(st2, recv, "GetSubTree", m.sta(st2, "a0"))
	if !ok {
		return
	}
	run("Reset of a container in use", o.St, old)
}

// does the container list exactly n subtrees?
func (m *fsModel) list(st *State, recv Val, n int64) bool {
	s := st.clone()
	outs := m.op(s, recv, "ListSubTrees", false)
	if len(outs) != 1 || outs[0].Panic || retErr(outs[0], m.methods["ListSubTrees"]) != 1 {
		return false
	}
	l := asSlice(outs[0].Ret.(Tuple)[0])
	if l == nil {
		_, isnil := outs[0].Ret.(Tuple)[0].(NilV)
		return isnil && n == 0
	}
	k, ok := outs[0].St.facts.norm(l.Len.P).constI()
	return ok && k == n
}

func (m *fsModel) sta(st *State, name string) *Agg {
	t := m.p.namedType("SubTreeAddress")
	a := &Agg{T: t, N: t.Underlying().(*types.Struct).NumFields()}
	for i := 0; i < a.N; i++ {
		ft := a.elemType(i)
		w, sg, _ := basicInfo(ft)
		a.el.set(i, symInt(fmt.Sprintf("%s.%d", name, i), w, sg))
	}
	freeze(a)
	return a
}

// ---- S10: slots

type slot struct {
	addr *Agg
	s    *Slice
	data []*Term
}

// keyed: a container with a new key and an empty cache
func (m *fsModel) keyed(st *State) (*State, Val, bool) {
	st, recv, ok := m.fresh(st)
	if !ok {
		return nil, nil, false
	}
	o, _, ok := m.newKey(st, recv, "key", m.pa)
	return o.St, recv, ok
}

// addresses that are different from each other
func (m *fsModel) addrs(st *State, names ...string) (r []*Agg) {
	for _, n := range names {
		a := m.sta(st, n)
		for _, b := range r {
			st.assume(st.eqVal(a, b), false)
		}
		r = append(r, a)
	}
	return
}

func (m *fsModel) get(st *State, recv Val, a *Agg) (*State, *slot, int, bool) {
	o, ok := m.mustOp(st, recv, "GetSubTree", a)
	if !ok {
		return nil, nil, 0, false
	}
	t := o.Ret.(Tuple)
	s := asSlice(t[0])
	e := o.St.facts.decide(asBool(t[1]))
	if s == nil || e == 0 {
		m.r.undec("analysis", m.name, "", "the result of GetSubTree is not known")
		return nil, nil, 0, false
	}
	x := &slot{addr: a, s: s}
	m.slotOK(o.St, x)
	return o.St, x, e, true
}

func (m *fsModel) slotOK(st *State, x *slot) {
	g := fs(st)
	ino, ok := g.paths[m.cachePath()]
	in := ok && ino >= 0 && x.s.Obj == g.inos[ino].obj
	m.chk(in, "slot.inside", nil, nil, "subtrees are in the cache file")
	m.chk(st.eq(x.s.Len.P, pConstI(m.size(m.pa))), "slot.inside", nil, nil, "the space for a subtree has its size")
	if in && g.inos[ino].len != nil {
		m.chk(st.ge(g.inos[ino].len, pAdd(x.s.Off.P, x.s.Len.P)) && st.ge(x.s.Off.P, pZero), "slot.inside", nil, nil, "the space for a subtree is inside the file")
	}
}

func (m *fsModel) apart(st *State, x, y *slot) {
	a, b := x.s, y.s
	ok := a.Obj != b.Obj || st.ge(b.Off.P, pAdd(a.Off.P, a.Len.P)) || st.ge(a.Off.P, pAdd(b.Off.P, b.Len.P))
	m.chk(ok, "slot.disjoint", nil, nil, "different subtrees have different places")
}

func (m *fsModel) fill(st *State, x *slot, name string) {
	b := symBytes(st, freshName(name), m.size(m.pa))
	x.data = st.bytesOf(b)
	st.putBytes(x.s, 0, x.data)
}

func (m *fsModel) contents(st *State, s *Slice) []*Term {
	bt := st.bytesTerm(s)
	if bt.Op != "bytes" {
		return nil
	}
	return newResolver(st.facts).bytes(bt.Args)
}

func (m *fsModel) zero(st *State, s *Slice) bool {
	bs := m.contents(st, s)
	for _, b := range bs {
		if c, ok := b.P.constI(); !ok || c != 0 {
			return false
		}
	}
	return bs != nil
}

func (m *fsModel) has(st *State, recv Val, a *Agg) int {
	s := st.clone()
	outs := m.op(s, recv, "HasSubTree", false, a)
	if len(outs) != 1 || outs[0].Panic {
		return 0
	}
	return outs[0].St.facts.decide(asBool(outs[0].Ret))
}

// what the container says about a subtree which is, or is not, there
func (m *fsModel) found(st *State, recv Val, x *slot, what, rule string) *State {
	m.chk(m.has(st, recv, x.addr) == 1, rule, nil, nil, "%s: a subtree that is there is reported to be", what)
	st2, y, e, ok := m.get(st.clone(), recv, x.addr)
	if !ok {
		return st
	}
	m.chk(e == 1, rule, nil, nil, "%s: a subtree that is there is found", what)
	if x.data != nil {
		_, same := sameBytes(m.contents(st2, y.s), x.data)
		m.chk(same, rule, nil, nil, "%s: a subtree has the contents that were stored under its address", what)
	}
	return st2
}

func (m *fsModel) lists(st *State, recv Val, as []*Agg, what, rule string) {
	s := st.clone()
	outs := m.op(s, recv, "ListSubTrees", false)
	ok := len(outs) == 1 && !outs[0].Panic && retErr(outs[0], m.methods["ListSubTrees"]) == 1
	if ok {
		o := outs[0]
		l := asSlice(o.Ret.(Tuple)[0])
		n := int64(0)
		if l != nil && l.Obj != nil {
			n, ok = o.St.facts.norm(l.Len.P).constI()
		}
		ok = ok && n == int64(len(as))
		for _, a := range as {
			hit := false
			for i := int64(0); ok && i < n; i++ {
				if o.St.facts.decide(o.St.eqVal(o.St.sliceGet(l, pConstI(i)), a)) == 1 {
					hit = true
				}
			}
			ok = ok && hit
		}
	}
	m.chk(ok, rule, nil, nil, "%s: the list of subtrees is the list of those that are there", what)
}

func (m *fsModel) scenCache(st *State) {
	st, recv, ok := m.keyed(st)
	if !ok {
		return
	}
	as := m.addrs(st, "a0", "a1", "a2", "a3")
	var x [4]*slot
	for i := 0; i < 2; i++ {
		var e int
		m.chk(m.has(st, recv, as[i]) == -1, "slot.table", nil, nil, "a subtree that was not stored is reported not to be there")
		if st, x[i], e, ok = m.get(st, recv, as[i]); !ok {
			return
		}
		m.chk(e == -1, "slot.table", nil, nil, "a subtree that was not stored is not found")
		m.chk(m.zero(st, x[i].s), "slot.clear", nil, nil, "the space for a new subtree is empty")
		m.fill(st, x[i], "tree")
	}
	m.apart(st, x[0], x[1])
	for i := 0; i < 2; i++ {
		st = m.found(st, recv, x[i], "after storing", "slot.table")
	}
	m.lists(st, recv, as[:2], "after storing", "slot.table")

	check := func(st *State, recv Val, what, rule string, in, out []*slot) {
		var l []*Agg
		for _, y := range in {
			l = append(l, y.addr)
		}
		m.lists(st, recv, l, what, rule)
		for _, y := range out {
			m.chk(m.has(st, recv, y.addr) == -1, rule, nil, nil, "%s: a subtree that is not there is reported not to be", what)
		}
		for _, y := range in {
			st = m.found(st, recv, y, what, rule)
		}
	}
	again := func(st *State, recv Val, what string, page int64, in, out []*slot) (*State, Val) {
		pg := m.page
		m.page = page
		st2, rc, v, why := m.reopen(st, recv)
		if v == nil || !v.cache {
			m.chk(false, "reopen.cache", nil, nil, "%s: the cache is found again: %s", what, why)
			m.page = pg
			return nil, nil
		}
		m.chk(true, "reopen.cache", nil, nil, "%s: the cache is found again: ", what)
		check(st2, rc, what, "reopen.cache", in, out)
		check(st2, rc, what, "slot.table", in, out)
		m.page = pg
		return st2, rc
	}
	pg0 := m.page
	for _, pg := range []int64{4096, 16384, 65536} {
		m.page = pg0
		st2, rc := again(st, recv, fmt.Sprintf("opened again with pages of %d", pg), pg, []*slot{x[0], x[1]}, nil)
		// and another one is added
		if st2 != nil {
			m.page = pg
			st3, y, e, ok := m.get(st2, rc, as[2])
			if ok {
				m.chk(e == -1, "slot.table", nil, nil, "a subtree that was not stored is not found after opening again")
				m.apart(st3, y, x[0])
				m.apart(st3, y, x[1])
				m.fill(st3, y, "tree")
				again(st3, rc, "another subtree added", 4096, []*slot{x[0], x[1], y}, nil)
			}
		}
	}
	m.page = pg0
	for i := 0; i < 2; i++ {
		m.dropOne(st.clone(), recv, x, as, i, again, check)
	}
	// as in a container that was opened again
	st2, rc, v, _ := m.reopen(st, recv)
	if v != nil && v.cache {
		m.dropOne(st2, rc, x, as, 0, again, check)
	}
	o, ok := m.mustOp(st, recv, "DropSubTree", as[3])
	if ok {
		check(o.St, recv, "after dropping what is not there", "slot.table", []*slot{x[0], x[1]}, nil)
	}
	// the cache is emptied
	o, ok = m.mustOp(st, recv, "ResetCache")
	if ok {
		check(o.St, recv, "after emptying the cache", "slot.table", nil, []*slot{x[0], x[1]})
		st2, y, e, ok := m.get(o.St, recv, as[0])
		if ok {
			m.chk(e == -1, "slot.table", nil, nil, "no subtree is found after the cache was emptied")
			m.chk(m.zero(st2, y.s), "slot.clear", nil, nil, "the space for a new subtree is empty after the cache was emptied")
		}
	}
}

func (m *fsModel) dropOne(st *State, recv Val, x [4]*slot, as []*Agg, i int,
	again func(st *State, recv Val, what string, page int64, in, out []*slot) (*State, Val),
	check func(st *State, recv Val, what, rule string, in, out []*slot)) {
	o, ok := m.mustOp(st, recv, "DropSubTree", as[i])
	if !ok {
		return
	}
	st = o.St
	keep := x[1-i]
	check(st, recv, "after dropping one", "slot.table", []*slot{keep}, []*slot{x[i]})
	again(st, recv, "dropped, and opened again", 4096, []*slot{keep}, []*slot{x[i]})
	use := func(st *State, recv Val, what string) {
		st.fsUpd(func(g *fsG) { g.flushed = nil })
		st, y, e, ok := m.get(st, recv, as[2])
		if !ok {
			return
		}
		m.chk(e == -1, "slot.table", nil, nil, "%s: a subtree that was not stored is not found", what)
		m.apart(st, y, keep)
		m.chk(m.zero(st, y.s), "slot.clear", nil, nil, "%s: the space for a new subtree is empty", what)
		// used before?
		if st.facts.decideEQ(pSub(y.s.Off.P, x[i].s.Off.P)) != -1 {
			fl := false
			for _, f := range fs(st).flushed {
				if f.Obj == y.s.Obj && st.ge(y.s.Off.P, f.Off.P) && st.ge(pAdd(f.Off.P, f.Len.P), pAdd(y.s.Off.P, y.s.Len.P)) {
					fl = true
				}
			}
			m.chk(fl, "slot.clear", nil, nil, "%s: it is written to disk that the space is empty before it gets a new address", what)
		}
		m.fill(st, y, "tree")
		check(st, recv, what, "slot.table", []*slot{keep, y}, []*slot{x[i]})
		again(st, recv, what+", and opened again", 4096, []*slot{keep, y}, []*slot{x[i]})
		// its place is given up, and no other
		if o, ok := m.mustOp(st.clone(), recv, "DropSubTree", as[2]); ok {
			check(o.St, recv, what+", and dropped", "slot.table", []*slot{keep}, []*slot{x[i], y})
			again(o.St, recv, what+", dropped, and opened again", 4096, []*slot{keep}, []*slot{x[i], y})
			st, u, _, ok := m.get(o.St, recv, as[3])
			if !ok {
				return
			}
			m.apart(st, u, keep)
			m.fill(st, u, "tree")
			st, v, _, ok := m.get(st, recv, as[i])
			if !ok {
				return
			}
			m.apart(st, v, keep)
			m.apart(st, v, u)
			m.fill(st, v, "tree")
			check(st, recv, what+", dropped, and two more stored", "slot.table", []*slot{keep, u, v}, []*slot{y})
		}
		st, z, e, ok := m.get(st, recv, as[i])
		if !ok {
			return
		}
		m.chk(e == -1, "slot.table", nil, nil, "%s: a dropped subtree is not found", what)
		m.apart(st, z, keep)
		m.apart(st, z, y)
		m.chk(m.zero(st, z.s), "slot.clear", nil, nil, "%s: the space for it is empty", what)
	}
	use(st.clone(), recv, "another one stored after dropping one")
	st2, rc, v, _ := m.reopen(st, recv)
	if v != nil && v.cache {
		use(st2, rc, "another one stored after dropping one and opening again")
	}
}

func (m *fsModel) scenCacheFail(st *State) {
	st, recv, ok := m.keyed(st)
	if !ok {
		return
	}
	as := m.addrs(st, "a0", "a1", "a2", "a3")
	var x, y, d *slot
	if st, x, _, ok = m.get(st, recv, as[0]); !ok {
		return
	}
	m.fill(st, x, "tree")
	if st, d, _, ok = m.get(st, recv, as[3]); !ok {
		return
	}
	m.fill(st, d, "tree")
	_ = d
	dropped, ok := m.mustOp(st.clone(), recv, "DropSubTree", as[3])
	if !ok {
		return
	}
	after := func(o Outcome, name string, absent *Agg) {
		if o.Panic {
			m.chk(false, "slot.fail", nil, nil, "%s does not panic", name)
			return
		}
		if len(fs(o.St).failed) == 0 {
			return
		}
		what := name + m.failing(o.St)
		m.chk(m.has(o.St, recv, as[0]) == 1, "slot.fail", nil, nil, "after %s: a subtree that is there is reported to be", what)
		// others may not work either, but then they say so
		for _, o2 := range m.op(o.St.clone(), recv, "GetSubTree", false, as[0]) {
			if retErr(o2, m.methods["GetSubTree"]) != -1 {
				_, same := sameBytes(m.contents(o2.St, asSlice(o2.Ret.(Tuple)[0])), x.data)
				m.chk(same && o2.St.facts.decide(asBool(o2.Ret.(Tuple)[1])) == 1, "slot.fail", nil, nil, "after %s: subtrees have their contents", what)
			}
		}
		for _, a := range []*Agg{absent, as[2]} {
			for _, o2 := range m.op(o.St.clone(), recv, "GetSubTree", false, a) {
				if o2.Panic || retErr(o2, m.methods["GetSubTree"]) == -1 {
					continue
				}
				y = &slot{addr: a, s: asSlice(o2.Ret.(Tuple)[0])}
				e := o2.St.facts.decide(asBool(o2.Ret.(Tuple)[1]))
				m.slotOK(o2.St, y)
				m.apart(o2.St, x, y)
				m.chk(e == -1 && m.zero(o2.St, y.s), "slot.fail", nil, nil, "after %s: the space for a new subtree is empty", what)
			}
		}
	}
	n := 0
	for _, o := range m.op(st.clone(), recv, "GetSubTree", true, as[1]) {
		after(o, "GetSubTree", as[1])
		n++
	}
	for _, o := range m.op(dropped.St.clone(), recv, "GetSubTree", true, as[1]) {
		after(o, "GetSubTree after DropSubTree", as[1])
		n++
	}
	for _, o := range m.op(st.clone(), recv, "DropSubTree", true, as[3]) {
		if len(fs(o.St).failed) == 0 || m.has(o.St, recv, as[3]) == -1 {
			after(o, "DropSubTree", as[3])
		} else {
			after(o, "DropSubTree", as[1])
		}
		n++
	}
	m.chk(n >= 6, "slot.fail", nil, nil, "the ways in which it may fail were analysed")
}

// With any number of slots.
func (m *fsModel) scenMany(st *State) {
	st, recv, ok := m.keyed(st)
	if !ok {
		return
	}
	as := m.addrs(st, "a0", "a1", "a2")
	rp, isp := recv.(*Ptr)
	if !isp {
		m.r.undec("slot.disjoint", m.name, "", "the container is not a pointer")
		return
	}
	var snap [3]*Agg
	var x [3]*slot
	for i := 0; i < 2; i++ {
		snap[i], _ = st.load(rp).(*Agg)
		if st, x[i], _, ok = m.get(st, recv, as[i]); !ok {
			return
		}
	}
	snap[2], _ = st.load(rp).(*Agg)
	// the counter of slots
	cnt := -1
	for i := 0; i < snap[0].N; i++ {
		ok := true
		for j := range snap {
			v := polyOf(snap[j].get(st, pConstI(int64(i))))
			if v == nil {
				ok = false
				break
			}
			c, isC := st.facts.norm(v).constI()
			ok = ok && isC && c == int64(j)
		}
		if ok {
			cnt = i
		}
	}
	if cnt < 0 {
		m.r.undec("slot.disjoint", m.name, "", "the number of slots is not kept in the container")
		return
	}
	w, sg, _ := basicInfo(snap[0].elemType(cnt))
	hi := int64(1) << 31
	n := symRange("slots", w, sg, 2, hi)
	ino := fs(st).paths[m.cachePath()]
	st.fsUpd(func(g *fsG) { g.inos[ino].len = nil })
	a := snap[2].mutable(-2)
	a.set(pConstI(int64(cnt)), n)
	freeze(a)
	st.store(rp, a)
	var e int
	if st, x[2], e, ok = m.get(st, recv, as[2]); !ok {
		return
	}
	m.chk(e == -1, "slot.disjoint", nil, nil, "a new subtree is not found")
	d := pSub(x[1].s.Off.P, x[0].s.Off.P)
	want := pAdd(x[0].s.Off.P, pMul(n.P, st.facts.norm(d)))
	m.chk(st.eq(x[2].s.Off.P, want), "slot.disjoint", nil, nil, "slots are at equal distances, with any number of them")
	m.chk(st.ge(d, x[0].s.Len.P), "slot.disjoint", nil, nil, "the distance between slots is not less than their size")
	ln := fs(st).inos[ino].len
	m.chk(ln != nil && st.ge(ln, pAdd(x[2].s.Off.P, x[2].s.Len.P)), "slot.inside", nil, nil, "the file is made large enough, with any number of slots")
}

// ---- E04: files written earlier

// writes the files as they have always been
func (m *fsModel) keyImage(st *State, pa Params, seq, lost *Poly, key []*Term) {
	var b []*Term
	for _, c := range []int64{0x40, 0x89, 0x43, 0x0a, 0x5c, 0xed, 0x68, 0x44} {
		b = append(b, intC(c, 8, false))
	}
	be := func(v int64, n int) { b = append(b, beBytes(pConstI(v), n)...) }
	be(int64(pa.Func), 1)
	be(int64(pa.N), 4)
	be(int64(pa.H), 4)
	be(int64(pa.D), 4)
	be(int64(pa.W), 2)
	be(int64(pa.Prf), 1)
	b = append(b, beBytes(seq, 8)...)
	b = append(b, beBytes(lost, 4)...)
	b = append(b, key...)
	m.image(st, m.P, map[int64][]*Term{0: b}, int64(len(b)))
}

func (m *fsModel) image(st *State, path *Term, parts map[int64][]*Term, n int64) {
	ino := m.newIno(st, pConstI(n), nil)
	for off, b := range parts {
		st.putBytes(m.slice(st, ino, pConstI(off), pConstI(int64(len(b)))), 0, b)
	}
	st.fsUpd(func(g *fsG) { g.paths[path] = ino })
}

func (m *fsModel) cacheHeader(version, align, n int64) (b []*Term) {
	mg := []int64{0x5a, 0x11, 0xd7, 0xcf, 0x4a, 0x1f, 0x63, 0x14}
	if version == 0 {
		mg = []int64{0xe7, 0x79, 0x57, 0x60, 0x7e, 0xf7, 0x94, 0x46}
	}
	for _, c := range mg {
		b = append(b, intC(c, 8, false))
	}
	b = append(b, beBytes(pConstI(n), 4)...)
	b = append(b, beBytes(pConstI(version), 1)...)
	return append(b, beBytes(pConstI(align), 4)...)
}

func (m *fsModel) scenOld(st *State) {
	key := symBytes(st, "key", m.privSize(m.pa))
	kb := st.bytesOf(key)
	seq := symRange("seq0", 64, false, 0, 1<<60)
	lost := symRange("lost0", 32, false, 0, 1<<30)
	m.keyImage(st, m.pa, seq.P, lost.P, kb)
	want := &ctrView{init: true, params: m.p.paramsVal(st, m.pa), key: kb, seq: seq.P, lost: lost.P}
	as := m.addrs(st, "a0", "a1", "a2")
	sz := m.size(m.pa)
	for _, c := range []struct{ version, align, eff int64 }{{0, 0, 4096}, {1, 0, 4096}, {1, 4096, 4096}, {1, 16384, 16384}, {1, 65536, 65536}} {
		s := st.clone()
		what := fmt.Sprintf("version %d, alignment %d", c.version, c.align)
		pad := (sz + 13 + c.eff - 1) / c.eff * c.eff
		// the second of three slots is free
		parts := map[int64][]*Term{0: m.cacheHeader(c.version, c.align, 3)}
		x := []*slot{{addr: as[0]}, nil, {addr: as[1]}}
		for i, y := range x {
			if y == nil {
				continue
			}
			b := []*Term{intC(1, 8, false)}
			b = append(b, beBytes(polyOf(y.addr.get(s, pConstI(0))), 4)...)
			b = append(b, beBytes(polyOf(y.addr.get(s, pConstI(1))), 8)...)
			d := symBytes(s, fmt.Sprintf("tree%d", i), sz)
			y.data = s.bytesOf(d)
			parts[c.eff+int64(i)*pad] = append(b, y.data...)
		}
		m.image(s, m.cachePath(), parts, c.eff+3*pad)
		s, recv, ok := m.mustOpen(s)
		if !ok {
			return
		}
		v, why := m.view(s, recv)
		if v == nil {
			m.chk(false, "reopen.old", nil, nil, "%s: %s", what, why)
			continue
		}
		m.chk(m.diff(s, v, want, false) == "", "reopen.old", nil, nil, "%s: an existing key keeps its meaning: %s", what, m.diff(s, v, want, false))
		m.chk(v.cache, "reopen.old", nil, nil, "%s: an existing cache is used", what)
		if !v.cache {
			continue
		}
		m.lists(s, recv, as[:2], what, "reopen.old")
		for _, y := range []*slot{x[0], x[2]} {
			s = m.found(s, recv, y, what, "reopen.old")
		}
		s, y, e, ok := m.get(s, recv, as[2])
		if !ok {
			return
		}
		m.chk(e == -1, "reopen.old", nil, nil, "%s: a subtree that is not there is not found", what)
		m.fill(s, y, "tree")
		for _, z := range []*slot{x[0], x[2]} {
			s = m.found(s, recv, z, what+", after adding one", "reopen.old")
		}
	}
}

// ---- S03, B01: errors and counts

// does it matter that this failed?
func (m *fsModel) matters(e *fsEv, closing bool) bool {
	switch {
	case e.op == "stat" || e.op == "chmod":
		return false
	case e.op == "close" && !e.write:
		return false
	case !closing && e.path == m.cachePath() && (e.op == "close" || e.op == "unmap"):
		return false
	}
	return true
}

func (m *fsModel) errRules(name string, o Outcome, recv Val, old *ctrView) {
	fn := m.methods[name]
	if name == "open" {
		fn = m.open
	}
	e := retErr(o, fn)
	bad := false
	for _, x := range fs(o.St).failed {
		if m.matters(x, name == "Close") {
			bad = true
			var in ssa.Instruction
			if x.instr != nil {
				in = x.instr
			}
			m.chk(e == -1, "err.report", x.fr, in, "%s: it is reported if [%s] fails", name, x.op)
		}
	}
	if !bad && len(fs(o.St).failed) == 0 {
		m.chk(e == 1, "err.report", nil, nil, "%s: it succeeds if nothing fails", name)
	}
	if e == -1 && old != nil {
		v, why := m.view(o.St, recv)
		d := why
		if v != nil {
			d = m.diff(o.St, v, old, true)
		}
		m.chk(d == "", "err.view", nil, nil, "%s: if it fails the container is as before: %s", name, d)
	}
}

func (m *fsModel) counts(name string, o Outcome, recv Val, old, want *ctrView) {
	if retErr(o, m.methods[name]) != 1 {
		return
	}
	v, d := m.view(o.St, recv)
	if v != nil {
		d = m.diff(o.St, v, want, false)
	}
	m.chk(d == "", "count.container", nil, nil, "%s: the container has the new numbers: %s", name, d)
	if t, ok := o.Ret.(Tuple); ok && name == "BorrowSeqNos" {
		p := polyOf(t[0])
		m.chk(p != nil && o.St.eq(p, old.seq), "count.container", nil, nil, "%s returns the first borrowed number", name)
	}
}

// calls every method; the callback gets its outcomes
func (m *fsModel) each(st *State, recv Val, faults bool, skip string, f func(name string, o Outcome)) {
	as := m.addrs(st, "b0")
	for _, name := range m.methodNames() {
		if hasWord(skip, name) {
			continue
		}
		s := st.clone()
		var args []Val
		switch name {
		case "GetSubTree", "DropSubTree", "HasSubTree":
			args = []Val{as[0]}
		case "Reset":
			args = []Val{symBytes(s, "newkey", m.privSize(m.pa)), m.p.paramsVal(s, m.pa)}
		case "SetSeqNo":
			args = []Val{symRange("newseq", 64, false, 0, 1<<60)}
		case "BorrowSeqNos":
			args = []Val{symRange("amount", 32, false, 0, 1<<30)}
		default:
			if m.methods[name].Signature.Params().Len() > 0 {
				m.r.undec("analysis", m.name, "", "unknown method %s", name)
				continue
			}
		}
		for _, o := range m.op(s, recv, name, faults, args...) {
			f(name, o)
		}
	}
}

func (m *fsModel) methodNames() []string {
	var r []string
	for n := range m.methods {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

func (m *fsModel) scenErr(st *State) {
	s, recv, ok := m.fresh(st.clone())
	if !ok {
		return
	}
	// nothing stored yet
	m.each(s, recv, false, "Reset Close Initialized CacheInitialized HasSubTree", func(name string, o Outcome) {
		m.chk(!o.Panic && retErr(o, m.methods[name]) == -1, "err.state", nil, nil, "%s of a container without a key reports an error", name)
	})
	s, recv, ok = m.keyed(st)
	if !ok {
		return
	}
	a := m.sta(s, "a0")
	o, ok := m.mustOp(s, recv, "GetSubTree", a)
	if !ok {
		return
	}
	s = o.St
	s2, rc, v, why := m.reopen(s, recv)
	if v == nil {
		m.r.undec("analysis", m.name, "", "%s", why)
		return
	}
	n := 0
	one := func(name string, o Outcome) {
		if o.Panic {
			m.chk(false, "err.report", nil, nil, "%s does not panic", name)
			return
		}
		n++
		m.errRules(name, o, recv, nil)
		g := fs(o.St)
		m.chk(g.unlocks == 0 && g.held, "lock.release", nil, nil, "%s does not release the lock", name)
		if name == "ResetCache" && retErr(o, m.methods[name]) == -1 {
			v, _ := m.view(o.St, recv)
			m.chk(v != nil && !v.cache, "err.state", nil, nil, "the cache is not used if emptying it failed")
		}
	}
	for _, name := range []string{"GetSubTree", "DropSubTree"} {
		for _, c := range []struct {
			st *State
			rc Val
		}{{s, recv}, {s2, rc}} {
			for _, o := range m.op(c.st.clone(), c.rc, name, true, a) {
				one(name, o)
			}
		}
	}
	m.each(s, recv, true, "Close", one)
	// with a slot to be used again
	o, ok = m.mustOp(s.clone(), recv, "DropSubTree", a)
	if ok {
		m.each(o.St, recv, true, "Close Reset SetSeqNo BorrowSeqNos", one)
	}
	m.chk(n >= 40, "err.report", nil, nil, "the ways in which it may fail were analysed")
	m.chk(n >= 40, "lock.release", nil, nil, "the ways in which it may fail were analysed")
}

func (m *fsModel) lockedErr(st *State, e Val) bool {
	i, ok := e.(*Iface)
	if !ok || i.T == nil {
		if p, ok := e.(*Ptr); ok {
			return m.callBool(st, types.NewPointer(p.Obj.T), p, "Locked")
		}
		return false
	}
	return m.callBool(st, i.T, i.V, "Locked")
}

func (m *fsModel) callBool(st *State, t types.Type, recv Val, name string) bool {
	sel := types.NewMethodSet(t).Lookup(nil, name)
	if sel == nil {
		return false
	}
	fn := m.p.SSA.MethodValue(sel)
	if fn == nil || fn.Blocks == nil {
		return false
	}
	outs := m.in.Exec(st.clone(), nil, fn, []Val{recv}, nil, nil)
	return len(outs) == 1 && !outs[0].Panic && outs[0].St.facts.decide(asBool(outs[0].Ret)) == 1
}

func (m *fsModel) had(st *State, op string, failed bool) bool {
	for _, e := range fs(st).evs {
		if e.op == op && e.failed == failed {
			return true
		}
	}
	return false
}

// what may be on the disk when a container is opened
func (m *fsModel) disks(st *State, f func(name string, st *State, key bool)) {
	s := st.clone()
	s.fsUpd(func(g *fsG) { g.paths[m.P] = -1; g.paths[m.cachePath()] = -1 })
	f("no key", s, false)
	s, recv, ok := m.keyed(st.clone())
	if !ok {
		return
	}
	o, ok := m.mustOp(s, recv, "GetSubTree", m.sta(s, "a0"))
	if !ok {
		return
	}
	q := m.r.quiet
	m.r.quiet = true
	outs := m.op(o.St, recv, "Close", false)
	m.r.quiet = q
	if len(outs) != 1 || outs[0].Panic {
		m.r.undec("analysis", m.name, "", "closing has no single outcome")
		return
	}
	s = outs[0].St
	f("a key and its cache", s.clone(), true)
	s2 := s.clone()
	s2.fsUpd(func(g *fsG) { g.paths[m.cachePath()] = -1 })
	f("a key without cache", s2, true)
	// of any version
	s3 := s.clone()
	h := append([]*Term(nil), s3.bytesOf(symBytes(s3, "header", 17))...)
	copy(h[8:12], beBytes(pConstI(1), 4))
	copy(h[13:17], beBytes(pConstI(4096), 4))
	m.image(s3, m.cachePath(), map[int64][]*Term{0: h}, 0)
	ino := fs(s3).paths[m.cachePath()]
	s3.fsUpd(func(g *fsG) { g.inos[ino].len = nil })
	f("a key and some cache", s3, true)
}

func (m *fsModel) scenOpen(st *State) {
	m.disks(st, func(name string, s *State, key bool) {
		n := 0
		for _, o := range m.openCtr(s, "path", true) {
			if o.Panic {
				m.chk(false, "lock.release", nil, nil, "opening (%s) does not panic", name)
				continue
			}
			n++
			g := fs(o.St)
			ret := o.Ret.(Tuple)
			e := errNil(o.St, ret[1])
			got := m.had(o.St, "trylock", false)
			what := name + m.failing(o.St)
			m.chk(g.muxes == 0, "lock.registry", nil, nil, "opening (%s): the lock of the table is released", what)
			if name != "a key and some cache" {
				m.errRules("open", o, nil, nil)
			}
			if e == 0 {
				m.r.undec("lock.release", m.name, "", "whether opening fails is not known")
				continue
			}
			if e == 1 {
				m.chk(got && g.tries == 1 && g.held && g.unlocks == 0, "lock.release", nil, nil, "opening (%s): the lock is held on success", what)
				m.second(o.St, name)
				continue
			}
			m.chk(o.St.facts.decide(o.St.eqVal(ret[0], NilV{})) == 1, "lock.release", nil, nil, "opening (%s): no container is returned if it fails", what)
			if got {
				m.chk(g.unlocks == 1 && !g.held, "lock.release", nil, nil, "opening (%s): the lock is released if it fails", what)
			} else {
				m.chk(g.unlocks == 0, "lock.release", nil, nil, "opening (%s): the lock is not released if it was not taken", what)
			}
			if m.had(o.St, "busy", true) {
				m.chk(m.lockedErr(o.St, ret[1]), "lock.second", nil, nil, "opening what another process has open is reported as locked")
			}
			// and it can be tried again
			tries := g.tries
			for _, o2 := range m.openCtr(o.St.clone(), "path", false) {
				m.chk(!o2.Panic && fs(o2.St).tries == tries+1, "lock.release", nil, nil, "opening (%s): it can be tried again after it failed", what)
			}
		}
		m.chk(n >= 4, "lock.release", nil, nil, "opening (%s): the ways in which it may fail were analysed", name)
		m.chk(n >= 4, "err.report", nil, nil, "opening (%s): the ways in which it may fail were analysed", name)
	})
}

// a container is open: it cannot be opened again
func (m *fsModel) second(st *State, what string) {
	for _, p := range []string{"path", "otherpath"} {
		g := fs(st)
		outs := m.openCtr(st.clone(), p, false)
		for _, o := range outs {
			if o.Panic {
				m.chk(false, "lock.second", nil, nil, "opening a container twice does not panic")
				continue
			}
			h := fs(o.St)
			m.chk(errNil(o.St, o.Ret.(Tuple)[1]) == -1, "lock.second", nil, nil, "a container that is open cannot be opened again (%s)", what)
			m.chk(m.lockedErr(o.St, o.Ret.(Tuple)[1]), "lock.second", nil, nil, "opening what is open already is reported as locked (%s)", what)
			m.chk(h.tries == g.tries && h.held && h.unlocks == g.unlocks && h.muxes == 0, "lock.second", nil, nil, "trying to open a container again leaves its lock alone (%s)", what)
			// nor the third time
			for _, o := range m.openCtr(o.St, p, false) {
				m.chk(!o.Panic && errNil(o.St, o.Ret.(Tuple)[1]) == -1, "lock.second", nil, nil, "a container that is open cannot be opened again, however often it is tried (%s)", what)
			}
		}
		m.chk(len(outs) > 0, "lock.second", nil, nil, "opening again has an outcome")
	}
}

func (m *fsModel) scenClose(st *State) {
	m.disks(st, func(name string, s *State, key bool) {
		if name == "a key and some cache" {
			return
		}
		s, recv, ok := m.mustOpen(s)
		if !ok {
			return
		}
		if name == "a key and its cache" {
			// one subtree from the cache and a new one are in use
			for _, a := range m.addrs(s, "a0", "c1") {
				o, ok := m.mustOp(s, recv, "GetSubTree", a)
				if !ok {
					return
				}
				s = o.St
			}
		}
		for _, o := range m.op(s, recv, "Close", true) {
			if o.Panic {
				m.chk(false, "lock.release", nil, nil, "closing does not panic")
				continue
			}
			g := fs(o.St)
			what := name + m.failing(o.St)
			m.chk(g.unlocks == 1 && g.muxes == 0, "lock.release", nil, nil, "closing (%s): the lock is released", what)
			m.errRules("Close", o, recv, nil)
			n := g.unlocks
			nev := len(g.evs)
			for _, o2 := range m.op(o.St.clone(), recv, "Close", false) {
				h := fs(o2.St)
				m.chk(!o2.Panic && h.unlocks == n && len(h.evs) == nev, "lock.closed", nil, nil, "closing again (%s) does nothing", what)
				m.chk(!o2.Panic && retErr(o2, m.methods["Close"]) == -1, "err.state", nil, nil, "closing again (%s) reports an error", what)
			}
			m.each(o.St, recv, false, "Close Initialized CacheInitialized HasSubTree", func(name string, o2 Outcome) {
				h := fs(o2.St)
				m.chk(!o2.Panic && len(h.evs) == nev && h.unlocks == n, "lock.closed", nil, nil, "%s of a closed container does nothing (%s)", name, what)
				m.chk(!o2.Panic && retErr(o2, m.methods[name]) == -1, "err.state", nil, nil, "%s of a closed container reports an error (%s)", name, what)
			})
			if !m.had(o.St, "unlock", true) {
				tries := g.tries
				for _, o2 := range m.openCtr(o.St.clone(), "path", false) {
					m.chk(!o2.Panic && fs(o2.St).tries == tries+1 && errNil(o2.St, o2.Ret.(Tuple)[1]) == 1, "lock.closed", nil, nil, "what was closed (%s) can be opened again", what)
				}
			}
		}
	})
}

// ---- S11: damaged files

func (m *fsModel) scenDamage(st *State) {
	key := symBytes(st, "key", m.privSize(m.pa))
	kb := st.bytesOf(key)
	seq := symRange("seq0", 64, false, 0, 1<<60)
	lost := symRange("lost0", 32, false, 0, 1<<30)
	m.keyImage(st, m.pa, seq.P, lost.P, kb)
	want := &ctrView{init: true, params: m.p.paramsVal(st, m.pa), key: kb, seq: seq.P, lost: lost.P}
	type dmg struct {
		what string
		mk   func(s *State)
	}
	at := func(n *Poly, version, slots int64) func(s *State) {
		return func(s *State) {
			m.image(s, m.cachePath(), map[int64][]*Term{0: m.cacheHeader(version, 4096, slots)}, 0)
			ino := fs(s).paths[m.cachePath()]
			s.fsUpd(func(g *fsG) { g.inos[ino].len = n })
		}
	}
	sz := m.size(m.pa) + 13
	pad := (sz + 4095) / 4096 * 4096
	ds := []dmg{
		{"missing", func(s *State) { s.fsUpd(func(g *fsG) { g.paths[m.cachePath()] = -1 }) }},
		{"empty", at(pZero, 1, 0)},
		{"cut off in its header", at(symRange("cut1", 64, true, 1, 16).P, 1, 2)},
		{"cut off after its header", at(symRange("cut2", 64, true, 17, 4096).P, 1, 2)},
		{"cut off in the first slot's header", at(symRange("cut3", 64, true, 4097, 4096+12).P, 1, 2)},
		{"cut off before the second slot", at(symRange("cut4", 64, true, 4096+13, 4096+pad).P, 1, 2)},
		{"cut off in the second slot's header", at(symRange("cut5", 64, true, 4096+pad+1, 4096+pad+12).P, 1, 2)},
		{"of the old version, cut off before the second slot", at(symRange("cut6", 64, true, 4096+13, 4096+pad).P, 0, 2)},
	}
	for _, d := range ds {
		s := st.clone()
		d.mk(s)
		outs := m.openCtr(s, "path", false)
		m.chk(len(outs) > 0, "damage.cache", nil, nil, "cache %s: opening has an outcome", d.what)
		for _, o := range outs {
			if !m.chkOpen(o, "damage.cache", "cache "+d.what) {
				continue
			}
			rc := m.recv(o.Ret.(Tuple)[0])
			v, why := m.view(o.St, rc)
			if v != nil {
				why = m.diff(o.St, v, want, false)
			}
			m.chk(v != nil && why == "", "damage.cache", nil, nil, "cache %s: the key is there: %s", d.what, why)
			if v == nil {
				continue
			}
			m.chk(!v.cache, "damage.cache", nil, nil, "cache %s: the cache is not used", d.what)
			a := m.sta(o.St, "a0")
			m.chk(m.has(o.St, rc, a) == -1, "damage.cache", nil, nil, "cache %s: it has no subtrees", d.what)
			o2, ok := m.mustOp(o.St.clone(), rc, "ResetCache")
			if !ok {
				continue
			}
			v2, _ := m.view(o2.St, rc)
			m.chk(v2 != nil && v2.cache && m.diff(o2.St, v2, want, false) == "", "damage.cache", nil, nil, "cache %s: a new cache can be made", d.what)
			m.lists(o2.St, rc, nil, "cache "+d.what+", new one made", "damage.cache")
			if _, y, e, ok := m.get(o2.St, rc, a); ok {
				m.chk(e == -1, "damage.cache", nil, nil, "cache %s: the new cache is empty", d.what)
				_ = y
			}
			// even if nobody made one, numbers are kept
			o3, ok := m.mustOp(o.St.clone(), rc, "BorrowSeqNos", intC(5, 32, false))
			if ok {
				_, _, v3, why := m.reopen(o3.St, rc)
				w := *want
				w.seq, w.lost = pAdd(seq.P, pConstI(5)), pAdd(lost.P, pConstI(5))
				if v3 != nil {
					why = m.diff(o3.St, v3, &w, false)
				}
				m.chk(v3 != nil && why == "", "damage.cache", nil, nil, "cache %s: numbers are stored as ever: %s", d.what, why)
			}
		}
	}
}

func (m *fsModel) chkOpen(o Outcome, rule, what string) bool {
	ok := !o.Panic && errNil(o.St, o.Ret.(Tuple)[1]) == 1
	m.chk(ok, rule, nil, nil, "%s: the container can be opened", what)
	return ok
}

func (m *fsModel) scenBadKey(st *State) {
	// any file at all
	s := st.clone()
	ino := m.newIno(s, nil, fresh("keyfile"))
	s.fsUpd(func(g *fsG) { g.paths[m.P] = ino; g.paths[m.cachePath()] = -1 })
	m.anyParams = true
	outs := m.openCtr(s, "path", true)
	m.anyParams = false
	good, bad := 0, 0
	magic := []int64{0x40, 0x89, 0x43, 0x0a, 0x5c, 0xed, 0x68, 0x44}
	ps := m.privSize(m.pa)
	for _, o := range outs {
		if o.Panic {
			m.chk(false, "damage.key", nil, nil, "opening any file does not panic")
			continue
		}
		e := errNil(o.St, o.Ret.(Tuple)[1])
		eof := m.had(o.St, "eof", false) && e != 1
		if e != 1 {
			bad++
			m.chk(e == -1, "damage.key", nil, nil, "whether a key file is refused is known")
			m.chk(o.St.facts.decide(o.St.eqVal(o.Ret.(Tuple)[0], NilV{})) == 1, "damage.key", nil, nil, "no container is returned if a key file is refused")
			_ = eof
			continue
		}
		good++
		bs := o.St.bytesOf(m.slice(o.St, ino, pZero, pConstI(36+ps)))
		ok := true
		for i, c := range magic {
			if o.St.facts.decideEQ(pSub(bs[i].P, pConstI(c))) != 1 {
				ok = false
			}
		}
		m.chk(ok, "damage.key", nil, nil, "a file is only taken for a key if it starts like one")
		m.chk(m.had(o.St, "context", false), "damage.key", nil, nil, "a file is only taken for a key if its parameters are valid")
		m.chk(!m.had(o.St, "eof", false), "damage.key", nil, nil, "a key file that is too short is refused")
		rc := m.recv(o.Ret.(Tuple)[0])
		want := &ctrView{init: true, params: m.p.paramsVal(o.St, m.pa), key: bs[36:], seq: beNum(bs[24:32]), lost: beNum(bs[32:36])}
		v, why := m.view(o.St, rc)
		if v != nil {
			why = m.diff(o.St, v, want, false)
		}
		m.chk(v != nil && why == "", "damage.key", nil, nil, "the key, its parameters and numbers are those of the file: %s", why)
	}
	m.chk(good > 0 && bad > 4, "damage.key", nil, nil, "key files are accepted and refused")
	for n := int64(0); n < 36+ps; n += 7 {
		s := st.clone()
		pa := m.pa
		m.keyImage(s, pa, pConstI(1), pZero, s.bytesOf(symBytes(s, "key", ps)))
		ino := fs(s).paths[m.P]
		s.fsUpd(func(g *fsG) { g.inos[ino].len = pConstI(n) })
		for _, o := range m.openCtr(s, "path", false) {
			m.chk(!o.Panic && errNil(o.St, o.Ret.(Tuple)[1]) == -1, "damage.key", nil, nil, "a key file that is too short is refused (cut off)")
		}
	}
	// parameters that make no sense, with and without a cache
	m.realCtx = true
	for _, f := range []func(p *Params){func(p *Params) { p.D = 0 }, func(p *Params) { p.W = 0 }, func(p *Params) { p.W = 5 }, func(p *Params) { p.H, p.D = 7, 3 }, func(p *Params) { p.N = 0 },
		func(p *Params) { p.N = 17 }, func(p *Params) { p.Func = 7 }, func(p *Params) { p.Prf = 9 }, func(p *Params) { p.H = 64 }, func(p *Params) { p.H, p.D = 0, 0 }, func(p *Params) { p.H, p.D = 200, 100 }} {
		for slots := int64(-1); slots < 3; slots += 3 {
			pa := m.pa
			f(&pa)
			s := st.clone()
			m.keyImage(s, pa, pConstI(1), pZero, s.bytesOf(symBytes(s, "key", 1000)))
			if slots < 0 {
				s.fsUpd(func(g *fsG) { g.paths[m.cachePath()] = -1 })
			} else {
				m.image(s, m.cachePath(), map[int64][]*Term{0: m.cacheHeader(1, 4096, slots)}, 1<<30)
			}
			for _, o := range m.openCtr(s, "path", false) {
				m.chk(!o.Panic && errNil(o.St, o.Ret.(Tuple)[1]) == -1, "damage.key", nil, nil, "a key file with invalid parameters is refused (%v)", pa)
			}
		}
	}
	m.realCtx = false
}
