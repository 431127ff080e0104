package main

// T01: subtrees are computed from their WOTS+ keys as specified, whatever the
// number of threads.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T01", "Abstract interpretation over value graphs: leafs are compared with the L-tree of an uninterpreted WOTS+ public key, subtrees of height 1 to 6 with "+
		"the hash tree over uninterpreted leafs, for symbolic seeds and position, for the sequential and the threaded generation; goroutines are "+
		"analysed with a lockset and claim discipline: each writes only leafs it claimed under the lock.", runT01)
}

func runT01(r *Rep) {
	r.rule("leaf", "a leaf is the root of the L-tree over its WOTS+ public key", 24)
	r.rule("tree", "every node of a subtree is the specified hash of its children", 20)
	r.rule("threads", "goroutines generating leafs do not interfere and are waited for", 10)
	r.rule("layout", "nodes of a merkle tree do not overlap; authentication paths consist of siblings", 10)
	base := r.initState()
	var jobs []func()
	add := func(f func()) { jobs = append(jobs, f) }
	for _, pa := range tuples(16, 10, 1) {
		pa := pa
		add(func() { r.leaf(base, pa) })
	}
	for _, pa := range []Params{{0, 16, 10, 1, 4, 0}, {0, 32, 10, 1, 256, 0}, {0, 64, 10, 1, 4, 0}, {0, 24, 10, 1, 256, 1}} {
		pa := pa
		add(func() { r.leaf(base, pa) })
	}
	for h := int64(1); h <= 6; h++ {
		h := h
		for _, th := range []int64{1, 0, 2, 3} {
			th := th
			add(func() { r.subTree(base, Params{0, 16, 2 * h, 2, 16, 0}, th, 3) })
			if h == 6 && th == 0 {
				add(func() { r.subTree(base, Params{0, 16, 2 * h, 2, 16, 0}, th, 1) })
				add(func() { r.subTree(base, Params{2, 24, 2 * h, 2, 16, 1}, th, 2) })
			}
		}
	}
	add(func() { r.layout(base) })
	r.each(len(jobs), func(int) int { return 1 }, func(i int) { jobs[i]() })
}

func (s *Spec) ltree(pub []*Term, adrs []*Term, pk [][]*Term) []*Term {
	h := 0
	l := append([][]*Term{}, pk...)
	for len(l) > 1 {
		var nx [][]*Term
		for i := 0; i+1 < len(l); i += 2 {
			a := withWord(withWord(adrs, 5, pConstI(int64(h))), 6, pConstI(int64(i/2)))
			nx = append(nx, s.RandHash(pub, a, l[i], l[i+1]))
		}
		if len(l)%2 == 1 {
			nx = append(nx, l[len(l)-1])
		}
		l = nx
		h++
	}
	return l[0]
}

// Summary of wotsPkGenInto(pad, ph, addr, out).
func cutWotsPk(r *Rep, n int) func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
	name := r.P.ctxMethod("wotsPkGenInto")
	return func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		if cs.Fn == nil || cs.Name != name || len(cs.Args) != 5 {
			return nil, false
		}
		dst, tag, aw := asSlice(cs.Args[4]), tagOf(cs.Args[2]), addrWords(st, cs.Args[3])
		if dst == nil || tag == nil || aw == nil {
			in.undecided("arguments of wotsPkGenInto in %s", fnName(fr.Fn))
			return nil, false
		}
		ln, ok := st.facts.norm(dst.Len.P).constI()
		if !ok {
			in.undecided("buffer for WOTS+ public key in %s", fnName(fr.Fn))
			return nil, false
		}
		if int(ln) < n {
			r.viol("leaf", "buffer", "", "WOTS+ public key does not fit its buffer of %d bytes", ln)
			return nil, false
		}
		st.putBytes(dst, 0, uiWotsPk(tag, aw, n))
		return ret1(st, Tuple{}), true
	}
}

func uiWotsPk(tag *Term, aw []*Term, n int) []*Term {
	a := append([]*Term{}, aw...)
	a[5], a[6], a[7] = intC(0, 32, false), intC(0, 32, false), intC(0, 32, false)
	return uiBytes("wpk", n, append([]*Term{tag}, a...)...)
}

func (r *Rep) leaf(base *State, pa Params) {
	name := pa.String()
	sp := newSpec(pa)
	l1, l2, _ := sp.wotsLens()
	L, n := l1+l2, int(pa.N)
	in := r.hashInterp()
	in.H.Call = chain(cutPrecompute(r.P), cutWotsPk(r, L*n))
	st := base.clone()
	r.P.setX4(st, false)
	st, ctx := r.newContext(in, st, pa)
	if st == nil {
		r.undec("leaf", name, "", "rejected")
		return
	}
	pub, sk := symBytes(st, "pubSeed", pa.N), symBytes(st, "skSeed", pa.N)
	pb, sb := st.bytesOf(pub), st.bytesOf(sk)
	lt, lw := symAddr(r.P, st, "ltree")
	ot, ow := symAddr(r.P, st, "ots")
	st, pad := r.newPad(in, st, ctx)
	st, ph := r.precompute(in, st, ctx, pub, sk)
	out := symBytes(st, "out", 3*pa.N)
	old := st.bytesOf(out)
	s2, _ := exec1(in, st, r.P.needFn("Context.genLeafInto"), ctx, pad, ph, lt, ot, subSlice(out, pa.N, pa.N))
	tag := opaqueT("ph", "", 0, opaqueT("bytes", "", 0, pb...), opaqueT("bytes", "", 0, sb...))
	pk := uiWotsPk(tag, ow, L*n)
	var parts [][]*Term
	for i := 0; i < L; i++ {
		parts = append(parts, sliceOf(pk, i, n))
	}
	want := append(append(append([]*Term{}, old[:n]...), sp.ltree(pb, lw, parts)...), old[2*n:]...)
	r.cmp("leaf", name, "genLeafInto", s2.bytesOf(out), want)
	// again with the same scratchpad
	s2, _ = exec1(in, s2, r.P.needFn("Context.genLeafInto"), ctx, pad, ph, lt, ot, subSlice(out, pa.N, pa.N))
	r.cmp("leaf", name, "genLeafInto again", s2.bytesOf(out), want)
	for _, u := range in.undec {
		r.undec("leaf", name, "", "%s", u)
	}
	r.seen(in)
}

// set field of the struct pointed to
func (st *State) setField(v Val, t types.Type, name string, x Val) bool {
	p, ok := v.(*Ptr)
	i := fieldIdx(t, name)
	if !ok || i < 0 {
		return false
	}
	st.store(&Ptr{p.Obj, append(append([]PE{}, p.Path...), PE{F: i})}, x)
	return true
}

// subtree position with symbolic layer and offset
func (r *Rep) symSTA(st *State) (*Agg, *Term, *Term) {
	t := r.P.namedType("SubTreeAddress")
	a := &Agg{T: t, N: t.Underlying().(*types.Struct).NumFields()}
	l, tr := symRange("layer", 32, false, 0, 62), symInt("tree", 64, false)
	a.el.set(fieldIdx(t, "Layer"), l)
	a.el.set(fieldIdx(t, "Tree"), tr)
	freeze(a)
	return a, l, tr
}

type access struct {
	w     bool
	locks string
	who   int
	where string
}

// Runs goroutines where they are started, one after the other, and checks the
// discipline which makes every other schedule equivalent.
type goRun struct {
	over     bool // the goroutine has signalled its end
	r        *Rep
	name     string
	gid      int // running goroutine, 0 for the caller
	n        int // goroutines started
	pending  int
	added    int64
	waited   bool
	locks    map[string]bool
	mark     int // objects below this are shared
	acc      map[string][]access
	leaves   map[int64]int // leaf -> goroutine
	segLeafs []int64
	everLock bool
	oldCell  map[string]*Poly
	newCell  map[string]*Poly
	claim    [2]int64
	hasClaim bool
	done     int
	bad      bool
	// first values of the variables goroutines share
	first map[string]ptrVal
	// a goroutine runs as if it were the first, to see what it works on
	dry bool
	// channels work is handed out by
	chans map[*Term]*chanQ
	// goroutines which wait for something to be sent
	asleep []*CallSite
}

type chanQ struct {
	all, q []Val
	closed bool
}

// a goroutine has to wait for another
type goBlocked struct{}

func (g *goRun) saveChans() map[*Term]*chanQ {
	r := map[*Term]*chanQ{}
	for k, c := range g.chans {
		d := *c
		d.all, d.q = d.all[:len(d.all):len(d.all)], d.q[:len(d.q):len(d.q)]
		r[k] = &d
	}
	return r
}

func (g *goRun) chanOp(in *Interp, st *State, fr *Frame, op string, ch, v Val) (Val, *Term, bool) {
	t, ok := ch.(*Term)
	if !ok {
		return nil, nil, false
	}
	if g.chans == nil {
		g.chans = map[*Term]*chanQ{}
	}
	c := g.chans[t]
	if c == nil {
		c = &chanQ{}
		g.chans[t] = c
	}
	switch op {
	case "close":
		if c.closed {
			g.viol("channel is closed twice")
		}
		c.closed = true
	case "send":
		if g.gid != 0 {
			in.undecided("goroutine sends to a channel")
		}
		if c.closed {
			g.viol("closed channel is written to")
		}
		c.q = append(c.q[:len(c.q):len(c.q)], v)
		c.all = append(c.all[:len(c.all):len(c.all)], v)
	case "recv":
		if g.gid == 0 {
			in.undecided("channel is read outside of a goroutine")
			return nil, nil, false
		}
		if len(c.q) == 0 {
			if !c.closed {
				panic(goBlocked{})
			}
			return nil, tFalse, true
		}
		v := c.q[0]
		c.q = c.q[1:]
		return v, tTrue, true
	}
	return nil, nil, true
}

// Runs a goroutine, unless it has to wait.
func (g *goRun) try(in *Interp, st *State, fr *Frame, cs *CallSite) (os []Outcome, blocked bool) {
	save, n := g.saveChans(), len(g.leaves)
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(goBlocked); !ok {
				panic(x)
			}
			if len(g.leaves) != n && !g.dry {
				g.viol("a goroutine waits forever")
			}
			g.chans = save
			os, blocked = nil, true
		}
	}()
	return in.Exec(st, fr, cs.Fn, cs.Args, cs.Bind, cs.Instr), false
}

type ptrVal struct {
	p *Ptr
	v Val
}

func (g *goRun) viol(format string, a ...interface{}) {
	g.bad = true
	g.r.viol("threads", g.name, "", format, a...)
}

func (g *goRun) lockset() string {
	var s []string
	for l := range g.locks {
		s = append(s, l)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func locKey(p *Ptr) string { return fmt.Sprintf("%d%s", p.Obj.ID, pathKey(p.Path)) }

func (g *goRun) access(p *Ptr, w bool, where string) {
	if g.dry || g.pending == 0 && g.gid == 0 || p.Obj.ID >= g.mark && g.gid != 0 {
		return
	}
	k := locKey(p)
	g.acc[k] = append(g.acc[k], access{w, g.lockset(), g.gid, where})
}

func (g *goRun) endSegment() {
	if g.gid == 0 || g.dry {
		return
	}
	for _, l := range g.segLeafs {
		if g.hasClaim {
			if l < g.claim[0] || l >= g.claim[1] {
				g.viol("leaf %d is written by a goroutine which claimed leafs %d to %d", l, g.claim[0], g.claim[1]-1)
			}
		} else if g.everLock {
			g.viol("leaf %d is written by a goroutine without having claimed it", l)
		}
	}
	g.segLeafs = nil
}

func (g *goRun) hooks(in *Interp, leafCut func(st *State, cs *CallSite) (int64, bool)) {
	r := g.r
	in.H.Load = func(in *Interp, st *State, fr *Frame, instr ssa.Instruction, p *Ptr) {
		g.access(p, false, r.P.ipos(instr))
	}
	in.H.Store = func(in *Interp, st *State, fr *Frame, instr ssa.Instruction, p *Ptr, v Val) {
		g.access(p, true, r.P.ipos(instr))
		if g.over && !g.dry && p.Obj.ID < g.mark {
			g.viol("memory is written at %s by a goroutine which has signalled its end", r.P.ipos(instr))
		}
		if g.gid != 0 && len(g.locks) > 0 && p.Obj.ID < g.mark && !g.dry {
			if _, ok := g.first[locKey(p)]; !ok {
				g.first[locKey(p)] = ptrVal{p, st.load(p)}
			}
		}
		if g.gid != 0 && len(g.locks) > 0 && p.Obj.ID < g.mark {
			if t, ok := v.(*Term); ok && t.P != nil {
				k := locKey(p)
				if _, ok := g.oldCell[k]; !ok {
					if o, ok := st.load(p).(*Term); ok && o.P != nil {
						g.oldCell[k] = o.P
					}
				}
				g.newCell[k] = t.P
			}
		}
	}
	in.H.Go = func(in *Interp, st *State, fr *Frame, cs *CallSite) {
		if cs.Fn == nil {
			g.viol("goroutine running an unknown function")
			return
		}
		if g.gid != 0 {
			g.viol("goroutine started by a goroutine")
			return
		}
		g.n++
		g.pending++
		if !g.start(in, st, fr, cs, g.n) {
			g.asleep = append(g.asleep, cs)
		}
	}
	in.H.Chan = g.chanOp
	old := in.H.Call
	in.H.Call = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		switch cs.Name {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
			if p, ok := cs.Args[0].(*Ptr); ok {
				k := locKey(p)
				if g.locks[k] {
					g.viol("lock is taken twice")
				}
				g.endSegment()
				g.locks[k] = true
				g.everLock = true
				g.oldCell, g.newCell = map[string]*Poly{}, map[string]*Poly{}
			} else {
				in.undecided("unknown lock")
			}
			return ret1(st, Tuple{}), true
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
			if p, ok := cs.Args[0].(*Ptr); ok {
				if !g.locks[locKey(p)] {
					g.viol("lock is released without being held")
				}
				delete(g.locks, locKey(p))
				g.endSegment()
				g.hasClaim = false
				n := 0
				for k, o := range g.oldCell {
					a, ok1 := o.constI()
					b, ok2 := g.newCell[k].constI()
					if ok1 && ok2 {
						g.claim = [2]int64{a, b}
						n++
					}
				}
				g.hasClaim = n == 1
			}
			return ret1(st, Tuple{}), true
		case "(*sync.WaitGroup).Add":
			if t, ok := cs.Args[1].(*Term); ok {
				n, ok := t.P.constI()
				if !ok || g.gid != 0 {
					g.viol("number of goroutines waited for is not known")
				}
				g.added += n
			}
			return ret1(st, Tuple{}), true
		case "(*sync.WaitGroup).Done":
			g.done++
			g.endSegment()
			if g.gid != 0 {
				g.hasClaim, g.everLock = false, true // no leafs from here on
				g.over = true
			}
			return ret1(st, Tuple{}), true
		case "(*sync.WaitGroup).Wait":
			if g.gid == 0 {
				for i, c := range g.asleep {
					if !g.start(in, st, fr, c, -1-i) {
						g.viol("a goroutine waits forever")
					}
				}
				g.asleep = nil
				if g.added != int64(g.n) {
					g.viol("%d goroutines are started, %d are waited for", g.n, g.added)
				}
				g.pending = 0
			}
			return ret1(st, Tuple{}), true
		case "github.com/templexxx/xorsimd.Bytes":
			if g.gid == 0 && g.pending > 0 {
				g.viol("nodes are hashed while goroutines are running")
			}
		}
		if cs.Fn != nil && strings.HasPrefix(cs.Name, "sync/atomic.Add") && len(cs.Args) == 2 {
			p, ok := cs.Args[0].(*Ptr)
			d, ok2 := cs.Args[1].(*Term)
			if ok && ok2 {
				if v, ok := st.load(p).(*Term); ok && v.P != nil {
					g.endSegment()
					if _, ok := g.first[locKey(p)]; !ok && !g.dry && g.gid != 0 {
						g.first[locKey(p)] = ptrVal{p, v}
					}
					nv := tAdd(v, d)
					st.store(p, nv)
					a, ok1 := v.P.constI()
					b, ok2 := nv.P.constI()
					g.everLock = true
					g.hasClaim = ok1 && ok2
					g.claim = [2]int64{a, b}
					return ret1(st, nv), true
				}
			}
		}
		if l, ok := leafCut(st, cs); ok {
			if g.dry {
				return ret1(st, Tuple{}), true
			}
			if g.over {
				g.viol("leaf %d is written by a goroutine which has signalled its end", l)
			}
			if w, dup := g.leaves[l]; dup && g.n > 0 {
				g.viol("leaf %d is written by goroutines %d and %d", l, w, g.gid)
			}
			g.leaves[l] = g.gid
			if g.gid != 0 {
				g.segLeafs = append(g.segLeafs, l)
			}
			return ret1(st, Tuple{}), true
		}
		return old(in, st, fr, cs)
	}
}

// start runs goroutine id, until its end, or returns false.
func (g *goRun) start(in *Interp, st *State, fr *Frame, cs *CallSite, id int) bool {
	g.gid = id
	g.over = false
	if g.mark == 0 {
		g.mark = nextObj
	}
	mark := g.mark
	g.mark = nextObj
	defer func() {
		g.gid = 0
		g.over = false
		g.mark = mark
	}()
	done := g.done
	g.hasClaim, g.everLock, g.segLeafs = false, false, nil
	if len(g.first) > 0 || len(g.leaves) > 0 && len(g.chans) > 0 {
		// as if it were the first
		s2 := st.clone()
		for _, f := range g.first {
			s2.store(f.p, f.v)
		}
		save := g.saveChans()
		for _, c := range g.chans {
			c.q = c.all
		}
		g.dry = true
		g.try(in, s2, fr, cs)
		g.dry, g.done, g.chans, g.over = false, done, save, false
		g.locks = map[string]bool{}
		g.hasClaim, g.everLock, g.segLeafs = false, false, nil
	}
	s2 := st.clone()
	os, blocked := g.try(in, s2, fr, cs)
	if blocked {
		g.locks = map[string]bool{}
		return false
	}
	g.endSegment()
	if len(os) != 1 || os[0].Panic {
		g.viol("a goroutine has %d outcomes", len(os))
	} else {
		*st = *os[0].St
	}
	if len(g.locks) > 0 {
		g.viol("a goroutine ends while holding a lock")
		g.locks = map[string]bool{}
	}
	if g.done != done+1 {
		g.viol("a goroutine signals its end %d times", g.done-done)
	}
	return true
}

// finish checks the recorded accesses
func (g *goRun) finish() {
	if g.n == 0 {
		g.r.ok("threads", g.name, "no goroutines are started")
		return
	}
	g.r.check(g.pending == 0, "threads", g.name, "", "all goroutines are waited for")
	var ks []string
	for k := range g.acc {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		as := g.acc[k]
		w := false
		for _, a := range as {
			w = w || a.w && a.who != 0
		}
		if !w {
			// written by the caller while goroutines run?
			for _, a := range as {
				if a.w && a.who == 0 {
					for _, b := range as {
						if b.who != 0 && b.locks == "" {
							g.viol("variable written at %s is read by a goroutine without a lock at %s", a.where, b.where)
						}
					}
				}
			}
			continue
		}
		for _, a := range as {
			if a.locks == "" {
				g.viol("variable shared by goroutines is accessed without a lock at %s", a.where)
				break
			}
		}
	}
	if !g.bad {
		g.r.ok("threads", g.name, "%d goroutines do not interfere", g.n)
	}
}

func (r *Rep) subTree(base *State, pa Params, threads, cpus int64) {
	h := int(pa.H / pa.D)
	n := int(pa.N)
	name := fmt.Sprintf("height %d threads %d", h, threads)
	sp := newSpec(pa)
	in := r.hashInterp()
	in.Bounded = 100
	st := base.clone()
	r.P.setX4(st, false)
	in.H.Call = cutPrecompute(r.P)
	st, ctx := r.newContext(in, st, pa)
	if st == nil {
		r.undec("tree", name, "", "rejected")
		return
	}
	if !st.setField(ctx, r.P.namedType("Context"), "Threads", intT(threads)) {
		r.undec("tree", name, "", "number of threads can't be configured")
		return
	}
	pub, sk := symBytes(st, "pubSeed", pa.N), symBytes(st, "skSeed", pa.N)
	pb, sb := st.bytesOf(pub), st.bytesOf(sk)
	tag := opaqueT("ph", "", 0, opaqueT("bytes", "", 0, pb...), opaqueT("bytes", "", 0, sb...))
	sta, layer, tree := r.symSTA(st)
	word := func(p *Poly) *Term { return mkInt(p, 32, false) }
	adrs := func(typ, a, b, c, d int64) []*Term {
		return []*Term{word(layer.P), word(pExt(tree.P, 32, 32)), word(pExt(tree.P, 0, 32)), intC(typ, 32, false),
			intC(a, 32, false), intC(b, 32, false), intC(c, 32, false), intC(d, 32, false)}
	}
	leaf := func(i int64) []*Term {
		a := append([]*Term{tag}, adrs(1, i, 0, 0, 0)...)
		return uiBytes("leaf", n, append(a, adrs(0, i, 0, 0, 0)...)...)
	}
	st, pad := r.newPad(in, st, ctx)
	g := &goRun{r: r, name: name, locks: map[string]bool{}, acc: map[string][]access{}, leaves: map[int64]int{},
		oldCell: map[string]*Poly{}, newCell: map[string]*Poly{}, first: map[string]ptrVal{}}
	genLeaf := r.P.ctxMethod("genLeafInto")
	pads := map[*Obj]int{}
	in.H.Call = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		if cs.Name == "runtime.NumCPU" || cs.Name == "runtime.GOMAXPROCS" {
			return ret1(st, intT(cpus)), true
		}
		return cutPrecompute(r.P)(in, st, fr, cs)
	}
	g.hooks(in, func(st *State, cs *CallSite) (int64, bool) {
		if cs.Fn == nil || cs.Name != genLeaf || len(cs.Args) != 6 {
			return 0, false
		}
		tag, lw, ow := tagOf(cs.Args[2]), addrWords(st, cs.Args[3]), addrWords(st, cs.Args[4])
		dst := asSlice(cs.Args[5])
		if tag == nil || lw == nil || ow == nil || dst == nil {
			in.undecided("arguments of genLeafInto")
			return 0, false
		}
		// scratchpads are not shared
		if g.n > 0 {
			for _, o := range objsOf(st, cs.Args[1]) {
				if w, ok := pads[o]; ok && w != g.gid {
					g.viol("goroutines share a scratchpad")
				}
				pads[o] = g.gid
			}
		}
		for _, k := range []int{5, 6, 7} {
			lw[k], ow[k] = intC(0, 32, false), intC(0, 32, false)
		}
		a := append([]*Term{tag}, lw...)
		st.putBytes(dst, 0, uiBytes("leaf", n, append(a, ow...)...))
		i, ok := ow[4].P.constI()
		if !ok {
			in.undecided("leaf generated is not known")
			return 0, false
		}
		return i, true
	})
	s2, ret := exec1(in, st, r.P.needFn("Context.genSubTree"), ctx, pad, sk, pub, sta)
	g.finish()
	mt := ret
	mtObj := newObj("mt", r.P.treeType())
	s2.heap[mtObj] = mt
	level := make([][]*Term, 1<<uint(h))
	for i := range level {
		level[i] = leaf(int64(i))
	}
	node := r.P.treeNode()
	in.H = Hooks{}
	for l := 0; l <= h; l++ {
		if l > 0 {
			var nx [][]*Term
			for i := 0; i+1 < len(level); i += 2 {
				nx = append(nx, sp.RandHash(pb, adrs(2, 0, int64(l-1), int64(i/2), 0), level[i], level[i+1]))
			}
			level = nx
		}
		for i := range level {
			_, v := exec1(in, s2.clone(), node, &Ptr{Obj: mtObj}, intC(int64(l), 32, false), intC(int64(i), 32, false))
			if !r.cmp("tree", fmt.Sprintf("%s level %d", name, l), "nodes", s2.bytesOf(asSlice(v)), level[i]) {
				break
			}
		}
	}
	for _, u := range in.undec {
		r.undec("tree", name, "", "%s", u)
	}
	r.seen(in)
}

// layout of merkle trees
func (r *Rep) layout(base *State) {
	in := r.hashInterp()
	st := base.clone()
	newMt := r.P.needFn("newMerkleTree")
	node := r.P.treeNode()
	for _, n := range []int64{16, 24, 32, 64} {
		for ht := int64(1); ht <= 7; ht++ {
			name := fmt.Sprintf("n=%d height=%d", n, ht)
			s1, mt := exec1(in, st.clone(), newMt, intC(ht, 32, false), intC(n, 32, false))
			o := newObj("mt", r.P.treeType())
			s1.heap[o] = mt
			used := map[int64]bool{}
			ok := true
			var obj *Obj
			get := func(l, i int64) (int64, *Slice) {
				_, v := exec1(in, s1.clone(), node, &Ptr{Obj: o}, intC(l, 32, false), intC(i, 32, false))
				s := asSlice(v)
				off, ok1 := s.Off.P.constI()
				ln, ok2 := s.Len.P.constI()
				if !ok1 || !ok2 || ln != n {
					return -1, s
				}
				return off, s
			}
			for l := int64(0); l < ht && ok; l++ {
				for i := int64(0); i < 1<<uint(ht-1-l) && ok; i++ {
					off, s := get(l, i)
					if obj == nil {
						obj = s.Obj
					}
					if off < 0 || s.Obj != obj {
						ok = false
					}
					for k := off; k < off+n; k++ {
						if used[k] {
							ok = false
						}
						used[k] = true
					}
				}
			}
			r.check(ok && len(used) == int(((1<<uint(ht))-1)*n), "layout", name, "", "nodes do not overlap and fill the buffer")
			if ht < 2 || obj == nil {
				continue
			}
			// authentication paths
			fn := r.P.authPath()
			if fn == nil {
				continue
			}
			s2 := s1.clone()
			size := ((int64(1) << uint(ht)) - 1) * n
			buf := symBytes(s2, "nodes", size)
			bb := s2.bytesOf(buf)
			a := mt.(*Agg)
			for i := 0; i < a.N; i++ {
				if sl, ok := a.get(s2, pConstI(int64(i))).(*Slice); ok && sl.Obj != nil {
					s2.store(&Ptr{o, []PE{{F: i}}}, buf)
				}
			}
			for leaf := int64(0); leaf < 1<<uint(ht-1); leaf++ {
				s3, v := exec1(in, s2.clone(), fn, &Ptr{Obj: o}, intC(leaf, 32, false))
				var want []*Term
				for l := int64(0); l < ht-1; l++ {
					off, _ := get(l, (leaf>>uint(l))^1)
					if off < 0 || off+n > size {
						continue
					}
					want = append(want, bb[off:off+n]...)
				}
				if !r.cmp("layout", name, "authentication paths consist of siblings", s3.bytesOf(asSlice(v)), want) {
					break
				}
			}
		}
	}
	r.seen(in)
}

// objects a value gives access to
func objsOf(st *State, v Val) (r []*Obj) {
	seen := map[*Obj]bool{}
	var walk func(v Val, d int)
	obj := func(o *Obj, d int) {
		if o == nil || seen[o] {
			return
		}
		seen[o] = true
		r = append(r, o)
		if d < 4 {
			if a, ok := st.heap[o].(*Agg); ok && a.N < 64 {
				walk(a, d+1)
			}
		}
	}
	walk = func(v Val, d int) {
		switch v := v.(type) {
		case *Slice:
			obj(v.Obj, d)
		case *Ptr:
			obj(v.Obj, d)
		case *Iface:
			walk(v.V, d)
		case *Agg:
			for i := 0; i < v.N && v.N < 64; i++ {
				walk(v.get(st, pConstI(int64(i))), d)
			}
		}
	}
	walk(v, 0)
	return
}
