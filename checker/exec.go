package main

// Abstract interpreter over the compiler IR (go/ssa).
//
// A frame is processed block by block in a weak topological order.  Undecided
// branches split the abstract state; in merge mode states meeting at a block
// are joined again (values become guarded), in path mode they are kept apart
// (trace partitioning).  Loops are either unrolled, when their trip count is
// decided by the abstract state, or replaced by one generic iteration whose
// modified cells are forgotten (a fixpoint over the set of modified cells),
// keeping affine induction variables.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Event struct {
	Kind  string
	Name  string
	Args  []Val
	Ret   Val
	Instr ssa.Instruction
	Stack string
	Facts *Facts
	Fr    *Frame
	Sub   [][]*Event
	Sub0  []*State // state at end of each back path (generic loops)
	X     interface{}
	St    *State
}

type EvNode struct {
	prev *EvNode
	E    *Event
	n    int
}

func (st *State) emit(e *Event) {
	n := 1
	if st.ev != nil {
		n = st.ev.n + 1
	}
	e.Facts = st.facts
	st.ev = &EvNode{st.ev, e, n}
}

func (st *State) trace() []*Event {
	var r []*Event
	for n := st.ev; n != nil; n = n.prev {
		r = append(r, n.E)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func traceSince(from, to *EvNode) []*Event {
	var r []*Event
	for n := to; n != nil && n != from; n = n.prev {
		r = append(r, n.E)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

type Frame struct {
	Fn    *ssa.Function
	Up    *Frame
	Call  ssa.Instruction
	Depth int
	bind  []Val
	args  []Val
}

func (f *Frame) stack() string {
	s := ""
	for g := f; g != nil; g = g.Up {
		if s != "" {
			s += " < "
		}
		s += fnName(g.Fn)
	}
	return s
}

// how often fn is on the stack
func (f *Frame) times(fn *ssa.Function) (n int) {
	for ; f != nil; f = f.Up {
		if f.Fn == fn {
			n++
		}
	}
	return
}

func (f *Frame) onStack(fn *ssa.Function) bool {
	for g := f; g != nil; g = g.Up {
		if g.Fn == fn {
			return true
		}
	}
	return false
}

type deferred struct {
	instr *ssa.Defer
	cs    *CallSite
}

type item struct {
	st     *State
	env    map[ssa.Value]Val
	b      *ssa.BasicBlock
	prev   *ssa.BasicBlock
	defers []deferred
	dec    map[*Loop]bool
}

func (it *item) clone() *item {
	n := &item{st: it.st.clone(), b: it.b, prev: it.prev, defers: it.defers[:len(it.defers):len(it.defers)]}
	n.env = make(map[ssa.Value]Val, len(it.env)+8)
	for k, v := range it.env {
		n.env[k] = v
	}
	n.dec = make(map[*Loop]bool, len(it.dec))
	for k, v := range it.dec {
		n.dec[k] = v
	}
	return n
}

type Outcome struct {
	St    *State
	Ret   Val
	Panic bool
	Why   string
	Pos   token.Pos
}

type CallSite struct {
	Instr  ssa.CallInstruction
	Fn     *ssa.Function // static or resolved callee
	Name   string        // full name of callee, or "iface.Method"
	Method string        // for unresolved interface calls
	Recv   Val
	Args   []Val // including receiver
	Bind   []Val
	Sig    *types.Signature
	Fr     *Frame
	Dyn    *Func // unresolved dynamic call
	Blt    *ssa.Builtin
}

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}

type fnInfo struct {
	loops map[*ssa.BasicBlock]*Loop // by header
	prio  map[*ssa.BasicBlock]int
	inner map[*ssa.BasicBlock]*Loop // innermost loop of block
}

type Hooks struct {
	// Call may take over a call.
	Call func(in *Interp, st *State, fr *Frame, c *CallSite) ([]Outcome, bool)
	// Inline decides whether a function with body is analysed in place.
	Inline func(in *Interp, fr *Frame, fn *ssa.Function) bool
	// Opaque gets calls nobody knows about.
	Opaque func(in *Interp, st *State, fr *Frame, c *CallSite) ([]Outcome, bool)
	// Check is called with a condition which must hold (bounds, nil, ...).
	Check func(in *Interp, st *State, fr *Frame, instr ssa.Instruction, kind string, cond *Term)
	// Go is called on go statements.
	Go func(in *Interp, st *State, fr *Frame, c *CallSite)
	// Store/Load hooks
	Store func(in *Interp, st *State, fr *Frame, instr ssa.Instruction, p *Ptr, v Val)
	Load  func(in *Interp, st *State, fr *Frame, instr ssa.Instruction, p *Ptr)
	// Loop hooks for generic iterations
	LoopHead func(in *Interp, entry, st *State, fr *Frame, h *ssa.BasicBlock)
	LoopBack func(in *Interp, head, back *State, fr *Frame, h *ssa.BasicBlock)
	// MergeUser joins the rule specific state, ok=false prevents joining
	MergeUser func(a, b *State) bool
	Branch    func(in *Interp, st *State, fr *Frame, i *ssa.If, cond *Term)
	MapUpdate func(in *Interp, st *State, fr *Frame, instr ssa.Instruction, m, k, v Val, del bool)
	// Chan is called for operations on channels: send, recv and close
	Chan func(in *Interp, st *State, fr *Frame, op string, ch, v Val) (ret Val, ok *Term, done bool)
}

type Interp struct {
	P     *Prog
	H     Hooks
	Merge bool
	// fork where a map is read with a key that may be one of several
	ForkMaps bool
	// maximal number of iterations of a loop which is unrolled
	MaxUnroll int
	MaxDepth  int
	Recurse   int // how deep recursion is followed
	NoUnroll  bool
	// number of undecided iterations a loop may be unrolled for
	Bounded  int
	SplitCap int
	Addr     *Term // value of pointers converted to integers
	steps    int
	MaxSteps int
	notes    []string
	undec    []string
	info     map[*ssa.Function]*fnInfo
	fnsSeen  map[*ssa.Function]bool
	nObl     int
	failLoop map[*ssa.BasicBlock]bool
	// nesting of loops of which an arbitrary iteration is analysed
	inGeneric int
}

func newInterp(p *Prog) *Interp {
	in := &Interp{P: p, MaxUnroll: 1 << 16, MaxDepth: 60, MaxSteps: 400000000,
		info: map[*ssa.Function]*fnInfo{}, fnsSeen: map[*ssa.Function]bool{}}
	if guards != nil {
		in.H.Check = guardCheck
	}
	return in
}

type abortLoop struct{ l *Loop }
type abortAll struct{ why string }

func (in *Interp) undecided(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for _, x := range in.undec {
		if x == s {
			return
		}
	}
	dbg("undecided: %s", s)
	in.undec = append(in.undec, s)
}

// ---- CFG information

func (in *Interp) fnInfo(fn *ssa.Function) *fnInfo {
	if i, ok := in.info[fn]; ok {
		return i
	}
	i := &fnInfo{loops: map[*ssa.BasicBlock]*Loop{}, prio: map[*ssa.BasicBlock]int{}, inner: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := i.loops[h]
				if l == nil {
					l = &Loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					i.loops[h] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	for _, l := range i.loops {
		for _, m := range i.loops {
			if m != l && m.blocks[l.header] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, l := range i.loops {
			if l.blocks[b] && (i.inner[b] == nil || len(l.blocks) < len(i.inner[b].blocks)) {
				i.inner[b] = l
			}
		}
	}
	// Priorities: topological order in which loops are contiguous, by
	// repeatedly taking strongly connected components.
	n := 0
	var visit func(blocks []*ssa.BasicBlock, entry *ssa.BasicBlock)
	visit = func(blocks []*ssa.BasicBlock, entry *ssa.BasicBlock) {
		for _, scc := range sccs(blocks, entry) {
			if len(scc) == 1 {
				i.prio[scc[0]] = n
				n++
				continue
			}
			// header first
			var h *ssa.BasicBlock
			for _, b := range scc {
				if l := i.loops[b]; l != nil && (h == nil || len(l.blocks) > len(i.loops[h].blocks)) {
					h = b
				}
			}
			if h == nil { // irreducible
				h = scc[0]
			}
			i.prio[h] = n
			n++
			var rest []*ssa.BasicBlock
			for _, b := range scc {
				if b != h {
					rest = append(rest, b)
				}
			}
			visit(rest, nil)
		}
	}
	visit(fn.Blocks, nil)
	in.info[fn] = i
	return i
}

// strongly connected components in topological order
func sccs(blocks []*ssa.BasicBlock, _ *ssa.BasicBlock) [][]*ssa.BasicBlock {
	inSet := map[*ssa.BasicBlock]bool{}
	for _, b := range blocks {
		inSet[b] = true
	}
	idx := map[*ssa.BasicBlock]int{}
	low := map[*ssa.BasicBlock]int{}
	on := map[*ssa.BasicBlock]bool{}
	var stack []*ssa.BasicBlock
	var out [][]*ssa.BasicBlock
	c := 0
	var strong func(v *ssa.BasicBlock)
	strong = func(v *ssa.BasicBlock) {
		c++
		idx[v], low[v] = c, c
		stack = append(stack, v)
		on[v] = true
		for _, w := range v.Succs {
			if !inSet[w] {
				continue
			}
			if idx[w] == 0 {
				strong(w)
				if low[w] < low[v] {
					low[v] = low[w]
				}
			} else if on[w] && idx[w] < low[v] {
				low[v] = idx[w]
			}
		}
		if low[v] == idx[v] {
			var scc []*ssa.BasicBlock
			for {
				w := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[w] = false
				scc = append(scc, w)
				if w == v {
					break
				}
			}
			sort.Slice(scc, func(i, j int) bool { return scc[i].Index < scc[j].Index })
			out = append(out, scc)
		}
	}
	for _, b := range blocks {
		if idx[b] == 0 {
			strong(b)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---- functions

// Analyses fn from st (which is consumed).
func (in *Interp) Exec(st *State, up *Frame, fn *ssa.Function, args, bind []Val, call ssa.Instruction) []Outcome {
	if fn.Blocks == nil {
		in.undecided("no body for %s", fn)
		return nil
	}
	fr := &Frame{Fn: fn, Up: up, Call: call, bind: bind, args: args}
	if up != nil {
		fr.Depth = up.Depth + 1
	}
	if fr.Depth > in.MaxDepth {
		panic(abortAll{"call depth exceeded at " + fr.stack()})
	}
	in.fnsSeen[fn] = true
	it := &item{st: st, env: map[ssa.Value]Val{}, b: fn.Blocks[0], dec: map[*Loop]bool{}}
	for i, p := range fn.Params {
		if i < len(args) {
			it.env[p] = args[i]
		} else {
			it.env[p] = symVal(p.Type(), fresh("param_"+p.Name()))
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			it.env[p] = bind[i]
		} else {
			it.env[p] = symVal(p.Type(), fresh("free_"+p.Name()))
		}
	}
	_, outs, _ := in.run(fr, []*item{it}, nil)
	if in.Merge {
		outs = in.mergeOutcomes(outs)
	}
	return outs
}

func (in *Interp) mergeOutcomes(outs []Outcome) []Outcome {
	for i := 0; i < len(outs); i++ {
		for j := i + 1; j < len(outs); {
			if outs[i].Panic != outs[j].Panic {
				j++
				continue
			}
			if outs[i].Panic {
				// keep them
				j++
				continue
			}
			st, c, ok := in.mergeStates(outs[i].St, outs[j].St)
			if !ok {
				j++
				continue
			}
			outs[i] = Outcome{St: st, Ret: mergeVal(c, outs[i].Ret, outs[j].Ret), Pos: outs[i].Pos}
			outs = append(outs[:j], outs[j+1:]...)
		}
	}
	return outs
}

// Joins two states; c distinguishes the first from the second.
func (in *Interp) mergeStates(a, b *State) (*State, *Term, bool) {
	if a.ev != b.ev {
		return nil, nil, false
	}
	if in.H.MergeUser != nil {
		if !in.H.MergeUser(a, b) {
			return nil, nil, false
		}
	} else {
		if len(a.user) != len(b.user) {
			return nil, nil, false
		}
		for k, v := range a.user {
			if b.user[k] != v {
				return nil, nil, false
			}
		}
	}
	k := 0
	for k < len(a.pc) && k < len(b.pc) && a.pc[k] == b.pc[k] {
		k++
	}
	ca, cb := tTrue, tTrue
	for _, t := range a.pc[k:] {
		ca = bAnd(ca, t)
	}
	for _, t := range b.pc[k:] {
		cb = bAnd(cb, t)
	}
	n := a.clone()
	n.pc = append([]*Term{}, a.pc[:k]...)
	var o *Term
	if k < len(a.pc) && k < len(b.pc) && bNot(a.pc[k]) == b.pc[k] {
		xa, xb := tTrue, tTrue
		for _, t := range a.pc[k+1:] {
			xa = bAnd(xa, t)
		}
		for _, t := range b.pc[k+1:] {
			xb = bAnd(xb, t)
		}
		o = bIte(a.pc[k], xa, xb)
	} else {
		o = bOr(ca, cb)
	}
	if o != tTrue {
		n.pc = append(n.pc, o)
	}
	c := ca
	if k < len(a.pc) && k < len(b.pc) && bNot(a.pc[k]) == b.pc[k] {
		// the first literal on which they differ is enough
		c = a.pc[k]
	}
	n.facts = commonFacts(a.facts, b.facts)
	seen := map[*Obj]bool{}
	var objs []*Obj
	for o := range a.heap {
		seen[o] = true
		objs = append(objs, o)
	}
	for o := range b.heap {
		if !seen[o] {
			objs = append(objs, o)
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].ID < objs[j].ID })
	for _, o := range objs {
		va, oka := a.heap[o]
		vb, okb := b.heap[o]
		if oka && okb && idVal(va, vb) {
			continue
		}
		if !oka {
			if o.Sym == nil && !o.Global { // allocated in b only
				n.heap[o] = vb
				continue
			}
			va = a.root(o)
		}
		if !okb {
			if o.Sym == nil && !o.Global {
				continue
			}
			vb = b.root(o)
		}
		n.heap[o] = mergeVal(c, va, vb)
	}
	return n, c, true
}

func commonFacts(a, b *Facts) *Facts {
	for a != b {
		if a == nil || b == nil {
			return newFacts()
		}
		if a.depth >= b.depth {
			a = a.parent
		} else {
			b = b.parent
		}
	}
	if a == nil {
		return newFacts()
	}
	return a
}

func (in *Interp) mergeItems(a, b *item) (*item, bool) {
	if len(a.defers) != len(b.defers) || a.b != b.b {
		return nil, false
	}
	for i := range a.defers {
		if a.defers[i].instr != b.defers[i].instr {
			return nil, false
		}
	}
	st, c, ok := in.mergeStates(a.st, b.st)
	if !ok {
		return nil, false
	}
	n := &item{st: st, b: a.b, prev: a.prev, defers: a.defers, env: map[ssa.Value]Val{}, dec: map[*Loop]bool{}}
	for k, v := range a.env {
		if w, ok := b.env[k]; ok {
			n.env[k] = mergeVal(c, v, w)
		} else {
			n.env[k] = v
		}
	}
	for k, v := range b.env {
		if _, ok := a.env[k]; !ok {
			n.env[k] = v
		}
	}
	for k := range a.dec {
		if b.dec[k] {
			n.dec[k] = true
		}
	}
	return n, true
}

// Joins items at the same block, most deeply branched ones first, so that
// complementary branches cancel.
func (in *Interp) mergeAll(its []*item) []*item {
	for len(its) > 1 {
		sort.SliceStable(its, func(i, j int) bool { return len(its[i].st.pc) > len(its[j].st.pc) })
		merged := false
	outer:
		for i := range its {
			// prefer a partner with the longest common path condition
			best, bestK := -1, -1
			for j := i + 1; j < len(its); j++ {
				k := 0
				a, b := its[i].st.pc, its[j].st.pc
				for k < len(a) && k < len(b) && a[k] == b[k] {
					k++
				}
				if k > bestK {
					best, bestK = j, k
				}
				if j-i > 8 && bestK >= len(a)-1 {
					break
				}
			}
			if best < 0 {
				continue
			}
			if m, ok := in.mergeItems(its[i], its[best]); ok {
				its[i] = m
				its = append(its[:best:best], its[best+1:]...)
				merged = true
				break outer
			}
		}
		if !merged {
			break
		}
	}
	return its
}

// Processes items until they leave the region (the blocks of the loop within,
// or the function).
func (in *Interp) run(fr *Frame, items []*item, within *Loop) (exits []*item, outs []Outcome, back []*item) {
	info := in.fnInfo(fr.Fn)
	work := items
	first := map[*item]bool{}
	if within != nil {
		for _, it := range items {
			first[it] = true
		}
	}
	for len(work) > 0 {
		best := 0
		for i := range work {
			if info.prio[work[i].b] < info.prio[work[best].b] {
				best = i
			}
		}
		it := work[best]
		work = append(work[:best:best], work[best+1:]...)
		if in.Merge && !first[it] {
			same := []*item{it}
			for i := 0; i < len(work); {
				if work[i].b == it.b && !first[work[i]] {
					same = append(same, work[i])
					work = append(work[:i:i], work[i+1:]...)
					continue
				}
				i++
			}
			same = in.mergeAll(same)
			it = same[0]
			work = append(work, same[1:]...)
		}
		var next []*item
		if l := info.loops[it.b]; l != nil && !first[it] {
			ex, os := in.loop(fr, l, it)
			outs = append(outs, os...)
			next = ex
		} else {
			nx, os := in.block(fr, it)
			outs = append(outs, os...)
			next = nx
		}
		for _, n := range next {
			if within != nil {
				if n.b == within.header {
					back = append(back, n)
					continue
				}
				if !within.blocks[n.b] {
					exits = append(exits, n)
					continue
				}
			}
			work = append(work, n)
		}
		if len(work) > 20000 {
			panic(abortAll{"too many paths in " + fr.stack()})
		}
	}
	return
}

// One block, from its first non-phi instruction.
func (in *Interp) block(fr *Frame, it *item) (next []*item, outs []Outcome) {
	type cont struct {
		it  *item
		idx int
	}
	work := []cont{{it, 0}}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		it := c.it
		b := it.b
	instrs:
		for i := c.idx; i < len(b.Instrs); i++ {
			in.steps++
			if in.steps > in.MaxSteps {
				panic(abortAll{"analysis budget exceeded in " + fr.stack()})
			}
			switch x := b.Instrs[i].(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				cond := in.val(it, x.Cond)
				ct := asBool(cond)
				if in.H.Branch != nil {
					in.H.Branch(in, it.st, fr, x, ct)
				}
				d := it.st.facts.decide(ct)
				for _, l := range in.exitLoops(fr, b) {
					if d != 0 {
						it.dec[l] = true
					}
				}
				switch d {
				case 1:
					next = append(next, in.edge(it, b, b.Succs[0]))
				case -1:
					next = append(next, in.edge(it, b, b.Succs[1]))
				default:
					o := it.clone()
					it.st.assume(ct, true)
					it.st.pc = append(it.st.pc, ct)
					if !it.st.facts.bad {
						next = append(next, in.edge(it, b, b.Succs[0]))
					}
					o.st.assume(ct, false)
					o.st.pc = append(o.st.pc, bNot(ct))
					if !o.st.facts.bad {
						next = append(next, in.edge(o, b, b.Succs[1]))
					}
				}
				break instrs
			case *ssa.Jump:
				next = append(next, in.edge(it, b, b.Succs[0]))
				break instrs
			case *ssa.Return:
				var r Val
				switch len(x.Results) {
				case 0:
					r = Tuple{}
				case 1:
					r = in.val(it, x.Results[0])
				default:
					t := make(Tuple, len(x.Results))
					for i, v := range x.Results {
						t[i] = in.val(it, v)
					}
					r = t
				}
				outs = append(outs, Outcome{St: it.st, Ret: r, Pos: x.Pos()})
				break instrs
			case *ssa.Panic:
				notePanic(in, it.st, fr, x)
				outs = append(outs, Outcome{St: it.st, Panic: true, Why: "panic", Pos: x.Pos()})
				break instrs
			case *ssa.RunDefers:
				its, os := in.runDefers(fr, it)
				outs = append(outs, os...)
				if len(its) == 1 && its[0] == it {
					continue
				}
				for _, n := range its {
					work = append(work, cont{n, i + 1})
				}
				break instrs
			case *ssa.Defer:
				cs := in.callSite(fr, it, x)
				it.defers = append(it.defers[:len(it.defers):len(it.defers)], deferred{x, cs})
			case *ssa.Go:
				cs := in.callSite(fr, it, x)
				if in.H.Go != nil {
					in.H.Go(in, it.st, fr, cs)
				} else {
					it.st.emit(&Event{Kind: "go", Name: cs.Name, Args: cs.Args, Instr: x, Fr: fr, X: cs})
				}
			case *ssa.Call:
				cs := in.callSite(fr, it, x)
				os := in.call(it.st, fr, cs)
				n := 0
				for _, o := range os {
					if o.Panic {
						outs = append(outs, o)
						continue
					}
					n++
				}
				k := 0
				for _, o := range os {
					if o.Panic {
						continue
					}
					k++
					ni := it
					if n > 1 && k < n {
						ni = it.clone()
					}
					ni.st = o.St
					ni.env[x] = o.Ret
					if n == 1 {
						continue instrs
					}
					work = append(work, cont{ni, i + 1})
				}
				break instrs
			case *ssa.Lookup:
				if in.ForkMaps {
					if c := in.lookupCase(it, x); c != nil {
						o := it.clone()
						o.st.assume(c, true)
						o.st.pc = append(o.st.pc, c)
						it.st.assume(c, false)
						it.st.pc = append(it.st.pc, bNot(c))
						for _, n := range []*item{it, o} {
							if !n.st.facts.bad {
								work = append(work, cont{n, i})
							}
						}
						break instrs
					}
				}
				if !in.instr(fr, it, x) {
					notePanic(in, it.st, fr, x)
					outs = append(outs, Outcome{St: it.st, Panic: true, Why: "run-time panic", Pos: x.Pos()})
					break instrs
				}
			default:
				if !in.instr(fr, it, x) {
					notePanic(in, it.st, fr, x)
					outs = append(outs, Outcome{St: it.st, Panic: true, Why: "run-time panic", Pos: x.Pos()})
					break instrs
				}
			}
		}
	}
	return
}

func (in *Interp) exitLoops(fr *Frame, b *ssa.BasicBlock) (r []*Loop) {
	info := in.fnInfo(fr.Fn)
	for l := info.inner[b]; l != nil; l = l.parent {
		for _, s := range b.Succs {
			if !l.blocks[s] {
				r = append(r, l)
				break
			}
		}
	}
	return
}

func (in *Interp) edge(it *item, from, to *ssa.BasicBlock) *item {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, in.val(it, p.Edges[pi]))
	}
	for i, p := range phis {
		it.env[p] = vals[i]
	}
	it.prev = from
	it.b = to
	return it
}

// ---- loops

func (in *Interp) loop(fr *Frame, l *Loop, it *item) (exits []*item, outs []Outcome) {
	if !in.NoUnroll && !in.failLoop[l.header] {
		undec, notes, steps := len(in.undec), len(in.notes), in.nObl
		ex, os, ok := in.unroll(fr, l, it.clone())
		if ok {
			return ex, os
		}
		in.undec, in.notes, in.nObl = in.undec[:undec], in.notes[:notes], steps
	}
	dbg("generic loop at %s in %s", in.P.ipos(l.header.Instrs[0]), fr.stack())
	return in.generic(fr, l, it)
}

func (in *Interp) unroll(fr *Frame, l *Loop, it *item) (exits []*item, outs []Outcome, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if a, is := r.(abortLoop); is && a.l == l {
				exits, outs, ok = nil, nil, false
				return
			}
			panic(r)
		}
	}()
	items := []*item{it}
	for k := 0; ; k++ {
		if k > in.MaxUnroll {
			return nil, nil, false
		}
		for _, x := range items {
			delete(x.dec, l)
		}
		ex, os, back := in.run(fr, items, l)
		exits = append(exits, ex...)
		outs = append(outs, os...)
		if len(back) == 0 {
			return exits, outs, true
		}
		for _, x := range back {
			if !x.dec[l] && k >= in.Bounded {
				return nil, nil, false
			}
		}
		if in.Merge {
			back = in.mergeAll(back)
		}
		if len(back)+len(exits) > 4096 {
			return nil, nil, false
		}
		items = back
	}
}

type cell struct {
	obj  *Obj
	path []PE
	t    types.Type
}

func cellKey(c cell) string { return fmt.Sprintf("%d%s", c.obj.ID, pathKey(c.path)) }

// leaf cells in which two values differ
func diffVal(st1, st2 *State, o *Obj, path []PE, a, b Val, t types.Type, out *[]cell) {
	if idVal(a, b) {
		return
	}
	x, ok1 := a.(*Agg)
	y, ok2 := b.(*Agg)
	if ok1 && ok2 && len(x.log) == 0 && len(y.log) == 0 && x.N == y.N && x.Sym == y.Sym && x.bt == y.bt {
		keys := map[int]bool{}
		for _, i := range x.el.keys() {
			keys[i] = true
		}
		for _, i := range y.el.keys() {
			keys[i] = true
		}
		var ks []int
		for i := range keys {
			ks = append(ks, i)
		}
		sort.Ints(ks)
		for _, i := range ks {
			va, ok := x.el.get(i)
			if !ok {
				va = x.baseAt(i)
			}
			vb, ok := y.el.get(i)
			if !ok {
				vb = y.baseAt(i)
			}
			pe := PE{F: i}
			if !x.isStruct() {
				pe = PE{Idx: pConstI(int64(i))}
			}
			diffVal(st1, st2, o, subPath(path, pe), va, vb, x.elemType(i), out)
		}
		return
	}
	if ok1 && ok2 && x.isStruct() && y.isStruct() && x.N == y.N {
		for i := 0; i < x.N; i++ {
			diffVal(st1, st2, o, subPath(path, PE{F: i}), x.get(st1, pConstI(int64(i))), y.get(st2, pConstI(int64(i))), x.elemType(i), out)
		}
		return
	}
	if ok1 && ok2 && sameAgg(x, y) {
		return
	}
	if st1.sameVal(a, b) {
		return
	}
	*out = append(*out, cell{o, path, t})
}

func sameAgg(x, y *Agg) bool {
	if x.N != y.N || x.Sym != y.Sym || x.bt != y.bt || len(x.log) != len(y.log) || x.el.n != y.el.n {
		return false
	}
	for i := range x.log {
		if x.log[i] != y.log[i] {
			return false
		}
	}
	for _, i := range x.el.keys() {
		v, _ := x.el.get(i)
		w, ok := y.el.get(i)
		if !ok {
			return false
		}
		if idVal(v, w) {
			continue
		}
		p, ok1 := v.(*Agg)
		q, ok2 := w.(*Agg)
		if ok1 && ok2 && sameAgg(p, q) {
			continue
		}
		return false
	}
	return true
}

// syntactic identity of two values
func (st *State) sameVal(a, b Val) bool {
	if idVal(a, b) {
		return true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x.P != nil && y.P != nil && st.facts.norm(x.P) == st.facts.norm(y.P)
	case *Ptr:
		y, ok := b.(*Ptr)
		return ok && x.Obj == y.Obj && pathKey(x.Path) == pathKey(y.Path)
	case *Slice:
		y, ok := b.(*Slice)
		return ok && x.Obj == y.Obj && (x.Obj == nil || pathKey(x.Path) == pathKey(y.Path) &&
			st.facts.norm(x.Off.P) == st.facts.norm(y.Off.P) && st.facts.norm(x.Len.P) == st.facts.norm(y.Len.P))
	case NilV:
		_, ok := b.(NilV)
		return ok
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			return false
		}
		if x.Sym != nil || y.Sym != nil {
			return x.Sym == y.Sym
		}
		return x.T != nil && y.T != nil && types.Identical(x.T, y.T) && st.sameVal(x.V, y.V)
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x.Obj == y.Obj
	case *Func:
		y, ok := b.(*Func)
		if !ok || x.Fn != y.Fn || x.Sym != y.Sym || len(x.Bind) != len(y.Bind) {
			return false
		}
		for i := range x.Bind {
			if !st.sameVal(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !st.sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Agg:
		y, ok := b.(*Agg)
		return ok && sameAgg(x, y)
	}
	return false
}

func (in *Interp) generic(fr *Frame, l *Loop, it *item) (exits []*item, outs []Outcome) {
	in.inGeneric++
	defer func() { in.inGeneric-- }()
	var phis []*ssa.Phi
	for _, x := range l.header.Instrs {
		if p, ok := x.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	cells := map[string]cell{}
	var order []string
	iv := map[*ssa.Phi]*big.Int{} // affine induction variables
	havocPhi := map[*ssa.Phi]bool{}
	cellIV := map[string]*big.Int{}
	noIV := map[string]bool{}
	var invs []*Term
	tested := false
	undec, notes, nobl := len(in.undec), len(in.notes), in.nObl
	name := fnName(fr.Fn)
	for round := 0; ; round++ {
		if round > 40 {
			panic(abortAll{"no fixpoint for loop in " + fr.stack()})
		}
		in.undec, in.notes, in.nObl = in.undec[:undec], in.notes[:notes], nobl
		K := symRange(freshName("K"), 64, true, 0, -1)
		h := it.clone()
		head := h.st
		for _, p := range phis {
			v := it.env[p]
			if c, ok := iv[p]; ok {
				t := v.(*Term)
				h.env[p] = mkInt(pAdd(t.P, pScale(K.P, c)), t.W, t.Sg)
			} else if havocPhi[p] {
				h.env[p] = symVal(p.Type(), fresh("phi_"+p.Comment))
			}
		}
		for _, k := range order {
			c := cells[k]
			p := &Ptr{c.obj, c.path}
			if d, ok := cellIV[k]; ok && !noIV[k] {
				t := it.st.load(p).(*Term)
				head.store(p, mkInt(pAdd(t.P, pScale(K.P, d)), t.W, t.Sg))
				continue
			}
			if len(c.path) == 0 {
				if m, ok := c.obj.T.Underlying().(*types.Map); ok {
					head.heap[c.obj] = &MapAgg{T: m, Sym: true, bt: fresh("loopmap")}
					continue
				}
			}
			head.store(p, symVal(c.t, fresh("loop")))
		}
		for _, t := range invs {
			head.assume(substK(t, K), true)
		}
		if in.H.LoopHead != nil {
			in.H.LoopHead(in, it.st, head, fr, l.header)
		}
		marker := &Event{Kind: "loop", Name: name, Fr: fr, Instr: l.header.Instrs[0], X: K}
		head.emit(marker)
		headNode := head.ev
		headCopy := head.clone()
		headEnv := map[*ssa.Phi]Val{}
		for _, p := range phis {
			headEnv[p] = h.env[p]
		}
		ex, os, back := in.run(fr, []*item{h}, l)
		rest := back[:0:0]
		for _, b := range back {
			if !in.leaves(fr, l, b) {
				rest = append(rest, b)
				continue
			}
			// an iteration after which the loop certainly ends
			ex2, os2, back2 := in.run(fr, []*item{b}, l)
			ex, os, rest = append(ex, ex2...), append(os, os2...), append(rest, back2...)
		}
		back = rest
		changed := false
		for _, b := range back {
			for _, p := range phis {
				if havocPhi[p] {
					continue
				}
				hv, bv := headEnv[p], b.env[p]
				if c, ok := iv[p]; ok {
					if !isInc(b.st, hv, bv, c) {
						delete(iv, p)
						havocPhi[p] = true
						changed = true
					}
					continue
				}
				if headCopy.sameVal(hv, bv) {
					continue
				}
				changed = true
				if c := incOf(b.st, hv, bv); c != nil {
					iv[p] = c
				} else {
					havocPhi[p] = true
				}
			}
			var diff []cell
			objs := b.st.objs()
			for _, o := range objs {
				if _, ok := headCopy.heap[o]; !ok && o.Sym == nil && !o.Global {
					continue // allocated in the loop
				}
				diffVal(headCopy, b.st, o, nil, headCopy.root(o), b.st.heap[o], o.T, &diff)
			}
			for _, c := range diff {
				k := cellKey(c)
				if _, ok := cells[k]; ok {
					if d, ok := cellIV[k]; ok && !noIV[k] {
						p := &Ptr{c.obj, c.path}
						if !isInc(b.st, headCopy.load(p), b.st.load(p), d) {
							noIV[k] = true
							changed = true
						}
					}
					continue
				}
				// drop cells below or above
				cells[k] = c
				order = append(order, k)
				p := &Ptr{c.obj, c.path}
				if d := incOf(b.st, headCopy.load(p), b.st.load(p)); d != nil {
					cellIV[k] = d
				}
				changed = true
			}
		}
		if changed {
			sort.Slice(order, func(i, j int) bool {
				a, b := cells[order[i]], cells[order[j]]
				if len(a.path) != len(b.path) {
					return len(a.path) > len(b.path) // inner cells first, so outer ones override
				}
				return order[i] < order[j]
			})
			invs, tested = nil, false
			continue
		}
		if !tested {
			tested = true
			invs = in.loopInvs(it.st, headCopy, back, K)
			if len(invs) > 0 {
				continue
			}
		}
		for _, b := range back {
			marker.Sub = append(marker.Sub, traceSince(headNode, b.st.ev))
			marker.Sub0 = append(marker.Sub0, b.st)
			if in.H.LoopBack != nil {
				in.H.LoopBack(in, headCopy, b.st, fr, l.header)
			}
		}
		return ex, os
	}
}

// Does the loop end at its head if it is reached in this state?
func (in *Interp) leaves(fr *Frame, l *Loop, b *item) bool {
	n := len(l.header.Instrs)
	br, ok := l.header.Instrs[n-1].(*ssa.If)
	if !ok {
		return false
	}
	var body []ssa.Instruction
	for _, x := range l.header.Instrs[:n-1] {
		switch x := x.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field:
			body = append(body, x)
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
			body = append(body, x)
		default:
			return false
		}
	}
	if !l.blocks[l.header.Succs[0]] == !l.blocks[l.header.Succs[1]] {
		return false
	}
	// only what the iteration has decided itself
	if _, ok := br.Cond.(*ssa.Phi); !ok && len(body) == 0 {
		return false
	}
	t := b.clone()
	check := in.H.Check
	in.H.Check = nil
	defer func() { in.H.Check = check }()
	for _, x := range body {
		if !in.instr(fr, t, x) {
			return false
		}
	}
	c := asBool(in.val(t, br.Cond))
	switch t.st.facts.decide(c) {
	case 1:
		return !l.blocks[l.header.Succs[0]]
	case -1:
		return !l.blocks[l.header.Succs[1]]
	}
	return false
}

var kHole = symRange("K?", 64, true, 0, -1)

func substK(t *Term, K *Term) *Term {
	a, _ := kHole.P.single()
	return bGE0(substPoly(t.Args[0].P, a, K.P))
}

// Inequalities which hold at the head of each iteration: those assumed on the
// way through the body, shifted by one iteration, if they also hold on entry.
func (in *Interp) loopInvs(entry, head *State, back []*item, K *Term) (r []*Term) {
	if len(back) == 0 {
		return nil
	}
	ka, _ := K.P.single()
	ha, _ := kHole.P.single()
	seen := map[*Poly]int{}
	var order []*Poly
	for _, b := range back {
		mine := map[*Poly]bool{}
		cand := append(append([]*Poly{}, b.st.facts.ge[len(head.facts.ge):]...), b.st.facts.ge1[len(head.facts.ge1):]...)
		for _, p := range cand {
			if !occurs(p, ka) || mine[p] {
				continue
			}
			mine[p] = true
			if seen[p] == 0 {
				order = append(order, p)
			}
			seen[p]++
		}
	}
	for _, p := range order {
		if seen[p] != len(back) {
			continue
		}
		q := substPoly(p, ka, pSub(K.P, pOne))
		q0 := substPoly(q, ka, pZero)
		if occurs(q0, ka) || entry.facts.decideGE(q0) != 1 {
			continue
		}
		if t := bGE0(substPoly(q, ka, mkPoly(bigZero, []mon{{c: bigOne, as: []*Term{ha}}}))); t.Op == "ge0" {
			r = append(r, t)
		}
	}
	return
}

func incOf(st *State, a, b Val) *big.Int {
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 || x.P == nil || y.P == nil {
		return nil
	}
	d := st.facts.norm(pSub(y.P, x.P))
	if !d.isConst() || d.c.Sign() == 0 {
		return nil
	}
	return d.c
}

func isInc(st *State, a, b Val, c *big.Int) bool {
	d := incOf(st, a, b)
	return d != nil && d.Cmp(c) == 0
}

// ---- values

func asBool(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *IteV:
		return bIte(x.C, asBool(x.A), asBool(x.B))
	}
	return mkTerm("bval", "", 0, 0, 1, false, fresh("cond"))
}

func (in *Interp) val(it *item, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return &Ptr{Obj: in.P.globalObj(x)}
	case *ssa.Function:
		return &Func{Fn: x}
	case *ssa.Builtin:
		return &Func{Blt: x}
	}
	r, ok := it.env[v]
	if !ok {
		r = symVal(v.Type(), fresh("undef_"+v.Name()))
		it.env[v] = r
	}
	return r
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	if w, sg, ok := basicInfo(t); ok {
		i := constant.ToInt(c.Value)
		b, ok := new(big.Int).SetString(i.ExactString(), 10)
		if !ok {
			b = new(big.Int)
		}
		return mkInt(pConst(b), w, sg)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return bConst(constant.BoolVal(c.Value))
	case constant.String:
		return strC(constant.StringVal(c.Value))
	}
	return opaqueT("const", c.Value.ExactString(), 0)
}

// pointer dereference, distributing over joins
func (in *Interp) load(st *State, fr *Frame, instr ssa.Instruction, v Val, t types.Type) (Val, bool) {
	switch p := v.(type) {
	case *Ptr:
		if in.H.Load != nil {
			in.H.Load(in, st, fr, instr, p)
		}
		if p.Obj.Sym != nil && len(p.Path) == 0 && in.H.Check != nil {
			in.check(st, fr, instr, "nil", bNot(mkTerm("isnil", "", 0, 0, 1, false, p.Obj.Sym)))
		}
		return st.load(p), true
	case NilV:
		in.check(st, fr, instr, "nil", tFalse)
		return nil, false
	case *IteV:
		a, ok1 := in.load(st, fr, instr, p.A, t)
		b, ok2 := in.load(st, fr, instr, p.B, t)
		if !ok1 {
			return b, ok2
		}
		if !ok2 {
			return a, ok1
		}
		return mergeVal(p.C, a, b), true
	}
	return symVal(t, fresh("load")), true
}

func (in *Interp) store(st *State, fr *Frame, instr ssa.Instruction, p Val, v Val) bool {
	switch x := p.(type) {
	case *Ptr:
		if in.H.Store != nil {
			in.H.Store(in, st, fr, instr, x, v)
		}
		st.store(x, v)
	case NilV:
		in.check(st, fr, instr, "nil", tFalse)
		return false
	case *IteV:
		t := types.Type(nil)
		a, ok1 := in.load(st, fr, instr, x.A, t)
		if ok1 {
			in.store(st, fr, instr, x.A, mergeVal(x.C, v, a))
		}
		b, ok2 := in.load(st, fr, instr, x.B, t)
		if ok2 {
			in.store(st, fr, instr, x.B, mergeVal(x.C, b, v))
		}
	default:
		in.undecided("store through unknown pointer in %s", fnName(fr.Fn))
	}
	return true
}

func (in *Interp) check(st *State, fr *Frame, instr ssa.Instruction, kind string, cond *Term) {
	in.nObl++
	if in.H.Check != nil {
		in.H.Check(in, st, fr, instr, kind, cond)
	}
}

func mapIte(v Val, f func(Val) Val) Val {
	if x, ok := v.(*IteV); ok {
		return mergeVal(x.C, mapIte(x.A, f), mapIte(x.B, f))
	}
	return f(v)
}

// executes a simple instruction; false means it panics
func (in *Interp) instr(fr *Frame, it *item, x ssa.Instruction) bool {
	st := it.st
	switch x := x.(type) {
	case *ssa.Alloc:
		o := newObj(x.Comment, x.Type().Underlying().(*types.Pointer).Elem())
		o.Site = x
		it.env[x] = &Ptr{Obj: o}
		st.root(o)
	case *ssa.Store:
		return in.store(st, fr, x, in.val(it, x.Addr), in.val(it, x.Val))
	case *ssa.UnOp:
		v := in.val(it, x.X)
		switch x.Op {
		case token.MUL:
			r, ok := in.load(st, fr, x, v, x.Type())
			if !ok {
				return false
			}
			it.env[x] = r
		case token.SUB:
			t := v.(*Term)
			it.env[x] = mkInt(pNeg(t.P), t.W, t.Sg)
		case token.NOT:
			it.env[x] = bNot(asBool(v))
		case token.XOR:
			t := v.(*Term)
			if t.Sg {
				it.env[x] = mkInt(pSub(pNeg(t.P), pOne), t.W, t.Sg)
			} else {
				it.env[x] = mkInt(pSub(pConst(new(big.Int).Sub(pow2(t.W), bigOne)), t.P), t.W, t.Sg)
			}
		case token.ARROW:
			if in.H.Chan != nil {
				if r, ok, done := in.H.Chan(in, st, fr, "recv", v, nil); done {
					if r == nil {
						r = zeroVal(x.X.Type().Underlying().(*types.Chan).Elem())
					}
					it.env[x] = r
					if x.CommaOk {
						it.env[x] = Tuple{r, ok}
					}
					return true
				}
			}
			if x.CommaOk {
				it.env[x] = symVal(x.Type(), fresh("recv"))
			} else {
				it.env[x] = symVal(x.Type(), fresh("recv"))
			}
			st.emit(&Event{Kind: "recv", Instr: x, Fr: fr, Args: []Val{v}})
		}
	case *ssa.BinOp:
		r, ok := in.binop(fr, it, x)
		if !ok {
			return false
		}
		it.env[x] = r
	case *ssa.FieldAddr:
		v := in.val(it, x.X)
		ok := true
		it.env[x] = mapIte(v, func(v Val) Val {
			p, is := v.(*Ptr)
			if !is {
				if _, isnil := v.(NilV); isnil {
					ok = false
				}
				return &Ptr{Obj: symObj(fresh("badptr"), x.Type().Underlying().(*types.Pointer).Elem())}
			}
			return &Ptr{p.Obj, subPath(p.Path, PE{F: x.Field})}
		})
		if p, is := v.(*Ptr); is && p.Obj.Sym != nil && len(p.Path) == 0 && in.H.Check != nil {
			in.check(st, fr, x, "nil", bNot(mkTerm("isnil", "", 0, 0, 1, false, p.Obj.Sym)))
		}
		if !ok {
			in.check(st, fr, x, "nil", tFalse)
			return false
		}
	case *ssa.Field:
		v := in.val(it, x.X)
		it.env[x] = mapIte(v, func(v Val) Val {
			if a, ok := v.(*Agg); ok {
				return a.get(st, pConstI(int64(x.Field)))
			}
			return symVal(x.Type(), opaqueT("field", "", x.Field, st.valTerm(v)))
		})
	case *ssa.IndexAddr:
		v := in.val(it, x.X)
		v0 := v
		idx := in.intVal(it, x.Index)
		ok := true
		it.env[x] = mapIte(v, func(v Val) Val {
			switch s := v.(type) {
			case *Slice:
				in.boundsCheck(st, fr, x, idx.P, s.Len.P)
				if s.Obj == nil {
					ok = false
					return NilV{}
				}
				if v0 == Val(s) && st.out(idx.P, pSub(s.Len.P, pOne)) {
					ok = false
				}
				return &Ptr{s.Obj, subPath(s.Path, PE{Idx: st.facts.norm(pAdd(s.Off.P, idx.P))})}
			case *Ptr:
				arr := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
				in.boundsCheck(st, fr, x, idx.P, pConstI(arr.Len()))
				if v0 == Val(s) && st.out(idx.P, pConstI(arr.Len()-1)) {
					ok = false
				}
				return &Ptr{s.Obj, subPath(s.Path, PE{Idx: st.facts.norm(idx.P)})}
			}
			return &Ptr{Obj: symObj(fresh("badidx"), x.Type().Underlying().(*types.Pointer).Elem())}
		})
		if !ok {
			return false
		}
	case *ssa.Index:
		v := in.val(it, x.X)
		idx := in.intVal(it, x.Index)
		it.env[x] = mapIte(v, func(v Val) Val {
			switch a := v.(type) {
			case *Agg:
				in.boundsCheck(st, fr, x, idx.P, pConstI(int64(a.N)))
				return a.get(st, idx.P)
			case *Term:
				if k, ok := idx.P.constI(); ok && a.Op == "str" {
					if k >= 0 && k < int64(len(a.Str)) {
						return intC(int64(a.Str[k]), 8, false)
					}
					in.check(st, fr, x, "bounds", tFalse)
				} else {
					in.boundsCheck(st, fr, x, idx.P, strLen(a).P)
					if _, ss := isStrTerm(a); ss && ok {
						if ps := strParts(a); len(ps) > 0 && (len(ps) == 1 || k == 0 && ps[0].Op == "str") {
							return strAt(ps[0], k)
						}
					}
				}
				return symVal(x.Type(), opaqueT("strat", "", 0, a, mkInt(idx.P, 0, false)))
			}
			return symVal(x.Type(), fresh("index"))
		})
	case *ssa.Lookup:
		v := in.val(it, x.X)
		k := in.val(it, x.Index)
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			r, has := st.mapLookup(v, k, m.Elem())
			if x.CommaOk {
				it.env[x] = Tuple{r, has}
			} else {
				it.env[x] = r
			}
			return true
		}
		idx := in.intVal(it, x.Index)
		if a, ok := v.(*Term); ok && a.Op == "str" {
			if c, ok := idx.P.constI(); ok && c >= 0 && c < int64(len(a.Str)) {
				it.env[x] = intC(int64(a.Str[c]), 8, false)
				return true
			}
		}
		if a, ok := v.(*Term); ok {
			in.boundsCheck(st, fr, x, idx.P, strLen(a).P)
			if c, ok := idx.P.constI(); ok {
				if _, ok := isStrTerm(a); ok {
					if ps := strParts(a); len(ps) > 0 && (len(ps) == 1 || c == 0 && ps[0].Op == "str") {
						it.env[x] = strAt(ps[0], c)
						return true
					}
				}
			}
		}
		it.env[x] = symVal(x.Type(), opaqueT("strat", "", 0, st.valTerm(v), mkInt(idx.P, 0, false)))
	case *ssa.Slice:
		r, ok := in.sliceOp(fr, it, x)
		if !ok {
			return false
		}
		it.env[x] = r
	case *ssa.Convert:
		it.env[x] = in.convert(st, in.val(it, x.X), x.X.Type(), x.Type())
	case *ssa.ChangeType:
		v := in.val(it, x.X)
		if a, ok := v.(*Agg); ok {
			n := *a
			n.T = x.Type()
			n.owner = 0
			v = &n
		}
		it.env[x] = v
	case *ssa.ChangeInterface:
		it.env[x] = in.val(it, x.X)
	case *ssa.MakeInterface:
		it.env[x] = &Iface{T: x.X.Type(), V: in.val(it, x.X)}
	case *ssa.TypeAssert:
		return in.typeAssert(fr, it, x)
	case *ssa.Extract:
		v := in.val(it, x.Tuple)
		it.env[x] = mapIte(v, func(v Val) Val {
			if t, ok := v.(Tuple); ok && x.Index < len(t) {
				return t[x.Index]
			}
			return symVal(x.Type(), opaqueT("res", "", x.Index, st.valTerm(v)))
		})
	case *ssa.MakeSlice:
		ln, cp := in.intVal(it, x.Len), in.intVal(it, x.Cap)
		it.env[x] = in.makeSlice(st, fr, x, x.Type(), ln, cp)
	case *ssa.MakeMap:
		o := newObj("map", x.Type())
		o.Site = x
		st.heap[o] = &MapAgg{T: x.Type().Underlying().(*types.Map)}
		it.env[x] = &MapV{Obj: o}
	case *ssa.MakeChan:
		it.env[x] = fresh("chan")
	case *ssa.MakeClosure:
		f := &Func{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, in.val(it, b))
		}
		it.env[x] = f
	case *ssa.MapUpdate:
		m, k, v := in.val(it, x.Map), in.val(it, x.Key), in.val(it, x.Value)
		if in.H.MapUpdate != nil {
			in.H.MapUpdate(in, st, fr, x, m, k, v, false)
		}
		if _, isnil := m.(NilV); isnil {
			in.check(st, fr, x, "nilmap", tFalse)
			return false
		}
		st.mapUpdate(m, k, v, tTrue)
	case *ssa.Range:
		it.env[x] = Tuple{in.val(it, x.X)}
		if keys, ok := liveKeys(st, it.env[x].(Tuple)[0]); ok {
			it.env[x] = Tuple{in.val(it, x.X), &rangeKeys{keys, in.inGeneric}}
		}
	case *ssa.Next:
		if in.nextKey(it, x) {
			return true
		}
		n := fresh("next")
		r := symVal(x.Type(), n).(Tuple)
		if !x.IsString {
			// key is in the map
			if rg, ok := it.env[x.Iter].(Tuple); ok {
				if mt, ok := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map); ok {
					if mv, ok := rg[0].(*MapV); ok {
						if ma, ok := st.root(mv.Obj).(*MapAgg); ok && !ma.Sym && len(ma.log) == 0 {
							r[0] = tFalse // empty map
						}
					} else if _, isnil := rg[0].(NilV); isnil {
						r[0] = tFalse
					}
					key := symVal(mt.Key(), opaqueT("key", "", 0, n))
					val := symVal(mt.Elem(), opaqueT("elem", "", 0, n))
					if len(r) > 1 {
						r[1] = key
					}
					if len(r) > 2 {
						r[2] = val
					}
					st.emit(&Event{Kind: "mapnext", Args: []Val{rg[0], key, val, r[0]}, Instr: x, Fr: fr})
				}
			}
		}
		it.env[x] = r
	case *ssa.Select:
		it.env[x] = symVal(x.Type(), fresh("select"))
		st.emit(&Event{Kind: "select", Instr: x, Fr: fr})
	case *ssa.Send:
		if in.H.Chan != nil {
			if _, _, done := in.H.Chan(in, st, fr, "send", in.val(it, x.Chan), in.val(it, x.X)); done {
				return true
			}
		}
		st.emit(&Event{Kind: "send", Instr: x, Fr: fr, Args: []Val{in.val(it, x.Chan), in.val(it, x.X)}})
	case *ssa.SliceToArrayPointer:
		v := in.val(it, x.X)
		if s, ok := v.(*Slice); ok && s.Obj != nil && s.Off.P == pZero {
			it.env[x] = &Ptr{s.Obj, s.Path}
			return true
		}
		it.env[x] = symVal(x.Type(), fresh("sliceToArray"))
	default:
		in.undecided("instruction %T in %s", x, fnName(fr.Fn))
		if v, ok := x.(ssa.Value); ok {
			it.env[v] = symVal(v.Type(), fresh("unknown"))
		}
	}
	return true
}

type rangeKeys struct {
	keys  []Val
	depth int
}

// The keys of a map all of which are known.
func liveKeys(st *State, v Val) (r []Val, ok bool) {
	mv, is := v.(*MapV)
	if !is {
		return nil, false
	}
	ma, is := st.root(mv.Obj).(*MapAgg)
	if !is || ma.Sym {
		return nil, false
	}
	for _, e := range ma.log {
		if e.present != tTrue && e.present != tFalse {
			return nil, false
		}
		for i := len(r) - 1; i >= 0; i-- {
			switch st.facts.decide(st.eqVal(r[i], e.key)) {
			case 1:
				r = append(r[:i:i], r[i+1:]...)
			case 0:
				return nil, false
			}
		}
		if e.present == tTrue {
			r = append(r, e.key)
		}
	}
	return r, true
}

// The next element when iterating over a map all of whose keys are known, in
// the order in which they were added.
func (in *Interp) nextKey(it *item, x *ssa.Next) bool {
	rg, ok := it.env[x.Iter].(Tuple)
	if x.IsString || !ok || len(rg) < 2 {
		return false
	}
	rk := rg[1].(*rangeKeys)
	if rk.depth != in.inGeneric {
		return false
	}
	st := it.st
	mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	r := Tuple{tFalse, zeroVal(mt.Key()), zeroVal(mt.Elem())}
	rk = &rangeKeys{rk.keys, rk.depth}
	for len(rk.keys) > 0 {
		k := rk.keys[0]
		rk.keys = rk.keys[1:]
		v, has := st.mapLookup(rg[0], k, mt.Elem())
		switch st.facts.decide(has) {
		case 1:
			r = Tuple{tTrue, k, v}
		case 0:
			return false
		default:
			continue
		}
		break
	}
	it.env[x.Iter] = Tuple{rg[0], rk}
	it.env[x] = r
	st.emit(&Event{Kind: "mapnext", Args: []Val{rg[0], r[1], r[2], r[0]}, Instr: x})
	return true
}

// The first comparison which is not decided of the key with those in a map.
func (in *Interp) lookupCase(it *item, x *ssa.Lookup) *Term {
	mv, ok := in.val(it, x.X).(*MapV)
	if !ok {
		return nil
	}
	ma, ok := it.st.root(mv.Obj).(*MapAgg)
	if !ok {
		return nil
	}
	k := in.val(it, x.Index)
	for i := len(ma.log) - 1; i >= 0; i-- {
		c := it.st.eqVal(ma.log[i].key, k)
		switch it.st.facts.decide(c) {
		case 0:
			return c
		case 1:
			return nil
		}
	}
	return nil
}

func strLen(a *Term) *Term {
	if a.Op == "str" {
		return intT(int64(len(a.Str)))
	}
	if _, ok := isStrTerm(a); ok {
		return mkInt(strLenP(a), 64, true)
	}
	ln := mkTerm("len", "", 0, 0, 64, true, a)
	ln.Lo = bigZero
	return mkInt(pAtom(ln), 64, true)
}

func (in *Interp) intVal(it *item, v ssa.Value) *Term {
	x := in.val(it, v)
	if t, ok := x.(*Term); ok && t.P != nil {
		return t
	}
	if _, ok := x.(*IteV); ok {
		in.undecided("guarded integer in %s", v.Parent())
	}
	return symVal(types.Typ[types.Int], fresh("int")).(*Term)
}

// out tells whether it is certain that not 0 <= a[0] <= a[1] <= ...
func (st *State) out(a ...*Poly) bool {
	last := int64(0)
	for _, p := range a {
		c, ok := p.constI()
		if !ok && len(st.facts.sub) > 0 {
			c, ok = st.facts.norm(p).constI()
		}
		if !ok {
			continue
		}
		if c < last {
			return true
		}
		last = c
	}
	return false
}

func (in *Interp) boundsCheck(st *State, fr *Frame, instr ssa.Instruction, idx, ln *Poly) {
	if in.H.Check == nil {
		in.nObl++
		return
	}
	in.check(st, fr, instr, "bounds", bAnd(bGE0(idx), bGE0(pSub(pSub(ln, pOne), idx))))
}

func (in *Interp) makeSlice(st *State, fr *Frame, instr ssa.Instruction, t types.Type, ln, cp *Term) *Slice {
	el := t.Underlying().(*types.Slice).Elem()
	n := int64(-1)
	if c, ok := cp.P.constI(); ok {
		n = c
	}
	in.check(st, fr, instr, "makeslice", bAnd(bGE0(ln.P), bGE0(pSub(cp.P, ln.P))))
	if guardLen != nil && guards != nil {
		in.check(st, fr, instr, "alloc", bOr(bGE0(pSub(pConstI(4096), cp.P)), bGE0(pSub(guardLen, cp.P))))
	}
	o := newObj("make", types.NewArray(el, n))
	o.Site = instr
	st.root(o)
	return &Slice{Obj: o, Off: intT(0), Len: ln, Cap: cp, Elem: el}
}

func (in *Interp) sliceOp(fr *Frame, it *item, x *ssa.Slice) (Val, bool) {
	st := it.st
	v := in.val(it, x.X)
	v0 := v
	var lo, hi, mx *Term
	if x.Low != nil {
		lo = in.intVal(it, x.Low)
	}
	if x.High != nil {
		hi = in.intVal(it, x.High)
	}
	if x.Max != nil {
		mx = in.intVal(it, x.Max)
	}
	ok := true
	r := mapIte(v, func(v Val) Val {
		switch s := v.(type) {
		case *Slice:
			l, h, m := lo, hi, mx
			if l == nil {
				l = intT(0)
			}
			if h == nil {
				h = s.Len
			}
			if m == nil {
				m = s.Cap
			}
			if in.H.Check != nil {
				in.check(st, fr, x, "slice", bAnd(bGE0(l.P), bAnd(bGE0(pSub(h.P, l.P)), bAnd(bGE0(pSub(m.P, h.P)), bGE0(pSub(s.Cap.P, m.P))))))
			}
			if v0 == Val(s) && st.out(l.P, h.P, m.P, s.Cap.P) {
				ok = false
				return nil
			}
			return &Slice{s.Obj, s.Path, normT(st, pAdd(s.Off.P, l.P)), normT(st, pSub(h.P, l.P)), normT(st, pSub(m.P, l.P)), s.Elem}
		case *Ptr:
			arr := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			n := intT(arr.Len())
			l, h, m := lo, hi, mx
			if l == nil {
				l = intT(0)
			}
			if h == nil {
				h = n
			}
			if m == nil {
				m = n
			}
			if in.H.Check != nil {
				in.check(st, fr, x, "slice", bAnd(bGE0(l.P), bAnd(bGE0(pSub(h.P, l.P)), bAnd(bGE0(pSub(m.P, h.P)), bGE0(pSub(n.P, m.P))))))
			}
			if v0 == Val(s) && st.out(l.P, h.P, m.P, n.P) {
				ok = false
				return nil
			}
			return &Slice{s.Obj, s.Path, mkInt(l.P, 64, true), normT(st, pSub(h.P, l.P)), normT(st, pSub(m.P, l.P)), arr.Elem()}
		case *Term: // string
			if s.Op == "str" {
				l, h := int64(0), int64(len(s.Str))
				okc := true
				if lo != nil {
					l, okc = lo.P.constI()
				}
				if okc && hi != nil {
					h, okc = hi.P.constI()
				}
				if okc && l >= 0 && l <= h && h <= int64(len(s.Str)) {
					return strC(s.Str[l:h])
				}
				if okc {
					in.check(st, fr, x, "slice", tFalse)
					ok = false
					return nil
				}
			}
			l, h := intT(0), strLen(s)
			if lo != nil {
				l = lo
			}
			if hi != nil {
				h = hi
			}
			if in.H.Check != nil {
				in.check(st, fr, x, "slice", bAnd(bGE0(l.P), bAnd(bGE0(pSub(h.P, l.P)), bGE0(pSub(strLen(s).P, h.P)))))
			}
			if _, ok := isStrTerm(s); ok {
				var lp, hp *Poly
				if lo != nil {
					lp = lo.P
				}
				if hi != nil {
					hp = hi.P
				}
				if r, ok := strSub(st, s, lp, hp); ok {
					return r
				}
			}
			return mkTerm("substr", "", 0, 0, 0, false, s, l, h)
		}
		return symVal(x.Type(), fresh("slice"))
	})
	return r, ok
}

func normT(st *State, p *Poly) *Term { return mkInt(st.facts.norm(p), 64, true) }

func (in *Interp) convert(st *State, v Val, from, to types.Type) Val {
	return mapIte(v, func(v Val) Val {
		if w, sg, ok := basicInfo(to); ok {
			if t, ok := v.(*Term); ok && t.P != nil {
				if w > t.W && !t.Sg && t.W > 0 && !t.P.isConst() && !fits(t.P, t.W, false) {
					// it may have wrapped around before
					p := st.facts.norm(t.P)
					lo, hi := st.facts.rng(p)
					if lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(pow2(t.W)) >= 0 {
						t = mkInt(pExt(p, 0, int(t.W)), t.W, false)
					}
				}
				if !fits(t.P, w, sg) && !t.P.isConst() {
					// facts might bound it
					lo, hi := st.facts.rng(st.facts.norm(t.P))
					max := pow2(w)
					if sg {
						max = pow2(w - 1)
					}
					if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(max) < 0 {
						return mkInt(t.P, w, sg)
					}
				}
				return tConv(t, w, sg)
			}
			if _, ok := v.(*Ptr); ok && in.Addr != nil && w == 64 {
				return in.Addr
			}
			return symVal(to, opaqueT("conv", to.String(), 0, st.valTerm(v)))
		}
		// []byte <-> string
		if isString(to) {
			if s, ok := v.(*Slice); ok {
				return opaqueT("string", "", 0, st.bytesTerm(s))
			}
			if t, ok := v.(*Term); ok && t.P == nil {
				return t
			}
			return opaqueT("conv", to.String(), 0, st.valTerm(v))
		}
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if t, ok := v.(*Term); ok {
				if t.Op == "string" && t.Args[0].Op == "bytes" {
					return st.sliceFromBytes(t.Args[0], sl.Elem())
				}
				bt := opaqueT("bytesof", "", 0, t)
				s := symVal(to, bt).(*Slice)
				o := newObj("bytesof", s.Obj.T)
				st.heap[o] = st.root(s.Obj)
				s.Obj = o
				s.Len = strLen(t)
				s.Cap = s.Len
				return s
			}
		}
		return v
	})
}

// Contents of a byte slice as a term.
func (st *State) bytesTerm(s *Slice) *Term { return st.bytesTermN(s, maxElementwise) }

func (st *State) bytesTermN(s *Slice, max int64) *Term {
	if s.Obj == nil {
		return opaqueT("bytes", "", 0)
	}
	if n, ok := st.facts.norm(s.Len.P).constI(); ok && n <= max {
		as := make([]*Term, n)
		a := sliceAgg(st, s)
		for i := range as {
			as[i] = st.byteOf(a, pAdd(s.Off.P, pConstI(int64(i))))
		}
		return opaqueT("bytes", "", 0, as...)
	}
	a := sliceAgg(st, s)
	if a != nil && len(a.log) == 0 && a.el.n == 0 && a.Sym {
		return opaqueT("vbytes", "", 0, a.bt, mkInt(st.facts.norm(s.Off.P), 0, false), mkInt(st.facts.norm(s.Len.P), 0, false))
	}
	return opaqueT("vbytes?", "", 0, fresh("bytes"))
}

func (st *State) byteOf(a *Agg, i *Poly) *Term {
	if a == nil {
		return symVal(types.Typ[types.Uint8], fresh("byte")).(*Term)
	}
	v := a.get(st, i)
	if t, ok := v.(*Term); ok && t.P != nil {
		if len(st.facts.sub) > 0 {
			return mkInt(st.facts.norm(t.P), 8, false)
		}
		return t
	}
	return symVal(types.Typ[types.Uint8], fresh("byte")).(*Term)
}

func (st *State) sliceFromBytes(t *Term, el types.Type) *Slice {
	o := newObj("bytes", types.NewArray(el, int64(len(t.Args))))
	ag := &Agg{T: o.T, N: len(t.Args)}
	for i, b := range t.Args {
		ag.el.set(i, b)
	}
	st.heap[o] = ag
	n := intT(int64(len(t.Args)))
	return &Slice{Obj: o, Off: intT(0), Len: n, Cap: n, Elem: el}
}

func (in *Interp) typeAssert(fr *Frame, it *item, x *ssa.TypeAssert) bool {
	v := in.val(it, x.X)
	st := it.st
	isIface := types.IsInterface(x.AssertedType)
	var ok *Term
	var r Val
	var do func(v Val) (Val, *Term)
	do = func(v Val) (Val, *Term) {
		switch i := v.(type) {
		case *IteV:
			a, oa := do(i.A)
			b, ob := do(i.B)
			return mergeVal(i.C, a, b), bIte(i.C, oa, ob)
		case NilV:
			return zeroVal(x.AssertedType), tFalse
		case *Iface:
			if i.T != nil {
				if isIface {
					if fakeName(i.T) != "" && fakeName(i.T) != "error" {
						return v, tTrue
					}
					if types.Implements(i.T, x.AssertedType.Underlying().(*types.Interface)) {
						return v, tTrue
					}
					return zeroVal(x.AssertedType), tFalse
				}
				if types.Identical(i.T, x.AssertedType) {
					return i.V, tTrue
				}
				return zeroVal(x.AssertedType), tFalse
			}
			if i.Sym == nil {
				return zeroVal(x.AssertedType), tFalse
			}
			o := mkTerm("is", x.AssertedType.String(), 0, 0, 1, false, i.Sym)
			if st.facts.decide(mkTerm("isnil", "", 0, 0, 1, false, i.Sym)) == 1 {
				return zeroVal(x.AssertedType), tFalse
			}
			if isIface {
				return v, o
			}
			return symVal(x.AssertedType, opaqueT("unbox", x.AssertedType.String(), 0, i.Sym)), o
		}
		f := fresh("assert")
		return symVal(x.AssertedType, f), mkTerm("is", x.AssertedType.String(), 0, 0, 1, false, f)
	}
	r, ok = do(v)
	if x.CommaOk {
		it.env[x] = Tuple{r, ok}
		return true
	}
	in.check(st, fr, x, "typeassert", ok)
	if ok == tFalse {
		return false
	}
	it.env[x] = r
	return true
}

func (in *Interp) binop(fr *Frame, it *item, x *ssa.BinOp) (Val, bool) {
	st := it.st
	a, b := in.val(it, x.X), in.val(it, x.Y)
	switch x.Op {
	case token.EQL:
		return st.eqVal(a, b), true
	case token.NEQ:
		return bNot(st.eqVal(a, b)), true
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		if _, ok := a.(*IteV); ok {
			in.undecided("arithmetic on guarded values in %s", fnName(fr.Fn))
		}
		return symVal(x.Type(), fresh("binop")), true
	}
	if isString(x.X.Type()) {
		switch x.Op {
		case token.ADD:
			if p.Op == "str" && q.Op == "str" {
				return strC(p.Str + q.Str), true
			}
			if a, ok := isStrTerm(p); ok {
				if b, ok := isStrTerm(q); ok {
					return strCat([]*Term{a, b}), true
				}
			}
			return opaqueT("concat", "", 0, p, q), true
		}
		if p.Op == "str" && q.Op == "str" {
			switch x.Op {
			case token.LSS:
				return bConst(p.Str < q.Str), true
			case token.GTR:
				return bConst(p.Str > q.Str), true
			case token.LEQ:
				return bConst(p.Str <= q.Str), true
			case token.GEQ:
				return bConst(p.Str >= q.Str), true
			}
		}
		return symVal(x.Type(), opaqueT("strcmp", x.Op.String(), 0, p, q)), true
	}
	if p.P == nil || q.P == nil {
		if isBool(x.X.Type()) {
			switch x.Op {
			case token.AND:
				return bAnd(p, q), true
			case token.OR:
				return bOr(p, q), true
			}
		}
		return symVal(x.Type(), opaqueT("binop", x.Op.String(), 0, st.valTerm(a), st.valTerm(b))), true
	}
	if len(st.facts.sub) > 0 {
		p = mkInt(st.facts.norm(p.P), p.W, p.Sg)
		q = mkInt(st.facts.norm(q.P), q.W, q.Sg)
	}
	switch x.Op {
	case token.LSS:
		return bGE0(pSub(pSub(q.P, p.P), pOne)), true
	case token.LEQ:
		return bGE0(pSub(q.P, p.P)), true
	case token.GTR:
		return bGE0(pSub(pSub(p.P, q.P), pOne)), true
	case token.GEQ:
		return bGE0(pSub(p.P, q.P)), true
	case token.ADD:
		return tAdd(p, q), true
	case token.SUB:
		return tSub(p, q), true
	case token.MUL:
		return tMul(p, q), true
	case token.QUO:
		in.check(st, fr, x, "div", bNot(bEQ0(q.P)))
		if q.P == pZero {
			return nil, false
		}
		return tDiv(p, q), true
	case token.REM:
		in.check(st, fr, x, "div", bNot(bEQ0(q.P)))
		if q.P == pZero {
			return nil, false
		}
		if !q.P.isConst() && st.facts.decideGE(p.P) == 1 && st.facts.decideGE(pSub(pSub(q.P, p.P), pOne)) == 1 {
			return p, true
		}
		return tRem(p, q), true
	case token.SHL:
		if q.Sg {
			in.check(st, fr, x, "shift", bGE0(q.P))
		}
		return tShl(p, q), true
	case token.SHR:
		if q.Sg {
			in.check(st, fr, x, "shift", bGE0(q.P))
		}
		return tShr(p, q), true
	case token.AND:
		return tBit("and", p, q), true
	case token.OR:
		return tBit("or", p, q), true
	case token.XOR:
		return tBit("xor", p, q), true
	case token.AND_NOT:
		return tBit("andnot", p, q), true
	}
	return symVal(x.Type(), fresh("binop")), true
}

// ---- calls

func (in *Interp) callSite(fr *Frame, it *item, c ssa.CallInstruction) *CallSite {
	cc := c.Common()
	cs := &CallSite{Instr: c, Fr: fr, Sig: cc.Signature()}
	if cc.IsInvoke() {
		recv := in.val(it, cc.Value)
		cs.Recv = recv
		cs.Method = cc.Method.Name()
		args := []Val{recv}
		if i, ok := recv.(*Iface); ok && i.T != nil {
			if f := fakeName(i.T); f != "" {
				cs.Name = "fake:" + f + "." + cs.Method
				cs.Args = []Val{i.V}
				for _, a := range cc.Args {
					cs.Args = append(cs.Args, in.val(it, a))
				}
				return cs
			}
			if m := in.P.SSA.LookupMethod(i.T, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				cs.Fn = m
				cs.Name = m.String()
				args = []Val{i.V}
			}
		}
		if cs.Fn == nil {
			cs.Name = "iface:" + cc.Value.Type().String() + "." + cs.Method
		}
		for _, a := range cc.Args {
			args = append(args, in.val(it, a))
		}
		cs.Args = args
		return cs
	}
	v := in.val(it, cc.Value)
	for _, a := range cc.Args {
		cs.Args = append(cs.Args, in.val(it, a))
	}
	f, ok := v.(*Func)
	if !ok {
		cs.Name = "dynamic"
		cs.Dyn = &Func{Sym: fresh("fn")}
		if ite, ok := v.(*IteV); ok {
			cs.Recv = ite
		}
		return cs
	}
	switch {
	case f.Blt != nil:
		cs.Blt = f.Blt
		cs.Name = "builtin." + f.Blt.Name()
	case f.Fn != nil:
		cs.Fn = f.Fn
		cs.Bind = f.Bind
		cs.Name = f.Fn.String()
	default:
		cs.Dyn = f
		cs.Name = "dynamic"
	}
	return cs
}

func (in *Interp) call(st *State, fr *Frame, cs *CallSite) []Outcome {
	if in.H.Call != nil {
		if os, ok := in.H.Call(in, st, fr, cs); ok {
			return os
		}
	}
	if cs.Blt != nil {
		return in.builtin(st, fr, cs)
	}
	if cs.Fn != nil {
		if f, ok := intrinsics[cs.Name]; ok {
			if os, ok := f(in, st, fr, cs); ok {
				return os
			}
		}
		if cs.Fn.Blocks != nil && (!fr.onStack(cs.Fn) || fr.times(cs.Fn) <= in.Recurse) && in.inlinable(fr, cs.Fn) {
			return in.Exec(st, fr, cs.Fn, cs.Args, cs.Bind, cs.Instr)
		}
	} else if cs.Method != "" {
		if f, ok := intrinsics[cs.Name]; ok {
			if os, ok := f(in, st, fr, cs); ok {
				return os
			}
		}
	}
	// a call of one of two known functions
	if ite, ok := cs.Recv.(*IteV); ok {
		if a, oka := ite.A.(*Func); oka && a.Fn != nil {
			if b, okb := ite.B.(*Func); okb && b.Fn != nil {
				st2 := st.clone()
				st.assume(ite.C, true)
				st.pc = append(st.pc, ite.C)
				st2.assume(ite.C, false)
				st2.pc = append(st2.pc, bNot(ite.C))
				c1, c2 := *cs, *cs
				c1.Recv, c1.Fn, c1.Bind, c1.Name, c1.Dyn = nil, a.Fn, a.Bind, a.Fn.String(), nil
				c2.Recv, c2.Fn, c2.Bind, c2.Name, c2.Dyn = nil, b.Fn, b.Bind, b.Fn.String(), nil
				os := append(in.call(st, fr, &c1), in.call(st2, fr, &c2)...)
				if in.Merge {
					os = in.mergeOutcomes(os)
				}
				return os
			}
		}
		if cs.Method != "" {
			st2 := st.clone()
			st.assume(ite.C, true)
			st.pc = append(st.pc, ite.C)
			st2.assume(ite.C, false)
			st2.pc = append(st2.pc, bNot(ite.C))
			os := append(in.call(st, fr, in.reResolve(cs, ite.A)), in.call(st2, fr, in.reResolve(cs, ite.B))...)
			if in.Merge {
				os = in.mergeOutcomes(os)
			}
			return os
		}
	}
	if in.H.Opaque != nil {
		if os, ok := in.H.Opaque(in, st, fr, cs); ok {
			return os
		}
	}
	return in.opaque(st, fr, cs)
}

func (in *Interp) reResolve(cs *CallSite, recv Val) *CallSite {
	n := *cs
	n.Recv = recv
	n.Args = append([]Val{recv}, cs.Args[1:]...)
	n.Fn = nil
	if i, ok := recv.(*Iface); ok && i.T != nil {
		cc := cs.Instr.Common()
		if m := in.P.SSA.LookupMethod(i.T, cc.Method.Pkg(), cc.Method.Name()); m != nil {
			n.Fn = m
			n.Name = m.String()
			n.Args[0] = i.V
			n.Recv = nil
		}
	}
	return &n
}

func (in *Interp) inlinable(fr *Frame, fn *ssa.Function) bool {
	if in.H.Inline != nil {
		return in.H.Inline(in, fr, fn)
	}
	return in.P.inRepo(fn)
}

// A call about which nothing is known: results are fresh and everything
// reachable from the arguments is forgotten.
func (in *Interp) opaque(st *State, fr *Frame, cs *CallSite) []Outcome {
	in.notes = append(in.notes, "opaque call "+cs.Name)
	pure := cs.Fn != nil && purePkg(cs.Fn)
	if !pure {
		for _, a := range cs.Args {
			st.havocReach(a, 0)
		}
	}
	var bt *Term
	if pure {
		var as []*Term
		for _, a := range cs.Args {
			if s, ok := a.(*Slice); ok && isByte(s.Elem) {
				as = append(as, st.bytesTerm(s))
			} else {
				as = append(as, st.deepTerm(a))
			}
		}
		bt = opaqueT("call", cs.Name, 0, as...)
	} else {
		bt = fresh("call:" + shortName(cs.Name))
	}
	res := cs.Sig.Results()
	var r Val
	switch res.Len() {
	case 0:
		r = Tuple{}
	case 1:
		r = symVal(res.At(0).Type(), bt)
	default:
		r = symVal(res, bt)
	}
	return []Outcome{{St: st, Ret: r}}
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// forgets the contents of everything directly reachable
func (st *State) havocReach(v Val, d int) {
	if d > 3 {
		return
	}
	switch x := v.(type) {
	case *Slice:
		if x.Obj != nil {
			st.havocSlice(x, "havoc")
		}
	case *Ptr:
		old := st.load(x)
		st.havocReach(old, d+1)
		t := typeAt(x)
		if t != nil {
			st.store(x, symVal(t, fresh("havoc")))
		}
	case *Iface:
		if x.V != nil {
			st.havocReach(x.V, d+1)
		}
	case *MapV:
		if m, ok := x.Obj.T.Underlying().(*types.Map); ok {
			st.heap[x.Obj] = &MapAgg{T: m, Sym: true, bt: fresh("havocmap")}
		}
	case *IteV:
		st.havocReach(x.A, d+1)
		st.havocReach(x.B, d+1)
	}
}

func typeAt(p *Ptr) types.Type {
	t := p.Obj.T
	for _, e := range p.Path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(e.F).Type()
		case *types.Array:
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

func (in *Interp) runDefers(fr *Frame, it *item) (its []*item, outs []Outcome) {
	cur := []*item{it}
	ds := it.defers
	it.defers = nil
	for i := len(ds) - 1; i >= 0; i-- {
		var nx []*item
		for _, c := range cur {
			os := in.call(c.st, fr, ds[i].cs)
			n := 0
			for _, o := range os {
				if !o.Panic {
					n++
				}
			}
			k := 0
			for _, o := range os {
				if o.Panic {
					outs = append(outs, o)
					continue
				}
				k++
				ni := c
				if k < n {
					ni = c.clone()
				}
				ni.st = o.St
				nx = append(nx, ni)
			}
		}
		cur = nx
	}
	for _, c := range cur {
		c.defers = nil
	}
	return cur, outs
}

func ret1(st *State, v Val) []Outcome { return []Outcome{{St: st, Ret: v}} }
