package main

// V03: untrusted bytes do not make the library panic.

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("V03", "Abstract interpretation of decoders, parsers, verification and opening of files on symbolic untrusted input: the condition under which every index, slice, conversion, "+
		"type assertion, division, allocation and pointer access is safe must follow from the path; no path may end in a panic.", v03)
}

// conditions that must hold for an operation not to panic
type guard struct {
	kind string
	fn   *ssa.Function
	at   ssa.Instruction
	n    int
	bad  string
	und  int
}

// the length of the input, while it is decoded
var guardLen *Poly
var guards map[string]*guard
var guardPanics map[string]string

func guardCheck(in *Interp, st *State, fr *Frame, instr ssa.Instruction, kind string, cond *Term) {
	if guards == nil || instr == nil {
		return
	}
	if st.facts.bad {
		return
	}
	f := instr.Parent()
	if f == nil || !in.P.inRepo(f) {
		return
	}
	key := fmt.Sprintf("%p %s", instr, kind)
	g := guards[key]
	if g == nil {
		g = &guard{kind: kind, fn: f, at: instr}
		guards[key] = g
	}
	g.n++
	switch st.facts.decide(cond) {
	case 1:
	case -1:
		g.bad = "fails"
	default:
		g.und++
		if g.bad == "" {
			g.bad = "may fail: " + clip(cond.String(), 200)
			if dbgOn() {
				dbg("guard %s %s: %s\n   pc %s", fnName(f), in.P.ipos(instr), cond.String(), pcString(st))
			}
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func v03(r *Rep) {
	kinds := map[string]string{"bounds": "indices are within bounds", "slice": "slices are within bounds", "nil": "pointers are not nil", "makeslice": "sizes of allocations are not negative", "alloc": "what is allocated to decode an input is not longer than the input, unless it is small",
		"div": "divisors are not zero", "shift": "shifts are not negative", "typeassert": "type assertions hold", "nilmap": "maps are not nil", "panic": "no path ends in a panic"}
	mins := map[string]int{"bounds": 20, "slice": 30, "makeslice": 8, "alloc": 5, "div": 1, "panic": 30}
	for k, t := range kinds {
		r.rule("safe."+k, t, mins[k])
	}
	base := r.initState()
	guards, guardPanics = map[string]*guard{}, map[string]string{}
	var jobs []func()
	var costs []int
	add := func(name string, c int, f func()) {
		jobs = append(jobs, func() {
			if onlyTuple != "" && !strings.Contains(name, onlyTuple) {
				return
			}
			f()
			r.ok("safe.panic", name, "no path ends in a panic")
		})
		costs = append(costs, c)
	}
	// parameters
	add("parameters", 500, func() { r.paramsDecode(base) })
	for h := int64(0); h < 65; h += 4 {
		h := h
		add(fmt.Sprintf("contexts with height %d", h), 300, func() {
			for d := int64(0); d < 4; d++ {
				r.accept(base, h, d)
			}
			r.accept(base, h, h)
		})
	}
	// encodings of every length
	for _, pa := range r.lengthTuples() {
		pa := pa
		n := int64(newSpec(pa).sigLen())
		add("signatures "+pa.String(), 50, func() { r.lengths(base, "Signature", pa, n, false) })
		add("public keys "+pa.String(), 50, func() { r.lengths(base, "PublicKey", pa, 4+2*pa.N, false) })
	}
	add("headers of signatures", 100, func() { r.badHeaders(base, "Signature") })
	add("headers of public keys", 100, func() { r.badHeaders(base, "PublicKey") })
	// verification
	for _, c := range []verifyCase{{pa: Params{0, 16, 4, 2, 256, 0}}, {pa: Params{1, 32, 3, 1, 16, 0}}, {pa: Params{0, 24, 2, 2, 256, 1}}, {pa: Params{0, 16, 4, 2, 256, 0}, api: true},
		{pa: Params{0, 16, 60, 20, 256, 0}, idx: []int64{15, 255, 255, 255, 255, 255, 255, 255}}, {pa: Params{0, 16, 60, 20, 256, 0}, idx: []int64{255, 255, 255, 255, 255, 255, 255, 255}}} {
		c := c
		add("verification "+c.String(), 20000, func() { r.verify(base, c) })
	}
	t := Params{0, 32, 20, 2, 16, 0}
	for _, o := range []Params{{1, 32, 20, 2, 16, 0}, {0, 32, 20, 4, 16, 0}, {0, 32, 20, 2, 4, 0}, {0, 64, 20, 2, 16, 0}} {
		o := o
		add("other parameters "+o.String(), 100, func() { r.mismatch(base, t, o) })
	}
	for _, pa := range []Params{{0, 16, 10, 1, 16, 0}, {1, 32, 10, 1, 16, 0}, {0, 24, 10, 1, 4, 1}, {0, 64, 10, 1, 16, 0}} {
		pa := pa
		add("one-time signatures "+pa.String(), 100000, func() { r.wotsTuple(base, pa) })
		add("hashing "+pa.String(), 2000, func() { r.hashTuple(base, pa, false) })
		add("leaf "+pa.String(), 2000, func() { r.leaf(base, pa) })
	}
	for k := 0; k < 4; k++ {
		k := k
		add("one-time signatures with the vector unit", 5000, func() { r.x4Chains(base, Params{1, 16, 10, 1, 16, 0}, k) })
	}
	// names and texts
	for _, tm := range nameTemplates() {
		tm := tm
		add(fmt.Sprintf("name %v", tm), 300, func() { r.nameDenotes(base, tm) })
	}
	for _, pa := range codecTuples() {
		pa := pa
		add("text "+pa.String(), 300, func() {
			r.reencode(base, "PublicKey", pa, int(4+2*pa.N))
			r.lengths(base, "PublicKey", pa, 4+2*pa.N, true)
		})
	}
	// files
	for i, f := range []func(m *fsModel, st *State){(*fsModel).scenDamage, (*fsModel).scenBadKey, (*fsModel).scenOld, (*fsModel).scenOpen, (*fsModel).scenClose, (*fsModel).scenSeq, (*fsModel).scenReset, (*fsModel).scenCache} {
		f, name := f, fmt.Sprintf("files %d", i)
		add(name, 20000, func() {
			m, st := newFsModel(r, Params{0, 32, 4, 2, 256, 0}, 4096, name)
			f(m, st)
		})
	}
	r.each(len(jobs), func(i int) int { return costs[i] }, func(i int) { jobs[i]() })
	r.keep("safe")
	r.guardResults()
}

func (r *Rep) guardResults() {
	for _, g := range guards {
		con := fmt.Sprintf("%s %s", fnName(g.fn), describeIn(g.at))
		where := r.P.ipos(g.at)
		if g.bad == "" {
			r.ok("safe."+g.kind, con, "%s", where)
		} else {
			r.viol("safe."+g.kind, con, where, "%s", g.bad)
		}
	}
	for k, w := range guardPanics {
		r.viol("safe.panic", k, w, "a path ends in a panic")
	}
}

func describeIn(in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok {
		return strings.SplitN(fmt.Sprintf("%T", in), ".", 2)[1] + " of " + types.TypeString(v.Type(), func(p *types.Package) string { return p.Name() })
	}
	return strings.SplitN(fmt.Sprintf("%T", in), ".", 2)[1]
}

func dbgOn() bool { return os.Getenv("CHK_DEBUG") != "" }

func notePanic(in *Interp, st *State, fr *Frame, x ssa.Instruction) {
	if guards == nil || st.facts.bad {
		return
	}
	guardPanics[fnName(x.Parent())+" "+describeIn(x)] = in.P.ipos(x)
}
