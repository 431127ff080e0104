package main

// Flow-insensitive origins and effects: from where the memory a value refers
// to comes, which memory a function writes to, and which memory is kept in
// which field.  Summaries of functions are computed to a fixpoint and
// substituted at call sites.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Where memory comes from.
//
//	P  parameter n          V  variable n captured by a closure
//	F  field key (T.f) of an object which was not made here
//	G  package variable key C  result of an unknown call, key
//	A  object made by at    N  object made by a function called here
type org struct {
	k   byte
	n   int
	key string
	at  ssa.Value
}

func (o org) String() string {
	switch o.k {
	case 'P', 'V':
		return fmt.Sprintf("%c%d", o.k, o.n)
	case 'A', 'N':
		return "new"
	}
	return o.key
}

type orgs map[org]bool

func (s orgs) add(t orgs) bool {
	ch := false
	for o := range t {
		if !s[o] {
			s[o] = true
			ch = true
		}
	}
	return ch
}

func one(o org) orgs { return orgs{o: true} }

// A write of the memory behind o; field is "T.f" for a field of it, and empty
// for the elements of a slice, map or the variable itself.
type effect struct {
	o     org
	field string
	at    ssa.Instruction
}

// The memory behind o is kept in a field of (the object behind) base.
type flow struct {
	field string
	o     org
	base  org
	at    ssa.Instruction
}

// an object made in a function: result n of a call, or an allocation
type objKey struct {
	v ssa.Value
	n int
}

type aliasFn struct {
	fn      *ssa.Function
	val     map[ssa.Value]orgs
	content map[objKey]map[int]orgs    // objects made here: by field, -1 for elements
	tuple   map[ssa.Value]map[int]orgs // results of calls
	rets    map[int]orgs
	retc    map[int]map[int]orgs // what new objects returned refer to
	effs    map[effect]bool
	flows   map[flow]bool
	changed bool
}

type aliasInfo struct {
	p      *Prog
	fns    map[*ssa.Function]*aliasFn
	list   []*ssa.Function
	bySig  map[string][]*ssa.Function // functions whose address is taken
	byMeth map[string][]*ssa.Function
	guard  map[ssa.Instruction]bool
}

func refType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refType(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return refType(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refType(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (a *aliasInfo) fieldKey(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !a.p.repo[n.Obj().Pkg()] {
		return ""
	}
	return n.Obj().Name() + "." + st.Field(i).Name()
}

func newAlias(p *Prog) *aliasInfo {
	a := &aliasInfo{p: p, fns: map[*ssa.Function]*aliasFn{}, bySig: map[string][]*ssa.Function{}, byMeth: map[string][]*ssa.Function{}}
	a.list = p.repoFuncs()
	for _, f := range a.list {
		a.fns[f] = &aliasFn{fn: f, val: map[ssa.Value]orgs{}, content: map[objKey]map[int]orgs{}, tuple: map[ssa.Value]map[int]orgs{},
			rets: map[int]orgs{}, retc: map[int]map[int]orgs{}, effs: map[effect]bool{}, flows: map[flow]bool{}}
		if f.Signature.Recv() != nil {
			a.byMeth[f.Name()] = append(a.byMeth[f.Name()], f)
		}
		var ops []*ssa.Value
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ops = in.Operands(ops[:0])
				for i, op := range ops {
					g, ok := (*op).(*ssa.Function)
					if !ok || !p.inRepo(g) {
						continue
					}
					if ci, ok := in.(ssa.CallInstruction); ok && i == 0 && !ci.Common().IsInvoke() {
						continue
					}
					k := types.TypeString(sigNoRecv(g), nil)
					a.bySig[k] = append(a.bySig[k], g)
				}
			}
		}
	}
	for n := 0; n < 60; n++ {
		ch := false
		for _, f := range a.list {
			x := a.fns[f]
			x.changed = false
			a.pass(x)
			ch = ch || x.changed
		}
		if !ch {
			return a
		}
	}
	panic(abortAll{"the analysis of aliases does not converge"})
}

func sigNoRecv(g *ssa.Function) *types.Signature {
	s := g.Signature
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func (x *aliasFn) set(v ssa.Value, s orgs) {
	if len(s) == 0 {
		return
	}
	t := x.val[v]
	if t == nil {
		t = orgs{}
		x.val[v] = t
	}
	if t.add(s) {
		x.changed = true
	}
}

func (x *aliasFn) keep(v objKey, i int, s orgs) {
	if len(s) == 0 {
		return
	}
	if x.content[v] == nil {
		x.content[v] = map[int]orgs{}
	}
	if x.content[v][i] == nil {
		x.content[v][i] = orgs{}
	}
	if x.content[v][i].add(s) {
		x.changed = true
	}
}

func (o org) obj() objKey { return objKey{o.at, o.n} }

func (x *aliasFn) put(m map[ssa.Value]map[int]orgs, v ssa.Value, i int, s orgs) {
	if len(s) == 0 {
		return
	}
	if m[v] == nil {
		m[v] = map[int]orgs{}
	}
	if m[v][i] == nil {
		m[v][i] = orgs{}
	}
	if m[v][i].add(s) {
		x.changed = true
	}
}

func (x *aliasFn) eff(e effect) {
	if e.o.k == 'A' || e.o.k == 'N' {
		return
	}
	if !x.effs[e] {
		x.effs[e] = true
		x.changed = true
	}
}

func (x *aliasFn) flow(f flow) {
	if f.o.k == 'A' {
		f.o = org{k: 'N'}
	}
	if f.base.k == 'A' {
		f.base = org{k: 'N'}
	}
	if !x.flows[f] {
		x.flows[f] = true
		x.changed = true
	}
}

// the index of the field key, if it is one of what parameter n of f refers to
func (a *aliasInfo) fieldIndex(f *ssa.Function, n int, key string) int {
	if n >= len(f.Params) {
		return -1
	}
	t, ok := derefNamed(f.Params[n].Type())
	if !ok {
		return -1
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || !strings.HasPrefix(key, t.Obj().Name()+".") {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if t.Obj().Name()+"."+s.Field(i).Name() == key {
			return i
		}
	}
	return -1
}

// a field of what o refers to; n tells the parameter it was reached from
func fieldOrg(o org, key string) org {
	switch {
	case o.k == 'P':
		return org{k: 'F', key: key, n: o.n + 1}
	case o.k == 'F':
		return org{k: 'F', key: key, n: o.n}
	case o.k == 'G' || o.k == 'C':
		return o
	}
	return org{k: 'F', key: key}
}

func (x *aliasFn) of(v ssa.Value) orgs {
	switch v := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Global:
		return one(org{k: 'G', key: v.Name(), at: v})
	case *ssa.Function:
		return nil
	case *ssa.Parameter:
		for i, p := range x.fn.Params {
			if p == v {
				return one(org{k: 'P', n: i})
			}
		}
	case *ssa.FreeVar:
		for i, p := range x.fn.FreeVars {
			if p == v {
				return one(org{k: 'V', n: i})
			}
		}
	}
	return x.val[v]
}

// The memory behind the field i (-1: an element) of what v refers to.
func (x *aliasFn) behind(v orgs, i int, key string) orgs {
	r := orgs{}
	for o := range v {
		if o.k == 'A' {
			c := x.content[o.obj()]
			if i < 0 {
				for _, s := range c {
					r.add(s)
				}
			} else {
				r.add(c[i])
				r.add(c[-1])
			}
			continue
		}
		if i >= 0 && key != "" && o.k != 'N' {
			r[fieldOrg(o, key)] = true
			continue
		}
		r[o] = true
	}
	return r
}

func (a *aliasInfo) pass(x *aliasFn) {
	for _, b := range x.fn.Blocks {
		for _, in := range b.Instrs {
			a.instr(x, in)
		}
	}
}

func (a *aliasInfo) instr(x *aliasFn, in ssa.Instruction) {
	switch v := in.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		x.set(in.(ssa.Value), one(org{k: 'A', at: in.(ssa.Value)}))
	case *ssa.MakeClosure:
		x.set(v, one(org{k: 'A', at: v}))
		for _, b := range v.Bindings {
			x.keep(objKey{v: v}, -1, x.of(b))
		}
	case *ssa.FieldAddr:
		// the address is behind what the base refers to; the field is
		// looked at when it is used
		x.set(v, x.of(v.X))
		if isAggr(v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(v.Field).Type()) {
			// a struct within a struct: what is kept is that of the field
			key := a.fieldKey(v.X.Type(), v.Field)
			s := orgs{}
			for o := range x.of(v.X) {
				if o.k != 'A' && o.k != 'N' && key != "" {
					s[fieldOrg(o, key)] = true
				}
			}
			x.set(v, s)
		}
	case *ssa.IndexAddr:
		x.set(v, x.of(v.X))
	case *ssa.Field:
		if refType(v.Type()) {
			x.set(v, x.behind(x.of(v.X), v.Field, a.fieldKey(v.X.Type(), v.Field)))
		}
	case *ssa.Index:
		if refType(v.Type()) {
			x.set(v, x.behind(x.of(v.X), -1, ""))
		}
	case *ssa.Lookup:
		if refType(v.Type()) {
			x.set(v, x.behind(x.of(v.X), -1, ""))
			for i := 0; i < 2; i++ {
				x.put(x.tuple, v, i, x.val[v])
			}
		}
	case *ssa.Range:
		x.set(v, x.of(v.X))
	case *ssa.Next:
		s := x.behind(x.of(v.Iter), -1, "")
		for i := 1; i < 3; i++ {
			x.put(x.tuple, v, i, s)
		}
	case *ssa.UnOp:
		if v.Op == token.MUL && refType(v.Type()) {
			x.set(v, a.load(x, v.X))
		} else if v.Op == token.ARROW && refType(v.Type()) {
			x.set(v, x.behind(x.of(v.X), -1, ""))
		}
	case *ssa.Phi:
		if refType(v.Type()) {
			for _, e := range v.Edges {
				x.set(v, x.of(e))
			}
		}
	case *ssa.Slice:
		if k, ok := v.Max.(*ssa.Const); ok && k.Int64() == 0 {
			x.set(v, one(org{k: 'N'})) // no room: an append makes a copy
			return
		}
		if bt, ok := v.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return
		}
		x.set(v, x.of(v.X))
	case *ssa.Convert:
		if refType(v.Type()) {
			if bt, ok := v.X.Type().Underlying().(*types.Basic); ok && bt.Kind() != types.UnsafePointer {
				x.set(v, one(org{k: 'N'}))
			} else {
				x.set(v, x.of(v.X))
			}
		}
	case *ssa.ChangeType:
		x.set(v, x.of(v.X))
	case *ssa.ChangeInterface:
		x.set(v, x.of(v.X))
	case *ssa.SliceToArrayPointer:
		x.set(v, x.of(v.X))
	case *ssa.MakeInterface:
		if refType(v.X.Type()) {
			x.set(v, x.of(v.X))
		}
	case *ssa.TypeAssert:
		if refType(v.Type()) {
			x.set(v, x.of(v.X))
			for i := 0; i < 2; i++ {
				x.put(x.tuple, v, i, x.of(v.X))
			}
		}
	case *ssa.Extract:
		if refType(v.Type()) {
			x.set(v, x.tuple[v.Tuple][v.Index])
		}
	case *ssa.Store:
		a.store(x, v.Addr, x.of(v.Val), refType(v.Val.Type()), in)
		if mc, ok := v.Val.(*ssa.MakeClosure); ok {
			a.kept(x, v.Addr, mc, in)
		}
	case *ssa.MapUpdate:
		for o := range x.of(v.Map) {
			if o.k == 'A' {
				x.keep(o.obj(), -1, x.of(v.Value))
				x.keep(o.obj(), -1, x.of(v.Key))
			}
			x.eff(effect{o: o, at: in})
		}
	case *ssa.Send:
		for o := range x.of(v.Chan) {
			if o.k == 'A' {
				x.keep(o.obj(), -1, x.of(v.X))
			}
		}
	case *ssa.Return:
		for i, r := range v.Results {
			if !refType(r.Type()) {
				continue
			}
			s := orgs{}
			for o := range x.of(r) {
				if o.k == 'A' {
					s[org{k: 'N'}] = true
					// what a new object refers to
					if _, isMC := o.at.(*ssa.MakeClosure); !isMC || true {
						for j, t := range x.content[o.obj()] {
							if x.retc[i] == nil {
								x.retc[i] = map[int]orgs{}
							}
							if x.retc[i][j] == nil {
								x.retc[i][j] = orgs{}
							}
							if x.retc[i][j].add(x.flat(t, map[objKey]bool{})) {
								x.changed = true
							}
						}
					}
					continue
				}
				s[o] = true
			}
			if x.rets[i] == nil {
				x.rets[i] = orgs{}
			}
			if x.rets[i].add(s) {
				x.changed = true
			}
		}
	case ssa.CallInstruction:
		a.call(x, v)
	}
}

// s, with what objects made here refer to instead of these objects
func (x *aliasFn) flat(s orgs, seen map[objKey]bool) orgs {
	r := orgs{}
	for q := range s {
		if q.k != 'A' {
			r[q] = true
			continue
		}
		r[org{k: 'N'}] = true
		if seen[q.obj()] {
			continue
		}
		seen[q.obj()] = true
		for _, t := range x.content[q.obj()] {
			r.add(x.flat(t, seen))
		}
	}
	return r
}

func isAggr(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// the memory a value loaded from addr refers to
func (a *aliasInfo) load(x *aliasFn, addr ssa.Value) orgs {
	switch d := addr.(type) {
	case *ssa.FieldAddr:
		return x.behind(x.of(d.X), d.Field, a.fieldKey(d.X.Type(), d.Field))
	case *ssa.Global:
		return one(org{k: 'G', key: d.Name(), at: d})
	}
	// a struct variable loaded as a whole stays the object it is a copy of
	if _, ok := addr.(*ssa.Alloc); ok && isAggr(addr.Type().Underlying().(*types.Pointer).Elem()) {
		r := orgs{}
		for o := range x.of(addr) {
			r[o] = true
		}
		return r
	}
	return x.behind(x.of(addr), -1, "")
}

func (a *aliasInfo) store(x *aliasFn, addr ssa.Value, val orgs, ref bool, at ssa.Instruction) {
	field, i := "", -1
	base := addr
	if d, ok := addr.(*ssa.FieldAddr); ok {
		field, i, base = a.fieldKey(d.X.Type(), d.Field), d.Field, d.X
	}
	bs := x.of(base)
	for o := range bs {
		if o.k == 'A' {
			if ref {
				s := orgs{}
				for q := range val {
					// the copy of a struct made here keeps what that one has
					if q.k == 'A' && isStructObj(q.at) && !isPtrTo(addr, q.at) {
						for j, t := range x.content[q.obj()] {
							if i < 0 && isAggr(addr.Type().Underlying().(*types.Pointer).Elem()) {
								if _, isArr := addr.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); !isArr && base == addr {
									if _, isIx := addr.(*ssa.IndexAddr); !isIx {
										x.keep(o.obj(), j, t)
										continue
									}
								}
							}
							s.add(t)
						}
						continue
					}
					s[q] = true
				}
				x.keep(o.obj(), i, s)
			}
		} else {
			x.eff(effect{o: o, field: field, at: at})
		}
		if field != "" && ref {
			for q := range val {
				x.flow(flow{field: field, o: q, base: o, at: at})
			}
		}
	}
}

// q is an alloc of a struct, so a value with it as origin is a copy of it or a
// pointer to it
func isStructObj(v ssa.Value) bool {
	al, ok := v.(*ssa.Alloc)
	return ok && isAggr(al.Type().Underlying().(*types.Pointer).Elem())
}

// whether the memory at addr holds pointers to the object v rather than copies
func isPtrTo(addr ssa.Value, v ssa.Value) bool {
	return !isAggr(addr.Type().Underlying().(*types.Pointer).Elem())
}

// A closure is kept in a field: it may run at any time, so what it captured is
// shared.
func (a *aliasInfo) kept(x *aliasFn, addr ssa.Value, mc *ssa.MakeClosure, at ssa.Instruction) {
	d, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return
	}
	key := a.fieldKey(d.X.Type(), d.Field)
	cf := a.fns[mc.Fn.(*ssa.Function)]
	if key == "" || cf == nil {
		return
	}
	for e := range cf.effs {
		if e.o.k == 'V' {
			x.eff(effect{o: org{k: 'F', key: key}, at: e.at})
		}
	}
	for _, t := range x.content[objKey{v: mc}] {
		for q := range x.flat(t, map[objKey]bool{}) {
			for b := range x.of(d.X) {
				x.flow(flow{field: key, o: q, base: b, at: at})
			}
		}
	}
}

// Which arguments calls outside of the repository write to: indices, -1 for
// the receiver.
func extWrites(name string, nargs int) ([]int, bool) {
	base := name
	if i := strings.LastIndexByte(base, '.'); i >= 0 {
		base = base[i+1:]
	}
	switch {
	case strings.HasPrefix(base, "PutUint") || strings.HasPrefix(base, "PutVarint"):
		return []int{0}, true
	case base == "ReadFull" || base == "ReadAtLeast":
		return []int{0, 1}, true
	case base == "Read" && strings.HasPrefix(name, "binary."):
		return []int{0, 2}, true
	case base == "Read" || base == "ReadAt":
		return []int{-1, 0}, true
	case base == "Write" && strings.HasPrefix(name, "binary."):
		return []int{0}, true
	case name == "asm.Permute":
		return []int{0}, true
	case base == "Write" || base == "Reset" || base == "WriteString" || base == "Zero" || base == "Permute" || base == "Set":
		return []int{-1}, true
	case base == "Sum" && nargs == 1:
		return []int{0}, true
	case strings.HasPrefix(base, "Copy") && strings.HasPrefix(name, "io."):
		return []int{0, 1}, true
	case strings.HasPrefix(name, "slices.") && (strings.HasPrefix(base, "Sort") || base == "Reverse"):
		return []int{0}, true
	case strings.HasPrefix(name, "heap."):
		return []int{0}, true
	case strings.HasPrefix(name, "hex.") && base == "Decode", strings.HasPrefix(name, "hex.") && base == "Encode":
		return []int{0}, true
	}
	pk := name
	if i := strings.IndexByte(pk, '.'); i >= 0 {
		pk = pk[:i]
	}
	switch pk {
	case "fmt", "strings", "strconv", "errors", "bytes", "os", "sync", "filepath", "log", "runtime", "multierror", "xxhash", "lockfile", "subtle",
		"sha256", "sha512", "sha3", "reflect", "hex", "base64", "byteswriter", "math", "bits", "cpu", "mmap", "sort", "atomic", "time", "io", "hash", "binary", "heap", "error", "Error", "unsafe", "slices", "maps", "base32", "bufio", "context":
		return nil, true
	}
	return nil, false
}

func (a *aliasInfo) callees(c *ssa.CallCommon) (fns []*ssa.Function, ext string, closed bool) {
	if c.IsInvoke() {
		it := c.Value.Type()
		for _, f := range a.byMeth[c.Method.Name()] {
			rt := f.Signature.Recv().Type()
			if ii, ok := it.Underlying().(*types.Interface); ok && types.Implements(rt, ii) {
				fns = append(fns, f)
			}
		}
		pk := ""
		if c.Method.Pkg() != nil {
			pk = c.Method.Pkg().Name()
		}
		if c.Method.Pkg() != nil && a.p.repo[c.Method.Pkg()] {
			// an interface of the repository: other implementations may exist
			return fns, "?" + c.Method.Name(), false
		}
		return fns, pk + "." + c.Method.Name(), false
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		if a.fns[f] != nil {
			return []*ssa.Function{f}, "", true
		}
		if f.Blocks == nil && a.p.inRepo(f) {
			// assembly: changes the state it is given first (see C02)
			return nil, "asm.Permute", false
		}
		if f.Pkg != nil {
			return nil, f.Pkg.Pkg.Name() + "." + f.Name(), false
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return nil, f.Object().Pkg().Name() + "." + f.Name(), false
		}
		return nil, "unknown." + f.Name(), false
	case *ssa.MakeClosure:
		return []*ssa.Function{f.Fn.(*ssa.Function)}, "", true
	case *ssa.Builtin:
		return nil, "builtin." + f.Name(), false
	}
	if s, ok := c.Value.Type().Underlying().(*types.Signature); ok {
		k := types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
		fns = a.bySig[k]
		if len(fns) > 0 {
			return fns, "", true
		}
	}
	return nil, "unknown.func", false
}

func (a *aliasInfo) call(x *aliasFn, ci ssa.CallInstruction) {
	c := ci.Common()
	res, _ := ci.(ssa.Value)
	if call, ok := ci.(*ssa.Call); ok {
		res = call
	} else {
		res = nil
	}
	var args []orgs
	if c.IsInvoke() {
		args = append(args, x.of(c.Value))
	}
	for _, v := range c.Args {
		if refType(v.Type()) {
			args = append(args, x.of(v))
		} else {
			args = append(args, nil)
		}
	}
	fns, ext, _ := a.callees(c)
	result := func(i int, s orgs) {
		if res == nil || len(s) == 0 {
			return
		}
		if t, ok := res.Type().(*types.Tuple); ok {
			if refType(t.At(i).Type()) {
				x.put(x.tuple, res, i, s)
			}
			return
		}
		if i == 0 && refType(res.Type()) {
			x.set(res, s)
		}
	}
	nres := c.Signature().Results().Len()
	for _, f := range fns {
		y := a.fns[f]
		if y == nil {
			continue
		}
		var bind []orgs
		if mc, ok := c.Value.(*ssa.MakeClosure); ok && mc.Fn == f {
			for _, b := range mc.Bindings {
				bind = append(bind, x.of(b))
			}
		} else if len(f.FreeVars) > 0 {
			// a closure made elsewhere: its bindings are what it was made with
			for range f.FreeVars {
				b := orgs{}
				for o := range x.of(c.Value) {
					if o.k == 'A' {
						for _, s := range x.content[o.obj()] {
							b.add(s)
						}
					}
				}
				bind = append(bind, b)
			}
		}
		sub := func(o org) orgs {
			switch o.k {
			case 'P':
				if o.n < len(args) {
					return args[o.n]
				}
				return nil
			case 'V':
				if o.n < len(bind) {
					return bind[o.n]
				}
				return nil
			case 'F':
				if o.n == 0 || o.n-1 >= len(args) {
					return one(org{k: 'F', key: o.key})
				}
				r := orgs{}
				for q := range args[o.n-1] {
					switch q.k {
					case 'A':
						idx := a.fieldIndex(f, o.n-1, o.key)
						for j, s := range x.content[q.obj()] {
							if idx < 0 || j < 0 || j == idx {
								r.add(s)
							}
						}
						r[org{k: 'N'}] = true
					case 'N':
						r[q] = true
					default:
						r[fieldOrg(q, o.key)] = true
					}
				}
				return r
			case 'A':
				return one(org{k: 'N'})
			}
			return one(o)
		}
		for i, s := range y.rets {
			r := orgs{}
			for o := range s {
				if o.k == 'N' && res != nil {
					// one object for each call
					r[org{k: 'A', at: res, n: i}] = true
					for j, t := range y.retc[i] {
						for q := range t {
							x.keep(objKey{res, i}, j, sub(q))
						}
					}
					continue
				}
				r.add(sub(o))
			}
			result(i, r)
		}
		for e := range y.effs {
			for o := range sub(e.o) {
				at := e.at
				if o.k == 'G' && e.o.k != 'G' {
					at = ci
				}
				x.eff(effect{o: o, field: e.field, at: at})
			}
		}
		for fl := range y.flows {
			if fl.o.k != 'P' && fl.o.k != 'V' && fl.o.n == 0 && fl.base.k != 'P' && fl.base.k != 'V' && fl.base.n == 0 {
				continue // nothing new here
			}
			for o := range sub(fl.o) {
				for b := range sub(fl.base) {
					x.flow(flow{field: fl.field, o: o, base: b, at: fl.at})
				}
			}
		}
	}
	if ext == "" {
		return
	}
	if strings.HasPrefix(ext, "builtin.") {
		switch ext[8:] {
		case "append":
			s := orgs{{k: 'N'}: true}
			s.add(args[0])
			refs := false
			if len(args) > 1 {
				if st, ok := c.Args[1].Type().Underlying().(*types.Slice); ok {
					refs = refType(st.Elem())
				}
			}
			for o := range args[0] {
				x.eff(effect{o: o, at: ci})
				if o.k == 'A' && refs {
					x.keep(o.obj(), -1, x.behind(args[1], -1, ""))
				}
			}
			if len(args) > 1 {
				if st, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && refType(st.Elem()) {
					s.add(x.behind(args[1], -1, ""))
				}
			}
			result(0, s)
		case "copy":
			for o := range args[0] {
				x.eff(effect{o: o, at: ci})
			}
			if st, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && refType(st.Elem()) {
				for o := range args[0] {
					if o.k == 'A' {
						x.keep(o.obj(), -1, x.behind(args[1], -1, ""))
					}
				}
			}
		case "delete", "clear":
			for o := range args[0] {
				x.eff(effect{o: o, at: ci})
			}
		}
		return
	}
	if ext[0] == '?' {
		// a method of an interface of the repository
		for i := 0; i < nres; i++ {
			if isErrorType(c.Signature().Results().At(i).Type()) {
				continue
			}
			result(i, one(org{k: 'C', key: ext[1:]}))
		}
		return
	}
	w, known := extWrites(ext, c.Signature().Params().Len())
	first := 0
	if c.Signature().Recv() != nil || c.IsInvoke() {
		first = 1
	}
	if !known {
		for i := range args {
			w = append(w, i-first)
		}
	}
	for _, i := range w {
		if i+first >= 0 && i+first < len(args) {
			for o := range args[i+first] {
				x.eff(effect{o: o, at: ci})
			}
		}
	}
	all := orgs{{k: 'N'}: true}
	if strings.HasPrefix(ext, "mmap.") {
		all[org{k: 'C', key: "mapped memory"}] = true
	} else if strings.HasPrefix(ext, "bytes.") && ext != "bytes.Clone" && ext != "bytes.Repeat" && ext != "bytes.Join" || strings.HasPrefix(ext, "byteswriter.") || ext == "reflect.ValueOf" || strings.HasSuffix(ext, ".Sum") || strings.HasPrefix(ext, "unknown.") || ext == "reflect.Elem" || ext == "unsafe.Slice" {
		for _, s := range args {
			all.add(s)
		}
	}
	for i := 0; i < nres; i++ {
		if isErrorType(c.Signature().Results().At(i).Type()) {
			continue
		}
		result(i, all)
	}
}

func (a *aliasInfo) exported(f *ssa.Function) bool {
	if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.Pkg != a.p.Main && (f.Pkg == nil || f.Pkg != a.p.Main) {
		return false
	}
	return true
}

// what is shared without a lock
func (m *keyModel) sharedFields() map[string]bool {
	r := map[string]bool{}
	names := []string{"Context", "PublicKey"}
	if n, ok := m.p.hashesType().(*types.Named); ok {
		names = append(names, n.Obj().Name())
	}
	for _, n := range names {
		t := m.p.namedType(n)
		if t == nil {
			continue
		}
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if !s.Field(i).Exported() {
				r[n+"."+s.Field(i).Name()] = true
			}
		}
	}
	tn := m.T.(*types.Named).Obj().Name()
	for i := 0; i < m.S.NumFields(); i++ {
		if m.mut[i] {
			continue
		}
		ft := m.S.Field(i).Type()
		if n, ok := derefNamed(ft); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
			continue
		}
		if types.IsInterface(ft) {
			continue // the container: its calls are the subject of lock.container
		}
		r[tn+"."+m.S.Field(i).Name()] = true
	}
	// types of fields which are structs themselves
	for ch := true; ch; {
		ch = false
		for k := range r {
			i := strings.IndexByte(k, '.')
			t := m.p.namedType(k[:i])
			if t == nil {
				continue
			}
			s := t.Underlying().(*types.Struct)
			for j := 0; j < s.NumFields(); j++ {
				if s.Field(j).Name() != k[i+1:] {
					continue
				}
				n, ok := s.Field(j).Type().(*types.Named)
				if !ok {
					continue
				}
				u, ok := n.Underlying().(*types.Struct)
				if !ok || n.Obj().Pkg() != m.p.Main.Pkg {
					continue
				}
				for q := 0; q < u.NumFields(); q++ {
					kk := n.Obj().Name() + "." + u.Field(q).Name()
					if !r[kk] {
						r[kk] = true
						ch = true
					}
				}
			}
		}
	}
	return r
}

func derefNamed(t types.Type) (*types.Named, bool) {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return n, ok
}

// functions called (only) when the package is initialised
func (a *aliasInfo) initOnly() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range a.list {
		if f.Synthetic != "" && f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Parent() == nil && f.Name() == "init" && f.Signature.Recv() == nil {
			r[f] = true
		}
	}
	return r
}

// Some mutex that is a package variable is locked where in is reached: the
// lock is taken in a block dominating it and not given back in between other
// than by a deferred call.
func guardedGlobal(in ssa.Instruction) bool {
	isMux := func(c *ssa.CallCommon, name string) bool {
		f := c.StaticCallee()
		if f == nil || f.Name() != name || f.Pkg == nil || f.Pkg.Pkg.Path() != "sync" || len(c.Args) == 0 {
			return false
		}
		_, ok := c.Args[0].(*ssa.Global)
		return ok
	}
	fn := in.Parent()
	locked := false
	for _, b := range fn.Blocks {
		if !b.Dominates(in.Block()) {
			continue
		}
		for _, i := range b.Instrs {
			if i == in {
				break
			}
			c, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			if isMux(&c.Call, "Lock") {
				locked = true
			}
			if isMux(&c.Call, "Unlock") {
				locked = false
			}
		}
	}
	return locked
}

func immutable(r *Rep, m *keyModel) {
	a := newAlias(m.p)
	shared := m.sharedFields()
	init := a.initOnly()
	bad := map[string]bool{}
	seen := map[effect]bool{}
	sharedType := func(k string) bool { return shared[k] }
	report := func(fn *ssa.Function, e effect, what string) {
		k := fnName(e.at.Parent()) + what
		if bad[k] {
			return
		}
		bad[k] = true
		r.viol("lock.immutable", fnName(e.at.Parent()), m.p.ipos(e.at), "%s", what)
	}
	var fns []*ssa.Function
	fns = append(fns, a.list...)
	sort.SliceStable(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	hit := map[string]bool{}
	for _, f := range fns {
		r.fns[fnName(f)] = true
		x := a.fns[f]
		for e := range x.effs {
			seen[e] = true
			unm := a.exported(f) && strings.HasPrefix(f.Name(), "Unmarshal")
			initialises := unm && (e.o == (org{k: 'P', n: 0}) || e.o.k == 'F' && e.o.n == 1)
			// not all callers are known, or what is changed does not depend on them
			root := e.o.k != 'F' || e.o.n == 0 || a.exported(f)
			if !root || initialises {
				continue
			}
			switch {
			case e.o.k == 'F' && e.field == "" && sharedType(e.o.key):
				report(f, e, "what "+e.o.key+" refers to is changed after it was made")
				hit[e.o.key] = true
			case e.field != "" && sharedType(e.field) && (e.o.k == 'F' || e.o.k == 'G' || e.o.k == 'C' || e.o.k == 'P' && a.exported(f) && !initialises):
				report(f, e, e.field+" is changed after it was made")
				hit[e.field] = true
			case e.field != "" && sharedType(e.field) && e.o.k == 'V' && f.Parent() != nil:
				// closures: judged where they are made, or where they are kept
			case e.o.k == 'G':
				if init[f] || init[e.at.Parent()] || guardedGlobal(e.at) {
					continue
				}
				if g, ok := e.o.at.(*ssa.Global); ok {
					if f.Pkg != m.p.Main && g.Pkg == f.Pkg {
						// other packages of the repository
						if init[f] {
							continue
						}
					}
					if n, ok := g.Type().Underlying().(*types.Pointer).Elem().(*types.Named); ok && types.IsInterface(n) {
						continue // the logger: set by its own functions, before use
					}
				}
				report(f, e, "package variable "+e.o.key+" is changed without a lock")
			}
		}
	}
	var ks []string
	for k := range shared {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.check(!hit[k], "lock.immutable", k, "", "never changed after it was made")
	}
	r.extra["writes considered"] = len(seen)
	if len(seen) < 20 {
		r.undec("lock.immutable", "effects", "", "too few writes found")
	}
}

// ---- S08

func init() {
	register("S08", "Flow-insensitive origin analysis of every reference kept in a key, signature or container, and of every buffer handed out.", s08)
}

func isBytes(t types.Type) bool {
	for {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		if b, ok := s.Elem().Underlying().(*types.Basic); ok {
			return b.Info()&types.IsInteger != 0
		}
		t = s.Elem()
	}
}

// named struct types of the package that keys, signatures and containers
// consist of
func (a *aliasInfo) keptTypes() map[string]bool {
	r := map[string]bool{}
	var add func(t types.Type)
	add = func(t types.Type) {
		switch u := t.(type) {
		case *types.Pointer:
			add(u.Elem())
		case *types.Slice:
			add(u.Elem())
		case *types.Array:
			add(u.Elem())
		case *types.Map:
			add(u.Key())
			add(u.Elem())
		case *types.Named:
			if u.Obj().Pkg() == nil || !a.p.repo[u.Obj().Pkg()] {
				return
			}
			s, ok := u.Underlying().(*types.Struct)
			if !ok || r[u.Obj().Name()] {
				return
			}
			r[u.Obj().Name()] = true
			for i := 0; i < s.NumFields(); i++ {
				add(s.Field(i).Type())
			}
		}
	}
	for _, n := range []string{"Signature", "PublicKey", "PrivateKey"} {
		if t := a.p.namedType(n); t != nil {
			add(t)
		}
	}
	for _, t := range a.containers() {
		add(t)
	}
	return r
}

// the types of the package that implement the container interface
func (a *aliasInfo) containers() []types.Type {
	var r []types.Type
	it, ok := a.p.namedType("PrivateKeyContainer").(*types.Named)
	if !ok {
		return nil
	}
	ii := it.Underlying().(*types.Interface)
	sc := a.p.Main.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		if types.Implements(types.NewPointer(tn.Type()), ii) {
			r = append(r, tn.Type())
		}
	}
	return r
}

func s08(r *Rep) {
	r.rule("alias.caller", "no field keeps a buffer passed in by the caller", 8)
	r.rule("alias.cache", "no key or signature keeps memory of the cache of subtrees", 8)
	r.rule("alias.out", "a buffer handed out is a copy", 6)
	a := newAlias(r.P)
	kept := a.keptTypes()
	isCtr := map[string]bool{}
	ctrT := a.containers()
	for _, t := range ctrT {
		isCtr[t.(*types.Named).Obj().Name()] = true
	}
	// byte slices among the fields of these types
	var fields []string
	fieldT := map[string]types.Type{}
	for n := range kept {
		s, ok := r.P.namedType(n).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			k := n + "." + s.Field(i).Name()
			fieldT[k] = s.Field(i).Type()
			fields = append(fields, k)
		}
	}
	sort.Strings(fields)
	mapped := func(k string) bool { // fields holding the cache
		t := fieldT[k]
		if t == nil {
			return false
		}
		found := false
		var walk func(t types.Type, d int)
		walk = func(t types.Type, d int) {
			if d > 6 {
				return
			}
			switch u := t.(type) {
			case *types.Pointer:
				walk(u.Elem(), d+1)
			case *types.Map:
				walk(u.Elem(), d+1)
			case *types.Slice:
				walk(u.Elem(), d+1)
			case *types.Named:
				if u.Obj().Pkg() != nil && u.Obj().Pkg().Name() == "mmap" {
					found = true
				}
				if s, ok := u.Underlying().(*types.Struct); ok && u.Obj().Pkg() == r.P.Main.Pkg {
					for i := 0; i < s.NumFields(); i++ {
						walk(s.Field(i).Type(), d+1)
					}
				}
			}
		}
		i := strings.IndexByte(k, '.')
		walk(t, 0)
		if !found && !isCtr[k[:i]] {
			walk(r.P.namedType(k[:i]), 0)
		}
		return found
	}
	bad := map[string]bool{}
	viol := func(rule, k, where, f string, x ...interface{}) {
		if !bad[rule+k+f] {
			bad[rule+k+f] = true
			r.viol(rule, k, where, f, x...)
		}
	}
	for _, f := range a.list {
		r.fns[fnName(f)] = true
		x := a.fns[f]
		ctrMeth := f.Signature.Recv() != nil && isCtr[recvName(f)]
		root := a.exported(f)
		for fl := range x.flows {
			t := fieldT[fl.field]
			if t == nil {
				continue
			}
			if root && fl.o.k == 'P' && (isBytes(t) || isFunc(t)) && fl.o.n < len(f.Params) && isBytes(f.Params[fl.o.n].Type()) {
				viol("alias.caller", fl.field, r.P.ipos(fl.at), "keeps the buffer %s passed to %s", f.Params[fl.o.n].Name(), fnName(f))
				bad["c"+fl.field] = true
			}
			owner := fl.field[:strings.IndexByte(fl.field, '.')]
			if isCtr[owner] || mapped(fl.field) || !(isBytes(t) || isFunc(t)) {
				continue
			}
			if fl.o.k == 'C' && (fl.o.key == "mapped memory" || fl.o.key == "GetSubTree") || fl.o.k == 'F' && mapped(fl.o.key) {
				viol("alias.cache", fl.field, r.P.ipos(fl.at), "keeps memory of the cache of subtrees (%s), in %s", fl.o, fnName(fl.at.Parent()))
				bad["m"+fl.field] = true
			}
		}
		if rc := f.Signature.Recv(); rc != nil && !ctrMeth {
			if n, ok := derefNamed(rc.Type()); ok && !n.Obj().Exported() {
				continue // not visible to users
			}
		}
		if !root && !ctrMeth || ctrMeth && f.Name() == "GetSubTree" {
			continue
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if st, ok := res.At(i).Type().Underlying().(*types.Slice); !ok || !types.Identical(st.Elem(), types.Typ[types.Byte]) {
				continue
			}
			ok := true
			for o := range x.rets[i] {
				if o.k != 'N' && o.k != 'A' {
					if o.k == 'C' && o.key == "GetPrivateKey" {
						continue
					}
					ok = false
					r.viol("alias.out", fnName(f), r.P.pos(f.Pos()), "hands out %s", o)
				}
			}
			r.check(ok, "alias.out", fnName(f), r.P.pos(f.Pos()), "what it hands out is a copy")
		}
	}
	for _, k := range fields {
		if isBytes(fieldT[k]) || isFunc(fieldT[k]) {
			r.check(!bad["c"+k], "alias.caller", k, "", "does not keep a buffer of the caller")
			if !mapped(k) && !isCtr[k[:strings.IndexByte(k, '.')]] {
				r.check(!bad["m"+k], "alias.cache", k, "", "does not keep memory of the cache")
			}
		}
	}
}

func isFunc(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

func recvName(f *ssa.Function) string {
	n, ok := derefNamed(f.Signature.Recv().Type())
	if !ok {
		return ""
	}
	return n.Obj().Name()
}

func isErrorType(t types.Type) bool {
	return types.IsInterface(t) && types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
}
