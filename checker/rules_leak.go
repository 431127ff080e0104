package main

// K02: where secret bytes go.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("K02", "Flow-insensitive taint analysis with function summaries from the secret seeds and what the container returns to text, errors, logs, other packages and results; "+
		"which fields hold secrets is found by symbolic key derivation, as is that public keys and signatures have no byte of them; modes of created files over a file system model.", k02)
}

const secretBit = uint64(1) << 63

type leakSum struct {
	par   []uint64          // contents of parameters and captured variables afterwards
	res   []uint64          // results
	field map[string]uint64 // fields and package variables
	sink  map[string]leakSink
}

type leakSink struct {
	mask uint64
	what string
	at   ssa.Instruction
}

type leakInfo struct {
	r      *Rep
	a      *aliasInfo
	sum    map[*ssa.Function]*leakSum
	secret map[string]bool // fields which hold secrets
	public map[string]bool // fields which do not, by the symbolic analysis
	hashes map[*ssa.Function]bool
	source map[*ssa.Function]map[int]int // parameters: 1 secret, -1 public
	getKey map[*ssa.Function]bool
	ctr    types.Type
	ch     bool
}

type resKey struct {
	v ssa.Value
	n int
}
type boxKey struct{ v ssa.Value }

type leakFn struct {
	l     *leakInfo
	fn    *ssa.Function
	up    map[interface{}]interface{}
	mask  map[interface{}]uint64
	edges map[[2]interface{}]bool
	s     *leakSum
	nbits int
	ch    bool
}

func (x *leakFn) find(k interface{}) interface{} {
	for {
		p, ok := x.up[k]
		if !ok {
			return k
		}
		k = p
	}
}

func (x *leakFn) unify(a, b interface{}) {
	if a == nil || b == nil {
		return
	}
	a, b = x.find(a), x.find(b)
	if a == b {
		return
	}
	x.up[a] = b
	x.mask[b] |= x.mask[a]
	x.ch = true
}

func (x *leakFn) add(k interface{}, m uint64) {
	if k == nil || m == 0 {
		return
	}
	k = x.find(k)
	if x.mask[k]|m != x.mask[k] {
		x.mask[k] |= m
		x.ch = true
	}
}

func (x *leakFn) get(k interface{}) uint64 {
	if k == nil {
		return 0
	}
	return x.mask[x.find(k)]
}

func (x *leakFn) edge(from, to interface{}) { x.add(to, x.get(from)) }

// the cell of a value; nil if it has none
func (x *leakFn) cell(v ssa.Value) interface{} {
	switch g := v.(type) {
	case nil, *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return x.fieldCell("package variable " + g.Name())
	}
	return v
}

func (x *leakFn) fieldCell(key string) interface{} {
	if x.l.public[key] {
		return nil
	}
	k := "F:" + key
	if x.l.secret[key] {
		x.add(k, secretBit)
	}
	return k
}

// reference to memory (not a string)
func isRef(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Interface:
		return true
	}
	return false
}

func isRepoStruct(a *aliasInfo, t types.Type) bool { return a.fieldKey2(t) != "" }

func (a *aliasInfo) fieldKey2(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return ""
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !a.p.repo[n.Obj().Pkg()] {
		return ""
	}
	return n.Obj().Name()
}

func (x *leakFn) move(from, to ssa.Value, t types.Type) {
	if isRepoStruct(x.l.a, t) {
		if _, ok := t.Underlying().(*types.Struct); ok {
			return
		}
	}
	if isRef(t) {
		x.unify(x.cell(from), x.cell(to))
	} else {
		x.edge(x.cell(from), x.cell(to))
	}
}

func (x *leakFn) instr(in ssa.Instruction) {
	switch i := in.(type) {
	case *ssa.Phi:
		for _, e := range i.Edges {
			x.move(e, i, i.Type())
		}
	case *ssa.Slice:
		x.move(i.X, i, i.Type())
	case *ssa.ChangeType:
		x.move(i.X, i, i.Type())
	case *ssa.ChangeInterface:
		x.move(i.X, i, i.Type())
		// a container holds the key
		if it, ok := i.Type().Underlying().(*types.Interface); ok && it.Empty() && types.Identical(i.X.Type(), x.l.ctr) {
			x.add(boxKey{i}, secretBit)
			x.edge(boxKey{i}, i)
		}
	case *ssa.SliceToArrayPointer:
		x.move(i.X, i, i.Type())
	case *ssa.MultiConvert:
		x.edge(x.cell(i.X), i)
	case *ssa.Convert:
		if isRef(i.X.Type()) && isRef(i.Type()) {
			x.unify(x.cell(i.X), i)
		} else {
			x.edge(x.cell(i.X), i)
		}
	case *ssa.IndexAddr:
		x.unify(x.cell(i.X), i)
	case *ssa.Index:
		x.edge(x.cell(i.X), i)
	case *ssa.Lookup:
		x.move(i.X, i, i.Type())
	case *ssa.MapUpdate:
		x.move(i.Value, i.Map, i.Value.Type())
		x.edge(x.cell(i.Key), x.cell(i.Map))
	case *ssa.Send:
		x.move(i.X, i.Chan, i.X.Type())
	case *ssa.FieldAddr:
		if k := x.l.a.fieldKey(i.X.Type(), i.Field); k != "" {
			if c := x.fieldCell(k); c != nil {
				x.unify(c, i)
			}
			return
		}
		x.unify(x.cell(i.X), i)
	case *ssa.Field:
		if k := x.l.a.fieldKey(i.X.Type(), i.Field); k != "" {
			if c := x.fieldCell(k); c != nil {
				if isRef(i.Type()) {
					x.unify(c, i)
				} else {
					x.edge(c, i)
				}
			}
			return
		}
		x.move(i.X, i, i.Type())
	case *ssa.UnOp:
		if i.Op == token.MUL || i.Op == token.ARROW {
			x.move(i.X, i, i.Type())
		} else {
			x.edge(x.cell(i.X), i)
		}
	case *ssa.Store:
		x.move(i.Val, i.Addr, i.Val.Type())
	case *ssa.BinOp:
		switch i.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		default:
			x.edge(x.cell(i.X), i)
			x.edge(x.cell(i.Y), i)
		}
	case *ssa.Range:
		x.edge(x.cell(i.X), i)
	case *ssa.Next:
		x.edge(x.cell(i.Iter), i)
	case *ssa.Select:
		for _, s := range i.States {
			if s.Send != nil {
				x.move(s.Send, s.Chan, s.Send.Type())
			} else {
				x.edge(x.cell(s.Chan), i)
			}
		}
	case *ssa.Extract:
		if c, ok := i.Tuple.(*ssa.Call); ok {
			x.unify(resKey{c, i.Index}, i)
		} else {
			x.move(i.Tuple, i, i.Type())
			x.edge(x.cell(i.Tuple), i)
		}
	case *ssa.MakeInterface:
		x.move(i.X, i, i.Type())
		x.edge(x.cell(i.X), i)
		if it, ok := i.Type().Underlying().(*types.Interface); ok && it.Empty() && x.l.holds(i.X.Type(), map[types.Type]bool{}) {
			x.add(boxKey{i}, secretBit)
			x.edge(boxKey{i}, i)
		}
	case *ssa.TypeAssert:
		if _, ok := i.Type().(*types.Tuple); ok {
			x.edge(x.cell(i.X), i)
			return
		}
		x.move(i.X, i, i.Type())
		x.edge(x.cell(i.X), i)
	case *ssa.MakeClosure:
		f := i.Fn.(*ssa.Function)
		np := len(f.Params)
		args := make([]interface{}, np+len(i.Bindings))
		for j, b := range i.Bindings {
			args[np+j] = x.cell(b)
		}
		x.apply(f, args, nil, i)
	case *ssa.Return:
		for j, v := range i.Results {
			if x.l.getKey[x.fn] && j == 0 {
				x.add(x.cell(v), secretBit)
			}
			x.s.res[j] |= x.get(x.cell(v))
			if m := x.get(x.cell(v)); m != 0 && x.l.a.exported(x.fn) && !x.l.getKey[x.fn] && !isErrorType(v.Type()) {
				if rc := x.fn.Signature.Recv(); rc == nil || isExportedType(rc.Type()) {
					x.sink(fmt.Sprintf("result of %s", fnName(x.fn)), m, in)
				}
			}
		}
	case *ssa.Panic:
		x.sink("value of a panic", x.get(x.cell(i.X)), in)
	}
	if ci, ok := in.(ssa.CallInstruction); ok {
		x.call(ci)
	}
}

func isExportedType(t types.Type) bool {
	n, ok := derefNamed(t)
	return !ok || n.Obj().Exported()
}

// does an object of type t have fields with secrets?
func (l *leakInfo) holds(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return l.holds(u.Elem(), seen)
	case *types.Slice:
		return l.holds(u.Elem(), seen)
	case *types.Array:
		return l.holds(u.Elem(), seen)
	case *types.Map:
		return l.holds(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if k := l.a.fieldKey(t, i); k != "" && l.secret[k] && !l.public[k] {
				return true
			}
			if l.holds(u.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

func (x *leakFn) sink(what string, m uint64, at ssa.Instruction) {
	if m == 0 {
		return
	}
	key := fmt.Sprintf("%s|%p", what, at)
	o, ok := x.s.sink[key]
	if !ok || o.mask|m != o.mask {
		x.s.sink[key] = leakSink{o.mask | m, what, at}
		x.ch = true
	}
}

// substitutes the summary of f
func (x *leakFn) apply(f *ssa.Function, args []interface{}, res ssa.Value, at ssa.Instruction) {
	s := x.l.sum[f]
	if s == nil {
		return
	}
	// a summary with few bits: functions with many parameters share the last
	tr := func(m uint64) uint64 {
		r := m & secretBit
		for j, a := range args {
			if m&(1<<uint(minI(j, 62))) != 0 {
				r |= x.get(a)
			}
		}
		return r
	}
	for j, a := range args {
		if j < len(s.par) {
			m := s.par[j]
			if j < 62 {
				m &^= 1 << uint(j)
			}
			x.add(a, tr(m))
		}
	}
	if x.l.hashes[f] {
		// results of hashing are not secret
	} else if res != nil {
		for j, m := range s.res {
			if t := tr(m); t != 0 {
				if len(s.res) == 1 {
					x.add(x.cell(res), t)
				} else {
					x.add(resKey{res, j}, t)
				}
			}
		}
	}
	if !x.l.hashes[f] {
		for k, m := range s.field {
			if c := x.fieldCell(k); c != nil {
				x.add(c, tr(m))
			}
		}
	}
	for k, sk := range s.sink {
		if m := tr(sk.mask &^ secretBit); m != 0 {
			o, ok := x.s.sink[k]
			if !ok || o.mask|m != o.mask {
				x.s.sink[k] = leakSink{o.mask | m, sk.what, sk.at}
				x.ch = true
			}
		}
	}
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (x *leakFn) call(ci ssa.CallInstruction) {
	c := ci.Common()
	var res ssa.Value
	if v, ok := ci.(*ssa.Call); ok {
		res = v
	}
	fns, ext, _ := x.l.a.callees(c)
	args := make([]interface{}, 0, len(c.Args)+1)
	if c.IsInvoke() {
		args = append(args, x.cell(c.Value))
	}
	for _, a := range c.Args {
		args = append(args, x.cell(a))
	}
	static := c.StaticCallee() != nil
	for _, f := range fns {
		as := args
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			as = append([]interface{}{}, args...)
			for len(as) < len(f.Params) {
				as = append(as, nil)
			}
			for _, b := range mc.Bindings {
				as = append(as, x.cell(b))
			}
		}
		x.apply(f, as, res, ci)
		if static {
			for j := range c.Args {
				if x.l.source[f][j] == 1 {
					x.add(args[j], secretBit)
				}
			}
		}
	}
	if len(fns) > 0 && ext == "" {
		return
	}
	results := func(m uint64) {
		if res == nil || m == 0 {
			return
		}
		if t, ok := res.Type().(*types.Tuple); ok {
			for j := 0; j < t.Len(); j++ {
				if !isErrorType(t.At(j).Type()) {
					x.add(resKey{res, j}, m)
				}
			}
			return
		}
		if !isErrorType(res.Type()) || strings.HasPrefix(ext, "fmt.") || strings.HasPrefix(ext, "errors.") {
			x.add(x.cell(res), m)
		}
	}
	var all uint64
	vals := c.Args
	if c.IsInvoke() {
		vals = append([]ssa.Value{c.Value}, c.Args...)
	}
	for j, a := range args {
		// what is in a file is not a property of the file
		if !isFile(vals[j]) {
			all |= x.get(a)
		}
	}
	if c.IsInvoke() && types.Identical(c.Value.Type(), x.l.ctr) {
		if c.Method.Name() == "GetPrivateKey" && res != nil {
			x.add(resKey{res, 0}, secretBit)
		}
		return
	}
	if strings.HasPrefix(ext, "?") {
		// other implementations of an interface of the repository
		if c.Method.Exported() && len(c.Args) > 0 {
			m := uint64(0)
			for _, a := range args[1:] {
				m |= x.get(a)
			}
			x.sink("argument of "+ext[1:]+" of "+shortName(c.Value.Type().String()), m, ci)
		}
		results(all)
		return
	}
	pk, base := "", ext
	if i := strings.IndexByte(ext, '.'); i >= 0 {
		pk, base = ext[:i], ext[i+1:]
	}
	switch pk {
	case "sha256", "sha512", "sha3", "hash", "xxhash", "asm", "reflect", "sync", "atomic", "runtime", "unsafe", "subtle", "mmap", "rand", "cpu", "f1600x4", "lockfile", "maphash", "hmac":
		return
	case "builtin":
		switch base {
		case "copy":
			x.edge(args[1], args[0])
		case "append":
			if res != nil {
				if isRef(c.Args[0].Type()) {
					x.unify(args[0], res)
				}
				if len(args) > 1 {
					x.edge(args[1], res)
				}
			}
		case "min", "max":
			results(all)
		case "print", "println":
			x.sink("argument of "+base, all, ci)
		}
		return
	case "xorsimd", "binary", "bytes", "io", "ioutil", "bufio", "byteswriter", "heap", "sort", "slices", "maps", "bits", "math", "big", "strings", "strconv", "hex", "base64", "base32", "context":
		// these pass on what they are given
		if pk == "binary" && (base == "Write" || base == "Read" || base == "Size") || pk != "ioutil" || base == "ReadAll" {
			if pk != "strings" || base != "Repeat" {
				for j, a := range args {
					if !isFile(vals[j]) && !isErrorType(vals[j].Type()) {
						x.add(a, all)
					}
				}
			}
			results(all)
			return
		}
		if base == "WriteFile" || base == "ReadFile" {
			return
		}
	case "os":
		// files: see the modes with which they are created
		if base == "WriteFile" {
			return
		}
		if len(c.Args) > 0 && (base == "Write" || base == "WriteAt" || base == "WriteString") {
			if stdStream(c.Args[0], map[ssa.Value]bool{}) {
				x.sink("output of the program", all, ci)
			}
			return
		}
	case "error", "Error", "":
		if base == "Error" || base == "Unwrap" || base == "Inner" {
			results(all)
			return
		}
	}
	x.sink("argument of "+ext, all, ci)
	results(all)
}

func stdStream(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch i := v.(type) {
	case *ssa.Global:
		return i.Pkg != nil && i.Pkg.Pkg.Path() == "os"
	case *ssa.UnOp:
		return stdStream(i.X, seen)
	case *ssa.Phi:
		for _, e := range i.Edges {
			if stdStream(e, seen) {
				return true
			}
		}
	}
	return false
}

func (l *leakInfo) pass(f *ssa.Function) {
	s := l.sum[f]
	x := &leakFn{l: l, fn: f, up: map[interface{}]interface{}{}, mask: map[interface{}]uint64{}, s: s}
	ps := make([]interface{}, 0, len(s.par))
	for _, p := range f.Params {
		ps = append(ps, p)
	}
	for _, v := range f.FreeVars {
		ps = append(ps, v)
	}
	for j, p := range ps {
		switch l.source[f][j] {
		case 1:
			x.add(p, secretBit)
		case 0:
			x.add(p, 1<<uint(minI(j, 62)))
		}
	}
	for {
		x.ch = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x.instr(in)
			}
		}
		if !x.ch {
			break
		}
	}
	upd := func(o *uint64, m uint64) {
		if *o|m != *o {
			*o |= m
			l.ch = true
		}
	}
	for j, p := range ps {
		m := x.get(p)
		if l.hashes[f] || l.source[f][j] == -1 {
			m &= 0
		}
		upd(&s.par[j], m)
	}
	for k := range x.up {
		x.fieldOut(k, upd)
	}
	for k := range x.mask {
		x.fieldOut(k, upd)
	}
}

func (x *leakFn) fieldOut(k interface{}, upd func(o *uint64, m uint64)) {
	str, ok := k.(string)
	if !ok || x.l.hashes[x.fn] {
		return
	}
	key := strings.TrimPrefix(str, "F:")
	m := x.get(k)
	o := x.s.field[key]
	upd(&o, m&^secretBit)
	x.s.field[key] = o
	if m&secretBit != 0 && !x.l.secret[key] {
		x.l.secret[key] = true
		x.l.ch = true
		dbg("%s becomes secret in %s", key, fnName(x.fn))
	}
}

func k02(r *Rep) {
	r.rule("leak.text", "no secret byte reaches text, errors, logs, panics, other packages or results of exported functions", 10)
	r.rule("leak.public", "public keys and signatures have no byte of the secret seeds", 4)
	r.rule("perm", "files with secrets are created accessible by their owner only", 4)
	storeRules(r, "perm")
	if r.parts > 0 && r.part > 0 {
		r.keep("perm")
		return
	}
	defer r.keep("leak", "perm")
	l := &leakInfo{r: r, a: newAlias(r.P), sum: map[*ssa.Function]*leakSum{}, secret: map[string]bool{}, public: map[string]bool{},
		hashes: map[*ssa.Function]bool{}, source: map[*ssa.Function]map[int]int{}, getKey: map[*ssa.Function]bool{}, ctr: r.P.namedType("PrivateKeyContainer")}
	if !l.roles() {
		r.undec("leak.text", "roles", "", "which fields hold secrets is not known")
		return
	}
	for _, c := range l.a.containers() {
		for _, f := range l.a.list {
			if rc := f.Signature.Recv(); rc != nil && f.Parent() == nil && types.Identical(rc.Type(), types.NewPointer(c)) {
				switch f.Name() {
				case "GetPrivateKey":
					l.getKey[f] = true
				case "Reset":
					l.source[f] = map[int]int{1: 1}
				}
			}
		}
	}
	for _, f := range l.a.list {
		s := &leakSum{par: make([]uint64, len(f.Params)+len(f.FreeVars)), res: make([]uint64, f.Signature.Results().Len()), field: map[string]uint64{}, sink: map[string]leakSink{}}
		l.sum[f] = s
		l.hashes[f] = hashesDirectly(l.a, f)
	}
	for {
		l.ch = false
		old := l.sig()
		for _, f := range l.a.list {
			l.pass(f)
		}
		if !l.ch && l.sig() == old {
			break
		}
	}
	var fields []string
	for k := range l.secret {
		fields = append(fields, k)
	}
	sort.Strings(fields)
	r.extra["fields with secrets"] = strings.Join(fields, ", ")
	dbg("fields with secrets: %s", strings.Join(fields, ", "))
	bad := map[string]bool{}
	for _, f := range l.a.list {
		n := 0
		for _, sk := range l.sum[f].sink {
			if sk.mask&secretBit == 0 {
				continue
			}
			n++
			key := sk.what + r.P.ipos(sk.at)
			if !bad[key] {
				bad[key] = true
				r.viol("leak.text", fnName(sk.at.Parent()), r.P.ipos(sk.at), "secret bytes may reach the %s (from %s)", sk.what, fnName(f))
			}
		}
		if n == 0 {
			r.ok("leak.text", fnName(f), "")
		}
	}
	for k := range l.secret {
		if i := strings.IndexByte(k, '.'); i > 0 {
			if t := namedIn(r.P.Main.Pkg, k[:i]); t != nil && (isErrorType(t) || isErrorType(types.NewPointer(t))) {
				r.viol("leak.text", k, "", "secret bytes may be kept in %s of an error", k)
			}
		}
	}
}

func (l *leakInfo) sig() string {
	n := 0
	for _, s := range l.sum {
		n += len(s.sink)*7 + len(s.field)
		for _, m := range s.res {
			for ; m != 0; m &= m - 1 {
				n++
			}
		}
		for _, k := range s.sink {
			for m := k.mask; m != 0; m &= m - 1 {
				n++
			}
		}
	}
	return fmt.Sprint(n, len(l.secret))
}

// functions that compute a hash: what they write is not secret
func hashesDirectly(a *aliasInfo, f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			_, ext, _ := a.callees(ci.Common())
			i := strings.IndexByte(ext, '.')
			if i < 0 {
				continue
			}
			switch ext[:i] {
			case "sha256", "sha512", "sha3", "hash":
				if n := ext[i+1:]; strings.HasPrefix(n, "Sum") || n == "Read" || strings.HasPrefix(n, "Shake") {
					return true
				}
			case "asm":
				return true
			case "io":
				if cc := ci.Common(); cc.IsInvoke() && ext == "io.Read" && strings.Contains(cc.Value.Type().String(), "sha3") {
					return true
				}
			}
			if c := ci.Common().StaticCallee(); c != nil && c.Pkg != nil && strings.HasSuffix(c.Pkg.Pkg.Path(), "f1600x4") {
				return true
			}
		}
	}
	return false
}

// Which fields hold secrets: derive a key from symbolic seeds and look.
func (l *leakInfo) roles() bool {
	r := l.r
	base := r.initState()
	for _, pa := range []Params{{0, 32, 4, 2, 16, 0}, {1, 16, 2, 1, 4, 0}} {
		g, st := r.newSignRun(base, pa)
		if g == nil || st == nil {
			return false
		}
		known := map[*Term]bool{}
		for _, b := range append(append([]*Term{}, g.pub...), g.root...) {
			known[b] = true
		}
		w := &leakWalk{l: l, st: st, known: known, seen: map[interface{}]bool{}, has: map[string]bool{}, clean: map[string]bool{}}
		w.walk(g.sk, "")
		if len(w.has) < 2 {
			return false
		}
		for k := range w.has {
			l.secret[k] = true
		}
		for k := range w.clean {
			if !w.has[k] {
				l.public[k] = true
			}
		}
		// public keys and signatures
		l.clean(g, st, pa)
	}
	for k := range l.secret {
		delete(l.public, k)
	}
	for _, n := range []string{"PublicKey", "Signature"} {
		if t, ok := r.P.namedType(n).Underlying().(*types.Struct); ok {
			for i := 0; i < t.NumFields(); i++ {
				l.public[n+"."+t.Field(i).Name()] = true
			}
		}
	}
	for _, f := range l.a.list {
		switch fnName(f) {
		case "(*Context).Derive", "(*Context).DeriveInto", "Context.Derive", "Context.DeriveInto":
			n, m := 0, map[int]int{}
			for j, p := range f.Params {
				if isBytes(p.Type()) {
					if n == 0 {
						m[j] = -1
					} else {
						m[j] = 1
					}
					n++
				}
			}
			if n != 3 {
				return false
			}
			l.source[f] = m
		}
	}
	return len(l.source) >= 2
}

func namedIn(p *types.Package, n string) types.Type {
	if o, ok := p.Scope().Lookup(n).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

// does a byte give away one of the named symbols: is it a byte of one, or
// computed from one without a summarised or external function?
func tellsOf(b *Term, secret map[string]bool, seen map[*Term]bool) bool {
	if b == nil || seen[b] {
		return false
	}
	seen[b] = true
	if b.P != nil {
		return tellsPoly(b.P, secret, seen)
	}
	if b.Op == "sel" {
		return b.Args[0].Op == "sym" && secret[b.Args[0].Str]
	}
	for _, a := range b.Args {
		if tellsOf(a, secret, seen) {
			return true
		}
	}
	return false
}

func tellsPoly(p *Poly, secret map[string]bool, seen map[*Term]bool) bool {
	for _, m := range p.ms {
		for _, a := range m.as {
			if tellsOf(a, secret, seen) {
				return true
			}
		}
		if m.pow != nil && tellsPoly(m.pow, secret, seen) {
			return true
		}
	}
	return false
}

var secretSyms = map[string]bool{"skSeed": true, "skPrf": true}

type leakWalk struct {
	l          *leakInfo
	st         *State
	known      map[*Term]bool
	seen       map[interface{}]bool
	has, clean map[string]bool
	bytes      int
}

func (w *leakWalk) bytesAt(key string, bs []*Term) {
	sec, pub := false, len(bs) > 0
	for _, b := range bs {
		w.bytes++
		if tellsOf(b, secretSyms, map[*Term]bool{}) {
			sec = true
		}
		if !w.known[b] {
			pub = false
		}
	}
	if key == "" {
		key = "?"
	}
	if sec {
		w.has[key] = true
	} else if pub {
		w.clean[key] = true
	}
}

// everything v refers to; key is the field it is kept in
func (w *leakWalk) walk(v Val, key string) {
	switch x := v.(type) {
	case *Ptr:
		if x == nil || x.Obj == nil {
			return
		}
		id := locKey(x)
		if w.seen[id] {
			return
		}
		w.seen[id] = true
		w.walk(w.st.load(x), key)
	case *Slice:
		if x == nil || x.Obj == nil {
			return
		}
		n, ok := w.st.facts.norm(x.Len.P).constI()
		if !ok || n > 1<<16 {
			return
		}
		if isByte(x.Elem) {
			w.bytesAt(key, w.st.bytesOf(x))
			return
		}
		for i := int64(0); i < n; i++ {
			w.walk(w.st.load(&Ptr{Obj: x.Obj, Path: append(append([]PE{}, x.Path...), PE{Idx: pAdd(x.Off.P, pConstI(i))})}), key)
		}
	case *Agg:
		if sty, ok := x.T.Underlying().(*types.Struct); ok {
			for i := 0; i < sty.NumFields(); i++ {
				k := w.l.a.fieldKey(x.T, i)
				if k == "" {
					k = key
				}
				w.walk(x.get(w.st, pConstI(int64(i))), k)
			}
			return
		}
		if x.N < 0 || x.N > 1<<16 {
			return
		}
		var bs []*Term
		for i := 0; i < x.N; i++ {
			e := x.get(w.st, pConstI(int64(i)))
			if t, ok := e.(*Term); ok && isByte(x.elemType(i)) {
				bs = append(bs, t)
				continue
			}
			w.walk(e, key)
		}
		if bs != nil {
			w.bytesAt(key, bs)
		}
	case *Iface:
		if x != nil {
			w.walk(x.V, key)
		}
	case *Func:
		if x != nil {
			for _, b := range x.Bind {
				w.walk(b, "captured variable")
			}
		}
	case Tuple:
		for _, e := range x {
			w.walk(e, key)
		}
	}
}

// public keys and signatures have nothing of the secrets
func (l *leakInfo) clean(g *signRun, st *State, pa Params) {
	look := func(what string, st *State, v Val) {
		w := &leakWalk{l: l, st: st, known: map[*Term]bool{}, seen: map[interface{}]bool{}, has: map[string]bool{}, clean: map[string]bool{}}
		w.walk(v, "")
		if !l.r.check(w.bytes > 0, "leak.public", g.name, "", "the bytes of %s are known", what) {
			return
		}
		var f []string
		for k := range w.has {
			f = append(f, k)
		}
		sort.Strings(f)
		l.r.check(len(f) == 0, "leak.public", g.name, "", "%s has no byte of the secret seeds: %s", what, strings.Join(f, ", "))
	}
	s, p, ok := g.one("PublicKey", g.exec(st.clone(), "PrivateKey.PublicKey", g.sk))
	if ok {
		look("a public key", s, p)
	}
	look("the public key of a new key", st, g.pk)
	for _, seq := range []uint64{0, 1, 1<<uint(pa.H/pa.D) - 2} {
		s := g.setSeq(st.clone(), seq)
		if s == nil {
			continue
		}
		m := l.r.symBuf(s, "msg", 1<<40)
		if s2, ret, ok := g.one("signing", g.exec(s, "PrivateKey.Sign", g.sk, m)); ok {
			look(fmt.Sprintf("signature %d", seq), s2, ret.(Tuple)[0])
		}
	}
}

func isFile(v ssa.Value) bool {
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	return strings.TrimPrefix(v.Type().String(), "*") == "os.File"
}
