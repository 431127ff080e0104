package main

// A model of the operating system for the container backed by files: files
// with their contents and whether they have been synced, directories, the lock
// file, memory maps.  Every operation may fail.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// contents of a file; shared by everybody who opened it
type fsIno struct {
	obj   *Obj
	len   *Poly // nil if not known
	dirty bool  // changed since the last successful sync
	key   bool  // has been renamed to the key file
}

// an opened file
type fsFile struct {
	path  *Term
	ino   int // index in fsG.inos, -1 for a directory
	pos   *Poly
	write bool
	open  bool
}

type fsG struct {
	inos  []fsIno
	paths map[*Term]int // path -> contents, -1 if it does not exist
	files map[*Obj]fsFile

	held    bool // the lock file is ours
	tries   int
	unlocks int

	muxes   int // package-level mutexes held
	section int
	looked  int // section in which the table of open paths was last looked at

	renamed  bool // key file replaced in this operation
	dirSync  bool // and the directory synced
	failed   []*fsEv
	evs      []*fsEv
	flushed  []*Slice // regions of memory maps which were flushed when all zero
	faultsOK bool
}

type fsEv struct {
	op     string
	path   *Term
	file   *Obj
	write  bool
	failed bool
	instr  ssa.Instruction
	fr     *Frame
}

func fs(st *State) *fsG { return st.user["fs"].(*fsG) }

func (st *State) fsUpd(f func(g *fsG)) {
	n := *fs(st)
	n.inos = append([]fsIno(nil), n.inos...)
	p := map[*Term]int{}
	for k, v := range n.paths {
		p[k] = v
	}
	n.paths = p
	q := map[*Obj]fsFile{}
	for k, v := range n.files {
		q[k] = v
	}
	n.files = q
	n.failed = n.failed[:len(n.failed):len(n.failed)]
	n.evs = n.evs[:len(n.evs):len(n.evs)]
	n.flushed = n.flushed[:len(n.flushed):len(n.flushed)]
	f(&n)
	st.user["fs"] = &n
}

type fsModel struct {
	r         *Rep
	p         *Prog
	in        *Interp
	T         *types.Named // the container
	open      *ssa.Function
	P, Dir    *Term
	pa        Params
	page      int64
	faults    bool
	anyParams bool // the parameters in the file may be anything
	realCtx   bool // contexts are made by the code
	name      string
	methods   map[string]*ssa.Function
	quiet     bool
	opaque    map[string]bool
}

const fsFileLen = 1 << 40

var fileT = types.NewArray(types.Typ[types.Uint8], fsFileLen)

func (m *fsModel) cachePath() *Term { return strCat([]*Term{m.P, strC(".cache")}) }

func newFsModel(r *Rep, pa Params, page int64, name string) (*fsModel, *State) {
	p := r.P
	m := &fsModel{r: r, p: p, pa: pa, page: page, name: name, methods: map[string]*ssa.Function{}, opaque: map[string]bool{}}
	ct, _ := p.namedType("PrivateKeyContainer").Underlying().(*types.Interface)
	sc := p.Main.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) || ct == nil {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if ok && types.Implements(types.NewPointer(nt), ct) {
			if m.T != nil {
				panic(abortAll{"more than one container in the repository"})
			}
			m.T = nt
		}
	}
	if m.T == nil {
		panic(abortAll{"no container backed by files found"})
	}
	for i := 0; i < ct.NumMethods(); i++ {
		me := ct.Method(i)
		m.methods[me.Name()] = p.SSA.LookupMethod(types.NewPointer(m.T), me.Pkg(), me.Name())
	}
	m.open = p.needFn("OpenFSPrivateKeyContainer")
	st := r.initState()
	m.P = strAtom("abspath", "")
	m.Dir = strAtom("dirname", "")
	for _, g := range [][2]string{{"io", "EOF"}, {"io", "ErrUnexpectedEOF"}, {"os", "ErrNotExist"}, {"os", "ErrExist"}, {"io/fs", "ErrNotExist"}, {"io/fs", "ErrExist"}} {
		if v := p.global(g[0], g[1]); v != nil && v.Pkg.Pkg.Path() == g[0] {
			st.heap[p.globalObj(v)] = newErr(st, g[1])
		}
	}
	g := &fsG{paths: map[*Term]int{}, files: map[*Obj]fsFile{}}
	st.user["fs"] = g
	in := newInterp(p)
	m.in = in
	in.ForkMaps = true
	in.MaxUnroll = 1 << 14
	in.H.Call = m.call
	in.H.Inline = func(in *Interp, fr *Frame, fn *ssa.Function) bool {
		return p.inRepo(fn) || fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "byteswriter")
	}
	in.H.Load = func(in *Interp, st *State, fr *Frame, instr ssa.Instruction, ptr *Ptr) {
		m.globalMap(st, fr, instr, ptr)
	}
	in.H.MapUpdate = func(in *Interp, st *State, fr *Frame, instr ssa.Instruction, mp, key, v Val, del bool) {
		m.mapUpd(st, fr, instr, mp, del)
	}
	in.H.Opaque = func(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
		if cs.Fn != nil && !purePkg(cs.Fn) && !m.opaque[cs.Name] {
			m.opaque[cs.Name] = true
			in.undecided("%s is not known to the model of the operating system", cs.Name)
		}
		return nil, false
	}
	return m, st
}

func (m *fsModel) where(fr *Frame) string {
	if fr == nil {
		return m.name
	}
	return fnName(fr.Fn) + " " + m.name
}

func (m *fsModel) chk(c bool, rule string, fr *Frame, instr ssa.Instruction, f string, a ...interface{}) {
	if c {
		m.r.ok(rule, m.where(fr), f, a...)
	} else {
		m.r.viol(rule, m.where(fr), m.p.ipos(instr), "not so: "+f, a...)
	}
}

// ---- the table of open paths

func isPkgMap(o *Obj) bool {
	if !o.Global {
		return false
	}
	mt, ok := o.T.Underlying().(*types.Map)
	return ok && isString(mt.Key())
}

func (m *fsModel) globalMap(st *State, fr *Frame, instr ssa.Instruction, p *Ptr) {
	if !isPkgMap(p.Obj) || len(p.Path) > 0 || !m.ourGlobal(p.Obj) {
		return
	}
	g := fs(st)
	m.chk(g.muxes > 0, "lock.registry", fr, instr, "the table of open containers is only used with its lock held")
	st.fsUpd(func(g *fsG) {
		if g.looked == 0 {
			g.looked = g.section
		}
	})
}

// tables which are changed outside of initialisers
func (m *fsModel) ourGlobal(o *Obj) bool {
	if m.p.mutGlobs == nil {
		m.p.mutGlobs = map[*Obj]bool{}
		for _, f := range m.p.repoFuncs() {
			if f.Name() == "init" {
				continue
			}
			for _, b := range f.Blocks {
				for _, x := range b.Instrs {
					var mv ssa.Value
					switch y := x.(type) {
					case *ssa.MapUpdate:
						mv = y.Map
					case ssa.CallInstruction:
						if bt, ok := y.Common().Value.(*ssa.Builtin); ok && bt.Name() == "delete" {
							mv = y.Common().Args[0]
						}
					}
					if u, ok := mv.(*ssa.UnOp); ok {
						if gl, ok := u.X.(*ssa.Global); ok {
							m.p.mutGlobs[m.p.globalObj(gl)] = true
						}
					}
				}
			}
		}
	}
	return m.p.mutGlobs[o]
}

func (m *fsModel) mapUpd(st *State, fr *Frame, instr ssa.Instruction, mp Val, del bool) {
	x, ok := mp.(*MapV)
	if !ok {
		return
	}
	for o := range m.p.mutGlobs {
		if mv, ok := st.heap[o].(*MapV); ok && mv.Obj == x.Obj {
			g := fs(st)
			m.chk(g.muxes > 0, "lock.registry", fr, instr, "the table of open containers is only changed with its lock held")
			if !del {
				m.chk(g.looked == g.section, "lock.registry", fr, instr, "looking whether a container is open and marking it so are one step")
			}
		}
	}
}

// ---- operations

func errT2(t Val, e Val) Val { return Tuple{t, e} }

func (m *fsModel) ev(st *State, fr *Frame, cs *CallSite, op string, path *Term, file *Obj, failed bool) *fsEv {
	e := &fsEv{op: op, path: path, file: file, failed: failed, fr: fr}
	if cs != nil {
		e.instr = cs.Instr
	}
	if file != nil {
		e.write = fs(st).files[file].write
		if path == nil {
			e.path = fs(st).files[file].path
		}
	}
	st.fsUpd(func(g *fsG) {
		g.evs = append(g.evs, e)
		if failed {
			g.failed = append(g.failed, e)
		}
	})
	return e
}

// outcome of a failing operation
func (m *fsModel) fail(st *State, fr *Frame, cs *CallSite, op string, path *Term, file *Obj, err Val, touch func(s *State)) []Outcome {
	if !m.faults {
		return nil
	}
	s := st.clone()
	m.ev(s, fr, cs, op, path, file, true)
	if touch != nil {
		touch(s)
	}
	if err == nil {
		err = newErr(s, op)
	}
	return []Outcome{{St: s, Ret: m.errRet(cs, err)}}
}

func (m *fsModel) errRet(cs *CallSite, err Val) Val {
	res := cs.Sig.Results()
	if res.Len() == 1 {
		return err
	}
	t := make(Tuple, res.Len())
	for i := range t {
		t[i] = zeroVal(res.At(i).Type())
	}
	t[len(t)-1] = err
	return t
}

func (m *fsModel) std(st *State, name string) Val {
	for _, pk := range []string{"io", "os", "io/fs"} {
		if g := m.p.global(pk, name); g != nil && g.Pkg.Pkg.Path() == pk {
			return st.load(&Ptr{Obj: m.p.globalObj(g)})
		}
	}
	return newErr(st, name)
}

func (m *fsModel) newIno(st *State, n *Poly, sym *Term) int {
	o := newObj("inode", fileT)
	a := &Agg{T: fileT, N: fsFileLen}
	if sym != nil {
		a.Sym, a.bt = true, sym
	}
	st.heap[o] = a
	k := 0
	st.fsUpd(func(g *fsG) {
		k = len(g.inos)
		g.inos = append(g.inos, fsIno{obj: o, len: n})
	})
	return k
}

func (m *fsModel) slice(st *State, ino int, off, n *Poly) *Slice {
	t := mkInt(n, 64, true)
	return &Slice{Obj: fs(st).inos[ino].obj, Off: mkInt(off, 64, true), Len: t, Cap: t, Elem: u8()}
}

func (m *fsModel) file(st *State, v Val) (*Obj, fsFile, bool) {
	if i, ok := v.(*Iface); ok {
		v = i.V
	}
	p, ok := v.(*Ptr)
	if !ok {
		return nil, fsFile{}, false
	}
	f, ok := fs(st).files[p.Obj]
	return p.Obj, f, ok
}

// contents are about to change
func (m *fsModel) change(st *State, fr *Frame, cs *CallSite, ino int) {
	g := fs(st)
	k, ok := g.paths[m.P]
	m.chk(!ok || k != ino, "store.replace", fr, cs.Instr, "the key file is never changed in place")
	m.chk(g.held, "lock.first", fr, cs.Instr, "files are only changed by who holds the lock")
	st.fsUpd(func(g *fsG) { g.inos[ino].dirty = true })
}

func (m *fsModel) openFile(st *State, fr *Frame, cs *CallSite, path *Term, flags, perm int64) []Outcome {
	const (
		wronly, rdwr, creat, excl, trunc = 1, 2, 0x40, 0x80, 0x200
	)
	g := fs(st)
	var out []Outcome
	ft := cs.Sig.Results().At(0).Type().(*types.Pointer).Elem()
	out = append(out, m.fail(st, fr, cs, "open", path, nil, nil, nil)...)
	mk := func(st *State, f fsFile) {
		o := newObj("file", ft)
		f.path, f.open, f.pos = path, true, pZero
		st.fsUpd(func(g *fsG) { g.files[o] = f })
		m.ev(st, fr, cs, "open", path, o, false)
		out = append(out, Outcome{St: st, Ret: Tuple{&Ptr{Obj: o}, nilError()}})
	}
	if path == m.Dir {
		mk(st, fsFile{ino: -1})
		return out
	}
	write := flags&(wronly|rdwr) != 0
	if path == m.P {
		m.chk(!write && flags&(creat|trunc) == 0, "store.replace", fr, cs.Instr, "the key file is only opened for reading")
	}
	m.chk(g.held, "lock.first", fr, cs.Instr, "files are only opened by who holds the lock")
	if flags&creat != 0 {
		m.chk(perm&0077 == 0, "perm", fr, cs.Instr, "files with secrets are created accessible by their owner only")
	}
	ino, ok := g.paths[path]
	if !ok {
		// left behind by somebody else
		ino = m.newIno(st, nil, fresh("leftover"))
		st.fsUpd(func(g *fsG) { g.paths[path] = ino })
	}
	if ino < 0 {
		if flags&creat == 0 {
			m.ev(st, fr, cs, "open", path, nil, false)
			return append(out, Outcome{St: st, Ret: Tuple{NilV{}, m.std(st, "ErrNotExist")}})
		}
		ino = m.newIno(st, pZero, nil)
		st.fsUpd(func(g *fsG) { g.paths[path] = ino; g.inos[ino].dirty = true })
	} else if flags&(creat|excl) == creat|excl {
		return append(out, Outcome{St: st, Ret: Tuple{NilV{}, m.std(st, "ErrExist")}})
	}
	if flags&trunc != 0 {
		m.truncate(st, fr, cs, ino, pZero)
	}
	mk(st, fsFile{ino: ino, write: write})
	return out
}

func (m *fsModel) truncate(st *State, fr *Frame, cs *CallSite, ino int, n *Poly) {
	m.change(st, fr, cs, ino)
	if n == pZero {
		o := fs(st).inos[ino].obj
		st.heap[o] = &Agg{T: fileT, N: fsFileLen}
	}
	st.fsUpd(func(g *fsG) { g.inos[ino].len = n })
}

// a slice is written at the given position
func (m *fsModel) writeAt(st *State, fr *Frame, cs *CallSite, fo *Obj, f fsFile, src *Slice, bs []*Term, at *Poly, seek bool) bool {
	if f.ino < 0 || !f.write {
		m.in.undecided("write to a file that was not opened for writing")
		return false
	}
	m.change(st, fr, cs, f.ino)
	n := pConstI(int64(len(bs)))
	if src != nil {
		n = src.Len.P
	}
	dst := m.slice(st, f.ino, at, n)
	if src != nil {
		st.copySlice(dst, src, n)
	} else {
		st.putBytes(dst, 0, bs)
	}
	end := pAdd(at, n)
	st.fsUpd(func(g *fsG) {
		i := &g.inos[f.ino]
		if i.len != nil && st.facts.decide(bGE0(pSub(i.len, end))) != 1 {
			if st.facts.decide(bGE0(pSub(end, i.len))) == 1 {
				i.len = end
			} else {
				i.len = nil
			}
		}
		if seek {
			f.pos = end
			g.files[fo] = f
		}
	})
	m.ev(st, fr, cs, "write", f.path, fo, false)
	return true
}

// n bytes are read at the position: how it may end
func (m *fsModel) readAt(st *State, fr *Frame, cs *CallSite, fo *Obj, f fsFile, n *Poly, at *Poly, seek bool, good func(st *State, s *Slice) Val) []Outcome {
	if f.ino < 0 {
		return nil
	}
	out := m.fail(st, fr, cs, "read", f.path, fo, nil, nil)
	ino := fs(st).inos[f.ino]
	end := pAdd(at, n)
	full, eof, short := true, true, true
	if ino.len != nil {
		switch st.facts.decide(bGE0(pSub(ino.len, end))) {
		case 1:
			eof, short = false, false
		case -1:
			full = false
			switch st.facts.decide(bGE0(pSub(at, ino.len))) {
			case 1:
				short = false
			case -1:
				eof = false
			}
		}
	}
	if eof {
		s := st.clone()
		m.ev(s, fr, cs, "eof", f.path, fo, false)
		out = append(out, Outcome{St: s, Ret: m.errRet(cs, m.std(s, "EOF"))})
	}
	if short {
		s := st.clone()
		m.ev(s, fr, cs, "eof", f.path, fo, false)
		out = append(out, Outcome{St: s, Ret: m.errRet(cs, m.std(s, "ErrUnexpectedEOF"))})
	}
	if full {
		if seek {
			st.fsUpd(func(g *fsG) { f.pos = end; g.files[fo] = f })
		}
		m.ev(st, fr, cs, "read", f.path, fo, false)
		out = append(out, Outcome{St: st, Ret: good(st, m.slice(st, f.ino, at, n))})
	}
	return out
}

// ---- encoding/binary

func orderOf(v Val) string {
	if i, ok := v.(*Iface); ok && i.T != nil {
		if n, ok := i.T.(*types.Named); ok {
			return n.Obj().Name()
		}
	}
	return ""
}

func (m *fsModel) encode(st *State, v Val, t types.Type, big bool) ([]*Term, bool) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return m.encode(st, st.deref(v), u.Elem(), big)
	case *types.Struct:
		a, ok := v.(*Agg)
		if !ok {
			return nil, false
		}
		var r []*Term
		for i := 0; i < u.NumFields(); i++ {
			b, ok := m.encode(st, a.get(st, pConstI(int64(i))), u.Field(i).Type(), big)
			if !ok {
				return nil, false
			}
			r = append(r, b...)
		}
		return r, true
	case *types.Array:
		a, ok := v.(*Agg)
		if !ok {
			return nil, false
		}
		var r []*Term
		for i := int64(0); i < u.Len(); i++ {
			b, ok := m.encode(st, a.get(st, pConstI(i)), u.Elem(), big)
			if !ok {
				return nil, false
			}
			r = append(r, b...)
		}
		return r, true
	case *types.Slice:
		if s := asSlice(v); s != nil && isByte(u.Elem()) {
			bt := st.bytesTerm(s)
			return bt.Args, bt.Op == "bytes"
		}
		return nil, false
	case *types.Basic:
		x, ok := v.(*Term)
		if !ok {
			return nil, false
		}
		if u.Info()&types.IsBoolean != 0 {
			return []*Term{bIteInt(x)}, true
		}
		w, _, ok := basicInfo(t)
		if !ok || x.P == nil || u.Kind() == types.Int || u.Kind() == types.Uint {
			return nil, false
		}
		if big {
			return beBytes(x.P, int(w/8)), true
		}
		return leBytes(x.P, int(w/8)), true
	}
	return nil, false
}

func bIteInt(c *Term) *Term {
	switch c {
	case tTrue:
		return intC(1, 8, false)
	case tFalse:
		return intC(0, 8, false)
	}
	return symRange(freshName("bool"), 8, false, 0, 1)
}

func binSize(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return binSize(u.Elem())
	case *types.Struct:
		n := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			k := binSize(u.Field(i).Type())
			if k < 0 {
				return -1
			}
			n += k
		}
		return n
	case *types.Array:
		k := binSize(u.Elem())
		if k < 0 {
			return -1
		}
		return k * u.Len()
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return 1
		}
		if w, _, ok := basicInfo(t); ok && u.Kind() != types.Int && u.Kind() != types.Uint {
			return int64(w / 8)
		}
	}
	return -1
}

func decodeBin(st *State, bs []*Term, t types.Type, big bool) (Val, []*Term) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{T: t, N: u.NumFields()}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, bs = decodeBin(st, bs, u.Field(i).Type(), big)
			a.el.set(i, v)
		}
		freeze(a)
		return a, bs
	case *types.Array:
		a := &Agg{T: t, N: int(u.Len())}
		for i := 0; i < a.N; i++ {
			var v Val
			v, bs = decodeBin(st, bs, u.Elem(), big)
			a.el.set(i, v)
		}
		freeze(a)
		return a, bs
	}
	if isBool(t) {
		return bNot(bEQ0(bs[0].P)), bs[1:]
	}
	w, sg, _ := basicInfo(t)
	n := int(w / 8)
	x := append([]*Term(nil), bs[:n]...)
	if !big {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			x[i], x[j] = x[j], x[i]
		}
	}
	v := st.facts.norm(beNum(x))
	return wrapInt(v, w, sg), bs[n:]
}

func wrapInt(p *Poly, w uint, sg bool) *Term { return mkInt(p, w, sg) }

func (m *fsModel) binary(st *State, fr *Frame, cs *CallSite, read bool) ([]Outcome, bool) {
	ord := orderOf(cs.Args[1])
	d, ok := cs.Args[2].(*Iface)
	if !ok || d.T == nil || ord != "bigEndian" && ord != "littleEndian" {
		return nil, false
	}
	big := ord == "bigEndian"
	if read {
		fo, f, ok := m.file(st, cs.Args[0])
		if !ok {
			return nil, false
		}
		if s := asSlice(d.V); s != nil && isByte(s.Elem) {
			return m.readInto(st, fr, cs, fo, f, s), true
		}
		pt, ok := d.T.Underlying().(*types.Pointer)
		dst, ok2 := d.V.(*Ptr)
		n := binSize(d.T)
		if !ok || !ok2 || n < 0 {
			return nil, false
		}
		return m.readAt(st, fr, cs, fo, f, pConstI(n), f.pos, true, func(st *State, s *Slice) Val {
			v, _ := decodeBin(st, st.bytesOf(s), pt.Elem(), big)
			st.store(dst, v)
			return nilError()
		}), true
	}
	bs, ok := m.encode(st, d.V, d.T, big)
	if !ok {
		return nil, false
	}
	return m.writeTo(st, fr, cs, cs.Args[0], bs)
}

// bytes are written to an io.Writer; the error is returned
func (m *fsModel) writeTo(st *State, fr *Frame, cs *CallSite, w Val, bs []*Term) ([]Outcome, bool) {
	if fo, f, ok := m.file(st, w); ok {
		out := m.fail(st, fr, cs, "write", f.path, fo, nil, func(s *State) { m.partial(s, f, pAdd(f.pos, pConstI(int64(len(bs))))) })
		if !m.writeAt(st, fr, cs, fo, f, nil, bs, f.pos, true) {
			return nil, false
		}
		return append(out, Outcome{St: st, Ret: nilError()}), true
	}
	i, ok := w.(*Iface)
	if !ok || i.T == nil {
		return nil, false
	}
	ms := types.NewMethodSet(i.T).Lookup(nil, "Write")
	if ms == nil {
		return nil, false
	}
	fn := m.p.SSA.MethodValue(ms)
	if fn == nil || fn.Blocks == nil {
		return nil, false
	}
	src := symBytes(st, freshName("enc"), int64(len(bs)))
	st.putBytes(src, 0, bs)
	var out []Outcome
	for _, o := range m.in.Exec(st, fr, fn, []Val{i.V, src}, nil, cs.Instr) {
		if !o.Panic {
			o.Ret = o.Ret.(Tuple)[1]
		}
		out = append(out, o)
	}
	return out, true
}

// A write has failed: the file may be longer than before, but not as long as
// it would be.
func (m *fsModel) partial(s *State, f fsFile, end *Poly) {
	if f.ino < 0 {
		return
	}
	s.fsUpd(func(g *fsG) {
		i := &g.inos[f.ino]
		i.dirty = true
		if i.len == nil || s.facts.decide(bGE0(pSub(i.len, end))) == 1 {
			return
		}
		lo, ok := s.facts.norm(i.len).constI()
		hi, ok2 := s.facts.norm(end).constI()
		if !ok || !ok2 {
			i.len = nil
			return
		}
		i.len = symRange(freshName("written"), 64, true, lo, hi-1).P
	})
}

func (m *fsModel) readInto(st *State, fr *Frame, cs *CallSite, fo *Obj, f fsFile, dst *Slice) []Outcome {
	return m.readAt(st, fr, cs, fo, f, dst.Len.P, f.pos, true, func(st *State, s *Slice) Val {
		st.copySlice(dst, s, dst.Len.P)
		if cs.Sig.Results().Len() == 1 {
			return nilError()
		}
		return Tuple{dst.Len, nilError()}
	})
}

func constInt(st *State, v Val) (int64, bool) {
	p := polyOf(v)
	if p == nil {
		return 0, false
	}
	return st.facts.norm(p).constI()
}

func (m *fsModel) path(v Val) *Term {
	t, ok := isStrTerm(v)
	if !ok {
		return nil
	}
	return t
}

func (m *fsModel) call(in *Interp, st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
	simple := func(op string, path *Term, good func(st *State)) []Outcome {
		out := m.fail(st, fr, cs, op, path, nil, nil, nil)
		m.ev(st, fr, cs, op, path, nil, false)
		if good != nil {
			good(st)
		}
		return append(out, Outcome{St: st, Ret: nilError()})
	}
	str := func(i int) *Term { return m.path(cs.Args[i]) }
	switch cs.Name {
	case "path/filepath.Abs":
		p := str(0)
		out := m.fail(st, fr, cs, "abs", nil, nil, nil, nil)
		if p == nil || p.Op != "satom" || !strings.HasSuffix(p.Str, "path") {
			return nil, false
		}
		return append(out, Outcome{St: st, Ret: Tuple{m.P, nilError()}}), true
	case "path/filepath.Dir", "path.Dir":
		if p := str(0); p != nil && len(strParts(p)) > 0 && strParts(p)[0] == m.P {
			return ret1(st, m.Dir), true
		}
		return nil, false
	case "github.com/nightlyone/lockfile.New":
		out := m.fail(st, fr, cs, "lockfile", nil, nil, nil, nil)
		return append(out, Outcome{St: st, Ret: Tuple{cs.Args[0], nilError()}}), true
	case "(github.com/nightlyone/lockfile.Lockfile).TryLock":
		st.fsUpd(func(g *fsG) { g.tries++ })
		m.chk(m.path(cs.Args[0]) == strCat([]*Term{m.P, strC(".lock")}), "lock.first", fr, cs.Instr, "the lock file belongs to the absolute path of the key")
		out := m.fail(st, fr, cs, "trylock", nil, nil, nil, nil)
		if m.faults {
			s := st.clone()
			var e Val = newErr(s, "busy")
			for _, pk := range m.p.SSA.AllPackages() {
				if strings.HasSuffix(pk.Pkg.Path(), "/lockfile") {
					if t, ok := pk.Members["TemporaryError"].(*ssa.Type); ok {
						e = &Iface{T: t.Type(), V: strC("Locked by other process")}
					}
				}
			}
			m.ev(s, fr, cs, "busy", nil, nil, true)
			out = append(out, Outcome{St: s, Ret: e})
		}
		m.ev(st, fr, cs, "trylock", nil, nil, false)
		st.fsUpd(func(g *fsG) { g.held = true })
		return append(out, Outcome{St: st, Ret: nilError()}), true
	case "(github.com/nightlyone/lockfile.Lockfile).Unlock":
		m.chk(fs(st).held, "lock.release", fr, cs.Instr, "the lock is only released by who holds it")
		st.fsUpd(func(g *fsG) { g.unlocks++; g.held = false })
		out := m.fail(st, fr, cs, "unlock", nil, nil, nil, nil)
		m.ev(st, fr, cs, "unlock", nil, nil, false)
		return append(out, Outcome{St: st, Ret: nilError()}), true
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		if p, ok := cs.Args[0].(*Ptr); ok && p.Obj.Global {
			m.chk(fs(st).muxes == 0, "lock.registry", fr, cs.Instr, "the lock of the table is not taken twice")
			st.fsUpd(func(g *fsG) { g.muxes++; g.section++; g.looked = 0 })
		}
		return ret1(st, Tuple{}), true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		if p, ok := cs.Args[0].(*Ptr); ok && p.Obj.Global {
			m.chk(fs(st).muxes == 1, "lock.registry", fr, cs.Instr, "only a lock that is held is released")
			st.fsUpd(func(g *fsG) { g.muxes-- })
		}
		return ret1(st, Tuple{}), true
	case "os.Stat", "os.Lstat":
		p := str(0)
		if p == nil {
			return nil, false
		}
		out := m.fail(st, fr, cs, "stat", p, nil, nil, nil)
		m.ev(st, fr, cs, "stat", p, nil, false)
		ino, ok := fs(st).paths[p]
		if ok && ino < 0 {
			return append(out, Outcome{St: st, Ret: Tuple{&Iface{}, m.std(st, "ErrNotExist")}}), true
		}
		return append(out, Outcome{St: st, Ret: Tuple{symVal(cs.Sig.Results().At(0).Type(), fresh("stat")), nilError()}}), true
	case "os.IsNotExist", "os.IsExist":
		n := strings.TrimPrefix(cs.Name, "os.Is")
		return ret1(st, st.eqVal(cs.Args[0], m.std(st, "Err"+n))), true
	case "errors.Is":
		return ret1(st, st.eqVal(cs.Args[0], cs.Args[1])), true
	case "os.Open", "os.Create", "os.OpenFile":
		p := str(0)
		if p == nil {
			return nil, false
		}
		fl, pm := int64(0), int64(0)
		switch cs.Name {
		case "os.Create":
			fl, pm = 2|0x40|0x200, 0666
		case "os.OpenFile":
			var ok, ok2 bool
			fl, ok = constInt(st, cs.Args[1])
			pm, ok2 = constInt(st, cs.Args[2])
			if !ok || !ok2 {
				return nil, false
			}
		}
		return m.openFile(st, fr, cs, p, fl, pm), true
	case "os.Rename":
		a, b := str(0), str(1)
		if a == nil || b == nil {
			return nil, false
		}
		m.chk(a != m.P, "store.replace", fr, cs.Instr, "the key file is not moved away")
		ino, ok := fs(st).paths[a]
		if b == m.P {
			good := ok && ino >= 0
			if good {
				i := fs(st).inos[ino]
				m.chk(!i.dirty && i.len != nil, "store.sync", fr, cs.Instr, "a new key file is synced before it replaces the old one")
			}
			m.chk(good, "store.replace", fr, cs.Instr, "the key file is replaced by a file just written")
			m.chk(fs(st).held, "lock.first", fr, cs.Instr, "files are only changed by who holds the lock")
			m.cacheGone(st, fr, cs)
		}
		return simple("rename", b, func(st *State) {
			st.fsUpd(func(g *fsG) {
				if b == m.P {
					g.renamed, g.dirSync = true, false
				}
				if ok {
					g.paths[b] = ino
				} else {
					delete(g.paths, b)
				}
				g.paths[a] = -1
			})
		}), true
	case "os.Remove", "os.RemoveAll", "os.Truncate", "os.Chmod":
		p := str(0)
		if p == nil {
			return nil, false
		}
		m.chk(p != m.P || cs.Name == "os.Chmod", "store.replace", fr, cs.Instr, "the key file is never removed or cut off")
		m.chk(fs(st).held, "lock.first", fr, cs.Instr, "files are only changed by who holds the lock")
		if cs.Name == "os.Truncate" {
			ino, ok := fs(st).paths[p]
			n := polyOf(cs.Args[1])
			if !ok || ino < 0 || n == nil {
				return nil, false
			}
			return simple("truncate", p, func(st *State) { m.truncate(st, fr, cs, ino, st.facts.norm(n)) }), true
		}
		op := strings.ToLower(cs.Fn.Name())
		if op == "chmod" {
			pm, ok := constInt(st, cs.Args[1])
			m.chk(ok && pm&0077 == 0, "perm", fr, cs.Instr, "files with secrets stay accessible by their owner only")
		}
		return simple(op, p, func(st *State) {
			if op != "chmod" {
				st.fsUpd(func(g *fsG) { g.paths[p] = -1; g.dirSync = false })
			}
		}), true
	case "os.WriteFile", "io/ioutil.WriteFile":
		p, s := str(0), asSlice(cs.Args[1])
		pm, ok := constInt(st, cs.Args[2])
		if p == nil || s == nil || !ok {
			return nil, false
		}
		m.chk(p != m.P, "store.replace", fr, cs.Instr, "the key file is never changed in place")
		m.chk(pm&0077 == 0, "perm", fr, cs.Instr, "files with secrets are created accessible by their owner only")
		return simple("write", p, func(st *State) {
			ino := m.newIno(st, s.Len.P, nil)
			st.copySlice(m.slice(st, ino, pZero, s.Len.P), s, s.Len.P)
			st.fsUpd(func(g *fsG) { g.paths[p] = ino; g.inos[ino].dirty = true })
		}), true
	case "os.ReadFile", "io/ioutil.ReadFile":
		p := str(0)
		ino, ok := fs(st).paths[p]
		if p == nil || !ok || ino >= 0 && fs(st).inos[ino].len == nil {
			return nil, false
		}
		out := m.fail(st, fr, cs, "read", p, nil, nil, nil)
		if ino < 0 {
			return append(out, Outcome{St: st, Ret: Tuple{&Slice{Off: intT(0), Len: intT(0), Cap: intT(0), Elem: u8()}, m.std(st, "ErrNotExist")}}), true
		}
		n := fs(st).inos[ino].len
		o := newObj("contents", fileT)
		st.heap[o] = &Agg{T: fileT, N: fsFileLen}
		d := &Slice{Obj: o, Off: intT(0), Len: mkInt(n, 64, true), Cap: mkInt(n, 64, true), Elem: u8()}
		st.copySlice(d, m.slice(st, ino, pZero, n), n)
		m.ev(st, fr, cs, "read", p, nil, false)
		return append(out, Outcome{St: st, Ret: Tuple{d, nilError()}}), true
	case "os.Getpagesize":
		return ret1(st, intT(m.page)), true
	case "encoding/binary.Read":
		return m.binary(st, fr, cs, true)
	case "encoding/binary.Write":
		return m.binary(st, fr, cs, false)
	case "encoding/binary.Size":
		if i, ok := cs.Args[0].(*Iface); ok && i.T != nil {
			return ret1(st, intT(binSize(i.T))), true
		}
		return nil, false
	case "io.ReadAtLeast", "io.ReadFull":
		fo, f, ok := m.file(st, cs.Args[0])
		d := asSlice(cs.Args[1])
		if !ok || d == nil {
			return nil, false
		}
		if cs.Name == "io.ReadAtLeast" {
			mn := polyOf(cs.Args[2])
			if mn == nil || !st.eq(mn, d.Len.P) {
				// fewer bytes may have been read
				return nil, false
			}
		}
		return m.readInto(st, fr, cs, fo, f, d), true
	case "github.com/edsrzf/mmap-go.MapRegion", "github.com/edsrzf/mmap-go.Map":
		return m.mapRegion(st, fr, cs)
	case "(github.com/edsrzf/mmap-go.MMap).Flush", "(*github.com/edsrzf/mmap-go.MMap).Flush":
		s := asSlice(st.deref(cs.Args[0]))
		out := m.fail(st, fr, cs, "flush", m.cachePath(), nil, nil, nil)
		m.ev(st, fr, cs, "flush", m.cachePath(), nil, false)
		if s != nil {
			if bt := st.bytesTermN(s, 1<<20); bt.Op == "bytes" {
				zero := true
				for _, b := range bt.Args {
					if c, ok := b.P.constI(); !ok || c != 0 {
						zero = false
					}
				}
				if zero {
					st.fsUpd(func(g *fsG) { g.flushed = append(g.flushed, s) })
				}
			}
		}
		return append(out, Outcome{St: st, Ret: nilError()}), true
	case "(*github.com/edsrzf/mmap-go.MMap).Unmap", "(github.com/edsrzf/mmap-go.MMap).Unmap":
		return simple("unmap", m.cachePath(), nil), true
	case "github.com/hashicorp/go-multierror.Append":
		o := newObj("multierror", cs.Sig.Results().At(0).Type().(*types.Pointer).Elem())
		return ret1(st, &Ptr{Obj: o}), true
	case "container/heap.Init":
		return ret1(st, Tuple{}), true
	case "container/heap.Push", "container/heap.Pop":
		return m.heapOp(st, fr, cs)
	}
	if strings.HasPrefix(cs.Name, "(*os.File).") {
		return m.fileOp(st, fr, cs, strings.TrimPrefix(cs.Name, "(*os.File)."))
	}
	if cs.Fn != nil && m.p.inRepo(cs.Fn) {
		res := cs.Sig.Results()
		if res.Len() == 2 && isNamed(res.At(0).Type(), m.p.Main.Pkg.Path(), "Context") && errIdx(cs.Sig) == 1 && !m.realCtx {
			var out []Outcome
			if m.anyParams {
				// valid parameters are taken to be the ones of this analysis
				s := st.clone()
				m.ev(s, fr, cs, "context", nil, nil, true)
				out = append(out, Outcome{St: s, Ret: Tuple{NilV{}, newErr(s, "context")}})
				a, ok := st.deref(cs.Args[0]).(*Agg)
				if !ok {
					return nil, false
				}
				w := m.p.paramsVal(st, m.pa)
				for i := 0; i < w.N; i++ {
					st.assume(st.eqVal(a.get(st, pConstI(int64(i))), w.get(st, pConstI(int64(i)))), true)
				}
			}
			m.ev(st, fr, cs, "context", nil, nil, false)
			return append(out, Outcome{St: st, Ret: Tuple{symVal(res.At(0).Type(), fresh("ctx")), nilError()}}), true
		}
	}
	return nil, false
}

func (m *fsModel) fileOp(st *State, fr *Frame, cs *CallSite, op string) ([]Outcome, bool) {
	fo, f, ok := m.file(st, cs.Args[0])
	if !ok {
		if errNil(st, cs.Args[0]) == 1 && errIdx(cs.Sig) >= 0 {
			return ret1(st, m.errRet(cs, newErr(st, "nil file"))), true
		}
		return nil, false
	}
	if !f.open && op != "Name" {
		return ret1(st, m.errRet(cs, newErr(st, "file closed"))), true
	}
	switch op {
	case "Write", "WriteString", "WriteAt":
		s := asSlice(cs.Args[1])
		if s == nil {
			return nil, false
		}
		at, seek := f.pos, true
		if op == "WriteAt" {
			at, seek = polyOf(cs.Args[2]), false
		}
		if at == nil {
			return nil, false
		}
		s0 := s
		out := m.fail(st, fr, cs, "write", f.path, fo, nil, func(s *State) { m.partial(s, f, pAdd(at, s0.Len.P)) })
		if !m.writeAt(st, fr, cs, fo, f, s, nil, at, seek) {
			return nil, false
		}
		return append(out, Outcome{St: st, Ret: Tuple{s.Len, nilError()}}), true
	case "ReadAt":
		d, at := asSlice(cs.Args[1]), polyOf(cs.Args[2])
		if d == nil || at == nil {
			return nil, false
		}
		return m.readAt(st, fr, cs, fo, f, d.Len.P, at, false, func(st *State, s *Slice) Val {
			st.copySlice(d, s, d.Len.P)
			return Tuple{d.Len, nilError()}
		}), true
	case "Seek":
		wh, ok := constInt(st, cs.Args[2])
		off := polyOf(cs.Args[1])
		if !ok || off == nil || f.ino < 0 {
			return nil, false
		}
		switch wh {
		case 1:
			off = pAdd(off, f.pos)
		case 2:
			n := fs(st).inos[f.ino].len
			if n == nil {
				return nil, false
			}
			off = pAdd(off, n)
		}
		out := m.fail(st, fr, cs, "seek", f.path, fo, nil, nil)
		m.ev(st, fr, cs, "seek", f.path, fo, false)
		f.pos = st.facts.norm(off)
		st.fsUpd(func(g *fsG) { g.files[fo] = f })
		return append(out, Outcome{St: st, Ret: Tuple{mkInt(f.pos, 64, true), nilError()}}), true
	case "Chmod":
		pm, ok := constInt(st, cs.Args[1])
		m.chk(ok && pm&0077 == 0, "perm", fr, cs.Instr, "files with secrets stay accessible by their owner only")
		out := m.fail(st, fr, cs, "chmod", f.path, fo, nil, nil)
		m.ev(st, fr, cs, "chmod", f.path, fo, false)
		return append(out, Outcome{St: st, Ret: nilError()}), true
	case "Sync":
		out := m.fail(st, fr, cs, "sync", f.path, fo, nil, nil)
		m.ev(st, fr, cs, "sync", f.path, fo, false)
		st.fsUpd(func(g *fsG) {
			if f.ino >= 0 {
				g.inos[f.ino].dirty = false
			} else if f.path == m.Dir {
				g.dirSync = true
			}
		})
		return append(out, Outcome{St: st, Ret: nilError()}), true
	case "Close":
		f.open = false
		cl := func(s *State) { s.fsUpd(func(g *fsG) { g.files[fo] = f }) }
		out := m.fail(st, fr, cs, "close", f.path, fo, nil, cl)
		cl(st)
		m.ev(st, fr, cs, "close", f.path, fo, false)
		return append(out, Outcome{St: st, Ret: nilError()}), true
	case "Truncate":
		n := polyOf(cs.Args[1])
		if n == nil || f.ino < 0 {
			return nil, false
		}
		out := m.fail(st, fr, cs, "truncate", f.path, fo, nil, nil)
		m.truncate(st, fr, cs, f.ino, st.facts.norm(n))
		m.ev(st, fr, cs, "truncate", f.path, fo, false)
		return append(out, Outcome{St: st, Ret: nilError()}), true
	case "Name":
		return ret1(st, f.path), true
	case "Fd":
		return nil, false
	}
	return nil, false
}

func (m *fsModel) mapRegion(st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
	fo, f, ok := m.file(st, cs.Args[0])
	if !ok || f.ino < 0 {
		return nil, false
	}
	ln, off := (*Poly)(nil), pZero
	if strings.HasSuffix(cs.Name, "MapRegion") {
		ln, off = polyOf(cs.Args[1]), polyOf(cs.Args[4])
	} else {
		ln = fs(st).inos[f.ino].len
	}
	if ln == nil || off == nil {
		return nil, false
	}
	m.chk(f.open, "slot.inside", fr, cs.Instr, "memory maps are made of files that are open")
	rem, ok := st.facts.norm(off).divisible(m.page)
	m.chk(ok && rem, "slot.inside", fr, cs.Instr, "memory maps start at page boundaries")
	if sz := fs(st).inos[f.ino].len; sz != nil {
		m.chk(st.ge(sz, pAdd(off, ln)), "slot.inside", fr, cs.Instr, "memory maps are inside the file")
	}
	out := m.fail(st, fr, cs, "mmap", f.path, fo, nil, nil)
	m.ev(st, fr, cs, "mmap", f.path, fo, false)
	s := m.slice(st, f.ino, st.facts.norm(off), st.facts.norm(ln))
	return append(out, Outcome{St: st, Ret: Tuple{s, nilError()}}), true
}

// is the polynomial a multiple of n? known only if every coefficient is, or it is constant
func (p *Poly) divisible(n int64) (bool, bool) {
	if c, ok := p.constI(); ok {
		return c%n == 0, true
	}
	return p.coeffsDivisible(n), true
}

// The heap of free slots is a bag: which of its elements is taken does not matter.
func (m *fsModel) heapOp(st *State, fr *Frame, cs *CallSite) ([]Outcome, bool) {
	i, ok := cs.Args[0].(*Iface)
	if !ok || i.T == nil {
		return nil, false
	}
	name := cs.Fn.Name()
	ms := types.NewMethodSet(i.T).Lookup(nil, name)
	if ms == nil {
		return nil, false
	}
	fn := m.p.SSA.MethodValue(ms)
	if fn == nil || fn.Blocks == nil {
		return nil, false
	}
	args := []Val{i.V}
	if name == "Push" {
		args = append(args, cs.Args[1])
	}
	return m.in.Exec(st, fr, fn, args, nil, cs.Instr), true
}

// The key is replaced by another one: no subtrees of the old one may be left.
func (m *fsModel) cacheGone(st *State, fr *Frame, cs *CallSite) {
	if st.user["reset"] == nil {
		return
	}
	ino, ok := fs(st).paths[m.cachePath()]
	gone := ok && ino < 0
	if ok && ino >= 0 {
		i := fs(st).inos[ino]
		gone = !i.dirty && i.len != nil && st.eq(i.len, pZero)
	}
	m.chk(gone, "slot.reset", fr, cs.Instr, "the subtrees of the old key are gone from the disk, for good, before a new key is stored")
}
