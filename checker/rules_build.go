package main

// P01: all platforms have the same API and semantics.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P01", "The library is type-checked for every platform its dependencies support; exported API, methods and constants are compared, functions without body are matched with the assembly selected, "+
		"the flag of the vector unit is a constant where there is none.  On a 32 bit and a 64 bit platform without vector unit hashing, one-time signatures, signing, verification and encodings are "+
		"compared with the specification by abstract interpretation with integers of the size of that platform.", p01)
}

type buildConf struct {
	os, arch, tags string
	bits           uint
	sem            bool
}

func (c buildConf) String() string {
	s := c.os + "/" + c.arch
	if c.tags != "" {
		s += " -tags " + c.tags
	}
	return s
}

var buildConfs = []buildConf{
	{"linux", "386", "", 32, true},
	{"linux", "arm64", "", 64, true},
	{"linux", "amd64", "", 64, false},
	{"linux", "arm", "", 32, false},
	{"linux", "ppc64le", "", 64, false},
	{"linux", "s390x", "", 64, false},
	{"linux", "mips", "", 32, false},
	{"linux", "mips64le", "", 64, false},
	{"darwin", "amd64", "", 64, false},
	{"darwin", "arm64", "", 64, false},
	{"windows", "amd64", "", 64, false},
	{"windows", "386", "", 32, false},
	{"windows", "arm64", "", 64, false},
	{"freebsd", "amd64", "", 64, false},
	{"freebsd", "arm64", "", 64, false},
	{"openbsd", "amd64", "", 64, false},
	{"netbsd", "amd64", "", 64, false},
	{"dragonfly", "amd64", "", 64, false},
	{"solaris", "amd64", "", 64, false},
	{"android", "arm64", "", 64, false},
}

// exported names of a package and what they are
func apiOf(p *types.Package, full bool) map[string]string {
	r := map[string]string{}
	q := func(o *types.Package) string { return o.Path() }
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() {
			continue
		}
		switch x := o.(type) {
		case *types.Const:
			r[n] = "const " + types.TypeString(x.Type(), q) + " = " + x.Val().ExactString()
		case *types.Var:
			r[n] = "var " + types.TypeString(x.Type(), q)
		case *types.Func:
			r[n] = types.TypeString(x.Type(), q)
		case *types.TypeName:
			r[n] = "type"
			if st, ok := x.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if f := st.Field(i); f.Exported() && full {
						r[n+"."+f.Name()] = "field " + types.TypeString(f.Type(), q)
					}
				}
			} else if full {
				r[n] = "type " + types.TypeString(x.Type().Underlying(), q)
			}
			ms := types.NewMethodSet(types.NewPointer(x.Type()))
			if types.IsInterface(x.Type()) {
				ms = types.NewMethodSet(x.Type())
			}
			for i := 0; i < ms.Len(); i++ {
				if m := ms.At(i).Obj(); m.Exported() {
					r[n+"."+m.Name()+"()"] = types.TypeString(ms.At(i).Type(), q)
				}
			}
		}
	}
	return r
}

var asmText = regexp.MustCompile(`(?m)^TEXT\s+(?:[\pL\pN_/·∕.]*)·([\pL\pN_·]+)(?:<[^>]*>)?\(SB\)`)
var asmLocal = regexp.MustCompile(`<>\(SB\)`)

func p01(r *Rep) {
	r.rule("compile", "the library type-checks on every platform", 12)
	r.rule("api", "every platform has the API of the others", 40)
	r.rule("asm", "every function without a body is implemented by the assembly of its platform, and only there", 12)
	r.rule("unit", "where there is no vector unit it is reported as not available, by a constant", 8)
	r.rule("files", "every file is part of the analysis of some platform", 6)
	for _, x := range [][2]string{{"F", "F"}, {"H", "H"}, {"PRF", "PRF"}, {"H_msg", "the message hash"}, {"pkGen", "one-time keys"}, {"sign", "one-time signatures"},
		{"pkFromSig", "recovered one-time keys"}, {"sig", "signatures"}, {"pk", "public keys"}, {"params", "decoded parameters"}, {"decode", "decoding and encoding"}, {"root", "verification"},
		{"tree", "subtrees"}, {"store.replace", "key files"}, {"slot.inside", "caches"}, {"reopen.cache", "reopened containers"}} {
		r.rule(x[0], "on a platform without vector unit: "+x[1]+" are as specified", 1)
	}
	confs := append([]buildConf{}, buildConfs...)
	confs = append(confs, r.customTags()...)
	ref := map[string]map[string]string{}
	unit := map[string]bool{}
	for _, pk := range r.P.Pkgs {
		if pk.Name != "main" {
			ref[pk.PkgPath] = apiOf(pk.Types, pk.PkgPath == r.P.Mod)
			for _, f := range pk.Syntax {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Body == nil {
						unit[pk.PkgPath] = true
					}
				}
			}
		}
	}
	home := r.P
	type job struct {
		c    buildConf
		kind int
		cost int
	}
	var jobs []job
	for _, c := range confs {
		if c.sem {
			for k := 1; k <= semKinds; k++ {
				jobs = append(jobs, job{c, k, 30})
			}
		}
		jobs = append(jobs, job{c, 0, 10})
	}
	var loaded *Prog
	var which buildConf
	r.each(len(jobs), func(i int) int { return jobs[i].cost }, func(i int) {
		c := jobs[i].c
		if onlyTuple != "" && !strings.Contains(fmt.Sprint(c, jobs[i].kind), onlyTuple) {
			return
		}
		if loaded == nil || which != c {
			loaded = nil
			p, err := loadRepo(r.repo, LoadConf{GOOS: c.os, GOARCH: c.arch, Tags: c.tags})
			if err != nil {
				r.viol("compile", c.String(), "", "the library does not compile for %v: %.300v", c, err)
				return
			}
			loaded, which = p, c
		}
		if jobs[i].kind > 0 {
			r.semOn(c, loaded, jobs[i].kind)
			return
		}
		r.P = loaded
		defer func() { r.P = home }()
		r.ok("compile", c.String(), "the library type-checks")
		r.platform(c, loaded, ref, unit)
	})
	r.P = home
	r.keep("compile", "api", "asm", "unit", "files", "F", "H", "PRF", "H_msg", "pkGen", "sign", "pkFromSig", "sig", "pk", "params", "decode", "root", "context", "tree", "layout", "store", "slot", "reopen")
}

func (r *Rep) platform(c buildConf, p *Prog, ref map[string]map[string]string, unit map[string]bool) {
	seen := map[string]bool{}
	for _, pk := range p.Pkgs {
		if pk.Name == "main" {
			continue
		}
		seen[pk.PkgPath] = true
		want, ok := ref[pk.PkgPath]
		if !ok {
			r.viol("api", pk.PkgPath+" "+c.String(), "", "package %s exists on %v only", pk.PkgPath, c)
			continue
		}
		got := apiOf(pk.Types, pk.PkgPath == p.Mod)
		bad := 0
		for _, n := range sortedKeys(want, got) {
			if want[n] != got[n] {
				bad++
				r.viol("api", c.String(), "", "%s.%s is %q on %v and %q elsewhere", pk.Name, n, got[n], c, want[n])
			}
		}
		if bad == 0 {
			r.ok("api", c.String(), "package %s exports the same %d names", pk.Name, len(got))
		}
		r.asmOf(c, pk)
		if unit[pk.PkgPath] {
			r.unitOf(c, p, pk)
		}
	}
	for k := range ref {
		if !seen[k] {
			r.viol("api", c.String(), "", "package %s does not exist on %v", k, c)
		}
	}
}

func sortedKeys(a, b map[string]string) (r []string) {
	for k := range a {
		r = append(r, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return
}

func bodyless(pk *packages.Package) (r []string) {
	for _, f := range pk.Syntax {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body == nil {
				r = append(r, fd.Name.Name)
			}
		}
	}
	return
}

func (r *Rep) asmOf(c buildConf, pk *packages.Package) {
	have := map[string]int{}
	for _, f := range pk.OtherFiles {
		if !strings.HasSuffix(f, ".s") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			r.undec("asm", c.String(), "", "%v", err)
			return
		}
		for _, m := range asmText.FindAllSubmatch(b, -1) {
			if bytes.Contains(m[0], []byte("<>")) {
				continue
			}
			have[string(m[1])]++
		}
	}
	need := map[string]bool{}
	for _, n := range bodyless(pk) {
		need[n] = true
		r.check(have[n] == 1, "asm", c.String(), "", "%s.%s has exactly one implementation", pk.Name, n)
	}
	for n := range have {
		if !need[n] {
			obj := pk.Types.Scope().Lookup(n)
			// helpers of the assembly itself have no declaration
			r.check(obj == nil, "asm", c.String(), "", "%s.%s is implemented in assembly only", pk.Name, n)
		}
	}
	if len(need) == 0 && len(have) == 0 {
		r.ok("asm", c.String(), "package %s has no assembly", pk.Name)
	}
}

// A package that is implemented in assembly elsewhere.
func (r *Rep) unitOf(c buildConf, p *Prog, pk *packages.Package) {
	if len(bodyless(pk)) > 0 {
		return
	}
	sp := p.SSA.Package(pk.Types)
	if sp == nil {
		r.undec("unit", c.String(), "", "package %s", pk.Name)
		return
	}
	n := 0
	for _, m := range sp.Members {
		switch x := m.(type) {
		case *ssa.NamedConst:
			if isBool(x.Type()) && x.Object().Exported() {
				n++
				r.check(!constant.BoolVal(x.Value.Value), "unit", c.String(), p.pos(x.Pos()), "%s.%s is false", pk.Name, x.Name())
			}
		case *ssa.Global:
			el := x.Type().Underlying().(*types.Pointer).Elem()
			if !isBool(el) || x.Object() == nil || !x.Object().Exported() {
				continue
			}
			n++
			bad := ""
			for _, f := range p.repoFuncs() {
				bad += storesTo(p, f, x)
			}
			if f := sp.Func("init"); f != nil {
				bad += storesTo(p, f, x)
			}
			r.check(bad == "", "unit", c.String(), p.pos(x.Pos()), "%s.%s is only ever false: %s", pk.Name, x.Name(), bad)
		}
	}
	r.check(n > 0, "unit", c.String(), "", "package %s says whether it is available", pk.Name)
}

func storesTo(p *Prog, f *ssa.Function, g *ssa.Global) string {
	bad := ""
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op != ssa.Value(g) {
					continue
				}
				switch x := in.(type) {
				case *ssa.UnOp:
				case *ssa.Store:
					if cv, ok := x.Val.(*ssa.Const); x.Addr != ssa.Value(g) || !ok || cv.Value == nil || constant.BoolVal(cv.Value) {
						bad += " set in " + fnName(f) + " " + p.ipos(in)
					}
				default:
					bad += " used in " + fnName(f) + " " + p.ipos(in)
				}
			}
		}
	}
	return bad
}

// Build tags of the repository's own, and whether every file is analysed.
func (r *Rep) customTags() (cs []buildConf) {
	known := map[string]bool{"cgo": true, "gc": true, "gccgo": true, "unix": true, "ignore": true, "race": true, "msan": true, "asan": true, "appengine": true, "amd64p32": true,
		"android": true, "ios": true, "wasm": true, "js": true, "purego": false}
	for _, s := range strings.Fields("aix android darwin dragonfly freebsd hurd illumos ios js linux nacl netbsd openbsd plan9 solaris wasip1 windows zos " +
		"386 amd64 amd64p32 arm armbe arm64 arm64be loong64 mips mipsle mips64 mips64le mips64p32 mips64p32le ppc ppc64 ppc64le riscv riscv64 s390 s390x sparc sparc64 wasm") {
		known[s] = true
	}
	tags := map[string]bool{}
	for _, pk := range r.P.Pkgs {
		for _, f := range append(append([]string{}, pk.GoFiles...), pk.IgnoredFiles...) {
			if strings.HasSuffix(f, "_test.go") || !strings.HasSuffix(f, ".go") && !strings.HasSuffix(f, ".s") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				r.undec("files", filepath.Base(f), "", "%v", err)
				continue
			}
			e := fileConstraint(b)
			ignored := false
			if e != nil {
				var walk func(e constraint.Expr)
				walk = func(e constraint.Expr) {
					switch x := e.(type) {
					case *constraint.TagExpr:
						if x.Tag == "ignore" {
							ignored = true
						}
						if !known[x.Tag] && !strings.HasPrefix(x.Tag, "go1") {
							tags[x.Tag] = true
						}
					case *constraint.NotExpr:
						walk(x.X)
					case *constraint.AndExpr:
						walk(x.X)
						walk(x.Y)
					case *constraint.OrExpr:
						walk(x.X)
						walk(x.Y)
					}
				}
				walk(e)
			}
			sel := false
			for _, c := range buildConfs {
				if fileFor(f, e, c, tags) {
					sel = true
				}
			}
			r.check(sel || ignored, "files", filepath.Base(f), "", "the file is part of the library on some platform analysed")
		}
	}
	for t := range tags {
		for _, pl := range [][2]string{{"linux", "amd64"}, {"linux", "arm64"}} {
			cs = append(cs, buildConf{pl[0], pl[1], t, 64, false})
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].String() < cs[j].String() })
	return
}

func fileConstraint(b []byte) constraint.Expr {
	var r constraint.Expr
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "package ") {
			break
		}
		if constraint.IsGoBuild(l) {
			if e, err := constraint.Parse(l); err == nil {
				return e
			}
		}
		if constraint.IsPlusBuild(l) {
			if e, err := constraint.Parse(l); err == nil {
				if r == nil {
					r = e
				} else {
					r = &constraint.AndExpr{X: r, Y: e}
				}
			}
		}
	}
	return r
}

// is the file part of the build for a platform, with some of the tags?
func fileFor(name string, e constraint.Expr, c buildConf, tags map[string]bool) bool {
	base := strings.TrimSuffix(strings.TrimSuffix(filepath.Base(name), ".go"), ".s")
	parts := strings.Split(base, "_")
	oses := map[string]bool{}
	archs := map[string]bool{}
	for _, s := range strings.Fields("aix android darwin dragonfly freebsd illumos ios js linux netbsd openbsd plan9 solaris wasip1 windows") {
		oses[s] = true
	}
	for _, s := range strings.Fields("386 amd64 arm arm64 loong64 mips mipsle mips64 mips64le ppc64 ppc64le riscv64 s390x wasm") {
		archs[s] = true
	}
	n := len(parts)
	if n > 1 && archs[parts[n-1]] {
		if parts[n-1] != c.arch {
			return false
		}
		n--
	}
	if n > 1 && oses[parts[n-1]] && parts[n-1] != c.os && !(c.os == "android" && parts[n-1] == "linux") {
		return false
	}
	if e == nil {
		return true
	}
	for _, own := range []bool{false, true} {
		if e.Eval(func(t string) bool {
			if tags[t] {
				return own
			}
			return t == c.os || t == c.arch || t == "gc" || t == "unix" && c.os != "windows" || c.os == "android" && t == "linux" || strings.HasPrefix(t, "go1")
		}) {
			return true
		}
	}
	return false
}

const semKinds = 12

// comparison with the specification on another platform
func (r *Rep) semOn(c buildConf, p *Prog, kind int) {
	home, bits := r.P, intBits
	r.P, intBits = p, c.bits
	defer func() { r.P, intBits = home, bits }()
	idx := map[string]int{}
	for k, v := range r.idx {
		idx[k] = v
	}
	old := r.obls
	r.obls, r.idx = nil, map[string]int{}
	base := r.initState()
	switch kind {
	case 1:
		for _, pa := range []Params{{0, 32, 20, 2, 16, 0}, {1, 32, 20, 1, 16, 0}, {1, 16, 60, 3, 4, 0}, {2, 24, 20, 1, 16, 1}} {
			r.hashTuple(base, pa, false)
		}
	case 2:
		r.wotsTuple(base, Params{1, 16, 4, 2, 16, 0})
	case 8:
		r.subTree(base, Params{0, 16, 8, 2, 16, 0}, 1, 3)
		r.subTree(base, Params{1, 16, 8, 2, 16, 0}, 0, 3)
		r.layout(base)
	case 9, 10, 11, 12:
		f := []func(m *fsModel, st *State){(*fsModel).scenSeq, (*fsModel).scenReset, (*fsModel).scenCache, (*fsModel).scenMany}[kind-9]
		m, st := newFsModel(r, Params{0, 32, 4, 2, 256, 0}, 4096, fmt.Sprintf("container, scenario %d", kind-8))
		f(m, st)
		for _, u := range m.in.undec {
			r.undec("analysis", m.name, "", "%s", u)
		}
	case 7:
		r.wotsTuple(base, Params{0, 24, 4, 2, 4, 1})
	case 3:
		r.signCase(base, signCase{Params{1, 16, 4, 2, 256, 0}, []uint64{0, 5, 13}, true})
	case 4:
		r.signCase(base, signCase{Params{0, 16, 60, 20, 256, 0}, []uint64{1<<40 + 12345, 1<<59 - 1}, false})
	case 5:
		r.verify(base, verifyCase{pa: Params{1, 16, 4, 2, 256, 0}})
		r.verify(base, verifyCase{pa: Params{0, 32, 2, 1, 16, 0}})
	case 6:
		for _, pa := range codecTuples() {
			r.reencode(base, "Signature", pa, newSpec(pa).sigLen())
			r.reencode(base, "PublicKey", pa, int(4+2*pa.N))
		}
	}
	res := r.obls
	r.obls, r.idx = old, idx
	for _, o := range res {
		r.put(o.Status, o.Rule, c.String()+" "+o.Construct, o.Where, "%s", o.What)
	}
}
