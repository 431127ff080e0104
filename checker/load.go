package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// A loaded, type-checked and SSA-built configuration of the repository.
type Prog struct {
	Dir   string
	Pkgs  []*packages.Package
	SSA   *ssa.Program
	Main  *ssa.Package // package xmssmt
	Fset  *token.FileSet
	repo  map[*types.Package]bool
	globs map[*ssa.Global]*Obj
	Mod   string

	mutGlobs map[*Obj]bool
}

type LoadConf struct {
	GOOS, GOARCH string
	Tags         string
}

func baseEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOWORK", "GOTOOLCHAIN", "GOOS", "GOARCH", "GO111MODULE", "CGO_ENABLED":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GO111MODULE=on")
}

func loadRepo(dir string, lc LoadConf) (*Prog, error) {
	env := baseEnv()
	if lc.GOOS != "" {
		env = append(env, "GOOS="+lc.GOOS)
	}
	if lc.GOARCH != "" {
		env = append(env, "GOARCH="+lc.GOARCH, "CGO_ENABLED=0")
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env, Tests: false, Fset: token.NewFileSet()}
	if lc.Tags != "" {
		cfg.BuildFlags = []string{"-tags=" + lc.Tags}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if p.Module == nil || p.Module.Main || len(errs) < 3 {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "; "))
	}
	p := &Prog{Dir: dir, Pkgs: pkgs, Fset: cfg.Fset, repo: map[*types.Package]bool{}, globs: map[*ssa.Global]*Obj{}}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for i, pk := range pkgs {
		p.repo[pk.Types] = true
		if pk.Name == "xmssmt" {
			p.Main = spkgs[i]
			p.Mod = pk.PkgPath
		}
	}
	if p.Main == nil {
		return nil, fmt.Errorf("package xmssmt not found")
	}
	return p, nil
}

func (p *Prog) inRepo(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return p.repo[f.Pkg.Pkg]
		}
		if o := f.Origin(); o != nil && o != f && o.Pkg != nil {
			return p.repo[o.Pkg.Pkg]
		}
	}
	// wrappers and thunks
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return p.repo[fn.Object().Pkg()]
	}
	return false
}

func (p *Prog) globalObj(g *ssa.Global) *Obj {
	if o, ok := p.globs[g]; ok {
		return o
	}
	o := newObj(g.String(), g.Type().Underlying().(*types.Pointer).Elem())
	o.Global = true
	p.globs[g] = o
	return o
}

// Method or function of the main package by name ("Context.Sign", "Verify").
func (p *Prog) fn(name string) *ssa.Function {
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn := p.Main.Type(name[:i])
		if tn == nil {
			return nil
		}
		for _, t := range []types.Type{types.NewPointer(tn.Type()), tn.Type()} {
			ms := types.NewMethodSet(t)
			sel := ms.Lookup(p.Main.Pkg, name[i+1:])
			if sel == nil {
				continue
			}
			// prefer the declared method over wrappers
			if f, ok := sel.Obj().(*types.Func); ok {
				if sf := p.SSA.FuncValue(f); sf != nil {
					return sf
				}
			}
			return p.SSA.MethodValue(sel)
		}
		return nil
	}
	return p.Main.Func(name)
}

func (p *Prog) namedType(name string) types.Type {
	if t := p.Main.Type(name); t != nil {
		return t.Type()
	}
	return nil
}

// type of Merkle trees: what newMerkleTree returns
func (p *Prog) treeType() types.Type {
	t := p.needFn("newMerkleTree").Signature.Results().At(0).Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	return t
}

// type of precomputed hashes: what precomputeHashes returns
func (p *Prog) hashesType() types.Type {
	return p.needFn("Context.precomputeHashes").Signature.Results().At(0).Type()
}
func (p *Prog) isHashes(t types.Type) bool { return types.Identical(t, p.hashesType()) }

func (p *Prog) isTree(t types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	return types.Identical(t, p.treeType())
}

// method Node of Merkle trees
func (p *Prog) treeNode() *ssa.Function {
	if n, ok := p.treeType().(*types.Named); ok {
		return p.needFn(n.Obj().Name() + ".Node")
	}
	panic(abortAll{"type of Merkle trees is not known"})
}

// method of Merkle trees that gives the path of a leaf: the one with a single
// number as argument and bytes as result
func (p *Prog) authPath() *ssa.Function {
	if f := p.fn("merkleTree.AuthPath"); f != nil {
		return f
	}
	var fs []*ssa.Function
	for _, f := range p.repoFuncs() {
		sig := f.Signature
		if sig.Recv() == nil || f.Synthetic != "" || !p.isTree(sig.Recv().Type()) || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
			continue
		}
		b, ok := sig.Params().At(0).Type().Underlying().(*types.Basic)
		s, ok2 := sig.Results().At(0).Type().Underlying().(*types.Slice)
		if ok && b.Info()&types.IsInteger != 0 && ok2 && types.Identical(s.Elem(), types.Typ[types.Uint8]) {
			fs = append(fs, f)
		}
	}
	if len(fs) != 1 {
		return nil
	}
	return fs[0]
}

// the function that fills a given tree: the callee of genSubTree that is given
// both a tree and its address
func (p *Prog) fillTree() string {
	g := p.needFn("Context.genSubTree")
	var found *ssa.Function
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok || c.Common().StaticCallee() == nil {
				continue
			}
			f := c.Common().StaticCallee()
			mt, sta := false, false
			for _, a := range c.Common().Args {
				mt = mt || p.isTree(a.Type())
				t := a.Type()
				if pt, ok := t.(*types.Pointer); ok {
					t = pt.Elem()
				}
				sta = sta || types.Identical(t, p.namedType("SubTreeAddress"))
			}
			if mt && sta {
				if found != nil && found != f {
					return ""
				}
				found = f
			}
		}
	}
	if found == nil {
		return ""
	}
	return found.String()
}

// all functions (including methods and closures) of the repository
func (p *Prog) repoFuncs() []*ssa.Function {
	var r []*ssa.Function
	for f := range ssautil.AllFunctions(p.SSA) {
		if p.inRepo(f) && f.Blocks != nil {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].String() != r[j].String() {
			return r[i].String() < r[j].String()
		}
		return r[i].Pos() < r[j].Pos()
	})
	return r
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (p *Prog) ipos(i ssa.Instruction) string {
	if i == nil {
		return "-"
	}
	if i.Pos().IsValid() {
		return p.pos(i.Pos())
	}
	// closest instruction with a position
	for _, j := range i.Block().Instrs {
		if j.Pos().IsValid() {
			return p.pos(j.Pos())
		}
	}
	return p.pos(i.Parent().Pos())
}

func fnName(f *ssa.Function) string {
	s := f.String()
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		pre := ""
		if strings.HasPrefix(s, "(*") {
			pre = "(*"
		} else if strings.HasPrefix(s, "(") {
			pre = "("
		}
		s = pre + s[i+1:]
	}
	return strings.Replace(s, "go-xmssmt.", "", 1)
}

func shortName(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

var purePkgs = map[string]bool{
	"fmt": true, "strings": true, "strconv": true, "errors": true, "encoding/hex": true,
	"encoding/base64": true, "path/filepath": true, "bytes": true, "math": true, "math/bits": true,
	"runtime": true, "unicode": true, "unicode/utf8": true, "path": true,
	"github.com/hashicorp/go-multierror": true, "github.com/cespare/xxhash": true,
	"crypto/subtle": true,
}

func purePkg(fn *ssa.Function) bool {
	var pk *types.Package
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg
	} else if fn.Object() != nil {
		pk = fn.Object().Pkg()
	}
	return pk != nil && purePkgs[pk.Path()]
}
