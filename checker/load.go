package main

// Loading: parse, type-check and build the SSA form of the repository's
// current source, and evaluate its package initialisers.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type program struct {
	prog *ssa.Program
	mod  []*ssa.Package // dependency order
	byP  map[string]*ssa.Package
	all  map[*ssa.Function]bool
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

type loadError string

func loadProgram() *program {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir(), Env: env}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(loadError("loading: " + err.Error()))
	}
	if len(ps) == 0 {
		panic(loadError("no packages"))
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			panic(loadError("type error: " + e.Error()))
		}
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	r := &program{prog: prog, byP: map[string]*ssa.Package{}}
	seen := map[*packages.Package]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		var ks []string
		for k := range p.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			visit(p.Imports[k])
		}
		sp := prog.Package(p.Types)
		if sp == nil {
			return
		}
		if isModPath(p.PkgPath) {
			sp.Build()
			r.mod = append(r.mod, sp)
			r.byP[strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")] = sp
		} else if inlineStd[p.PkgPath] {
			sp.Build()
		}
	}
	for _, p := range ps {
		visit(p)
	}
	r.all = map[*ssa.Function]bool{}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil && r.isModFn(f) {
			r.all[f] = true
		}
	}
	return r
}

func isModPath(p string) bool {
	if strings.HasPrefix(p, modPath+"/tests") {
		return false
	}
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

func fnPkg(f *ssa.Function) *ssa.Package {
	for g := f; g != nil; g = g.Parent() {
		if p := g.Package(); p != nil {
			return p
		}
		if o := g.Origin(); o != nil && o.Package() != nil {
			return o.Package()
		}
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return f.Prog.Package(o.Pkg())
	}
	return nil
}

func (p *program) isModFn(f *ssa.Function) bool {
	k := fnPkg(f)
	return k != nil && isModPath(k.Pkg.Path())
}

// isGenerated tells protobuf's generated code.
func (p *program) fileOf(f *ssa.Function) string {
	for g := f; g != nil; g = g.Parent() {
		if g.Pos().IsValid() {
			return p.prog.Fset.Position(g.Pos()).Filename
		}
	}
	return ""
}

func (p *program) isGenerated(f *ssa.Function) bool {
	return strings.HasSuffix(p.fileOf(f), ".pb.go")
}

func newInterp(p *program) *interp {
	in := &interp{
		prog:    p.prog,
		isMod:   func(k *ssa.Package) bool { return k != nil && isModPath(k.Pkg.Path()) },
		opaque:  map[*ssa.Function]string{},
		hooks:   map[string]modelFn{},
		seen:    map[*ssa.Function]bool{},
		ids:     map[*ssa.Function]map[ssa.Instruction]int{},
		loops:   map[*ssa.Function]*loopInfo{},
		unmod:   map[string]int{},
		globals: &heap{cells: map[int]*cell{}},
		p:       p,
	}
	return in
}

// initGlobals evaluates the package initialisers of the module.
func (in *interp) initGlobals() {
	for _, k := range in.p.mod {
		if strings.HasSuffix(k.Pkg.Path(), "/edwards25519") {
			continue
		}
		f := k.Func("init")
		if f == nil || f.Blocks == nil {
			continue
		}
		st := &state{g: tTrue, h: in.globals}
		in.callFn(st, f, nil, nil, "init:"+k.Pkg.Path())
		in.globals = st.h
	}
	in.events, in.obls = nil, nil
}

// ---------- looking things up ----------

// fnNamed finds "pkg.Func" or "pkg.Type.Method" (exported API anchors).
func (p *program) fnNamed(name string) *ssa.Function {
	i := strings.LastIndex(name, "/")
	j := strings.Index(name[i+1:], ".") + i + 1
	pkg, rest := name[:j], name[j+1:]
	sp := p.byP[pkg]
	if sp == nil {
		panic(undecided("anchor package missing: " + pkg))
	}
	if k := strings.Index(rest, "."); k >= 0 {
		t := sp.Type(rest[:k])
		if t == nil {
			panic(undecided("anchor type missing: " + name))
		}
		for _, typ := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
			ms := p.prog.MethodSets.MethodSet(typ)
			if s := ms.Lookup(sp.Pkg, rest[k+1:]); s != nil {
				return p.prog.MethodValue(s)
			}
		}
		panic(undecided("anchor method missing: " + name))
	}
	f := sp.Func(rest)
	if f == nil {
		panic(undecided("anchor function missing: " + name))
	}
	return f
}

func (p *program) typeNamed(name string) types.Type {
	i := strings.LastIndex(name, ".")
	sp := p.byP[name[:i]]
	if sp == nil {
		panic(undecided("anchor package missing: " + name))
	}
	t := sp.Type(name[i+1:])
	if t == nil {
		panic(undecided("anchor type missing: " + name))
	}
	return t.Type()
}

var _ = fmt.Sprint
