package main

import (
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/spiegel-im-spiegel/gpgpdump"

type Program struct {
	prog  *ssa.Program
	fset  *token.FileSet
	pkgs  map[string]*ssa.Package // repo packages by import path
	order []*ssa.Package          // dependency order
	all   map[string]*ssa.Package
	root  string
	lpkgs []*packages.Package
	nfun  int
	ninst int
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// loadProgram type-checks the current working tree and builds SSA.
func loadProgram() (*Program, error) {
	dir := repoDir()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  dir,
		Env:  os.Environ(),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errsL []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errsL = append(errsL, e.Error())
		}
	})
	if len(errsL) > 0 {
		sort.Strings(errsL)
		if len(errsL) > 5 {
			errsL = errsL[:5]
		}
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errsL, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Program{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, all: map[string]*ssa.Package{}, root: dir, lpkgs: ps}
	// build only the packages whose bodies are analysed
	for _, sp := range prog.AllPackages() {
		p.all[sp.Pkg.Path()] = sp
		if isRepoPath(sp.Pkg.Path()) {
			sp.Build()
			p.pkgs[sp.Pkg.Path()] = sp
		}
	}
	if len(p.pkgs) == 0 {
		return nil, fmt.Errorf("no packages of %s found under %s", modPath, dir)
	}
	// dependency order
	seen := map[string]bool{}
	var visit func(lp *packages.Package)
	visit = func(lp *packages.Package) {
		if seen[lp.PkgPath] {
			return
		}
		seen[lp.PkgPath] = true
		var deps []string
		for k := range lp.Imports {
			deps = append(deps, k)
		}
		sort.Strings(deps)
		for _, k := range deps {
			visit(lp.Imports[k])
		}
		if sp := p.pkgs[lp.PkgPath]; sp != nil {
			p.order = append(p.order, sp)
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].PkgPath < ps[j].PkgPath })
	for _, lp := range ps {
		visit(lp)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && p.pkgs[fn.Pkg.Pkg.Path()] != nil && len(fn.Blocks) > 0 {
			p.nfun++
			for _, b := range fn.Blocks {
				p.ninst += len(b.Instrs)
			}
		}
	}
	return p, nil
}

func isRepoPath(s string) bool {
	return s == modPath || strings.HasPrefix(s, modPath+"/")
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	rel, err := filepath.Rel(p.root, q.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.pkgs[modPath+"/"+pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// method finds a method of a named type in a repo package.
func (p *Program) method(pkg, typ, name string, ptr bool) *ssa.Function {
	sp := p.pkgs[modPath+"/"+pkg]
	if sp == nil {
		return nil
	}
	t := sp.Type(typ)
	if t == nil {
		return nil
	}
	ty := t.Type()
	if ptr {
		ms := p.prog.MethodSets.MethodSet(newPointer(ty))
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.prog.MethodValue(ms.At(i))
			}
		}
		return nil
	}
	ms := p.prog.MethodSets.MethodSet(ty)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}
