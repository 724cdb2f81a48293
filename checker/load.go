package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/securego/gosec/v2"

// Program is the resolved program under analysis: every package of /repo, typed and in SSA form.
type Program struct {
	tables map[string]GMem
	Dir    string
	Pkgs   []*packages.Package
	ByID   map[string]*packages.Package
	SSA    *ssa.Program
	SPkg   map[string]*ssa.Package
	Fset   *token.FileSet
	Funcs  []*ssa.Function // all functions with bodies defined in the module (incl. closures and methods)
	proc   *procModel

	calls    map[*ssa.Function][]*ssa.Function
	byMethod map[string][]*ssa.Function
	values   []*ssa.Function

	sites map[*ssa.Function][]callSite

	globalMutable map[*ssa.Global]bool
	globalInit    map[*ssa.Global]*Term
	initMem       map[string]Mem
}

func Load(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  os.Environ(),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the program does not type-check:\n%s", strings.Join(errs, "\n"))
	}
	if len(ps) < 15 {
		return nil, fmt.Errorf("only %d packages loaded", len(ps))
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, Pkgs: ps, SSA: prog, ByID: map[string]*packages.Package{}, SPkg: map[string]*ssa.Package{}, Fset: ps[0].Fset}
	for i, pk := range ps {
		p.ByID[pk.PkgPath] = pk
		p.SPkg[pk.PkgPath] = spkgs[i]
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil {
			continue
		}
		if p.InModule(fn) {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	// AllFunctions is reachability based: add every declared function explicitly as well.
	seen := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		seen[f] = true
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil {
			return
		}
		if !seen[f] && f.Blocks != nil {
			seen[f] = true
			p.Funcs = append(p.Funcs, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, pk := range ps {
		for _, file := range pk.Syntax {
			for _, d := range file.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if obj, ok := pk.TypesInfo.Defs[fd.Name].(*types.Func); ok {
						add(prog.FuncValue(obj))
					}
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

// InModule reports whether the function is defined (or instantiated from code) in the module.
func (p *Program) InModule(fn *ssa.Function) bool {
	pk := FuncPkg(fn)
	return pk != nil && (pk.Path() == modPath || strings.HasPrefix(pk.Path(), modPath+"/"))
}

// FuncPkg returns the package that declares fn (following closures, instances and wrappers).
func FuncPkg(fn *ssa.Function) *types.Package {
	for fn != nil {
		if fn.Pkg != nil {
			return fn.Pkg.Pkg
		}
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return fn.Object().Pkg()
		}
		if fn.Origin() != nil && fn.Origin() != fn {
			fn = fn.Origin()
			continue
		}
		fn = fn.Parent()
	}
	return nil
}

// sub gives the import path of a package of the module.
func sub(rel string) string {
	if rel == "" {
		return modPath
	}
	return modPath + "/" + rel
}

// Func looks up a package-level function.
func (p *Program) Func(rel, name string) *ssa.Function {
	sp := p.SPkg[sub(rel)]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// NamedType looks up a named type of the module.
func (p *Program) NamedType(rel, name string) *types.Named {
	pk := p.ByID[sub(rel)]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// Method looks up a method (declared on T or *T).
func (p *Program) Method(rel, typ, name string) *ssa.Function {
	n := p.NamedType(rel, typ)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if m := n.Method(i); m.Name() == name {
			return p.SSA.FuncValue(m)
		}
	}
	return nil
}

// FieldVar finds a struct field of a named type.
func (p *Program) FieldVar(rel, typ, field string) *types.Var {
	n := p.NamedType(rel, typ)
	if n == nil {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return st.Field(i)
		}
	}
	return nil
}

// PkgFuncs lists the functions (with closures and methods) declared in a package of the module.
func (p *Program) PkgFuncs(rels ...string) []*ssa.Function {
	want := map[string]bool{}
	for _, r := range rels {
		want[sub(r)] = true
	}
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if pk := FuncPkg(f); pk != nil && want[pk.Path()] && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	return out
}

// Pos renders a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	if r, err := filepath.Rel(p.Dir, ps.Filename); err == nil && !strings.HasPrefix(r, "..") {
		ps.Filename = r
	}
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

// InstrPos finds the best position for an instruction.
func (p *Program) InstrPos(i ssa.Instruction) string {
	if i.Pos().IsValid() {
		return p.Pos(i.Pos())
	}
	var ops []*ssa.Value
	for _, o := range i.Operands(ops) {
		if o != nil && *o != nil && (*o).Pos().IsValid() {
			if ii, ok := (*o).(ssa.Instruction); ok && ii.Parent() == i.Parent() {
				return p.Pos((*o).Pos())
			}
		}
	}
	if b := i.Block(); b != nil {
		for _, j := range b.Instrs {
			if j.Pos().IsValid() {
				return p.Pos(j.Pos())
			}
		}
	}
	if i.Parent() != nil {
		return p.Pos(i.Parent().Pos())
	}
	return "-"
}

// FuncName renders a function relative to the module.
func FuncName(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	return strings.ReplaceAll(strings.ReplaceAll(f.String(), modPath+"/", ""), modPath, "gosec")
}
