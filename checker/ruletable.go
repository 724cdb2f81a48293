package main

import (
	"golang.org/x/tools/go/ssa"
)

// ruleDef is one entry of the table of rules or analyzers.
type ruleDef struct {
	ID, Desc string
	Create   *ssa.Function
	Pos      string
}

// ruleTable reads the definitions that Generate goes through.
func (p *Program) ruleTable(rel string) []ruleDef {
	fn := p.Func(rel, "Generate")
	if fn == nil {
		panic(undecided{"Generate not found in " + rel})
	}
	g := NewGate(p)
	r := g.Run(fn)
	// the list: the outermost traversal around the map writes
	var list *Term
	for _, e := range g.Events {
		if e.Kind == "mapstore" && len(e.Loops) > 0 {
			list = e.Loops[0]
		}
	}
	if list == nil {
		panic(undecided{"no table of rules in " + rel})
	}
	mem := r.Mem
	els, ok := g.sliceElems(mem, list)
	if !ok && (list.Op == "deref" && list.Args[0].Op == "global") {
		if gl, isG := list.Args[0].Obj.(*ssa.Global); isG && p.immutableGlobal(gl) {
			gi, mi := p.gateInit(gl.Pkg)
			if t := gi.load(mi, list.Args[0]).single(); t != nil {
				els, ok = gi.sliceElems(mi, t)
				g, mem = gi, mi
			}
		}
	}
	if !ok {
		panic(undecided{"table of rules in " + rel + " is not a literal: " + list.String()})
	}
	_ = mem
	var out []ruleDef
	for _, v := range els {
		d := ruleDef{}
		t := v.single()
		if t == nil {
			panic(undecided{"entry of the table of rules is not one value"})
		}
		get := func(n string) *Term {
			st := structOf(t.Typ)
			return g.field(t, st.Field(fieldIndex(st, n))).single()
		}
		d.ID, _ = constStr(get("ID"))
		d.Desc, _ = constStr(get("Description"))
		f := strip(get("Create"))
		if fn, ok := f.Obj.(*ssa.Function); ok {
			d.Create = fn
		}
		out = append(out, d)
	}
	return out
}

// gateInit evaluates the initialiser of a package.
func (p *Program) gateInit(pkg *ssa.Package) (*Gate, GMem) {
	if x, ok := gateInits[pkg]; ok {
		return x.g, x.m
	}
	g := NewGate(p)
	guard := pkg.Members["init$guard"]
	g.Inline = func(fn *ssa.Function) bool {
		return p.InModule(fn) && FuncPkg(fn) == pkg.Pkg && fn.Synthetic == ""
	}
	g.Hook = func(t *Term) *Term {
		if t.Op == "deref" && t.Args[0].Op == "global" && t.Args[0].Obj == any(guard) {
			return mkBool(false)
		}
		return nil
	}
	r := g.Run(pkg.Func("init"))
	gateInits[pkg] = gateInitRes{g, r.Mem}
	return g, r.Mem
}

type gateInitRes struct {
	g *Gate
	m GMem
}

var gateInits = map[*ssa.Package]gateInitRes{}
