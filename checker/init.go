package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// prepareGlobals finds which package variables are assigned outside package initialisation.
func (p *Program) prepareGlobals() {
	p.globalMutable = map[*ssa.Global]bool{}
	for _, f := range p.Funcs {
		if f.Synthetic == "package initializer" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if g := globalRoot(x.Addr); g != nil {
						p.globalMutable[g] = true
					}
				case *ssa.MapUpdate:
					if g := globalRoot(x.Map); g != nil {
						p.globalMutable[g] = true
					}
				}
			}
		}
	}
	// a variable whose address is given away can be assigned by whoever gets it
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
					continue
				case *ssa.Store:
					if g := addrRoot(x.Val); g != nil {
						p.globalMutable[g] = true
					}
					continue
				}
				for _, o := range ins.Operands(nil) {
					if g := addrRoot(*o); g != nil {
						p.globalMutable[g] = true
					}
				}
			}
		}
	}
	p.globalInit = map[*ssa.Global]*Term{}
	p.initMem = map[string]Mem{}
}

func globalRoot(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return nil
		}
	}
}

// addrRoot: the variable v is the address (or part of the address) of.
func addrRoot(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// initState evaluates a package's initialiser abstractly and keeps the resulting store.
func (p *Program) initState(pkg *ssa.Package) Mem {
	if p.globalMutable == nil {
		p.prepareGlobals()
	}
	key := pkg.Pkg.Path()
	if m, ok := p.initMem[key]; ok {
		return m
	}
	p.initMem[key] = Mem{}
	init := pkg.Func("init")
	if init == nil || init.Blocks == nil {
		return p.initMem[key]
	}
	e := NewEngine(p)
	e.UseInit = true
	e.Inline = func(fn *ssa.Function) bool {
		return p.InModule(fn) && FuncPkg(fn) == pkg.Pkg && fn.Synthetic == ""
	}
	guard := pkg.Members["init$guard"]
	e.Hook = func(t *Term) *Term {
		if t.Op == "deref" && t.Args[0].Op == "global" && t.Args[0].Obj == any(guard) {
			return mkBool(false)
		}
		return nil
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(undecided); !ok {
					panic(r)
				}
			}
		}()
		res := e.Run(init)
		if res.Mem != nil {
			p.initMem[key] = res.Mem
		}
	}()
	return p.initMem[key]
}

func (p *Program) immutableGlobal(g *ssa.Global) bool {
	if p.globalMutable == nil {
		p.prepareGlobals()
	}
	return g.Pkg != nil && p.SPkg[g.Pkg.Pkg.Path()] != nil && !p.globalMutable[g]
}

// globalValue gives the abstract value of a package variable that is only assigned at initialisation.
func (p *Program) globalValue(g *ssa.Global) *Term {
	if p.globalMutable == nil {
		p.prepareGlobals()
	}
	if g.Pkg == nil || p.SPkg[g.Pkg.Pkg.Path()] == nil || p.globalMutable[g] || g.Name() == "init$guard" {
		return nil
	}
	if t, ok := p.globalInit[g]; ok {
		return t
	}
	p.globalInit[g] = nil
	m := p.initState(g.Pkg)
	v := m[mk("global", g, "", g.Type())]
	if v == nil {
		// aggregate stored field by field: leave it symbolic
		return nil
	}
	p.globalInit[g] = v
	return v
}
