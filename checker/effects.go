package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// calledBy lists the functions of the module a function may call or hand out: static callees, closures it
// makes, functions used as values, methods that an interface call of that name may reach and methods of the
// types it converts to interfaces.
func (p *Program) calledBy(f *ssa.Function) []*ssa.Function {
	if p.calls == nil {
		p.calls = map[*ssa.Function][]*ssa.Function{}
		p.byMethod = map[string][]*ssa.Function{}
		for _, fn := range p.Funcs {
			if fn.Signature.Recv() != nil {
				p.byMethod[fn.Name()] = append(p.byMethod[fn.Name()], fn)
			}
		}
	}
	if r, ok := p.calls[f]; ok {
		return r
	}
	set := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(fn *ssa.Function) {
		if fn != nil && len(fn.Blocks) > 0 && !set[fn] && p.InModule(fn) {
			set[fn] = true
			out = append(out, fn)
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				cc := ci.Common()
				if cc.IsInvoke() {
					for _, m := range p.byMethod[cc.Method.Name()] {
						if it, ok := cc.Value.Type().Underlying().(*types.Interface); ok && types.Implements(m.Signature.Recv().Type(), it) {
							add(m)
						}
					}
				} else if cal := cc.StaticCallee(); cal != nil {
					add(cal)
				} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
					// a function value: whatever the module hands out with that signature
					for _, fn := range p.handedOut() {
						if types.Identical(types.NewSignatureType(nil, nil, nil, fn.Signature.Params(), fn.Signature.Results(), fn.Signature.Variadic()), cc.Signature()) {
							add(fn)
						}
					}
				}
			}
			var ops []*ssa.Value
			for _, o := range ins.Operands(ops) {
				switch v := (*o).(type) {
				case *ssa.Function:
					add(v)
				case *ssa.MakeClosure:
					add(v.Fn.(*ssa.Function))
				}
			}
			if mi, ok := ins.(*ssa.MakeInterface); ok {
				ms := p.SSA.MethodSets.MethodSet(mi.X.Type())
				for i := 0; i < ms.Len(); i++ {
					add(p.SSA.MethodValue(ms.At(i)))
				}
			}
		}
	}
	p.calls[f] = out
	return out
}

// handedOut are the functions of the module used as values.
func (p *Program) handedOut() []*ssa.Function {
	if p.values != nil {
		return p.values
	}
	set := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var ops []*ssa.Value
				ci, _ := ins.(ssa.CallInstruction)
				for _, o := range ins.Operands(ops) {
					var fn *ssa.Function
					switch v := (*o).(type) {
					case *ssa.Function:
						fn = v
					case *ssa.MakeClosure:
						fn = v.Fn.(*ssa.Function)
					}
					if fn == nil || ci != nil && ci.Common().Value == *o {
						continue
					}
					if !set[fn] {
						set[fn] = true
						p.values = append(p.values, fn)
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					fn := mc.Fn.(*ssa.Function)
					if !set[fn] {
						set[fn] = true
						p.values = append(p.values, fn)
					}
				}
			}
		}
	}
	return p.values
}

// reachableFrom is the conservative closure of calledBy.
func (p *Program) reachableFrom(roots ...*ssa.Function) map[*ssa.Function]bool {
	return p.reachableExcept(nil, roots...)
}

func (p *Program) reachableExcept(except map[*ssa.Function]bool, roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	work := append([]*ssa.Function{}, roots...)
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if f == nil || seen[f] || except[f] {
			continue
		}
		seen[f] = true
		work = append(work, p.calledBy(f)...)
	}
	return seen
}

// contents is what a map, slice or pointer kept in a location refers to.
type contents struct{ Loc any }
