package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// origins follows a value backwards, without evaluating control flow, to the set of terms it can
// be: constants, parameters of the function the analysis starts in, field paths of those, results
// of calls. Values that depend on a choice give several terms.
type origins struct {
	p    *Program
	seen map[okey]bool
	n    int
	// where the lists written out here are made, nil when in several places
	lits map[*ssa.Alloc]*fframe
}

type okey struct {
	fr *fframe
	v  ssa.Value
}

func (p *Program) origins(x fval) []*Term {
	o := &origins{p: p, seen: map[okey]bool{}}
	return dedupe(o.of(x))
}

func dedupe(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, t := range ts {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	return out
}

func (o *origins) of(x fval) []*Term {
	k := okey{x.fr, x.v}
	if o.seen[k] {
		return nil // part of a cycle: the other members of the union decide
	}
	o.n++
	if o.n > 20000 {
		panic(undecided{"value has too many origins"})
	}
	o.seen[k] = true
	defer delete(o.seen, k)
	return o.step(x)
}

func (o *origins) each(x fval, f func(*Term) *Term) []*Term {
	var out []*Term
	for _, t := range o.of(x) {
		out = append(out, f(t))
	}
	return out
}

func (o *origins) step(x fval) []*Term {
	one := func(t *Term) []*Term { return []*Term{t} }
	switch v := x.v.(type) {
	case *ssa.Const:
		return one(constTerm(v))
	case *ssa.Parameter:
		if x.fr != nil && x.fr.call != nil {
			for j, q := range x.fr.fn.Params {
				if q != v {
					continue
				}
				args := callArgs(x.fr.call)
				if j < len(args) {
					return o.of(fval{x.fr.up, args[j]})
				}
			}
		}
		return one(mk("param", v, "", v.Type()))
	case *ssa.FreeVar:
		if x.fr != nil && x.fr.clo != nil {
			for j, q := range x.fr.fn.FreeVars {
				if q == v && j < len(x.fr.clo.Bindings) {
					return o.of(fval{x.fr.cfr, x.fr.clo.Bindings[j]})
				}
			}
		}
		return one(mk("freevar", v, "", v.Type()))
	case *ssa.ChangeType:
		return o.of(fval{x.fr, v.X})
	case *ssa.ChangeInterface:
		return o.of(fval{x.fr, v.X})
	case *ssa.MakeInterface:
		return o.of(fval{x.fr, v.X})
	case *ssa.Convert:
		return o.of(fval{x.fr, v.X})
	case *ssa.TypeAssert:
		return o.each(fval{x.fr, v.X}, func(t *Term) *Term { return mk("assert", v.AssertedType.String(), "", v.AssertedType, t) })
	case *ssa.Phi:
		var out []*Term
		for _, e := range v.Edges {
			out = append(out, o.of(fval{x.fr, e})...)
		}
		return dedupe(out)
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Call:
			return o.call(fval{x.fr, t}, t.Common(), v.Index)
		case *ssa.TypeAssert:
			if v.Index == 0 {
				return o.of(fval{x.fr, t})
			}
			return o.each(fval{x.fr, t.X}, func(y *Term) *Term {
				return mk("is", t.AssertedType.String(), "", types.Typ[types.Bool], y)
			})
		case *ssa.Lookup:
			if v.Index == 0 {
				return o.of(fval{x.fr, t})
			}
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok && v.Index > 0 {
				op := "key"
				if v.Index == 2 {
					op = "elem"
				}
				return o.each(fval{x.fr, rg.X}, func(y *Term) *Term { return mk(op, nil, "", v.Type(), y) })
			}
		}
		return one(mk("opaque", v, "", v.Type()))
	case *ssa.Lookup:
		return o.each(fval{x.fr, v.X}, func(t *Term) *Term { return mk("elem", nil, "", v.Type(), t) })
	case *ssa.Index:
		return o.each(fval{x.fr, v.X}, func(t *Term) *Term { return mk("elem", nil, "", v.Type(), t) })
	case *ssa.Field:
		st := structOf(v.X.Type())
		return o.each(fval{x.fr, v.X}, func(t *Term) *Term { return mk("field", st.Field(v.Field), "", v.Type(), t) })
	case *ssa.FieldAddr:
		f := addrField(v)
		return o.each(fval{x.fr, v.X}, func(t *Term) *Term { return mk("field", f, "", v.Type(), t) })
	case *ssa.IndexAddr:
		return o.each(fval{x.fr, v.X}, func(t *Term) *Term { return mk("elem", nil, "", v.Type(), t) })
	case *ssa.Slice:
		return o.of(fval{x.fr, v.X})
	case *ssa.Alloc:
		if o.lits == nil {
			o.lits = map[*ssa.Alloc]*fframe{}
		}
		if fr, ok := o.lits[v]; ok && fr != x.fr {
			o.lits[v] = nil
		} else {
			o.lits[v] = x.fr
		}
		return one(mk("alloc", v, "", v.Type()))
	case *ssa.Global:
		return one(mk("global", v, "", v.Type()))
	case *ssa.Function:
		return one(mk("func", v, "", v.Type()))
	case *ssa.MakeClosure:
		return one(mk("func", v.Fn, "", v.Type()))
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return o.load(x.fr, v.X, v.Type())
		}
		return one(mk("opaque", v, "", v.Type()))
	case *ssa.BinOp:
		a, b := o.of(fval{x.fr, v.X}), o.of(fval{x.fr, v.Y})
		var out []*Term
		for _, s := range a {
			for _, t := range b {
				out = append(out, mk("bin", v.Op.String(), "", v.Type(), s, t))
			}
		}
		return dedupe(out)
	case *ssa.Call:
		return o.call(x, v.Common(), -1)
	}
	return one(mk("opaque", x.v, "", x.v.Type()))
}

func constTerm(v *ssa.Const) *Term {
	if v.Value == nil {
		return mkNil()
	}
	t := mkConst(v.Value, v.Type())
	return t
}

// callArgs are the values the parameters of the callee take (the receiver first).
func callArgs(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

// load is what reading an address gives.
func (o *origins) load(fr *fframe, addr ssa.Value, typ types.Type) []*Term {
	switch a := addr.(type) {
	case *ssa.Alloc:
		if ts, ok := o.stored(fr, a); ok {
			return ts
		}
	case *ssa.FreeVar:
		if fr != nil && fr.clo != nil {
			for j, q := range fr.fn.FreeVars {
				if q == a && j < len(fr.clo.Bindings) {
					return o.load(fr.cfr, fr.clo.Bindings[j], typ)
				}
			}
		}
	case *ssa.FieldAddr:
		// a field of a local variable that is only written here
		if al, ok := a.X.(*ssa.Alloc); ok {
			if ts, ok := o.storedField(fr, al, addrField(a)); ok {
				return ts
			}
		}
	}
	var out []*Term
	for _, t := range o.of(fval{fr, addr}) {
		if t.Op == "elem" && t.Args[0].Op == "alloc" {
			if al, ok := t.Args[0].Obj.(*ssa.Alloc); ok && o.lits[al] != nil {
				if ts, ok := o.storedElems(o.lits[al], al); ok {
					out = append(out, ts...)
					continue
				}
			}
		}
		switch t.Op {
		case "field", "elem", "param", "freevar":
			out = append(out, t)
		default:
			out = append(out, mk("deref", nil, "", typ, t))
		}
	}
	return out
}

// stored lists what is assigned to a local variable, in closures too.
func (o *origins) stored(fr *fframe, al *ssa.Alloc) ([]*Term, bool) {
	var out []*Term
	n := 0
	var visit func(fr *fframe, v ssa.Value) bool
	visit = func(fr *fframe, v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch i := r.(type) {
			case *ssa.Store:
				if i.Addr != v {
					return false
				}
				n++
				out = append(out, o.of(fval{fr, i.Val})...)
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for k, b := range i.Bindings {
					if b != v {
						continue
					}
					fn := i.Fn.(*ssa.Function)
					if !visit(&fframe{fn: fn, clo: i, cfr: fr, up: fr}, fn.FreeVars[k]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !visit(fr, al) || n == 0 {
		return nil, false
	}
	return dedupe(out), true
}

// storedElems lists the elements of a list written out.
func (o *origins) storedElems(fr *fframe, al *ssa.Alloc) ([]*Term, bool) {
	if _, ok := deref2(al.Type()).Underlying().(*types.Array); !ok {
		return nil, false
	}
	var out []*Term
	for _, r := range *al.Referrers() {
		switch i := r.(type) {
		case *ssa.IndexAddr:
			for _, q := range *i.Referrers() {
				s, ok := q.(*ssa.Store)
				if !ok || s.Addr != ssa.Value(i) {
					return nil, false
				}
				out = append(out, o.of(fval{fr, s.Val})...)
			}
		case *ssa.Slice, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	return dedupe(out), len(out) > 0
}

// storedField lists what is assigned to a field of a local variable.
func (o *origins) storedField(fr *fframe, al *ssa.Alloc, f *types.Var) ([]*Term, bool) {
	var out []*Term
	n := 0
	for _, r := range *al.Referrers() {
		switch i := r.(type) {
		case *ssa.FieldAddr:
			if addrField(i) != f {
				continue
			}
			for _, q := range *i.Referrers() {
				switch s := q.(type) {
				case *ssa.Store:
					if s.Addr != ssa.Value(i) {
						return nil, false
					}
					n++
					out = append(out, o.of(fval{fr, s.Val})...)
				case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr:
				case ssa.CallInstruction:
				default:
					return nil, false
				}
			}
		case *ssa.Store:
			if i.Addr == ssa.Value(al) {
				n++
				out = append(out, o.each(fval{fr, i.Val}, func(t *Term) *Term { return mk("field", f, "", f.Type(), t) })...)
			}
		}
	}
	if n == 0 {
		return nil, false
	}
	return dedupe(out), true
}

// call is the result of a call: that of the callee when it is known and part of the module.
func (o *origins) call(x fval, c *ssa.CallCommon, index int) []*Term {
	fn := c.StaticCallee()
	depth := 0
	for f := x.fr; f != nil; f = f.up {
		depth++
		if f.fn == fn {
			fn = nil
			break
		}
	}
	if fn != nil && o.p.InModule(fn) && fn.Blocks != nil && depth < 10 {
		var clo *ssa.MakeClosure
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			clo = mc
		}
		sub := &fframe{fn: fn, up: x.fr, call: c, clo: clo, cfr: x.fr}
		var out []*Term
		for _, b := range fn.Blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			k := index
			if k < 0 {
				k = 0
			}
			if k < len(r.Results) {
				out = append(out, o.of(fval{sub, r.Results[k]})...)
			}
		}
		return dedupe(out)
	}
	// a call that is not entered: its name and what its arguments can be
	name := "?"
	var obj any
	if c.IsInvoke() {
		name = c.Method.FullName()
		obj = c.Method
	} else if f := c.StaticCallee(); f != nil {
		name = funcQual(f)
		obj = f
	} else if b, ok := c.Value.(*ssa.Builtin); ok {
		name = b.Name()
		obj = b.Name()
	} else {
		obj = name
	}
	var args []*Term
	for i, a := range callArgs(c) {
		ts := o.callArg(x.fr, c, i, a)
		if len(ts) == 1 {
			args = append(args, ts[0])
		} else {
			args = append(args, mk("either", nil, "", a.Type(), ts...))
		}
	}
	ctx := ""
	if index > 0 {
		ctx = string(rune('0' + index))
	}
	return []*Term{mk("call", obj, ctx, x.v.Type(), args...)}
}

// callArg: the arguments handed over in the "..." list are given one by one.
func (o *origins) callArg(fr *fframe, c *ssa.CallCommon, i int, a ssa.Value) []*Term {
	if sl, ok := a.(*ssa.Slice); ok {
		if al, ok := sl.X.(*ssa.Alloc); ok {
			if at, ok := deref2(al.Type()).Underlying().(*types.Array); ok {
				els := make([]*Term, at.Len())
				for _, r := range *al.Referrers() {
					ia, ok := r.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					k, isC := ia.Index.(*ssa.Const)
					if !isC {
						return []*Term{mk("opaque", a, "", a.Type())}
					}
					for _, q := range *ia.Referrers() {
						if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
							ts := o.of(fval{fr, s.Val})
							if len(ts) == 1 {
								els[k.Int64()] = ts[0]
							} else {
								els[k.Int64()] = mk("either", nil, "", s.Val.Type(), ts...)
							}
						}
					}
				}
				for j := range els {
					if els[j] == nil {
						els[j] = mk("opaque", a, "", a.Type())
					}
				}
				return []*Term{mk("list", nil, "", a.Type(), els...)}
			}
		}
	}
	return o.of(fval{fr, a})
}

// context is one way to reach a call from a root function.
type context struct {
	root *ssa.Function
	fr   *fframe
}

// contexts lists the ways a function is reached from the given roots through static calls and
// closures (each function at most once per way).
func (p *Program) contexts(f *ssa.Function, roots map[*ssa.Function]bool) []context {
	type step struct {
		fn   *ssa.Function
		call *ssa.CallCommon
		clo  *ssa.MakeClosure
	}
	var out []context
	var path []step
	on := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	emit := func() {
		// path is innermost first
		var fr *fframe
		for i := len(path) - 1; i >= 0; i-- {
			s := path[i]
			nf := &fframe{fn: s.fn, up: fr, call: s.call, clo: s.clo, cfr: fr}
			fr = nf
		}
		out = append(out, context{path[len(path)-1].fn, fr})
	}
	up = func(f *ssa.Function) {
		if on[f] || len(path) > 8 || len(out) > 400 {
			return
		}
		on[f] = true
		defer delete(on, f)
		if roots[f] {
			path = append(path, step{fn: f})
			emit()
			path = path[:len(path)-1]
			return
		}
		for _, s := range p.callSites(f) {
			path = append(path, step{f, s.call, s.clo})
			up(s.in)
			path = path[:len(path)-1]
		}
	}
	up(f)
	return out
}

type callSite struct {
	in   *ssa.Function
	call *ssa.CallCommon  // nil: the function is only mentioned (called by somebody else)
	clo  *ssa.MakeClosure // for closures
}

// callSites lists where a function is called, or made or mentioned when it is called indirectly.
func (p *Program) callSites(f *ssa.Function) []callSite {
	if p.sites == nil {
		p.sites = map[*ssa.Function][]callSite{}
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					ci, _ := ins.(ssa.CallInstruction)
					if ci != nil {
						if fn := ci.Common().StaticCallee(); fn != nil && p.InModule(fn) {
							mc, _ := ci.Common().Value.(*ssa.MakeClosure)
							p.sites[fn] = append(p.sites[fn], callSite{g, ci.Common(), mc})
						}
					}
					if mc, ok := ins.(*ssa.MakeClosure); ok {
						fn := mc.Fn.(*ssa.Function)
						called := false
						for _, r := range *mc.Referrers() {
							if c, ok := r.(ssa.CallInstruction); ok && c.Common().Value == ssa.Value(mc) {
								called = true
							}
						}
						if !called {
							p.sites[fn] = append(p.sites[fn], callSite{g, nil, mc})
						}
						continue
					}
					for _, op := range ins.Operands(nil) {
						fn, ok := (*op).(*ssa.Function)
						if !ok || !p.InModule(fn) || ci != nil && ci.Common().Value == *op {
							continue
						}
						p.sites[fn] = append(p.sites[fn], callSite{g, nil, nil})
					}
				}
			}
		}
	}
	return p.sites[f]
}
