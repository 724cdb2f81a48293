package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// procModel is the gated evaluation of the scan: the body of Process and the goroutines it starts.
type procModel struct {
	P       *Program
	G       *Gate
	Fn      *ssa.Function
	Res     *GResult
	Main    []*GEvent // events of Process itself
	Workers []*goRun  // goroutines which send to the results channel
	Others  []*goRun
	Results *Term // the channel the consumer reads
	Recv    *Term // the traversal of that channel
	Recv0   *Term
	check   map[string]*ssa.Function
}

type goRun struct {
	Ev     *GEvent
	Fn     *ssa.Function
	Events []*GEvent
	RetG   BDD
}

// processModel evaluates Process with the exported steps (ParseErrors, CheckRules, CheckAnalyzers,
// AppendError) kept as calls.
func (p *Program) processModel() *procModel {
	if p.proc != nil {
		return p.proc
	}
	m := &procModel{P: p, check: map[string]*ssa.Function{}}
	m.Fn = p.Method("", "Analyzer", "Process")
	if m.Fn == nil {
		panic(undecided{"no Process method"})
	}
	g := NewGate(p)
	for _, n := range []string{"ParseErrors", "CheckRules", "CheckAnalyzers", "AppendError"} {
		f := p.Method("", "Analyzer", n)
		if f == nil {
			panic(undecided{"no method " + n})
		}
		m.check[n] = f
		g.noInline(f)
	}
	for _, f := range p.PkgFuncs("") {
		if sortsErrors(f) {
			g.noInline(f)
		}
	}
	g.KeepMem = func(e *GEvent) bool { return e.Kind == "go" || strings.HasSuffix(e.Name, "go/packages.Load") }
	m.G = g
	m.Res = g.Run(m.Fn)
	m.Main = g.Events
	for _, e := range m.Main {
		if e.Fn == m.check["CheckRules"] && len(e.Loops) > 0 {
			for _, l := range e.Loops {
				if l.Op == "chanrange" {
					m.Recv, m.Results = l, l.Args[0]
				}
			}
		}
	}
	for _, e := range m.Main {
		if e.Kind != "go" {
			continue
		}
		r := m.run(e)
		send := false
		for _, x := range r.Events {
			if x.Kind == "send" && x.Args[0].single() == m.Results {
				send = true
			}
		}
		if send {
			m.Workers = append(m.Workers, r)
		} else {
			m.Others = append(m.Others, r)
		}
	}
	p.proc = m
	return m
}

// run evaluates the body of a goroutine.
func (m *procModel) run(e *GEvent) *goRun {
	g := m.G
	r := &goRun{Ev: e, RetG: bF}
	var free []GV
	fn := e.Fn
	if t := e.Recv.single(); t != nil {
		t = strip(t)
		if t.Op == "closure" || t.Op == "func" {
			fn, _ = t.Obj.(*ssa.Function)
			for _, a := range t.Args {
				free = append(free, gvT(a))
			}
		}
	}
	if fn == nil || len(fn.Blocks) == 0 {
		panic(undecided{"unknown goroutine body at " + m.P.InstrPos(e.Ins)})
	}
	r.Fn = fn
	old := g.Events
	g.Events = nil
	_, r.RetG, _ = g.frame(fn, nil, nil, e.Args, free, "go"+m.P.InstrPos(e.Ins), cloneMem(e.Mem), 0)
	r.Events = g.Events
	g.Events = old
	return r
}

// sortsErrors: a helper over the recorded errors of all files.
func sortsErrors(f *ssa.Function) bool {
	ps := f.Signature.Params()
	if f.Signature.Recv() != nil || ps.Len() != 1 || f.Signature.Results().Len() != 0 {
		return false
	}
	mp, ok := ps.At(0).Type().Underlying().(*types.Map)
	return ok && strings.HasSuffix(mp.Elem().String(), "gosec/v2.Error")
}

// noLoopVars projects the counters of loops out of a condition: what holds for some iteration.
func noLoopVars(b BDD) BDD {
	return bExistsQ(b, func(t *Term) bool {
		return contains(t, func(x *Term) bool { return x.Op == "loopvar" || x.Op == "loopmem" || x.Op == "loopval" })
	})
}

// onlyEarlyStops projects the early ends of traversals out of a condition.
func noExists(b BDD) BDD {
	return bExistsQ(b, func(t *Term) bool { return t.Op == "exists" || t.Op == "stops" })
}

// recorders are the methods which record a finding.
func (p *Program) recorders() []*ssa.Function {
	ip := p.NamedType("issue", "Issue")
	fv := p.FieldVar("", "Analyzer", "issues")
	var out []*ssa.Function
	for _, f := range p.PkgFuncs("") {
		ps := f.Signature.Params()
		if f.Signature.Recv() == nil || ps.Len() != 1 || ip == nil || !types.Identical(ps.At(0).Type(), types.NewPointer(ip)) {
			continue
		}
		if p.storesField(f, fv, map[*ssa.Function]bool{}) {
			out = append(out, f)
		}
	}
	return out
}

func (p *Program) storesField(f *ssa.Function, fv *types.Var, seen map[*ssa.Function]bool) bool {
	if seen[f] || !p.InModule(f) {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && addrField(fa) == fv {
					return true
				}
			case ssa.CallInstruction:
				if cal := x.Common().StaticCallee(); cal != nil && p.storesField(cal, fv, seen) {
					return true
				}
			}
		}
	}
	return false
}

// lpart is one piece of a list: f for each element of L for which c holds, in order (L nil: the element f).
type lpart struct {
	L, f *Term
	c    BDD
}

// listParts takes a list apart into what it was built from.
func listParts(g *Gate, t *Term) (base *Term, parts []lpart) {
	switch t.Op {
	case "comp":
		base, parts = listParts(g, t.Args[0])
		L, f, c := t.Args[1], t.Args[2], condTerms[t]
		// a list that was itself put together
		sb, sp := listParts(g, L)
		if len(sp) == 0 {
			return base, append(parts, lpart{L, f, c})
		}
		if !isEmptyList(sb) {
			sp = append([]lpart{{sb, elemOf(sb, elemType(sb.Typ)), bT}}, sp...)
		}
		for _, q := range sp {
			s := newSubst(g, L, func(x *Term) *Term {
				if x.Op == "elem" && x.Args[0] == L {
					return q.f
				}
				return nil
			})
			parts = append(parts, lpart{q.L, s.term(f), bAnd(q.c, s.bdd(c))})
		}
		return base, parts
	case "append":
		base, parts = listParts(g, t.Args[0])
		for _, a := range t.Args[1:] {
			if a.Op == "spread" {
				x := a.Args[0]
				sb, sp := listParts(g, x)
				if !isEmptyList(sb) {
					parts = append(parts, lpart{sb, elemOf(sb, elemType(sb.Typ)), bT})
				}
				parts = append(parts, sp...)
			} else {
				parts = append(parts, lpart{nil, a, bT})
			}
		}
		return base, parts
	}
	return t, nil
}

// depPackage is a package the module depends on.
func (p *Program) depPackage(path string) *types.Package {
	seen := map[*types.Package]bool{}
	var find func(t *types.Package) *types.Package
	find = func(t *types.Package) *types.Package {
		if t == nil || seen[t] {
			return nil
		}
		seen[t] = true
		if t.Path() == path {
			return t
		}
		for _, i := range t.Imports() {
			if r := find(i); r != nil {
				return r
			}
		}
		return nil
	}
	for _, pk := range p.Pkgs {
		if r := find(pk.Types); r != nil {
			return r
		}
	}
	return nil
}

// inlineTowards restricts inlining to functions with results and to those which reach one of the calls.
func (p *Program) inlineTowards(g *Gate, names ...string) {
	memo := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function) bool
	reach = func(f *ssa.Function) bool {
		if r, ok := memo[f]; ok {
			return r
		}
		memo[f] = false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cal := ci.Common().StaticCallee()
				if cal == nil {
					continue
				}
				for _, n := range names {
					if funcQual(cal) == n {
						memo[f] = true
						return true
					}
				}
				if p.InModule(cal) && reach(cal) {
					memo[f] = true
					return true
				}
			}
		}
		return false
	}
	old := g.Inline
	g.Inline = func(f *ssa.Function) bool {
		return old(f) && (f.Signature.Results().Len() > 0 || reach(f))
	}
}
