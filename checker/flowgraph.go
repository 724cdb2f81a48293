package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A flow graph of one goroutine body: control flow of the function with the relevant module functions and
// closures it calls expanded in place, deferred calls placed where they run, and the outcomes of
// conditions as nodes of their own.  All paths are considered; conditions are not correlated.

type fframe struct {
	fn   *ssa.Function
	up   *fframe
	call *ssa.CallCommon
	clo  *ssa.MakeClosure
	cfr  *fframe // activation which made the closure
	d    int
}

type fval struct {
	fr *fframe
	v  ssa.Value
}

type fnode struct {
	fr   *fframe
	ins  ssa.Instruction
	kind string // "", edge, exit, dead, entry
	idx  int    // edge: successor number
	succ []*fnode
}

type fgraph struct {
	p           *Program
	entry, exit *fnode
	nodes       []*fnode
	rel         map[*ssa.Function]bool
}

// flowGraph builds the graph of fn; relevant says which callees matter.
func (p *Program) flowGraph(fr *fframe, relevant func(ssa.Instruction) bool) *fgraph {
	g := &fgraph{p: p, rel: map[*ssa.Function]bool{}}
	memo := map[*ssa.Function]int{}
	var rel func(f *ssa.Function) bool
	rel = func(f *ssa.Function) bool {
		if v := memo[f]; v != 0 {
			return v == 2
		}
		memo[f] = 1
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if relevant(ins) {
					memo[f] = 2
					return true
				}
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if cal := ci.Common().StaticCallee(); cal != nil && p.InModule(cal) && rel(cal) {
						memo[f] = 2
						return true
					}
				}
			}
		}
		return false
	}
	g.exit = &fnode{kind: "exit"}
	g.entry = &fnode{kind: "entry", fr: fr}
	g.nodes = append(g.nodes, g.entry, g.exit)
	g.entry.succ = []*fnode{g.expand(fr, func(*ssa.Return) *fnode { return g.exit }, rel)}
	return g
}

func (g *fgraph) node(n *fnode) *fnode { g.nodes = append(g.nodes, n); return n }

func (g *fgraph) expand(fr *fframe, ret func(*ssa.Return) *fnode, rel func(*ssa.Function) bool) *fnode {
	fn := fr.fn
	dom := map[*ssa.BasicBlock]*fnode{}
	first := func(b *ssa.BasicBlock) *fnode {
		if n := dom[b]; n != nil {
			return n
		}
		n := g.node(&fnode{fr: fr, kind: "block"})
		dom[b] = n
		return n
	}
	var defers []*ssa.Defer
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if d, ok := ins.(*ssa.Defer); ok {
				defers = append(defers, d)
			}
		}
	}
	callee := func(cc *ssa.CallCommon) *fframe {
		cal, clo, cfr := g.p.calleeOf(fr, cc)
		if cal == nil || len(cal.Blocks) == 0 || !g.p.InModule(cal) || fr.d > 8 || !rel(cal) {
			return nil
		}
		for f := fr; f != nil; f = f.up {
			if f.fn == cal {
				return nil
			}
		}
		return &fframe{fn: cal, up: fr, call: cc, clo: clo, cfr: cfr, d: fr.d + 1}
	}
	// emit places the instructions of b from i on behind cur; known holds the outcomes of calls which
	// answered with a constant.
	var emit func(b *ssa.BasicBlock, i int, cur *fnode, known map[ssa.Value]bool)
	emit = func(b *ssa.BasicBlock, i int, cur *fnode, known map[ssa.Value]bool) {
		for ; i < len(b.Instrs); i++ {
			ins := b.Instrs[i]
			n := g.node(&fnode{fr: fr, ins: ins})
			cur.succ = append(cur.succ, n)
			switch x := ins.(type) {
			case *ssa.RunDefers:
				cur = n
				for i := len(defers) - 1; i >= 0; i-- {
					d := defers[i]
					after := g.node(&fnode{fr: fr, kind: "after", ins: d})
					at := cur
					if !d.Block().Dominates(b) {
						at.succ = append(at.succ, after) // may not have been deferred
					}
					run := g.node(&fnode{fr: fr, ins: d, kind: "deferred"})
					at.succ = append(at.succ, run)
					if cf := callee(&d.Call); cf != nil {
						run.succ = append(run.succ, g.expand(cf, func(*ssa.Return) *fnode { return after }, rel))
					} else {
						run.succ = append(run.succ, after)
					}
					cur = after
				}
				continue
			case *ssa.Return:
				n.succ = append(n.succ, ret(x))
				return
			case *ssa.Panic:
				n.kind = "dead"
				return
			case *ssa.Jump:
				n.succ = append(n.succ, first(b.Succs[0]))
				return
			case *ssa.If:
				cv, neg := ssa.Value(x.Cond), false
				for {
					u, ok := cv.(*ssa.UnOp)
					if !ok || u.Op != token.NOT {
						break
					}
					cv, neg = u.X, !neg
				}
				val, isKnown := known[cv]
				for i, s := range b.Succs {
					if isKnown && (val != neg) != (i == 0) {
						continue
					}
					e := g.node(&fnode{fr: fr, ins: ins, kind: "edge", idx: i})
					n.succ = append(n.succ, e)
					e.succ = append(e.succ, first(s))
				}
				return
			case *ssa.Call:
				if cf := callee(&x.Call); cf != nil {
					n.kind = "inlined"
					afters := map[string]*fnode{}
					n.succ = append(n.succ, g.expand(cf, func(r *ssa.Return) *fnode {
						key := ""
						if len(r.Results) == 1 {
							if k, ok := r.Results[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
								key = k.Value.String()
							}
						}
						if afters[key] == nil {
							after := g.node(&fnode{fr: fr, kind: "after", ins: ins})
							afters[key] = after
							kn := map[ssa.Value]bool{}
							for v, c := range known {
								kn[v] = c
							}
							if key != "" {
								kn[x] = key == "true"
							}
							emit(b, i+1, after, kn)
						}
						return afters[key]
					}, rel))
					return
				}
				if nm := funcNameOfCall(&x.Call); noReturn[nm] {
					n.kind = "dead"
					return
				}
			}
			cur = n
		}
	}
	for _, b := range fn.Blocks {
		emit(b, 0, first(b), nil)
	}
	return first(fn.Blocks[0])
}

func funcNameOfCall(cc *ssa.CallCommon) string {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return funcQual(f)
	}
	if cc.IsInvoke() {
		return "invoke." + cc.Method.Name()
	}
	return ""
}

// calleeOf resolves the function called, also through closures kept in local variables.
func (p *Program) calleeOf(fr *fframe, cc *ssa.CallCommon) (*ssa.Function, *ssa.MakeClosure, *fframe) {
	if cc.IsInvoke() {
		return nil, nil, nil
	}
	r := p.origin(fval{fr, cc.Value})
	switch x := r.v.(type) {
	case *ssa.Function:
		return x, nil, nil
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function), x, r.fr
	}
	return nil, nil, nil
}

// origin follows a value to what made it: through parameters, captured and single-assignment local
// variables and conversions.
func (p *Program) origin(x fval) fval {
	for i := 0; i < 60; i++ {
		switch v := x.v.(type) {
		case *ssa.Parameter:
			if x.fr == nil || x.fr.call == nil {
				return x
			}
			k := -1
			for j, q := range x.fr.fn.Params {
				if q == v {
					k = j
				}
			}
			if k < 0 || k >= len(x.fr.call.Args) {
				return x
			}
			x = fval{x.fr.up, x.fr.call.Args[k]}
		case *ssa.FreeVar:
			if x.fr == nil || x.fr.clo == nil {
				return x
			}
			k := -1
			for j, q := range x.fr.fn.FreeVars {
				if q == v {
					k = j
				}
			}
			if k < 0 || k >= len(x.fr.clo.Bindings) {
				return x
			}
			x = fval{x.fr.cfr, x.fr.clo.Bindings[k]}
		case *ssa.ChangeType:
			x.v = v.X
		case *ssa.UnOp:
			if v.Op != token.MUL {
				return x
			}
			a := p.origin(fval{x.fr, v.X})
			al, ok := a.v.(*ssa.Alloc)
			if !ok {
				return x
			}
			s := onlyStore(al)
			if s == nil {
				return x
			}
			x = fval{a.fr, s}
		default:
			return x
		}
	}
	return x
}

// onlyStore is the value of the single assignment to a local variable, its closures included.
func onlyStore(al *ssa.Alloc) ssa.Value {
	var val ssa.Value
	n := 0
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch i := r.(type) {
			case *ssa.Store:
				if i.Addr == v {
					n++
					val = i.Val
				} else {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for k, b := range i.Bindings {
					if b == v && !visit(i.Fn.(*ssa.Function).FreeVars[k]) {
						return false
					}
				}
			case *ssa.FieldAddr, *ssa.IndexAddr:
				return false
			case ssa.CallInstruction:
				return false
			default:
				return false
			}
		}
		return true
	}
	if !visit(al) || n != 1 {
		return nil
	}
	if _, ok := val.(*ssa.FreeVar); ok {
		return nil
	}
	return val
}

// place is the identity of an addressable location: a local variable, a global or a field of a type.
func (p *Program) place(x fval) any {
	o := p.origin(x)
	switch v := o.v.(type) {
	case *ssa.Alloc:
		return v
	case *ssa.Global:
		return v
	case *ssa.FieldAddr:
		return addrField(v)
	case *ssa.MakeChan:
		return v
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return p.place(fval{o.fr, v.X})
		}
	case *ssa.MakeInterface:
		return p.place(fval{o.fr, v.X})
	}
	return o.v
}

// reach: can some node satisfying to be reached from the successors of the given nodes without passing avoid?
func (g *fgraph) reach(from []*fnode, to, avoid func(*fnode) bool) *fnode {
	seen := map[*fnode]bool{}
	var work []*fnode
	for _, f := range from {
		work = append(work, f.succ...)
	}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[n] {
			continue
		}
		seen[n] = true
		if avoid != nil && avoid(n) {
			continue
		}
		if to(n) {
			return n
		}
		work = append(work, n.succ...)
	}
	return nil
}

func (g *fgraph) counts(from *fnode, stop, event func(*fnode) bool) map[int]bool {
	type st struct {
		n *fnode
		c int
	}
	out := map[int]bool{}
	seen := map[st]bool{}
	var work []st
	for _, s := range from.succ {
		work = append(work, st{s, 0})
	}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[s] {
			continue
		}
		seen[s] = true
		if stop(s.n) {
			out[s.c] = true
			continue
		}
		c := s.c
		if event(s.n) && c < 2 {
			c++
		}
		for _, x := range s.n.succ {
			work = append(work, st{x, c})
		}
	}
	return out
}

func (g *fgraph) find(pred func(*fnode) bool) []*fnode {
	var out []*fnode
	for _, n := range g.nodes {
		if pred(n) {
			out = append(out, n)
		}
	}
	return out
}

// callOf is the call a node executes here (deferred calls execute at their "deferred" node).
func (n *fnode) callOf() *ssa.CallCommon {
	switch x := n.ins.(type) {
	case *ssa.Call:
		if n.kind == "" || n.kind == "inlined" || n.kind == "dead" {
			return &x.Call
		}
	case *ssa.Defer:
		if n.kind == "deferred" {
			return &x.Call
		}
	}
	return nil
}

// method recognises a call of a method of a library type and gives the place of its receiver.
func (g *fgraph) method(n *fnode, name string) (any, bool) {
	cc := n.callOf()
	if cc == nil || cc.StaticCallee() == nil || len(cc.Args) == 0 {
		return nil, false
	}
	if funcQual(cc.StaticCallee()) != name {
		return nil, false
	}
	return g.p.place(fval{n.fr, cc.Args[0]}), true
}

func (g *fgraph) builtin(n *fnode, name string) (any, bool) {
	cc := n.callOf()
	if cc == nil {
		return nil, false
	}
	if b, ok := cc.Value.(*ssa.Builtin); !ok || b.Name() != name {
		return nil, false
	}
	return g.p.place(fval{n.fr, cc.Args[0]}), true
}

// condition of an edge node, with negations resolved: the value and whether it holds.
func (n *fnode) cond() (ssa.Value, bool) {
	i, ok := n.ins.(*ssa.If)
	if !ok || n.kind != "edge" {
		return nil, false
	}
	v, holds := i.Cond, n.idx == 0
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			return v, holds
		}
		v, holds = u.X, !holds
	}
}

// closedEdge: the edge taken when a receive found the channel closed and empty.
func (g *fgraph) closedEdge(n *fnode) any {
	v, holds := n.cond()
	if v == nil || holds {
		return nil
	}
	e, ok := v.(*ssa.Extract)
	if !ok {
		return nil
	}
	switch r := e.Tuple.(type) {
	case *ssa.UnOp:
		if r.Op == token.ARROW && e.Index == 1 {
			return g.p.place(fval{n.fr, r.X})
		}
	case *ssa.Select:
		if e.Index == 1 {
			return "select"
		}
	}
	return nil
}

// selectEdge: the edge taken when the select chose state k (k<0: none was ready).
func (n *fnode) selectEdge() (*ssa.Select, int, bool) {
	v, holds := n.cond()
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.EQL {
		return nil, 0, false
	}
	e, ok := b.X.(*ssa.Extract)
	if !ok || e.Index != 0 {
		return nil, 0, false
	}
	s, ok := e.Tuple.(*ssa.Select)
	if !ok {
		return nil, 0, false
	}
	c, ok := b.Y.(*ssa.Const)
	if !ok {
		return nil, 0, false
	}
	k, _ := constant.Int64Val(c.Value)
	if holds {
		return s, int(k), true
	}
	if !s.Blocking && int(k) == len(s.States)-1 {
		return s, -1, true
	}
	return nil, 0, false
}

func isChanOp(ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.Send, *ssa.Select, *ssa.Go:
		return true
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case ssa.CallInstruction:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
			return true
		}
		if f := x.Common().StaticCallee(); f != nil {
			if pk := FuncPkg(f); pk != nil && pk.Path() == "sync" {
				return true
			}
		}
	}
	return false
}

func isPtrTo(t types.Type, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.TypeString(p.Elem(), nil) == name
}
