package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C18", checkC18) }

// siteEdge is a call, possibly by way of code outside the module, of a function of the module.
type siteEdge struct {
	From, To *ssa.Function
	Site     ssa.CallInstruction
	Direct   bool // the arguments of Site are the arguments of To
}

// callEdges lists the calls a function makes into the module.
func (p *Program) callEdges(f *ssa.Function) []siteEdge {
	p.calledBy(f) // fills byMethod
	var out []siteEdge
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			add := func(to *ssa.Function, direct bool) {
				if to != nil && len(to.Blocks) > 0 && p.InModule(to) {
					out = append(out, siteEdge{f, to, ci, direct})
				}
			}
			inside := false
			switch {
			case cc.IsInvoke():
				for _, m := range p.byMethod[cc.Method.Name()] {
					if it, ok := cc.Value.Type().Underlying().(*types.Interface); ok && types.Implements(m.Signature.Recv().Type(), it) {
						add(m, false)
					}
				}
			case cc.StaticCallee() != nil:
				add(cc.StaticCallee(), true)
				inside = p.InModule(cc.StaticCallee()) && len(cc.StaticCallee().Blocks) > 0
			default:
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					inside = true
					break
				}
				val := cc.Value
				if u, ok := val.(*ssa.UnOp); ok && u.Op == token.MUL {
					// a closure kept in a variable of the enclosing function
					if fv, ok := u.X.(*ssa.FreeVar); ok {
						if al := p.freeVarCell(fv); al != nil {
							if s := onlyStore(al); s != nil {
								val = s
							}
						}
					}
				}
				if o := p.origin(fval{v: val}); o.v != nil {
					switch v := o.v.(type) {
					case *ssa.Function:
						add(v, true)
						inside = true
					case *ssa.MakeClosure:
						add(v.Fn.(*ssa.Function), true)
						inside = true
					}
				}
				if !inside {
					for _, fn := range p.handedOut() {
						if types.Identical(types.NewSignatureType(nil, nil, nil, fn.Signature.Params(), fn.Signature.Results(), fn.Signature.Variadic()), cc.Signature()) {
							add(fn, false)
						}
					}
				}
			}
			if inside {
				continue
			}
			// what other code may call back
			for _, a := range cc.Args {
				switch v := a.(type) {
				case *ssa.Function:
					add(v, false)
				case *ssa.MakeClosure:
					add(v.Fn.(*ssa.Function), false)
				case *ssa.MakeInterface:
					it, _ := v.Type().Underlying().(*types.Interface)
					ms := p.SSA.MethodSets.MethodSet(v.X.Type())
					for i := 0; i < ms.Len(); i++ {
						name := ms.At(i).Obj().Name()
						called := it != nil && it.NumMethods() == 0 && anyMethods[name]
						for k := 0; it != nil && k < it.NumMethods(); k++ {
							called = called || it.Method(k).Name() == name
						}
						if called {
							add(p.SSA.MethodValue(ms.At(i)), false)
						}
					}
				}
			}
		}
	}
	return out
}

// anyMethods are the methods code outside the module looks for in a value of any type.
var anyMethods = map[string]bool{"String": true, "Error": true, "GoString": true, "Format": true, "Write": true, "Read": true, "Close": true,
	"MarshalJSON": true, "UnmarshalJSON": true, "MarshalText": true, "UnmarshalText": true, "MarshalYAML": true, "MarshalXML": true, "Unwrap": true, "Is": true, "As": true}

func checkC18(c *Ctx) {
	p := c.P
	c.Rule("recursion", "every recursive search goes down a finite structure, counts its depth against a bound or remembers what it has visited")
	c.Rule("loop", "every loop goes over a finite collection, counts towards a bound, goes down a finite structure or remembers what it has visited")
	roots := p.ruleMatches()
	roots = append(roots, p.Method("", "Analyzer", "CheckRules"), p.Method("", "Analyzer", "CheckAnalyzers"))
	for _, d := range p.ruleTable("analyzers") {
		run := p.analyzerRun(d)
		if run == nil {
			c.Fail("recursion", "analyzer "+d.ID, "analyzers", "its run function is not known")
			continue
		}
		roots = append(roots, run)
	}
	// everything the scan of a package runs
	reach := map[*ssa.Function]bool{}
	edges := map[*ssa.Function][]siteEdge{}
	work := roots
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if f == nil || reach[f] {
			continue
		}
		reach[f] = true
		edges[f] = p.callEdges(f)
		for _, e := range edges[f] {
			work = append(work, e.To)
		}
	}
	c.Stat("functions", len(reach))
	for _, scc := range sccs(reach, edges) {
		scc := scc
		var names []string
		for _, f := range scc {
			names = append(names, FuncName(f))
		}
		sort.Strings(names)
		name := strings.Join(names, ", ")
		c.Guard("recursion", name, func() {
			ok, why := p.recursionEnds(scc, edges)
			c.Check(ok, "recursion", name, p.Pos(scc[0].Pos()), why)
		})
	}
	c.Min("recursion", 8)
	var fs []*ssa.Function
	for f := range reach {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return FuncName(fs[i]) < FuncName(fs[j]) })
	for _, f := range fs {
		if b := oddLoop(f); b != nil {
			c.Fail("loop", "jumps of "+FuncName(f), p.Pos(f.Pos()), "a loop with two entries cannot be judged")
		}
		for i, l := range loopsOf(f) {
			ok, why := p.loopEnds(l)
			c.Check(ok, "loop", fmt.Sprintf("loop %d of %s", i+1, FuncName(f)), p.Pos(l.pos()), why)
		}
	}
	c.Min("loop", 60)
}

// ---- loops

type sloop struct {
	head    *ssa.BasicBlock
	latches []*ssa.BasicBlock
	in      map[*ssa.BasicBlock]bool
}

func (l *sloop) pos() token.Pos {
	for b := range l.in {
		_ = b
	}
	for _, ins := range l.head.Instrs {
		if ins.Pos().IsValid() {
			return ins.Pos()
		}
	}
	for _, s := range l.head.Succs {
		for _, ins := range s.Instrs {
			if l.in[s] && ins.Pos().IsValid() {
				return ins.Pos()
			}
		}
	}
	return l.head.Parent().Pos()
}

// loopsOf finds the natural loops of a function.
func loopsOf(f *ssa.Function) []*sloop {
	byHead := map[*ssa.BasicBlock]*sloop{}
	var out []*sloop
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := byHead[s]
			if l == nil {
				l = &sloop{head: s, in: map[*ssa.BasicBlock]bool{s: true}}
				byHead[s] = l
				out = append(out, l)
			}
			l.latches = append(l.latches, b)
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.in[x] {
					continue
				}
				l.in[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].head.Index < out[j].head.Index })
	return out
}

// oddLoop: a block of a loop that can be entered elsewhere than at its head.
func oddLoop(f *ssa.Function) *ssa.BasicBlock {
	state := map[*ssa.BasicBlock]int{}
	var bad *ssa.BasicBlock
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 0 {
				visit(s)
			} else if state[s] == 1 && !s.Dominates(b) {
				bad = s
			}
		}
		state[b] = 2
	}
	if len(f.Blocks) > 0 {
		visit(f.Blocks[0])
	}
	return bad
}

// everyRound: the block is passed in every round of the loop.
func (l *sloop) everyRound(b *ssa.BasicBlock) bool {
	if !l.in[b] {
		return false
	}
	for _, x := range l.latches {
		if !b.Dominates(x) {
			return false
		}
	}
	return true
}

// leaves: the branch ends the loop when the condition is that way.
func (l *sloop) leaves(i *ssa.If, when bool) bool {
	k := 1
	if when {
		k = 0
	}
	return !l.in[i.Block().Succs[k]]
}

// unchanging: the value is the same in every round.
func (l *sloop) unchanging(p *Program, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function:
		return true
	case ssa.Instruction:
		if !l.in[x.Block()] {
			return true
		}
		switch y := v.(type) {
		case *ssa.Call:
			if b, ok := y.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				return l.unchanging(p, y.Call.Args[0])
			}
			if f := y.Call.StaticCallee(); f != nil && len(y.Call.Args) == 1 && (f.Name() == "Len" || strings.HasPrefix(f.Name(), "Num")) && FuncPkg(f) != nil && FuncPkg(f).Path() == "go/types" {
				return l.unchanging(p, y.Call.Args[0])
			}
			if f := y.Call.StaticCallee(); f != nil && strings.HasPrefix(funcQual(f), "(reflect.Value).") && (f.Name() == "Len" || strings.HasPrefix(f.Name(), "Num")) {
				return l.unchanging(p, y.Call.Args[0])
			}
		case *ssa.UnOp:
			if y.Op != token.MUL {
				return l.unchanging(p, y.X)
			}
			if fa, ok := y.X.(*ssa.FieldAddr); ok {
				return l.unchanging(p, fa.X) && !l.written(addrField(fa))
			}
			if al, ok := y.X.(*ssa.Alloc); ok {
				return !l.storedTo(al)
			}
			if g, ok := y.X.(*ssa.Global); ok {
				return p.immutableGlobal(g)
			}
		case *ssa.FieldAddr:
			return l.unchanging(p, y.X)
		case *ssa.TypeAssert:
			return l.unchanging(p, y.X)
		case *ssa.Extract:
			return l.unchanging(p, y.Tuple)
		case *ssa.BinOp:
			return l.unchanging(p, y.X) && l.unchanging(p, y.Y)
		case *ssa.Convert:
			return l.unchanging(p, y.X)
		}
	}
	return false
}

func (l *sloop) written(f *types.Var) bool {
	for b := range l.in {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && addrField(fa) == f {
					return true
				}
			}
		}
	}
	return false
}

func (l *sloop) storedTo(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch i := r.(type) {
		case *ssa.Store:
			if l.in[i.Block()] {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
		default:
			return true
		}
	}
	return false
}

// stepOf: the variable moves by at least one in the same direction in every round.
func (l *sloop) stepOf(phi *ssa.Phi) int {
	dir := 0
	for i, pr := range l.head.Preds {
		if !l.in[pr] {
			continue
		}
		b, ok := phi.Edges[i].(*ssa.BinOp)
		if !ok {
			return 0
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || b.X != ssa.Value(phi) || k.Value == nil || k.Value.Kind() != constant.Int {
			return 0
		}
		d := constant.Sign(k.Value)
		switch b.Op {
		case token.ADD:
		case token.SUB:
			d = -d
		default:
			return 0
		}
		if d == 0 || dir != 0 && d != dir {
			return 0
		}
		dir = d
	}
	return dir
}

// loopEnds gives the reason a loop ends.
func (p *Program) loopEnds(l *sloop) (bool, string) {
	for b := range l.in {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !l.everyRound(b) {
			continue
		}
		cond, neg := i.Cond, false
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, neg = u.X, !neg
		}
		switch v := cond.(type) {
		case *ssa.BinOp:
			// counting
			x, y, op := v.X, v.Y, v.Op
			for k := 0; k < 2; k++ {
				base := x
				if bo, ok := x.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
					if _, isC := bo.Y.(*ssa.Const); isC {
						base = bo.X
					}
				}
				if phi, ok := base.(*ssa.Phi); ok && phi.Block() == l.head && l.unchanging(p, y) {
					dir := l.stepOf(phi)
					holds := func(when bool) bool { // leaving when the comparison is false (when) or true
						return l.leaves(i, when != neg)
					}
					switch {
					case dir > 0 && (op == token.LSS || op == token.LEQ) && holds(false),
						dir > 0 && (op == token.GTR || op == token.GEQ) && holds(true),
						dir < 0 && (op == token.GTR || op == token.GEQ) && holds(false),
						dir < 0 && (op == token.LSS || op == token.LEQ) && holds(true):
						return true, "counts towards a bound"
					}
				}
				x, y = y, x
				switch op {
				case token.LSS:
					op = token.GTR
				case token.GTR:
					op = token.LSS
				case token.LEQ:
					op = token.GEQ
				case token.GEQ:
					op = token.LEQ
				}
			}
		case *ssa.Extract:
			if n, ok := v.Tuple.(*ssa.Next); ok && v.Index == 0 && l.leaves(i, neg) {
				if rg, ok := n.Iter.(*ssa.Range); ok && !l.in[rg.Block()] {
					if w := l.inserts(rg.X); w != nil {
						return false, "the map it goes over grows in the loop: " + p.InstrPos(w)
					}
					return true, "goes over a collection"
				}
			}
		case *ssa.Call:
			if f := v.Call.StaticCallee(); f != nil && funcQual(f) == "(*bufio.Scanner).Scan" && l.leaves(i, neg) {
				return true, "reads a file to its end"
			}
		}
	}
	// following a chain downwards, or to what was not visited before
	for _, ins := range l.head.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		good, n := true, 0
		for i, pr := range l.head.Preds {
			if l.in[pr] {
				n++
				good = good && p.nextOf(l, phi, phi.Edges[i], pr, 0)
			}
		}
		if good && n > 0 {
			return true, "goes down a finite structure"
		}
	}
	// remembering
	for b := range l.in {
		for _, ins := range b.Instrs {
			v := p.visitGuard(ins)
			if v == nil || !l.everyRound(v.update.Block()) {
				continue
			}
			if l.fresh(v) {
				continue
			}
			return true, "remembers what it has visited"
		}
	}
	return false, "nothing bounds it"
}

// nextOf: the value the loop goes on with, coming from that block, is a proper part of the current one, or the
// way there records something new.
func (p *Program) nextOf(l *sloop, cur *ssa.Phi, v ssa.Value, from *ssa.BasicBlock, depth int) bool {
	for b := range l.in {
		if !b.Dominates(from) {
			continue
		}
		for _, ins := range b.Instrs {
			if g := p.visitGuard(ins); g != nil && !l.fresh(g) {
				return true
			}
		}
	}
	if d := p.descent(v, cur.Parent(), cur); d.bad == "" && d.from[cur] && len(d.from) == 1 {
		return true
	}
	if phi, ok := v.(*ssa.Phi); ok && phi != cur && l.in[phi.Block()] && depth < 10 {
		for i, pr := range phi.Block().Preds {
			if !p.nextOf(l, cur, phi.Edges[i], pr, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// fresh: the set is made anew in the loop.
func (l *sloop) fresh(v *visit) bool {
	switch s := v.set.(type) {
	case *ssa.MakeMap:
		return l.in[s.Block()]
	case *ssa.UnOp:
		if al, ok := s.X.(*ssa.Alloc); ok {
			return l.storedTo(al)
		}
		if fa, ok := s.X.(*ssa.FieldAddr); ok {
			return l.written(addrField(fa))
		}
	case *ssa.Phi:
		return l.in[s.Block()]
	}
	return false
}

// inserts: an entry is added to the map inside the loop.
func (l *sloop) inserts(m ssa.Value) ssa.Instruction {
	for b := range l.in {
		for _, ins := range b.Instrs {
			if u, ok := ins.(*ssa.MapUpdate); ok && sameLoc(u.Map, m) {
				return ins
			}
		}
	}
	return nil
}

// sameLoc: two reads of the same thing.
func sameLoc(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameLoc(x.X, y.X)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameLoc(x.X, y.X)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameLoc(x.X, y.X)
	case *ssa.MakeInterface:
		y, ok := b.(*ssa.MakeInterface)
		return ok && sameLoc(x.X, y.X)
	case *ssa.ChangeInterface:
		y, ok := b.(*ssa.ChangeInterface)
		return ok && sameLoc(x.X, y.X)
	}
	return false
}

// ---- visited sets

type visit struct {
	set    ssa.Value
	key    ssa.Value
	update *ssa.MapUpdate
}

// visitGuard: the instruction records a key that was not in the set when it was looked up before.
func (p *Program) visitGuard(ins ssa.Instruction) *visit {
	u, ok := ins.(*ssa.MapUpdate)
	if !ok {
		return nil
	}
	switch u.Key.Type().Underlying().(type) {
	case *types.Pointer, *types.Interface:
	default:
		return nil // unlimited keys limit nothing
	}
	if k, ok := u.Key.(*ssa.Alloc); ok && k.Heap {
		return nil
	}
	// the zero value must not look like an absent entry
	isBool := false
	if m, ok := u.Map.Type().Underlying().(*types.Map); ok {
		if b, ok := m.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			isBool = true
		}
	}
	for _, b := range u.Parent().Blocks {
		for _, x := range b.Instrs {
			lk, ok := x.(*ssa.Lookup)
			if !ok || !sameLoc(lk.X, u.Map) || !sameLoc(lk.Index, u.Key) {
				continue
			}
			var test ssa.Value = lk
			if lk.CommaOk {
				test = nil
				for _, r := range *lk.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
						test = e
					}
				}
			} else {
				k, isC := u.Value.(*ssa.Const)
				if !isBool || !isC || k.Value == nil || !constant.BoolVal(k.Value) {
					continue
				}
			}
			if test != nil && guardedBy(u.Block(), test, false) {
				return &visit{u.Map, u.Key, u}
			}
		}
	}
	return nil
}

// guardedBy: the block only runs when the condition is that way.
func guardedBy(b *ssa.BasicBlock, cond ssa.Value, want bool) bool {
	for _, r := range *cond.Referrers() {
		switch x := r.(type) {
		case *ssa.If:
			k := 1
			if want {
				k = 0
			}
			s := x.Block().Succs[k]
			if len(s.Preds) == 1 && s.Dominates(b) {
				return true
			}
		case *ssa.UnOp:
			if x.Op == token.NOT && guardedBy(b, x, !want) {
				return true
			}
		}
	}
	return false
}

// ---- going down

// down says which values a value is, or is part of, and whether it is a proper part (true).
type down struct {
	from map[ssa.Value]bool
	bad  string
}

type descender struct {
	p     *Program
	root  *ssa.Function
	stops map[ssa.Value]bool
	seen  map[ssa.Value]bool
}

// descent follows a value backwards through the fields of finite structures (syntax trees, operands of
// instructions) to the parameters of a function, or to one value of it.
func (p *Program) descent(v ssa.Value, root *ssa.Function, stops ...ssa.Value) down {
	d := &descender{p: p, root: root, stops: map[ssa.Value]bool{}, seen: map[ssa.Value]bool{}}
	for _, s := range stops {
		d.stops[s] = true
	}
	return d.of(v)
}

func (d *descender) of(v ssa.Value) down {
	if d.stops[v] {
		return down{from: map[ssa.Value]bool{v: false}}
	}
	if d.seen[v] {
		return down{}
	}
	d.seen[v] = true
	defer delete(d.seen, v)
	return d.step(v)
}

func (d *descender) join(a, b down) down {
	if a.bad != "" {
		return a
	}
	if b.bad != "" {
		return b
	}
	out := down{from: map[ssa.Value]bool{}}
	for k, s := range a.from {
		out.from[k] = s
	}
	for k, s := range b.from {
		if t, ok := out.from[k]; ok {
			s = s && t
		}
		out.from[k] = s
	}
	return out
}

func (a down) properly() down {
	out := down{bad: a.bad, from: map[ssa.Value]bool{}}
	for k := range a.from {
		out.from[k] = true
	}
	return out
}

var cyclicFields = map[string]bool{"Obj": true, "Decl": true, "Data": true, "Scope": true, "Unresolved": true, "Imports": true, "Outer": true, "Objects": true}

var operandFields = map[string]bool{"X": true, "Y": true, "Tuple": true, "Index": true, "Low": true, "High": true, "Max": true, "Addr": true, "Val": true, "Cond": true, "Iter": true, "Key": true, "Value": true, "Args": true, "Call": true, "Map": true, "Chan": true, "Len": true, "Cap": true}

// partField: following the field leads to a proper part.
func partField(f *types.Var, owner types.Type) bool {
	if f == nil || f.Pkg() == nil {
		return false
	}
	switch f.Pkg().Path() {
	case "go/ast":
		return !cyclicFields[f.Name()]
	case "golang.org/x/tools/go/ssa":
		name := types.TypeString(deref2(owner), func(*types.Package) string { return "" })
		switch name {
		case "Phi", "Function", "BasicBlock", "Package", "Program", "Global", "NamedConst", "Const":
			return false
		}
		return operandFields[f.Name()]
	}
	return false
}

func (d *descender) step(v ssa.Value) down {
	bad := func(why string) down { return down{bad: why + " at " + d.p.Pos(v.Pos())} }
	switch x := v.(type) {
	case *ssa.Parameter:
		if x.Parent() == d.root {
			return down{from: map[ssa.Value]bool{v: false}}
		}
		if x.Parent().Parent() != nil {
			// a closure: what it is called with
			k := -1
			for i, q := range x.Parent().Params {
				if q == x {
					k = i
				}
			}
			out, n := down{}, 0
			top := x.Parent()
			for top.Parent() != nil {
				top = top.Parent()
			}
			var visit func(f *ssa.Function)
			visit = func(f *ssa.Function) {
				for _, e := range d.p.callEdges(f) {
					if e.To != x.Parent() {
						continue
					}
					n++
					if !e.Direct || k >= len(e.Site.Common().Args) {
						out = d.join(out, bad("unknown argument"))
						continue
					}
					out = d.join(out, d.of(e.Site.Common().Args[k]))
				}
				for _, a := range f.AnonFuncs {
					visit(a)
				}
			}
			visit(top)
			if n > 0 {
				return out
			}
		}
		return bad("parameter of another function")
	case *ssa.Const:
		return down{}
	case *ssa.Phi:
		out := down{}
		for _, e := range x.Edges {
			out = d.join(out, d.of(e))
		}
		return out
	case *ssa.ChangeType:
		return d.of(x.X)
	case *ssa.ChangeInterface:
		return d.of(x.X)
	case *ssa.MakeInterface:
		return d.of(x.X)
	case *ssa.TypeAssert:
		return d.of(x.X)
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			return d.cell(al)
		}
		return d.of(x.X)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			if x.Index == 0 {
				return d.of(t.X)
			}
		case *ssa.Call:
			return d.call(t, x.Index)
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok && x.Index == 2 {
				return d.of(rg.X)
			}
		}
	case *ssa.Field:
		if partField(structOf(x.X.Type()).Field(x.Field), x.X.Type()) {
			return d.of(x.X).properly()
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		return d.load(x.X)
	case *ssa.MakeSlice:
		return down{}
	case *ssa.Call:
		return d.call(x, 0)
	}
	return bad(fmt.Sprintf("%T", v))
}

// load is what an address holds.
func (d *descender) load(a ssa.Value) down {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		if !partField(addrField(x), x.X.Type()) {
			return down{bad: "field " + addrField(x).Name() + " may lead back at " + d.p.Pos(x.Pos())}
		}
		if in, ok := x.X.(*ssa.FieldAddr); ok {
			return d.load(in).properly() // a structure inside another
		}
		return d.of(x.X).properly()
	case *ssa.IndexAddr:
		return d.of(x.X)
	case *ssa.Alloc:
		return d.cell(x)
	case *ssa.FreeVar:
		if o := d.p.freeVarCell(x); o != nil {
			return d.cell(o)
		}
	}
	return down{bad: fmt.Sprintf("%T at %s", a, d.p.Pos(a.Pos()))}
}

// freeVarCell is the variable of the enclosing function a captured variable is.
func (p *Program) freeVarCell(fv *ssa.FreeVar) *ssa.Alloc {
	for {
		fn := fv.Parent()
		k := -1
		for i, q := range fn.FreeVars {
			if q == fv {
				k = i
			}
		}
		if fn.Parent() == nil || k < 0 {
			return nil
		}
		var b ssa.Value
		for _, blk := range fn.Parent().Blocks {
			for _, ins := range blk.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					b = mc.Bindings[k]
				}
			}
		}
		switch y := b.(type) {
		case *ssa.Alloc:
			return y
		case *ssa.FreeVar:
			fv = y
		default:
			return nil
		}
	}
}

// cell is everything stored in a local variable, or in an array made for a list.
func (d *descender) cell(al *ssa.Alloc) down {
	if d.seen[al] {
		return down{}
	}
	d.seen[al] = true
	defer delete(d.seen, al)
	out := down{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch i := r.(type) {
			case *ssa.Store:
				if i.Addr == v {
					out = d.join(out, d.of(i.Val))
				} else {
					out = d.join(out, down{bad: "address kept at " + d.p.InstrPos(i)})
				}
			case *ssa.IndexAddr:
				visit(i)
			case *ssa.UnOp, *ssa.DebugRef, *ssa.Slice:
			case *ssa.MakeClosure:
				for k, b := range i.Bindings {
					if b == v {
						visit(i.Fn.(*ssa.Function).FreeVars[k])
					}
				}
			default:
				out = d.join(out, down{bad: "address used at " + d.p.InstrPos(i)})
			}
		}
	}
	visit(al)
	return out
}

// call is what a call gives back.
func (d *descender) call(cl *ssa.Call, index int) down {
	cc := cl.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		out := d.of(cc.Args[0])
		if len(cc.Args) > 1 {
			out = d.join(out, d.of(cc.Args[1]))
		}
		return out
	}
	f := cc.StaticCallee()
	if f == nil {
		return down{bad: "call of " + cc.String() + " at " + d.p.Pos(cl.Pos())}
	}
	if funcQual(f) == "go/ast.Unparen" {
		return d.of(cc.Args[0])
	}
	if !d.p.InModule(f) || len(f.Blocks) == 0 {
		return down{bad: "call of " + f.String() + " at " + d.p.Pos(cl.Pos())}
	}
	if d.seen[f] {
		return down{}
	}
	d.seen[f] = true
	defer delete(d.seen, f)
	in := &descender{p: d.p, root: f, stops: map[ssa.Value]bool{}, seen: d.seen}
	res := down{}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && index < len(r.Results) {
			res = d.join(res, in.of(r.Results[index]))
		}
	}
	if res.bad != "" {
		return res
	}
	out := down{}
	for q, strict := range res.from {
		for i, pa := range f.Params {
			if ssa.Value(pa) == q {
				a := d.of(cc.Args[i])
				if strict {
					a = a.properly()
				}
				out = d.join(out, a)
			}
		}
	}
	return out
}

// ---- recursion

func (p *Program) recursionEnds(scc []*ssa.Function, edges map[*ssa.Function][]siteEdge) (bool, string) {
	in := map[*ssa.Function]bool{}
	for _, f := range scc {
		in[f] = true
	}
	var es []siteEdge
	for _, f := range scc {
		for _, e := range edges[f] {
			if in[e.To] {
				es = append(es, e)
			}
		}
	}
	var reasons []string
	// calls made only after recording something not seen before
	left := map[*ssa.Function][]siteEdge{}
	for _, e := range es {
		if p.visitedBefore(e, es) {
			reasons = append(reasons, FuncName(e.From)+" remembers what it has visited")
			continue
		}
		left[e.From] = append(left[e.From], e)
	}
	for _, c := range sccs(in, left) {
		sub := map[*ssa.Function]bool{}
		for _, f := range c {
			sub[f] = true
		}
		var ce []siteEdge
		for _, f := range c {
			for _, e := range left[f] {
				if sub[e.To] {
					ce = append(ce, e)
				}
			}
		}
		if ok, why := p.depthBounded(c, ce, edges); ok {
			reasons = append(reasons, why)
			continue
		}
		ok, why := p.goesDown(c, ce)
		if !ok {
			return false, why
		}
		reasons = append(reasons, why)
	}
	sort.Strings(reasons)
	var out []string
	for i, r := range reasons {
		if i == 0 || r != reasons[i-1] {
			out = append(out, r)
		}
	}
	return true, strings.Join(out, "; ")
}

// argFor is what a call hands over for a parameter.
func argFor(e siteEdge, i int) ssa.Value {
	args := callArgs(e.Site.Common())
	if !e.Direct && !e.Site.Common().IsInvoke() || i >= len(args) {
		return nil
	}
	return args[i]
}

// visitedBefore: the call comes after recording, in a set carried through the whole recursion, a key that
// was not in it.
func (p *Program) visitedBefore(e siteEdge, es []siteEdge) bool {
	site := e.Site.Block()
	for _, b := range e.From.Blocks {
		for _, ins := range b.Instrs {
			v := p.visitGuard(ins)
			if v == nil || !v.update.Block().Dominates(site) {
				continue
			}
			if v.update.Block() == site && instrIndex(v.update) > instrIndex(e.Site) {
				continue
			}
			if p.carried(v.set, e.From, es) {
				return true
			}
		}
	}
	return false
}

func instrIndex(i ssa.Instruction) int {
	for k, x := range i.Block().Instrs {
		if x == i {
			return k
		}
	}
	return -1
}

// carried: the set is the same one in every call of the recursion.
func (p *Program) carried(set ssa.Value, f *ssa.Function, es []siteEdge) bool {
	switch x := set.(type) {
	case *ssa.Parameter:
		return p.handedOn(x, f, es)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			for _, e := range es {
				for _, b := range e.From.Blocks {
					for _, ins := range b.Instrs {
						if s, ok := ins.(*ssa.Store); ok {
							if fa, ok := s.Addr.(*ssa.FieldAddr); ok && addrField(fa) == addrField(a) {
								return false
							}
						}
					}
				}
			}
			return p.carried(a.X, f, es)
		case *ssa.FreeVar, *ssa.Global:
			for _, e := range es {
				for _, b := range e.From.Blocks {
					for _, ins := range b.Instrs {
						if s, ok := ins.(*ssa.Store); ok && s.Addr == x.X {
							return false
						}
					}
				}
			}
			return true
		}
	case *ssa.FreeVar:
		return true
	}
	return false
}

// handedOn: every function of the recursion has a parameter that is handed on unchanged.
func (p *Program) handedOn(q *ssa.Parameter, f *ssa.Function, es []siteEdge) bool {
	at := map[*ssa.Function]*ssa.Parameter{f: q}
	work := []*ssa.Function{f}
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		k := -1
		for i, x := range g.Params {
			if x == at[g] {
				k = i
			}
		}
		for _, e := range es {
			if e.To != g {
				continue
			}
			a, ok := argFor(e, k).(*ssa.Parameter)
			if !ok || a.Parent() != e.From {
				return false
			}
			if at[e.From] == nil {
				at[e.From] = a
				work = append(work, e.From)
			} else if at[e.From] != a {
				return false
			}
		}
	}
	return true
}

// depthBounded: a parameter counts the calls and no call is made at the bound.
func (p *Program) depthBounded(c []*ssa.Function, es []siteEdge, all map[*ssa.Function][]siteEdge) (bool, string) {
	var cand [][]int
	for _, f := range c {
		var ks []int
		for i, q := range f.Params {
			if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				ks = append(ks, i)
			}
		}
		if len(ks) == 0 {
			return false, ""
		}
		cand = append(cand, ks)
	}
	why := ""
	ok := eachChoice(cand, func(pick []int) bool {
		at := map[*ssa.Function]int{}
		for i, f := range c {
			at[f] = pick[i]
		}
		dir := int64(0)
		var limit *int64
		exact := false
		for _, e := range es {
			b, ok := argFor(e, at[e.To]).(*ssa.BinOp)
			if !ok {
				return false
			}
			q := ssa.Value(e.From.Params[at[e.From]])
			k, isC := b.Y.(*ssa.Const)
			if b.X != q || !isC || k.Value == nil {
				return false
			}
			d := k.Int64()
			if b.Op == token.SUB {
				d = -d
			} else if b.Op != token.ADD {
				return false
			}
			if d == 0 || dir != 0 && d != dir {
				return false
			}
			dir = d
			// the bound is tested before the call
			found := false
			for _, r := range *q.Referrers() {
				t, ok := r.(*ssa.BinOp)
				if !ok || t.X != q {
					continue
				}
				kc, ok := t.Y.(*ssa.Const)
				if !ok || kc.Value == nil {
					continue
				}
				n := kc.Int64()
				hit := false
				switch t.Op {
				case token.EQL:
					hit = guardedBy(e.Site.Block(), t, false)
					exact = exact || hit
				case token.NEQ:
					hit = guardedBy(e.Site.Block(), t, true)
					exact = exact || hit
				case token.GEQ, token.GTR:
					hit = dir > 0 && guardedBy(e.Site.Block(), t, false) || dir < 0 && guardedBy(e.Site.Block(), t, true)
				case token.LSS, token.LEQ:
					hit = dir > 0 && guardedBy(e.Site.Block(), t, true) || dir < 0 && guardedBy(e.Site.Block(), t, false)
				}
				if hit && (limit == nil || *limit == n) {
					limit = &n
					found = true
					break
				}
			}
			if !found {
				return false
			}
		}
		if limit == nil {
			return false
		}
		// where the recursion starts
		if exact && (dir == 1 || dir == -1) || !exact {
			for f, out := range all {
				for _, e := range out {
					k, inside := at[e.To]
					if !inside {
						continue
					}
					if _, from := at[f]; from {
						continue
					}
					kc, ok := argFor(e, k).(*ssa.Const)
					if !ok && exact {
						return false
					}
					if ok && exact && (dir > 0 && kc.Int64() > *limit || dir < 0 && kc.Int64() < *limit) {
						return false
					}
				}
			}
			why = fmt.Sprintf("the depth is bounded by %d", *limit)
			return true
		}
		return false
	})
	return ok, why
}

// eachChoice tries every combination until one is good.
func eachChoice(cand [][]int, good func([]int) bool) bool {
	pick := make([]int, len(cand))
	n := 0
	var try func(i int) bool
	try = func(i int) bool {
		if i == len(cand) {
			n++
			if n > 100000 {
				panic(undecided{"too many combinations of parameters"})
			}
			return good(pick)
		}
		for _, k := range cand[i] {
			pick[i] = k
			if try(i + 1) {
				return true
			}
		}
		return false
	}
	return try(0)
}

// goesDown: a parameter of each function is handed on as it is or as a part of itself, and no cycle hands
// it on unchanged.
func (p *Program) goesDown(c []*ssa.Function, es []siteEdge) (bool, string) {
	type key struct{ e, from, to int }
	kind := map[key]int{} // 1 the same or a part, 2 a proper part
	var cand [][]int
	for _, f := range c {
		var ks []int
		for i, q := range f.Params {
			switch q.Type().Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Slice:
				ks = append(ks, i)
			}
		}
		cand = append(cand, ks)
	}
	why := ""
	for i, e := range es {
		some := false
		for to := range e.To.Params {
			a := argFor(e, to)
			if a == nil {
				continue
			}
			d := p.descent(a, e.From)
			if d.bad != "" {
				if why == "" {
					why = fmt.Sprintf("%s calls %s at %s with %s", FuncName(e.From), FuncName(e.To), p.InstrPos(e.Site), d.bad)
				}
				continue
			}
			if len(d.from) != 1 {
				continue
			}
			for v, strict := range d.from {
				for from, q := range e.From.Params {
					if ssa.Value(q) == v {
						kind[key{i, from, to}] = 1
						if strict {
							kind[key{i, from, to}] = 2
						}
						some = true
					}
				}
			}
		}
		if !some && why == "" {
			why = fmt.Sprintf("%s calls %s at %s with nothing smaller", FuncName(e.From), FuncName(e.To), p.InstrPos(e.Site))
		}
	}
	in := map[*ssa.Function]bool{}
	for _, f := range c {
		in[f] = true
	}
	ok := eachChoice(cand, func(pick []int) bool {
		at := map[*ssa.Function]int{}
		for i, f := range c {
			at[f] = pick[i]
		}
		same := map[*ssa.Function][]siteEdge{}
		for i, e := range es {
			switch kind[key{i, at[e.From], at[e.To]}] {
			case 0:
				return false
			case 1:
				same[e.From] = append(same[e.From], e)
			}
		}
		return len(sccs(in, same)) == 0
	})
	if ok {
		return true, "goes down a finite structure"
	}
	if why == "" {
		why = "a cycle of calls hands over nothing smaller"
	}
	return false, why
}

// sccs are the recursive groups of functions.
func sccs(fs map[*ssa.Function]bool, edges map[*ssa.Function][]siteEdge) [][]*ssa.Function {
	var order []*ssa.Function
	for f := range fs {
		order = append(order, f)
	}
	sort.Slice(order, func(i, j int) bool { return FuncName(order[i]) < FuncName(order[j]) })
	index, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	var out [][]*ssa.Function
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		index[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, e := range edges[f] {
			if !fs[e.To] {
				continue
			}
			if e.To == f {
				self = true
			}
			if index[e.To] == 0 {
				visit(e.To)
				low[f] = min(low[f], low[e.To])
			} else if on[e.To] {
				low[f] = min(low[f], index[e.To])
			}
		}
		if low[f] == index[f] {
			var c []*ssa.Function
			for {
				m := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[m] = false
				c = append(c, m)
				if m == f {
					break
				}
			}
			if len(c) > 1 || self {
				out = append(out, c)
			}
		}
	}
	for _, f := range order {
		if index[f] == 0 {
			visit(f)
		}
	}
	return out
}
