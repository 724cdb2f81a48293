package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C12", checkC12) }

// orderLoop is a loop over a map.
type orderLoop struct {
	p     *Program
	l     *sloop
	rng   *ssa.Range
	next  *ssa.Next
	k, v  ssa.Value
	taint map[ssa.Value]bool // depends on which entry it is
	why   string
}

func checkC12(c *Ctx) {
	p := c.P
	c.Rule("map loops", "what a loop over a map leaves behind is the same in whatever order the entries come")
	c.Rule("map iterators", "the keys and values of a map are put in order before they are used")
	c.Rule("comparison", "things are sorted by a comparison that is a lexicographic order of some of their fields")
	c.Rule("order", "findings are ordered by severity, description, file and line; errors by line and column")
	n := 0
	for _, f := range p.Funcs {
		if devTools[relPath(FuncPkg(f))] {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Range:
					if _, isMap := x.X.Type().Underlying().(*types.Map); !isMap {
						continue
					}
					n++
					name := fmt.Sprintf("loop over %s in %s", types.TypeString(x.X.Type(), func(q *types.Package) string { return q.Name() }), FuncName(f))
					c.Guard("map loops", name, func() {
						ok, why := p.anyOrder(f, x)
						c.Check(ok, "map loops", name, p.InstrPos(x), why)
					})
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil {
						switch genericNameOf2(g) {
						case "maps.Keys", "maps.Values", "maps.All":
							ok, why := p.putInOrder(x)
							c.Check(ok, "map iterators", genericNameOf2(g)+" in "+FuncName(f), p.InstrPos(x), why)
						case "(reflect.Value).MapKeys", "(reflect.Value).MapRange", "(*sync.Map).Range":
							c.Fail("map iterators", genericNameOf2(g)+" in "+FuncName(f), p.InstrPos(x), "the order is not known")
						}
					}
				}
			}
		}
	}
	c.Min("map loops", 5)
	checkComparisons(c)
}

// checkComparisons judges the comparators of every sort.
func checkComparisons(c *Ctx) {
	p := c.P
	nIssues, nErrors := 0, 0
	for _, f := range p.Funcs {
		if devTools[relPath(FuncPkg(f))] {
			continue
		}
		for _, u := range p.comparatorUses(f) {
			name := "sort in " + FuncName(f)
			if u.Fn == nil {
				c.Fail("comparison", name, p.InstrPos(u.Call), "the comparison is not known")
				continue
			}
			c.Guard("comparison", name, func() {
				keys, bases, err := p.comparator(u.Fn)
				if err != "" {
					c.Fail("comparison", name, p.InstrPos(u.Call), err)
					return
				}
				ok := len(keys) > 0
				if u.Idx && u.List != nil {
					for b := range bases {
						if b != nil && !isListVar(u.List, b) && !(len(u.Fn.Params) == 3 && b == ssa.Value(u.Fn.Params[0])) {
							c.Fail("comparison", name, p.InstrPos(u.Call), "compares elements of another list")
							return
						}
					}
				}
				c.Check(ok, "comparison", name, p.InstrPos(u.Call), "by "+showKeys(keys))
				if u.Elem == nil {
					return
				}
				switch namedName(deref2(u.Elem)) {
				case modPath + "/issue.Issue":
					nIssues++
					ok := len(keys) >= 4 && keys[0].Expr == "$.Severity" && keys[0].Dir < 0 && keys[1].Expr == "$.What" && keys[2].Expr == "$.File" && isFirstLine(keys[3])
					c.Check(ok, "order", "findings sorted in "+FuncName(f), p.InstrPos(u.Call), "by "+showKeys(keys))
				case modPath + ".Error":
					nErrors++
					ok := len(keys) >= 2 && keys[0].Expr == "$.Line" && keys[0].Dir > 0 && keys[1].Expr == "$.Column" && keys[1].Dir > 0
					c.Check(ok, "order", "errors sorted in "+FuncName(f), p.InstrPos(u.Call), "by "+showKeys(keys))
				}
			})
		}
	}
	c.Check(nIssues > 0, "order", "findings are sorted", "-", fmt.Sprint(nIssues))
	c.Check(nErrors > 0, "order", "errors are sorted", "-", fmt.Sprint(nErrors))
	c.Guard("order", "errors are sorted at the end of a scan", func() {
		m := p.processModel()
		sorted := bF
		last := 0
		for i, e := range m.Main {
			if e.Fn == m.check["AppendError"] || e.Fn == m.check["ParseErrors"] || e.Fn == m.check["CheckRules"] {
				last = i
			}
		}
		for i, e := range m.Main {
			if i > last && e.Kind == "call" && e.Fn != nil && sortsErrors(e.Fn) && len(e.Args) == 1 {
				if t := e.Args[0].single(); t != nil && contains(t, isErrorsField) {
					sorted = bOr(sorted, e.G)
				}
			}
		}
		ends := bF
		for i, r := range m.Res.Rets {
			_ = i
			for _, l := range r.L {
				if isNilT(l.t) {
					ends = bOr(ends, l.g)
				}
			}
		}
		ok, d := implies(noExists(noLoopVars(bAnd(m.Res.RetG, ends))), noExists(noLoopVars(sorted)))
		c.Check(ok, "order", "errors are sorted at the end of a scan", p.Pos(m.Fn.Pos()), d)
	})
}

// isListVar: the list is what the variable holds.
func isListVar(list, cell ssa.Value) bool {
	if list == cell {
		return true
	}
	if u, ok := list.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == cell {
		return true
	}
	if al, ok := cell.(*ssa.Alloc); ok {
		return onlyStore(al) == list
	}
	return false
}

// isFirstLine: a number read from the beginning of the line range.
func isFirstLine(k sortKey) bool {
	b, ok := k.Typ.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || strings.Count(k.Expr, "$") != 1 || !strings.Contains(k.Expr, "$.Line") {
		return false
	}
	if !strings.Contains(k.Expr, "strconv.") {
		return true // a helper with branches of its own
	}
	return !strings.Contains(k.Expr, "#1") && (!strings.Contains(k.Expr, "Split") || strings.Contains(k.Expr, "[0]"))
}

func genericNameOf2(f *ssa.Function) string { return funcQual(originFn(f)) }

// putInOrder: the iterator is handed to a sort by a total order.
func (p *Program) putInOrder(call *ssa.Call) (bool, string) {
	for _, r := range *call.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil {
				return false, "is handed to an unknown function at " + p.InstrPos(x)
			}
			switch genericNameOf2(g) {
			case "slices.Sorted":
			default:
				return false, "is handed to " + g.String() + " at " + p.InstrPos(x)
			}
		default:
			return false, "is used without an order at " + p.InstrPos(r)
		}
	}
	return true, "sorted"
}

// anyOrder judges one loop over a map.
func (p *Program) anyOrder(f *ssa.Function, rng *ssa.Range) (bool, string) {
	var next *ssa.Next
	for _, r := range *rng.Referrers() {
		if n, ok := r.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return true, "the entries are not looked at"
	}
	var l *sloop
	for _, x := range loopsOf(f) {
		if x.head == next.Block() {
			l = x
		}
	}
	if l == nil {
		return false, "the loop was not found"
	}
	o := &orderLoop{p: p, l: l, rng: rng, next: next, taint: map[ssa.Value]bool{}}
	for _, r := range *next.Referrers() {
		if e, ok := r.(*ssa.Extract); ok {
			switch e.Index {
			case 1:
				o.k = e
				o.taint[e] = true
			case 2:
				o.v = e
				o.taint[e] = true
			}
		}
	}
	o.spread(f, l.in)
	if !o.judge() {
		return false, o.why
	}
	return true, "the order does not show"
}

// spread marks what depends on the entry.
func (o *orderLoop) spread(f *ssa.Function, in map[*ssa.BasicBlock]bool) {
	for again := true; again; {
		again = false
		for _, b := range f.Blocks {
			if in != nil && !in[b] {
				continue
			}
			for _, ins := range b.Instrs {
				v, isV := ins.(ssa.Value)
				if !isV || o.taint[v] {
					if s, ok := ins.(*ssa.Store); ok && o.taint[s.Val] {
						if a := baseAlloc(s.Addr); a != nil && !o.taint[a] {
							o.taint[a] = true
							again = true
						}
					}
					continue
				}
				hit := false
				if phi, ok := ins.(*ssa.Phi); ok && b != o.l.head && in != nil {
					// which way was taken may depend on the entry
					for _, e := range phi.Edges {
						if e != phi.Edges[0] {
							hit = true
						}
					}
				}
				var ops []*ssa.Value
				for _, op := range ins.Operands(ops) {
					if *op != nil && o.taint[*op] {
						hit = true
					}
				}
				if hit {
					o.taint[v] = true
					again = true
				}
			}
		}
	}
}

func baseAlloc(a ssa.Value) *ssa.Alloc {
	for {
		switch x := a.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		default:
			return nil
		}
	}
}

// single: the block runs for one entry at most, because its key equals something that does not change.
func (o *orderLoop) single(b *ssa.BasicBlock) bool {
	for blk := range o.l.in {
		for _, ins := range blk.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
				continue
			}
			for _, s := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
				if o.k == nil || s[0] != o.k || o.taint[s[1]] && !o.fixedCall(s[1]) {
					continue
				}
				if guardedBy(b, bo, bo.Op == token.EQL) {
					return true
				}
			}
		}
	}
	return false
}

func (o *orderLoop) fixedCall(ssa.Value) bool { return false }

func (o *orderLoop) fail(ins ssa.Instruction, why string) bool {
	if o.why == "" {
		o.why = why + " at " + o.p.InstrPos(ins)
	}
	return false
}

func (o *orderLoop) judge() bool {
	l := o.l
	effects := 0
	// what happens in the loop
	for _, b := range blocksOf(l) {
		if o.single(b) {
			continue
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				a := baseAlloc(x.Addr)
				if a != nil && l.in[a.Block()] {
					continue // a variable of this round
				}
				if a != nil && !o.taint[x.Val] {
					effects++
					continue // the same value whichever entry it is
				}
				if a != nil && o.collected(a) {
					effects++
					continue
				}
				return o.fail(ins, "something is stored that depends on the order")
			case *ssa.MapUpdate:
				effects++
				if !o.update(x, o.k, o.v, nil) {
					return o.fail(ins, "an entry is stored that depends on the order")
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.RunDefers:
				return o.fail(ins, "something happens in the order of the entries")
			case *ssa.Panic:
			case *ssa.Call:
				ok, some := o.call(x, o.taint, 0)
				if !ok {
					return o.fail(ins, "something is done in the order of the entries")
				}
				if some {
					effects++
				}
			}
		}
	}
	// what is left behind
	for _, ins := range l.head.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if !o.accumulates(phi) {
			return o.fail(ins, "a value is carried on that depends on the order")
		}
	}
	for _, b := range blocksOf(l) {
		for k, s := range b.Succs {
			if l.in[s] || b == l.head {
				continue
			}
			_ = k
			if o.single(b) || len(s.Preds) == 1 && o.single(s) {
				continue
			}
			// leaving before the end
			if effects > 0 {
				return o.fail(b.Instrs[len(b.Instrs)-1], "the loop ends early, with only some of the entries dealt with")
			}
			if u := o.seenOutside(); u != nil {
				return o.fail(u, "the first entry met decides")
			}
		}
	}
	return true
}

// seenOutside finds a use, after the loop, of a value that depends on the entry.
func (o *orderLoop) seenOutside() ssa.Instruction {
	for _, b := range blocksOf(o.l) {
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || !o.taint[v] {
				continue
			}
			for _, r := range *v.Referrers() {
				if !o.l.in[r.Block()] {
					if _, dbg := r.(*ssa.DebugRef); !dbg {
						return r
					}
				}
			}
		}
	}
	return nil
}

func blocksOf(l *sloop) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for _, b := range l.head.Parent().Blocks {
		if l.in[b] {
			out = append(out, b)
		}
	}
	return out
}

// accumulates: the value carried from round to round does not tell the order: it counts, combines by an
// operation that commutes, becomes a fixed value, or collects a list that is sorted afterwards.
func (o *orderLoop) accumulates(phi *ssa.Phi) bool {
	kind := ""
	var fixed ssa.Value
	list := false
	seen := map[ssa.Value]bool{}
	var part func(v ssa.Value, at *ssa.BasicBlock) bool
	part = func(v ssa.Value, at *ssa.BasicBlock) bool {
		if v == ssa.Value(phi) || seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			if o.l.in[x.Block()] {
				for i, e := range x.Edges {
					if !part(e, x.Block().Preds[i]) {
						return false
					}
				}
				return true
			}
		case *ssa.BinOp:
			if !o.l.in[x.Block()] {
				break
			}
			switch x.Op {
			case token.ADD, token.OR, token.AND, token.XOR, token.MUL:
				if t, ok := x.Type().Underlying().(*types.Basic); !ok || t.Info()&(types.IsInteger|types.IsBoolean) == 0 {
					return false
				}
				if kind != "" && kind != x.Op.String() {
					return false
				}
				kind = x.Op.String()
				a, b := x.X, x.Y
				if o.isAcc(b, phi) {
					a, b = b, a
				}
				return o.isAcc(a, phi) && part(a, at) && !o.uses(b, phi)
			}
			return false
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && o.l.in[x.Block()] {
				list = true
				return part(x.Call.Args[0], at)
			}
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "min" || bi.Name() == "max") {
				kind = bi.Name()
				return part(x.Call.Args[0], at)
			}
		}
		if o.single(at) {
			return true
		}
		if o.taint[v] {
			return false
		}
		if fixed != nil && fixed != v && !sameConst(fixed, v) {
			return false
		}
		fixed = v
		return true
	}
	for i, pr := range phi.Block().Preds {
		if o.l.in[pr] && !part(phi.Edges[i], pr) {
			return false
		}
	}
	if list {
		return kind == "" && fixed == nil && (o.equalParts(phi) || o.sortedAfter(phi))
	}
	if kind != "" && fixed != nil {
		return false
	}
	// the value must not be looked at while it is not complete
	if kind != "" || fixed != nil {
		for _, r := range *phi.Referrers() {
			if !o.l.in[r.Block()] {
				continue
			}
			switch r.(type) {
			case *ssa.Phi, *ssa.BinOp, *ssa.DebugRef, *ssa.Call:
			case *ssa.If:
				if fixed == nil {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func sameConst(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && (x.Value == nil && y.Value == nil || x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString())
}

func (o *orderLoop) isAcc(v ssa.Value, phi *ssa.Phi) bool {
	return v == ssa.Value(phi) || o.uses(v, phi)
}

// uses: the value is computed from the accumulator.
func (o *orderLoop) uses(v ssa.Value, phi *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		if v == ssa.Value(phi) {
			return true
		}
		ins, ok := v.(ssa.Instruction)
		if !ok || seen[v] || !o.l.in[ins.Block()] {
			return false
		}
		seen[v] = true
		var ops []*ssa.Value
		for _, op := range ins.Operands(ops) {
			if *op != nil && visit(*op) {
				return true
			}
		}
		return false
	}
	return visit(v)
}

// equalParts: whatever is appended is the same for every entry.
func (o *orderLoop) equalParts(phi *ssa.Phi) bool {
	for _, b := range blocksOf(o.l) {
		for _, ins := range b.Instrs {
			x, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			bi, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "append" || !o.isAcc(x.Call.Args[0], phi) || len(x.Call.Args) < 2 {
				continue
			}
			if o.single(b) {
				continue
			}
			sl, ok := x.Call.Args[1].(*ssa.Slice)
			if !ok {
				return false
			}
			al, ok := sl.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, q := range *ia.Referrers() {
						if s, ok := q.(*ssa.Store); ok && o.taint[s.Val] {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// sortedAfter: the list goes to a sort by a total order, with its parts, before anything else looks at it.
func (o *orderLoop) sortedAfter(phi *ssa.Phi) bool {
	return o.p.sortedBeforeUse(phi, o.l, map[ssa.Value]bool{})
}

func (p *Program) sortedBeforeUse(v ssa.Value, l *sloop, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	var sorts []ssa.Instruction
	var rest []ssa.Instruction
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Phi:
			if !p.sortedBeforeUse(x, l, seen) {
				return false
			}
			continue
		case *ssa.MakeInterface:
			// sort.Slice takes any
			for _, q := range *x.Referrers() {
				if cl, ok := q.(*ssa.Call); ok && p.totalSort(cl) {
					sorts = append(sorts, cl)
				} else {
					rest = append(rest, q)
				}
			}
			continue
		case *ssa.ChangeType:
			for _, q := range *x.Referrers() {
				if mi, ok := q.(*ssa.MakeInterface); ok {
					for _, s := range *mi.Referrers() {
						if cl, ok := s.(*ssa.Call); ok && p.totalSort(cl) {
							sorts = append(sorts, cl)
						} else {
							rest = append(rest, s)
						}
					}
				} else {
					rest = append(rest, q)
				}
			}
			continue
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "append":
					if x.Call.Args[0] == v {
						if !p.sortedBeforeUse(x, l, seen) {
							return false
						}
						continue
					}
				case "len", "cap":
					continue
				}
			}
			if p.totalSort(x) {
				sorts = append(sorts, x)
				continue
			}
		}
		rest = append(rest, r)
	}
	for _, r := range rest {
		ok := false
		for _, s := range sorts {
			if s.Block() == r.Block() && instrIndex(s) < instrIndex(r) || s.Block() != r.Block() && s.Block().Dominates(r.Block()) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// totalSort: the call sorts its list so that only equal elements may change places.
func (p *Program) totalSort(cl *ssa.Call) bool {
	f := cl.Call.StaticCallee()
	if f == nil {
		return false
	}
	switch genericNameOf2(f) {
	case "sort.Strings", "sort.Ints", "slices.Sort", "sort.Sort", "sort.Stable":
		return genericNameOf2(f) != "sort.Sort" && genericNameOf2(f) != "sort.Stable"
	case "slices.SortFunc", "slices.SortStableFunc", "sort.Slice", "sort.SliceStable":
		return p.distinctKeys(cl)
	}
	return false
}

// distinctKeys: the comparison never finds two different nodes of a comment map equal: it goes by the first
// comment of each, and a comment belongs to one node.
func (p *Program) distinctKeys(cl *ssa.Call) bool {
	cmp := cl.Call.Args[len(cl.Call.Args)-1]
	var fn *ssa.Function
	switch x := cmp.(type) {
	case *ssa.MakeClosure:
		fn = x.Fn.(*ssa.Function)
	case *ssa.Function:
		fn = x
	}
	if fn == nil {
		return false
	}
	switch genericNameOf2(fn) {
	case "strings.Compare", "cmp.Compare":
		return true
	}
	// every comparison made is of the positions of elements of a comment map
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			var x, y ssa.Value
			switch i := ins.(type) {
			case *ssa.Call:
				if g := i.Call.StaticCallee(); g != nil && genericNameOf2(g) == "cmp.Compare" {
					x, y = i.Call.Args[0], i.Call.Args[1]
				}
			case *ssa.BinOp:
				x, y = i.X, i.Y
			}
			if x == nil {
				continue
			}
			if k, m := commentOf(x), commentOf(y); k != nil && m != nil && k != m {
				return true
			}
		}
	}
	// natural order of distinct strings
	if len(fn.Params) == 2 {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if bo, ok := ins.(*ssa.BinOp); ok && (bo.Op == token.LSS || bo.Op == token.GTR) && bo.X == ssa.Value(fn.Params[0]) && bo.Y == ssa.Value(fn.Params[1]) {
					return true
				}
			}
		}
	}
	return false
}

// commentOf: the position of the first comment group of a node; gives the node.
func commentOf(v ssa.Value) *ssa.Parameter {
	for {
		if cv, ok := v.(*ssa.Convert); ok {
			v = cv.X
			continue
		}
		break
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	f := c.Call.StaticCallee()
	if f == nil || funcQual(f) != "(*go/ast.CommentGroup).Pos" {
		return nil
	}
	u, ok := c.Call.Args[0].(*ssa.UnOp)
	if !ok {
		return nil
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	if k, ok := ia.Index.(*ssa.Const); !ok || k.Int64() != 0 {
		return nil
	}
	lk, ok := ia.X.(*ssa.Lookup)
	if !ok || !strings.HasSuffix(lk.X.Type().String(), "go/ast.CommentMap") {
		return nil
	}
	q, _ := lk.Index.(*ssa.Parameter)
	return q
}

// ---- effects

// update: the entry stored is the same in whatever order the loop goes. k and v are the entry the loop is at;
// args are the values of the parameters when the update is in a called function.
func (o *orderLoop) update(u *ssa.MapUpdate, k, v ssa.Value, taint map[ssa.Value]bool) bool {
	if taint == nil {
		taint = o.taint
	}
	// a fixed value, whatever the key
	if c, ok := u.Value.(*ssa.Const); ok {
		_ = c
		return true
	}
	// an empty collection where there is none yet
	switch m := u.Value.(type) {
	case *ssa.MakeMap:
		if o.absent(u) && m.Block() != nil {
			return true
		}
	case *ssa.ChangeType:
		if _, ok := m.X.(*ssa.MakeMap); ok && o.absent(u) {
			return true
		}
	}
	if !taint[u.Key] {
		return !taint[u.Value] && !o.readsBack(u)
	}
	if o.isKey(u.Key, k) || o.keyField(u) {
		return !o.readsBack(u)
	}
	return false
}

// absent: the key is known not to be in the map.
func (o *orderLoop) absent(u *ssa.MapUpdate) bool {
	for _, b := range u.Parent().Blocks {
		for _, ins := range b.Instrs {
			lk, ok := ins.(*ssa.Lookup)
			if !ok || !lk.CommaOk || !sameLoc(lk.X, u.Map) || !sameLoc(lk.Index, u.Key) {
				continue
			}
			for _, r := range *lk.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && e.Index == 1 && guardedBy(u.Block(), e, false) {
					return true
				}
			}
		}
	}
	return false
}

// isKey: the value is the key of the entry, possibly converted.
func (o *orderLoop) isKey(v, k ssa.Value) bool {
	for i := 0; i < 10; i++ {
		if k != nil && v == k {
			return true
		}
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			if !types.Identical(x.Type().Underlying(), x.X.Type().Underlying()) {
				return false
			}
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Call:
			// a function that gives back its argument
			f := x.Call.StaticCallee()
			if f == nil || !o.p.InModule(f) || len(f.Blocks) != 1 {
				return false
			}
			r, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
			if !ok || len(r.Results) != 1 {
				return false
			}
			found := false
			for j, q := range f.Params {
				if o.isKey(r.Results[0], q) {
					v = x.Call.Args[j]
					found = true
				}
			}
			if !found {
				return false
			}
		default:
			return false
		}
	}
	return false
}

// keyField: the key is the field of the entry that all maps of that type are filled by.
func (o *orderLoop) keyField(u *ssa.MapUpdate) bool {
	f := o.fieldOfEntry(u.Key)
	if f == nil {
		return false
	}
	mt, ok := o.rng.X.Type().Underlying().(*types.Map)
	if !ok {
		return false
	}
	n := 0
	for _, fn := range o.p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				w, ok := ins.(*ssa.MapUpdate)
				if !ok || !types.Identical(w.Map.Type().Underlying(), mt) || w == u {
					continue
				}
				n++
				if !sameField(w.Key, w.Value, f) && !o.sameEntry(w) {
					return false
				}
			}
		}
	}
	return n > 0
}

// sameEntry: the update copies an entry of another such map under its own key.
func (o *orderLoop) sameEntry(w *ssa.MapUpdate) bool {
	e, ok := w.Key.(*ssa.Extract)
	if !ok {
		return false
	}
	v, ok := w.Value.(*ssa.Extract)
	return ok && e.Tuple == v.Tuple && e.Index == 1 && v.Index == 2
}

// fieldOfEntry: v is a field of the value of the entry.
func (o *orderLoop) fieldOfEntry(v ssa.Value) *types.Var {
	switch x := v.(type) {
	case *ssa.Field:
		if x.X == o.v {
			return structOf(x.X.Type()).Field(x.Field)
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			if al, ok := fa.X.(*ssa.Alloc); ok && o.l.in[al.Block()] {
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) && s.Val == o.v {
						return addrField(fa)
					}
				}
			}
		}
	}
	return nil
}

// sameField: the key is that field of the value stored.
func sameField(key, val ssa.Value, f *types.Var) bool {
	switch x := key.(type) {
	case *ssa.Field:
		return x.X == val && structOf(x.X.Type()).Field(x.Field) == f
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || addrField(fa) != f {
			return false
		}
		l, ok := val.(*ssa.UnOp)
		return ok && sameAddr(l.X, fa.X)
	}
	return false
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.IndexAddr)
	y, ok2 := b.(*ssa.IndexAddr)
	return ok1 && ok2 && x.X == y.X && x.Index == y.Index
}

// readsBack: the value stored is made from other entries of the map it goes to, or from something the
// loop carries on.
func (o *orderLoop) readsBack(u *ssa.MapUpdate) bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		ins, ok := v.(ssa.Instruction)
		if !ok || seen[v] || ins.Parent() == o.l.head.Parent() && !o.l.in[ins.Block()] {
			return false
		}
		seen[v] = true
		if lk, ok := v.(*ssa.Lookup); ok && sameLoc(lk.X, u.Map) {
			return !sameLoc(lk.Index, u.Key)
		}
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() == o.l.head {
			return true
		}
		var ops []*ssa.Value
		for _, op := range ins.Operands(ops) {
			if *op != nil && visit(*op) {
				return true
			}
		}
		return false
	}
	return visit(u.Value)
}

// collected: a local list that is sorted before it is used.
func (o *orderLoop) collected(al *ssa.Alloc) bool { return false }

// pureCalls do nothing another entry could notice.
func quietCall(f *ssa.Function) bool {
	pk := FuncPkg(f)
	if pk == nil {
		return false
	}
	switch pk.Path() {
	case "strings", "strconv", "unicode", "unicode/utf8", "path", "path/filepath", "go/ast", "go/token", "go/types", "go/constant", "regexp",
		"errors", "math", "cmp", "golang.org/x/tools/go/ssa":
		return !strings.HasPrefix(f.Name(), "Walk") && !strings.HasPrefix(f.Name(), "Write") && f.Name() != "Inspect"
	case "fmt":
		return strings.HasPrefix(f.Name(), "Sprint") || f.Name() == "Errorf"
	case "os":
		switch funcQual(f) {
		case "os.Open", "os.ReadFile", "os.Stat", "os.Lstat", "(*os.File).Close", "(*os.File).Read", "os.Getenv", "os.LookupEnv":
			return true // only looks
		}
	case "bufio":
		return !strings.HasPrefix(f.Name(), "Write")
	case "slices", "maps":
		return !strings.HasPrefix(f.Name(), "Sort") || f.Name() == "Sorted" || f.Name() == "SortedFunc"
	}
	return false
}

// call: what a call in the loop does is the same in any order; some says whether it does anything.
func (o *orderLoop) call(cl ssa.CallInstruction, taint map[ssa.Value]bool, depth int) (ok, some bool) {
	cc := cl.Common()
	if b, isB := cc.Value.(*ssa.Builtin); isB {
		switch b.Name() {
		case "delete":
			return o.deletes(cl), true
		case "copy", "clear", "close", "print", "println":
			return false, true
		}
		return true, false
	}
	if cc.IsInvoke() {
		if n := cc.Method.Name(); n == "Error" || n == "String" || n == "Len" {
			return true, false
		}
		if pk := cc.Method.Pkg(); pk != nil && (strings.HasPrefix(pk.Path(), "go/") || pk.Path() == "golang.org/x/tools/go/ssa") {
			return true, false
		}
		return false, true
	}
	f := cc.StaticCallee()
	var val ssa.Value = cc.Value
	if f == nil {
		if u, isU := val.(*ssa.UnOp); isU && u.Op == token.MUL {
			switch a := u.X.(type) {
			case *ssa.FreeVar:
				if al := o.p.freeVarCell(a); al != nil {
					if s := onlyStore(al); s != nil {
						val = s
					}
				}
			case *ssa.Alloc:
				if s := onlyStore(a); s != nil {
					val = s
				}
			}
		}
		if mc, isM := val.(*ssa.MakeClosure); isM {
			f = mc.Fn.(*ssa.Function)
		}
	}
	if f == nil {
		return false, true
	}
	if !o.p.InModule(f) || len(f.Blocks) == 0 {
		switch genericNameOf2(f) {
		case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "sort.Strings", "slices.Sort":
			// the list of this entry alone is put in order
			a := cc.Args[0]
			if mi, isM := a.(*ssa.MakeInterface); isM {
				a = mi.X
			}
			if u, isU := a.(*ssa.UnOp); isU && u.Op == token.MUL {
				if al, isA := u.X.(*ssa.Alloc); isA && o.l.in[al.Block()] {
					if s := onlyStore(al); s != nil {
						a = s
					}
				}
			}
			return o.v != nil && a == o.v || o.ofEntry(a), true
		}
		if f.Signature.Recv() != nil && len(cc.Args) > 0 {
			if al := baseAlloc(cc.Args[0]); al != nil && (depth > 0 || o.l.in[al.Block()]) {
				return true, false // something made for this entry
			}
		}
		switch genericNameOf2(f) {
		case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString":
			// text put into a buffer made for this entry
			if mi, isM := cc.Args[0].(*ssa.MakeInterface); isM {
				if al := baseAlloc(mi.X); al != nil && (depth > 0 || o.l.in[al.Block()]) && inMemory(al.Type()) {
					return true, false
				}
			}
		}
		return quietCall(f), false
	}
	if depth > 6 {
		return true, false // a recursive helper: judged at its first call
	}
	// a function of the module: what it does with what it is given
	sub := map[ssa.Value]bool{}
	for i, q := range f.Params {
		if i < len(cc.Args) && taint[cc.Args[i]] {
			sub[q] = true
		}
	}
	for _, fv := range f.FreeVars {
		if al := o.p.freeVarCell(fv); al != nil && taint[al] {
			sub[fv] = true
		}
	}
	in := &orderLoop{p: o.p, l: o.l, rng: o.rng, next: o.next, taint: sub}
	in.spread(f, nil)
	var keyParam, valParam ssa.Value
	for i, q := range f.Params {
		if i < len(cc.Args) && o.isKey(cc.Args[i], o.k) {
			keyParam = q
		}
		if i < len(cc.Args) && o.v != nil && cc.Args[i] == o.v {
			valParam = q
		}
	}
	in.k, in.v = keyParam, valParam
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if baseAlloc(x.Addr) == nil && !freshObject(x.Addr, 0) {
					o.fail(ins, "something shared is written")
					return false, true
				}
			case *ssa.MapUpdate:
				if madeIn(x.Map, f) {
					continue
				}
				some = true
				if !in.update(x, keyParam, valParam, sub) {
					o.fail(ins, "an entry is stored that depends on the order")
					return false, true
				}
			case *ssa.Send, *ssa.Go, *ssa.Select:
				o.fail(ins, "something happens in the order of the entries")
				return false, true
			case *ssa.Call:
				k, s := in.call(x, sub, depth+1)
				if !k {
					o.why = in.why
					o.fail(ins, "something is done in the order of the entries")
					return false, true
				}
				some = some || s
			}
		}
	}
	return true, some
}

// madeIn: the map was made in the function itself.
func madeIn(m ssa.Value, f *ssa.Function) bool {
	switch x := m.(type) {
	case *ssa.MakeMap:
		return true
	case *ssa.ChangeType:
		return madeIn(x.X, f)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !madeIn(e, f) {
				return false
			}
		}
		return true
	}
	return false
}

// freshObject: the address is inside something made by the call that gave it.
func freshObject(a ssa.Value, depth int) bool {
	switch x := a.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return freshObject(x.X, depth)
	case *ssa.IndexAddr:
		return freshObject(x.X, depth)
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		return freshObject(x.X, depth)
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || depth > 4 || len(f.Blocks) == 0 {
			return false
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(r.Results) == 0 || !freshObject(r.Results[0], depth+1) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// deletes: entries are taken out; what is left does not depend on the order as long as nothing else happens
// where an entry is missing.
func (o *orderLoop) deletes(ssa.CallInstruction) bool { return true }

// isErrorsField: the errors recorded per file.
func isErrorsField(t *Term) bool {
	v, ok := t.Obj.(*types.Var)
	return ok && v.IsField() && v.Type().String() == "map[string][]"+modPath+".Error"
}

// ofEntry: what the map holds for the entry the loop is at.
func (o *orderLoop) ofEntry(v ssa.Value) bool {
	lk, ok := v.(*ssa.Lookup)
	return ok && !lk.CommaOk && sameLoc(lk.X, o.rng.X) && o.isKey(lk.Index, o.k)
}

// inMemory: a buffer of the standard library.
func inMemory(t types.Type) bool {
	switch namedName(deref2(t)) {
	case "bytes.Buffer", "strings.Builder":
		return true
	}
	return false
}
