package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A comparator is judged by evaluating its code over the outcomes of the comparisons it makes: every pair of
// mirrored expressions of its two arguments is a key, which may compare as less, equal or greater. For each
// assignment of outcomes to the keys the code gives one answer; the answers must be those of a lexicographic
// order of the keys.

type sortKey struct {
	Expr string // the expression, with $ for the element
	Dir  int    // 1 ascending, -1 descending
	Typ  types.Type
}

// sval is a value of the evaluation.
type sval struct {
	kind string // side, int, bool, ref, fn, other
	s    string // side: the expression, with \x00 and \x01 for the two elements; other: a description
	mask int    // which elements it depends on
	i    int64
	b    bool
	cell *scell
	fn   *ssa.Function
	free []sval
	typ  types.Type
}

type scell struct {
	v    sval
	set  bool
	sub  map[string]*scell
	n    int // elements, for an array
	list ssa.Value
}

func (c *scell) at(k string) *scell {
	if c.sub == nil {
		c.sub = map[string]*scell{}
	}
	if c.sub[k] == nil {
		c.sub[k] = &scell{}
	}
	return c.sub[k]
}

type signEval struct {
	p     *Program
	signs map[string]int
	keys  []string
	types map[string]types.Type
	bases map[ssa.Value]bool // lists indexed by an element number
	cells map[ssa.Value]string
	steps int
}

type notComparator struct{ why string }

func (e *signEval) stop(format string, a ...any) {
	panic(notComparator{fmt.Sprintf(format, a...)})
}

func (e *signEval) sign(x, y sval) int {
	if x.kind == "int" && y.kind == "int" {
		return cmpInt(x.i, y.i)
	}
	if x.kind == "bool" && y.kind == "bool" {
		if x.b == y.b {
			return 0
		}
		return 1
	}
	if x.kind == "other" && y.kind == "other" && x.s == y.s {
		return 0
	}
	if x.kind != "side" || y.kind != "side" {
		e.stop("compares %s with %s", x.show(), y.show())
	}
	if x.mask == y.mask && x.s == y.s {
		return 0
	}
	norm := func(s string) string { return strings.NewReplacer("\x00", "$", "\x01", "$").Replace(s) }
	k := norm(x.s)
	if k != norm(y.s) || x.mask|y.mask != 3 || x.mask == 3 || y.mask == 3 {
		e.stop("compares %s with %s", x.show(), y.show())
	}
	s, ok := e.signs[k]
	if !ok {
		e.keys = append(e.keys, k)
		e.types[k] = x.typ
		e.signs[k] = 0
	}
	if x.mask == 2 {
		return -s
	}
	return s
}

func (v sval) show() string {
	switch v.kind {
	case "side":
		return strings.NewReplacer("\x00", "a", "\x01", "b").Replace(v.s)
	case "int":
		return fmt.Sprint(v.i)
	case "bool":
		return fmt.Sprint(v.b)
	}
	return v.kind + v.s
}

func cmpInt(a, b int64) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func (e *signEval) call(fn *ssa.Function, args, free []sval, depth int) []sval {
	if depth > 12 || len(fn.Blocks) == 0 {
		e.stop("calls %s", fn.String())
	}
	env := map[ssa.Value]sval{}
	for i, q := range fn.Params {
		if i < len(args) {
			env[q] = args[i]
		}
	}
	for i, q := range fn.FreeVars {
		if i < len(free) {
			env[q] = free[i]
		} else if al := e.p.freeVarCell(q); al != nil {
			env[q] = e.outside(al)
		} else {
			env[q] = sval{kind: "other", s: q.Name()}
		}
	}
	b, prev := fn.Blocks[0], (*ssa.BasicBlock)(nil)
	for {
		phis := map[ssa.Value]sval{}
		for _, ins := range b.Instrs {
			if phi, ok := ins.(*ssa.Phi); ok {
				for i, q := range b.Preds {
					if q == prev {
						phis[phi] = e.val(env, phi.Edges[i])
					}
				}
			}
		}
		for k, v := range phis {
			env[k] = v
		}
		var next *ssa.BasicBlock
		for _, ins := range b.Instrs {
			if e.steps++; e.steps > 20000 {
				e.stop("runs too long")
			}
			switch x := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Return:
				var out []sval
				for _, r := range x.Results {
					out = append(out, e.val(env, r))
				}
				return out
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				c := e.val(env, x.Cond)
				if c.kind != "bool" {
					e.stop("decides by %s at %s", c.show(), e.p.InstrPos(lastPos(b)))
				}
				next = b.Succs[1]
				if c.b {
					next = b.Succs[0]
				}
			case *ssa.Store:
				a := e.val(env, x.Addr)
				if a.kind != "ref" || a.cell == nil || a.cell.list != nil {
					e.stop("writes to %s", a.show())
				}
				a.cell.v, a.cell.set = e.val(env, x.Val), true
			case ssa.Value:
				env[x] = e.step(env, x, depth)
			default:
				e.stop("does something else at %s", e.p.InstrPos(ins))
			}
		}
		if next == nil {
			e.stop("ends in a panic")
		}
		b, prev = next, b
	}
}

func lastPos(b *ssa.BasicBlock) ssa.Instruction {
	for i := len(b.Instrs) - 1; i > 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return b.Instrs[i]
		}
	}
	return b.Instrs[0]
}

// outside is a variable of the code around the comparator.
func (e *signEval) outside(al ssa.Value) sval {
	return sval{kind: "ref", cell: &scell{set: true, list: al, v: sval{kind: "other", s: "var" + e.name(al), cell: &scell{list: al}}}}
}

func (e *signEval) name(v ssa.Value) string {
	if s, ok := e.cells[v]; ok {
		return s
	}
	e.cells[v] = fmt.Sprintf("%s#%d", v.Name(), len(e.cells))
	return e.cells[v]
}

func (e *signEval) val(env map[ssa.Value]sval, v ssa.Value) sval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return sval{kind: "other", s: "nil"}
		}
		switch x.Value.Kind() {
		case constant.Bool:
			return sval{kind: "bool", b: constant.BoolVal(x.Value)}
		case constant.Int:
			if n, ok := constant.Int64Val(x.Value); ok {
				return sval{kind: "int", i: n}
			}
		}
		return sval{kind: "other", s: x.Value.ExactString()}
	case *ssa.Function:
		return sval{kind: "fn", fn: x}
	case *ssa.Global:
		return sval{kind: "other", s: "&" + x.String()}
	}
	if r, ok := env[v]; ok {
		return r
	}
	e.stop("uses an unknown value %s", v.Name())
	return sval{}
}

// with derives an expression.
func with(typ types.Type, format string, a ...sval) sval {
	r := sval{kind: "other", typ: typ}
	var xs []any
	for _, v := range a {
		r.mask |= v.mask
		switch v.kind {
		case "side", "other":
			xs = append(xs, v.s)
		default:
			xs = append(xs, v.show())
		}
	}
	if r.mask != 0 {
		r.kind = "side"
	}
	r.s = fmt.Sprintf(format, xs...)
	return r
}

func (e *signEval) step(env map[ssa.Value]sval, v ssa.Value, depth int) sval {
	at := func(x ssa.Value) sval { return e.val(env, x) }
	switch x := v.(type) {
	case *ssa.Alloc:
		c := &scell{}
		if t, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			c.n = int(t.Len())
		}
		return sval{kind: "ref", cell: c}
	case *ssa.FieldAddr:
		b := at(x.X)
		f := structOf(x.X.Type().Underlying().(*types.Pointer).Elem()).Field(x.Field).Name()
		if b.kind == "ref" && b.cell.list == nil {
			if b.cell.set {
				return with(x.Type(), "%s."+f, b.cell.v)
			}
			return sval{kind: "ref", cell: b.cell.at(f)}
		}
		return with(x.Type(), "%s."+f, b)
	case *ssa.Field:
		return with(x.Type(), "%s."+structOf(x.X.Type()).Field(x.Field).Name(), at(x.X))
	case *ssa.IndexAddr:
		b, i := at(x.X), at(x.Index)
		if b.kind == "ref" && b.cell.list == nil {
			return sval{kind: "ref", cell: b.cell.at(i.show())}
		}
		if i.mask != 0 && b.mask == 0 {
			if b.cell != nil && b.cell.list != nil {
				e.bases[b.cell.list] = true
			} else {
				e.bases[nil] = true
			}
			return with(x.Type(), "%s%.0s", sval{kind: "side", s: i.s, mask: i.mask}, b)
		}
		return with(x.Type(), "%s[%s]", b, i)
	case *ssa.Index:
		return with(x.Type(), "%s[%s]", at(x.X), at(x.Index))
	case *ssa.Lookup:
		if x.CommaOk {
			e.stop("looks up %s", x.Name())
		}
		return with(x.Type(), "%s[%s]", at(x.X), at(x.Index))
	case *ssa.Slice:
		b := at(x.X)
		if b.kind == "ref" && x.Low == nil && x.High == nil {
			return b
		}
		parts := []sval{b}
		f := "%s["
		for i, q := range []ssa.Value{x.Low, x.High} {
			if i == 1 {
				f += ":"
			}
			if q != nil {
				f += "%s"
				parts = append(parts, at(q))
			}
		}
		return with(x.Type(), f+"]", parts...)
	case *ssa.UnOp:
		a := at(x.X)
		switch x.Op {
		case token.MUL:
			if a.kind == "ref" {
				if !a.cell.set {
					return sval{kind: "int", typ: x.Type()}
				}
				r := a.cell.v
				if a.cell.list != nil && r.kind == "other" && r.cell == nil {
					r.cell = &scell{list: a.cell.list}
				}
				return r
			}
			a.typ = x.Type()
			return a
		case token.SUB:
			if a.kind == "int" {
				a.i = -a.i
				return a
			}
		case token.NOT:
			if a.kind == "bool" {
				a.b = !a.b
				return a
			}
		}
		return with(x.Type(), x.Op.String()+"%s", a)
	case *ssa.BinOp:
		a, b := at(x.X), at(x.Y)
		switch x.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ, token.EQL, token.NEQ:
			if a.mask == 0 && b.mask == 0 || a.mask|b.mask == 3 {
				if a.typ == nil {
					a.typ = x.X.Type()
				}
				s := e.sign(a, b)
				r := false
				switch x.Op {
				case token.LSS:
					r = s < 0
				case token.GTR:
					r = s > 0
				case token.LEQ:
					r = s <= 0
				case token.GEQ:
					r = s >= 0
				case token.EQL:
					r = s == 0
				case token.NEQ:
					r = s != 0
				}
				return sval{kind: "bool", b: r}
			}
		case token.SUB:
			if a.kind == "side" && b.kind == "side" && a.mask|b.mask == 3 {
				a.typ = x.X.Type()
				if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
					e.stop("subtracts unsigned numbers")
				}
				return sval{kind: "int", i: int64(e.sign(a, b))}
			}
			if a.kind == "int" && b.kind == "int" {
				return sval{kind: "int", i: a.i - b.i}
			}
		case token.MUL:
			if a.kind == "int" && b.kind == "int" {
				return sval{kind: "int", i: a.i * b.i}
			}
		case token.ADD:
			if a.kind == "int" && b.kind == "int" {
				return sval{kind: "int", i: a.i + b.i}
			}
		}
		return with(x.Type(), "(%s"+strings.ReplaceAll(x.Op.String(), "%", "%%")+"%s)", a, b)
	case *ssa.Convert:
		return e.retype(at(x.X), x.Type())
	case *ssa.ChangeType:
		return at(x.X)
	case *ssa.ChangeInterface:
		return at(x.X)
	case *ssa.MakeInterface:
		return at(x.X)
	case *ssa.TypeAssert:
		if x.CommaOk {
			e.stop("tests a type")
		}
		return at(x.X)
	case *ssa.Extract:
		a := at(x.Tuple)
		return with(x.Type(), fmt.Sprintf("%%s#%d", x.Index), a)
	case *ssa.MakeClosure:
		r := sval{kind: "fn", fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			r.free = append(r.free, at(b))
		}
		return r
	case *ssa.Call:
		return e.apply(env, x, depth)
	}
	e.stop("does something else: %s", v.String())
	return sval{}
}

func (e *signEval) retype(v sval, t types.Type) sval {
	if v.kind == "side" {
		v.typ = t
	}
	return v
}

func (e *signEval) apply(env map[ssa.Value]sval, x *ssa.Call, depth int) sval {
	var args []sval
	mask := 0
	ref := false
	for _, a := range x.Call.Args {
		v := e.val(env, a)
		mask |= v.mask
		ref = ref || v.kind == "ref"
		args = append(args, v)
	}
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "len" && len(args) == 1 && args[0].kind == "ref" {
			return sval{kind: "int", i: int64(args[0].cell.n)}
		}
		return with(x.Type(), b.Name()+"(%s)", args[0])
	}
	if x.Call.IsInvoke() {
		r := e.val(env, x.Call.Value)
		return with(x.Type(), "%s."+x.Call.Method.Name()+strings.Repeat(",%s", len(args)), append([]sval{r}, args...)...)
	}
	fn := x.Call.StaticCallee()
	var free []sval
	if fn == nil {
		v := e.val(env, x.Call.Value)
		if v.kind != "fn" {
			e.stop("calls an unknown function")
		}
		fn, free = v.fn, v.free
	} else if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			free = append(free, e.val(env, b))
		}
	}
	name := genericNameOf2(fn)
	switch name {
	case "cmp.Compare", "strings.Compare":
		args[0].typ = x.Call.Args[0].Type()
		return sval{kind: "int", i: int64(e.sign(args[0], args[1]))}
	case "cmp.Less":
		args[0].typ = x.Call.Args[0].Type()
		return sval{kind: "bool", b: e.sign(args[0], args[1]) < 0}
	case "cmp.Or":
		c := args[0].cell
		if c == nil {
			e.stop("cmp.Or of an unknown list")
		}
		for i := 0; i < c.n; i++ {
			v := c.at(fmt.Sprint(i)).v
			if v.kind != "int" {
				e.stop("cmp.Or of %s", v.show())
			}
			if v.i != 0 {
				return v
			}
		}
		return sval{kind: "int"}
	}
	inModule := e.p.InModule(fn) && len(fn.Blocks) > 0
	if inModule && (mask == 3 || ref || mask == 0 && len(free) > 0 || len(fn.Blocks) == 1) {
		out := e.call(fn, args, free, depth+1)
		if len(out) == 1 {
			return out[0]
		}
		e.stop("calls %s", fn.String())
	}
	if ref {
		e.stop("calls %s", fn.String())
	}
	return with(x.Type(), name+"("+strings.TrimPrefix(strings.Repeat(",%s", len(args)), ",")+")", args...)
}

// comparator gives the order a comparator puts things in.
func (p *Program) comparator(fn *ssa.Function) (keys []sortKey, bases map[ssa.Value]bool, err string) {
	defer func() {
		if r := recover(); r != nil {
			nc, ok := r.(notComparator)
			if !ok {
				panic(r)
			}
			keys, err = nil, nc.why
		}
	}()
	e := &signEval{p: p, signs: map[string]int{}, types: map[string]types.Type{}, bases: map[ssa.Value]bool{}, cells: map[ssa.Value]string{}}
	var args []sval
	n := len(fn.Params)
	if n < 2 {
		e.stop("has not two arguments")
	}
	for i, q := range fn.Params {
		switch i {
		case n - 2:
			args = append(args, sval{kind: "side", s: "\x00", mask: 1, typ: q.Type()})
		case n - 1:
			args = append(args, sval{kind: "side", s: "\x01", mask: 2, typ: q.Type()})
		default:
			args = append(args, sval{kind: "other", s: "list", cell: &scell{list: q}})
		}
	}
	isBool := false
	res := func(signs map[string]int) int {
		e.steps = 0
		e.signs = map[string]int{}
		for _, k := range e.keys {
			e.signs[k] = signs[k]
		}
		out := e.call(fn, args, nil, 0)
		if len(out) != 1 {
			e.stop("gives no answer")
		}
		switch out[0].kind {
		case "int":
			return cmpInt(out[0].i, 0)
		case "bool":
			isBool = true
			if out[0].b {
				return -1
			}
			return 0
		}
		e.stop("gives %s", out[0].show())
		return 0
	}
	// all outcomes, until no new comparison turns up
	var table []map[string]int
	var answers []int
	for {
		table, answers = nil, nil
		ks := append([]string(nil), e.keys...)
		if len(ks) > 8 {
			e.stop("makes too many comparisons")
		}
		total := 1
		for range ks {
			total *= 3
		}
		for m := 0; m < total; m++ {
			a := map[string]int{}
			for i, r := 0, m; i < len(ks); i, r = i+1, r/3 {
				a[ks[i]] = r%3 - 1
			}
			table = append(table, a)
			answers = append(answers, res(a))
		}
		if len(e.keys) == len(ks) {
			break
		}
	}
	bases = e.bases
	used := map[string]bool{}
	for {
		// a key that decides whenever it differs
		var live []int
		done := true
		for i := range table {
			ok := true
			for k := range used {
				ok = ok && table[i][k] == 0
			}
			if ok {
				live = append(live, i)
				if answers[i] != 0 {
					done = false
				}
			}
		}
		if done {
			return keys, bases, ""
		}
		found := false
		for _, k := range e.keys {
			if used[k] || found {
				continue
			}
			for _, d := range []int{1, -1} {
				ok := true
				for _, i := range live {
					want := table[i][k] * d
					if want == 0 {
						continue
					}
					if isBool && want > 0 {
						want = 0
					}
					ok = ok && answers[i] == want
				}
				if ok {
					keys = append(keys, sortKey{k, d, e.types[k]})
					used[k], found = true, true
					break
				}
			}
		}
		if !found {
			var ks []string
			for _, k := range e.keys {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			return nil, bases, "the answers for " + strings.Join(ks, ", ") + " are not those of an order"
		}
	}
}

func showKeys(ks []sortKey) string {
	var out []string
	for _, k := range ks {
		d := ""
		if k.Dir < 0 {
			d = " descending"
		}
		out = append(out, k.Expr+d)
	}
	return strings.Join(out, ", ")
}

// comparatorUse is a place where things are sorted by a function of the code.
type comparatorUse struct {
	Call *ssa.Call
	Fn   *ssa.Function
	Elem types.Type
	List ssa.Value
	Idx  bool // the function is given element numbers
}

// comparatorUses finds every sort in a function.
func (p *Program) comparatorUses(f *ssa.Function) []comparatorUse {
	var out []comparatorUse
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			cl, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			g := cl.Call.StaticCallee()
			if g == nil {
				continue
			}
			u := comparatorUse{Call: cl}
			switch genericNameOf2(g) {
			case "sort.Slice", "sort.SliceStable":
				u.Idx = true
			case "slices.SortFunc", "slices.SortStableFunc", "slices.SortedFunc", "slices.SortedStableFunc", "slices.MinFunc", "slices.MaxFunc", "slices.BinarySearchFunc":
			case "sort.Sort", "sort.Stable":
				if mi, ok := cl.Call.Args[0].(*ssa.MakeInterface); ok {
					if m := p.SSA.LookupMethod(mi.X.Type(), nil, "Less"); m != nil {
						u.Fn, u.List, u.Idx = m, mi.X, true
						if sl, ok := mi.X.Type().Underlying().(*types.Slice); ok {
							u.Elem = sl.Elem()
						}
					}
				}
				out = append(out, u)
				continue
			default:
				continue
			}
			switch x := cl.Call.Args[len(cl.Call.Args)-1].(type) {
			case *ssa.MakeClosure:
				u.Fn = x.Fn.(*ssa.Function)
			case *ssa.Function:
				u.Fn = x
			}
			u.List = cl.Call.Args[0]
			if mi, ok := u.List.(*ssa.MakeInterface); ok {
				u.List = mi.X
			}
			if sl, ok := u.List.Type().Underlying().(*types.Slice); ok {
				u.Elem = sl.Elem()
			}
			out = append(out, u)
		}
	}
	return out
}
