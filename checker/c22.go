package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C22", checkC22) }

func checkC22(c *Ctx) {
	c.Rule("table", "a conversion is judged able to overflow exactly when the destination cannot hold every value of the source")
	c.Rule("types", "it is the underlying types of the operand and of the conversion which are compared")
	c.Rule("constants", "a constant is safe exactly when it fits the destination")
	c.Rule("limits", "a type name yields signedness, width and exact limits")
	c.Rule("every", "every conversion of every function is looked at")
	c.Guard("table", "conversions", func() { checkConversions(c) })
	c.Guard("limits", "parseIntType", func() { checkLimits(c) })
}

// intNames are the names go/types gives the integer types.
func intNames() []*types.Basic {
	var out []*types.Basic
	for _, b := range types.Typ {
		if b.Info()&types.IsInteger != 0 && b.Info()&types.IsUntyped == 0 {
			out = append(out, b)
		}
	}
	for _, n := range []string{"byte", "rune"} {
		out = append(out, types.Universe.Lookup(n).Type().(*types.Basic))
	}
	return out
}

func cmpC(a constant.Value, op token.Token, b constant.Value) bool { return constant.Compare(a, op, b) }

// holdsAll: every value of src is a value of dst.
func holdsAll(src, dst types.Type) bool {
	a, b, _ := intRange(src)
	l, h, _ := intRange(dst)
	return cmpC(l, token.LEQ, a) && cmpC(b, token.LEQ, h)
}

func convertParam(f *ssa.Function) int {
	if f.Signature.Results().Len() == 0 {
		return -1
	}
	if b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return -1
	}
	for i, x := range f.Params {
		if strings.HasSuffix(x.Type().String(), "go/ssa.Convert") {
			return i
		}
	}
	return -1
}

// typeString: the term is the name of the underlying type of a value; whose type is it?
func typeString(t *Term) (*Term, bool) {
	t = strip(t)
	if t.Op != "call" || !strings.HasSuffix(callName(t), ").String") || len(t.Args) == 0 {
		return nil, false
	}
	u := strip(t.Args[0])
	if u.Op != "call" || !strings.HasSuffix(callName(u), ").Underlying") {
		return nil, false
	}
	v := strip(u.Args[0])
	if v.Op != "call" || !strings.HasSuffix(callName(v), ").Type") {
		return nil, false
	}
	return strip(v.Args[0]), true
}

// convertSides: which side of the conversion a value belongs to: 'x' the operand, 'd' the conversion.
func convertSide(v *Term, isConv func(*Term) bool) byte {
	if v.Op == "load" || v.Op == "field" || v.Op == "deref" {
		if strings.HasSuffix(v.String(), ".X") && contains(v, isConv) {
			return 'x'
		}
	}
	if isConv(v) {
		return 'd'
	}
	if (v.Op == "fieldaddr" || v.Op == "field" || v.Op == "load") && strings.HasSuffix(v.String(), ".register") && contains(v, isConv) {
		return 'd'
	}
	return 0
}

func checkConversions(c *Ctx) {
	p := c.P
	run := p.analyzerFn("G115")
	if run == nil {
		panic(undecided{"the analyzer of G115 is not known"})
	}
	var value []*ssa.Function
	for _, f := range p.PkgFuncs("analyzers") {
		if convertParam(f) >= 0 {
			value = append(value, f)
		}
	}
	g := NewGate(p)
	g.noInline(value...)
	makers := map[*ssa.Function]bool{}
	for _, f := range p.findingMakers() {
		makers[f] = true
		g.noInline(f)
	}
	g.Run(run)
	pos := p.Pos(run.Pos())
	isConv := func(t *Term) bool { return t.Op == "tassert" && strings.HasSuffix(assertedType(t), "ssa.Convert") }
	names := intNames()
	n := 0
	used := map[*ssa.Function]bool{}
	for _, e := range g.Events {
		if e.Kind == "earlystop" {
			c.Fail("every", "no early end", p.InstrPos(e.Ins), "the rest is skipped when "+bString(e.G))
		}
		if e.Fn == nil || !makers[e.Fn] {
			continue
		}
		n++
		ip := p.InstrPos(e.Ins)
		everyInstr(c, e, ip)
		bad := map[string]bool{}
		ok := 0
		for _, s := range names {
			for _, d := range names {
				f := newFolder(p, map[*Term]any{})
				var wrong *Term
				f.hook = func(t *Term) (any, bool) {
					switch t.Op {
					case "tassertok":
						return fBool(true), true
					case "has":
						return fBool(true), true
					case "call":
						if fn := calledFn(t); fn != nil && convertParam(fn) >= 0 {
							used[fn] = true
							return fBool(false), true
						}
						if v, is := typeString(t); is {
							switch convertSide(v, isConv) {
							case 'x':
								return fStr(s.Name()), true
							case 'd':
								return fStr(d.Name()), true
							}
						}
						if strings.HasSuffix(callName(t), ").String") && contains(t, isConv) {
							wrong = t
						}
					}
					return nil, false
				}
				got := f.cond(noExists(noLoopVars(e.G)))
				want := !holdsAll(s, d)
				name := s.Name() + " to " + d.Name()
				if got < 0 {
					w := f.why
					if wrong != nil {
						w = wrong
					}
					if msg := "the judgement depends on " + brief(fmt.Sprint(w)); !bad[msg] {
						bad[msg] = true
						c.Fail("types", "what is compared", ip, msg)
					}
					continue
				}
				if c.Check((got == 1) == want, "table", name, ip, fmt.Sprintf("reported: %v, can overflow: %v", got == 1, want)) {
					ok++
				}
			}
		}
		c.Stat("pairs of types", len(names)*len(names))
	}
	c.Check(n == 1, "table", "one place reports", pos, fmt.Sprintf("%d places report", n))
	if !c.Check(len(used) > 0, "constants", "value checks", pos, "no function judges the values of a conversion") {
		return
	}
	for f := range used {
		c.Guard("constants", FuncName(f), func() { checkConstants(c, f, names, isConv) })
	}
}

func calledFn(t *Term) *ssa.Function {
	f, _ := t.Obj.(*ssa.Function)
	return f
}

// everyInstr: the finding is made for every instruction of every block of every function.
func everyInstr(c *Ctx, e *GEvent, ip string) {
	L := e.Loops
	if !c.Check(len(L) == 3, "every", "loops", ip, fmt.Sprint(L)) {
		return
	}
	c.Check(strings.Contains(L[0].String(), ".SrcFuncs") && L[0].Op != "slice", "every", "functions", ip, brief(L[0].String()))
	fn := elemOf(L[0], elemType(L[0].Typ))
	b := stripRev(L[1])
	okB := b.Op == "call" && strings.HasSuffix(callName(b), "Function).DomPreorder") && strip(b.Args[0]) == fn ||
		strings.HasSuffix(b.String(), ".Blocks") && contains(b, func(t *Term) bool { return t == fn }) && b.Op != "slice"
	c.Check(okB, "every", "blocks", ip, brief(b.String()))
	blk := elemOf(L[1], elemType(L[1].Typ))
	i := stripRev(L[2])
	c.Check(strings.HasSuffix(i.String(), ".Instrs") && contains(i, func(t *Term) bool { return t == blk }) && i.Op != "slice", "every", "instructions", ip, brief(i.String()))
}

// checkConstants decides the function which judges the values of a conversion, for operands which
// are constants: nothing else is known to be safe about it.
func checkConstants(c *Ctx, fn *ssa.Function, names []*types.Basic, isConv0 func(*Term) bool) {
	p := c.P
	g := NewGate(p)
	for _, f := range p.PkgFuncs("analyzers") {
		if convertParam(f) >= 0 && f != fn {
			g.noInline(f)
		}
	}
	r := g.Run(fn)
	pos := p.Pos(fn.Pos())
	instr := gparam(fn, convertParam(fn))
	isConv := func(t *Term) bool { return t == instr }
	isConst := func(t *Term) bool { return t.Op == "tassert" && strings.HasSuffix(assertedType(t), "ssa.Const") }
	safe := bF
	for _, l := range r.Rets[0].L {
		if isTrue(l.t) {
			safe = bOr(safe, l.g)
		} else if !isFalse(l.t) {
			safe = bOr(safe, bAnd(l.g, bddOf(l.t)))
		}
	}
	// the thresholds the constant is compared with
	judge := func(d *types.Basic, v constant.Value, limits *[]constant.Value, why **Term) int {
		f := newFolder(p, map[*Term]any{})
		ofConst := func(t *Term) bool { return contains(t, isConst) }
		f.hook = func(t *Term) (any, bool) {
			switch {
			case t.Op == "tassertok" && strings.HasSuffix(assertedType(t), "ssa.Const"):
				return fBool(true), true
			case t.Op == "call" && calledFn(t) != nil && convertParam(calledFn(t)) >= 0:
				return fBool(false), true
			case t.Op == "call" && (callName(t) == "(go/constant.Value).String" || callName(t) == "(go/constant.Value).ExactString") && ofConst(t):
				return fStr(v.ExactString()), true
			case t.Op == "call" && (callName(t) == "go/constant.Int64Val" || strings.HasSuffix(callName(t), "ssa.Const).Int64")) && ofConst(t):
				i, ok := constant.Int64Val(v)
				if strings.HasSuffix(callName(t), "Int64") {
					return fInt(i), true
				}
				return foldTuple{fInt(i), fBool(ok)}, true
			case t.Op == "call" && (callName(t) == "go/constant.Uint64Val" || strings.HasSuffix(callName(t), "ssa.Const).Uint64")) && ofConst(t):
				u, ok := constant.Uint64Val(v)
				if strings.HasSuffix(callName(t), "Uint64") {
					return constant.MakeUint64(u), true
				}
				return foldTuple{constant.MakeUint64(u), fBool(ok)}, true
			case hasNil(t) && isEq(t) && strings.HasSuffix(t.String(), ".Value == nil)") || hasNil(t) && isEq(t) && strings.Contains(t.String(), "(nil == ") && strings.HasSuffix(t.String(), ".Value)"):
				if ofConst(t) {
					return fBool(false), true
				}
			case t.Op == "call":
				if w, is := typeString(t); is && convertSide(w, isConv) == 'd' {
					return fStr(d.Name()), true
				}
			case t.Op == "bin" && limits != nil && (t.Obj == any("<") || t.Obj == any("==")):
				a, b := ofConst(t.Args[0]), ofConst(t.Args[1])
				if a != b {
					o := t.Args[0]
					if a {
						o = t.Args[1]
					}
					if k, ok := f.fold(o).(constant.Value); ok && k.Kind() == constant.Int {
						*limits = append(*limits, k)
					}
				}
			}
			return nil, false
		}
		r := f.cond(safe)
		*why = f.why
		return r
	}
	one := constant.MakeInt64(1)
	for _, d := range names {
		lo, hi, _ := intRange(d)
		var limits []constant.Value
		var why *Term
		judge(d, constant.MakeInt64(0), &limits, &why)
		judge(d, constant.MakeInt64(-1), &limits, &why)
		limits = append(limits, lo, hi, constant.MakeInt64(0))
		for _, s := range names {
			a, b, _ := intRange(s)
			limits = append(limits, a, b)
		}
		seen := map[string]bool{}
		bad := 0
		for _, k := range limits {
			for _, v := range []constant.Value{constant.BinaryOp(k, token.SUB, one), k, constant.BinaryOp(k, token.ADD, one)} {
				if seen[v.ExactString()] {
					continue
				}
				seen[v.ExactString()] = true
				// can such a constant be converted to the type, in a way which may overflow?
				arises := false
				for _, s := range names {
					a, b, _ := intRange(s)
					arises = arises || !holdsAll(s, d) && cmpC(a, token.LEQ, v) && cmpC(v, token.LEQ, b)
				}
				if !arises {
					continue
				}
				fits := cmpC(lo, token.LEQ, v) && cmpC(v, token.LEQ, hi)
				got := judge(d, v, nil, &why)
				if got < 0 {
					c.Fail("constants", "constants of "+d.Name(), pos, "the judgement depends on "+brief(fmt.Sprint(why)))
					bad = -1
					break
				}
				if (got == 1) != fits {
					bad++
					c.Fail("constants", fmt.Sprintf("%s to %s", v.ExactString(), d.Name()), pos, fmt.Sprintf("safe: %v, fits: %v", got == 1, fits))
				}
			}
			if bad < 0 {
				break
			}
		}
		if bad == 0 {
			c.OK("constants", "constants to "+d.Name(), fmt.Sprintf("%d boundary values", len(seen)))
		}
	}
}

// checkLimits: a function from a type's name to its limits gives the exact ones.
func checkLimits(c *Ctx) {
	p := c.P
	n := 0
	for _, fn := range p.PkgFuncs("analyzers") {
		rs := fn.Signature.Results()
		if len(fn.Params) != 1 || rs.Len() != 2 || fn.Params[0].Type().String() != "string" {
			continue
		}
		st, ok := rs.At(0).Type().Underlying().(*types.Struct)
		if !ok || fieldIndexOf(st, "min") < 0 || fieldIndexOf(st, "max") < 0 {
			continue
		}
		n++
		g := NewGate(p)
		r := g.Run(fn)
		pos := p.Pos(fn.Pos())
		for _, b := range intNames() {
			f := newFolder(p, map[*Term]any{gparam(fn, 0): fStr(b.Name())})
			pick := func(v GV) any {
				for _, l := range v.L {
					switch f.cond(l.g) {
					case 1:
						return f.fold(l.t)
					case -1:
						return foldUnknown{}
					}
				}
				return foldUnknown{}
			}
			lo, hi, _ := intRange(b)
			tu, ok := pick(r.Rets[0]).(foldTuple)
			_, noErr := pick(r.Rets[1]).(foldNil)
			if !c.Check(ok && noErr, "limits", b.Name(), pos, "is not recognised as an integer type") {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				var want constant.Value
				switch st.Field(i).Name() {
				case "min":
					want = lo
				case "max":
					want = hi
				case "signed":
					want = constant.MakeBool(constant.Sign(lo) < 0)
				case "size":
					want = constant.MakeInt64(8 * types.SizesFor("gc", "amd64").Sizeof(b))
				default:
					continue
				}
				got, ok := tu[i].(constant.Value)
				c.Check(ok && got.Kind() == want.Kind() && constant.Compare(got, token.EQL, want), "limits", b.Name()+" "+st.Field(i).Name(), pos, fmt.Sprintf("is %v, not %v", tu[i], want))
			}
		}
	}
	c.Check(n == 1, "limits", "one parser", "-", fmt.Sprintf("%d functions give the limits of an integer type", n))
}

func fieldIndexOf(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// analyzerFn is the function an analyzer runs.
func (p *Program) analyzerFn(id string) *ssa.Function {
	for _, d := range p.ruleTable("analyzers") {
		if d.ID == id && d.Create != nil {
			return p.analyzerRun(d)
		}
	}
	return nil
}
