package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C03", checkC03) }

func checkC03(c *Ctx) {
	c.Rule("in-source", "what is recorded for an annotation is of kind inSource with the text after the dashes of that annotation")
	c.Rule("directive", "every comment group with an annotation contributes its own record")
	c.Rule("off", "with annotations ignored nothing is recorded")
	c.Rule("record", "a record is kept for the annotation's own range and rules only")
	c.Rule("range", "the line range of a text is its number, or its two numbers separated by a dash")
	c.Rule("lookup", "the records looked up are those of the annotations that cover the finding")
	c.Rule("effect", "a finding is suppressed exactly when a record exists for it")
	c.Rule("answer", "a finding gets the records for all rules and for its rule, and the external one exactly when its rule is suppressed externally")
	c.Rule("own-list", "the list attached to a finding shares no storage with another finding's or with the index")
	c.Rule("attach", "the list is attached to a finding once and changed by nobody")

	c.Guard("record", "add", func() { checkAnnotationRecord(c) })
	c.Guard("effect", "lookup", func() { checkAnnotationEffect(c) })
	c.Guard("in-source", "ignore", func() {
		checkDirective(c, func(g *Gate, e *GEvent, groups *Term, _ func(BDD) BDD) { checkJustification(c, g, e, groups) })
	})
	c.Guard("answer", "lookup", func() { checkRecordAnswer(c) })
	c.Guard("attach", "writes", func() { checkAttach(c) })
}

func checkJustification(c *Ctx, g *Gate, e *GEvent, groups *Term) {
	p := c.P
	ip := p.InstrPos(e.Ins)
	text := func(t *Term) bool {
		return contains(t, func(y *Term) bool {
			return y.Op == "call" && strings.HasSuffix(funcNameOf(y), "CommentGroup).Text") && y.Args[0] == g.listElem(groups, elemType(groups.Typ))
		})
	}
	get := func(n string) GV {
		return g.apply1(e.Args[2], func(t *Term) GV {
			st := structOf(t.Typ)
			return g.field(t, st.Field(fieldIndex(st, n)))
		})
	}
	kind := get("Kind").single()
	s, ok := "", false
	if kind != nil {
		s, ok = constStr(kind)
	}
	c.Check(ok && s == "inSource", "in-source", "kind", ip, get("Kind").String())
	for _, a := range caseSplit(get("Justification")) {
		G := bAnd(a.g, e.G)
		if sat(G) == bF {
			continue
		}
		if s, ok := constStr(a.t); ok {
			// of the text before and after the dashes there is only one
			both := sat(bRestrict(G, func(t *Term) (bool, bool) {
				x, y := t, t
				if t.Op != "bin" || len(t.Args) != 2 {
					return false, false
				}
				x, y = strip(t.Args[0]), strip(t.Args[1])
				isParts := func(y *Term) bool {
					return y.Op == "len" && y.Args[0].Op == "call" && strings.HasSuffix(funcNameOf(y.Args[0]), "Regexp).Split")
				}
				m, okM := constInt(x)
				if isParts(x) {
					x, okM = mkInt(2), true
					m = 2
				}
				n, okN := constInt(y)
				if isParts(y) {
					n, okN = 2, true
				}
				if !okM || !okN {
					return false, false
				}
				switch t.Obj {
				case any("<"):
					return m < n, true
				case any("=="):
					return m == n, true
				}
				return false, false
			}))
			okN, d := both == bF, bString(both)
			c.Check(s == "" && okN, "in-source", "no justification without dashes", ip, d)
			continue
		}
		t := a.t
		for t.Op == "call" && (funcNameOf(t) == "strings.TrimSpace" || strings.HasPrefix(funcNameOf(t), "strings.Trim")) {
			if len(t.Args) > 1 {
				cut, isC := constStr(t.Args[1])
				if !isC || strings.Trim(cut, " \n\t\r") != "" {
					break
				}
			}
			t = t.Args[0]
		}
		c.Check(dashPart(p, t, 1, text), "in-source", "justification is the text after the dashes of this annotation", ip, brief(a.t.String()))
	}
}

func checkRecordAnswer(c *Ctx) {
	p := c.P
	fn := p.Method("", "Analyzer", "getSuppressionsAtLineInFile")
	if fn == nil {
		panic(undecided{"the lookup of suppressions was not found"})
	}
	g := NewGate(p)
	r := g.Run(fn)
	pos := p.Pos(fn.Pos())
	recv, id := gparam(fn, 0), gparam(fn, 3)
	ext := externalB(g, recv, id)
	var res *Term
	for _, a := range bSupport(r.Rets[1].bool()) {
		if a.Op == "has" && a.Args[0].Op == "alloc" {
			res = a.Args[0]
		}
	}
	if res == nil {
		panic(undecided{"the records looked up are not known"})
	}
	for _, a := range caseSplit(r.Rets[0]) {
		if sat(a.g) == bF {
			continue
		}
		base, added := appendParts(unverT(a.t))
		if base.Op == "mapget" && base.Args[0] == res {
			// the looked up list was made for this finding (rule lookup)
			added = append([]*Term{mk("spread", nil, "", nil, base)}, added...)
			base = mk("emptylist", nil, "", nil)
		}
		c.Check(isEmptyList(base) || base.Op == "alloc", "own-list", "list of a finding", pos, "starts from "+brief(base.String()))
		nAll, nRule, nExt := 0, 0, 0
		for _, x := range added {
			switch {
			case x.Op == "spread" && x.Args[0].Op == "mapget" && x.Args[0].Args[0] == res && x.Args[0].Args[1] == mkString("*"):
				nAll++
			case x.Op == "spread" && x.Args[0].Op == "mapget" && x.Args[0].Args[0] == res && x.Args[0].Args[1] == id:
				nRule++
			case x.Op == "struct":
				st := structOf(x.Typ)
				k, _ := constStr(g.field(x, st.Field(fieldIndex(st, "Kind"))).term())
				j, okJ := constStr(g.field(x, st.Field(fieldIndex(st, "Justification"))).term())
				nExt++
				c.Check(k == "external" && okJ && j == constValueOf(p, "externalSuppressionJustification"), "answer", "external record", pos, brief(x.String()))
			default:
				c.Fail("answer", "records of a finding", pos, "also "+brief(x.String()))
			}
		}
		// a list of records that does not exist adds nothing
		hasK := func(k *Term) BDD { return bddOf(mk("has", nil, "", types.Typ[types.Bool], res, k)) }
		G := unver(a.g)
		okA := nAll == 1 || nAll == 0 && sat(bAnd(G, hasK(mkString("*")))) == bF
		okR := nRule == 1 || nRule == 0 && sat(bAnd(G, hasK(id))) == bF
		c.Check(okA && okR, "answer", "records of the annotations", pos, fmt.Sprintf("all rules %d, own rule %d when %s", nAll, nRule, bString(G)))
		var ok bool
		var d string
		if nExt == 1 {
			ok, d = implies(G, ext)
		} else if nExt == 0 {
			ok, d = implies(G, bNot(ext))
		}
		c.Check(ok, "answer", "external record present exactly when the rule is suppressed externally", pos, d)
	}
}

func checkAttach(c *Ctx) {
	p := c.P
	f := p.FieldVar("issue", "Issue", "Suppressions")
	with := p.Method("issue", "Issue", "WithSuppressions")
	n := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					if fa, ok := i.Addr.(*ssa.FieldAddr); ok && addrField(fa) == f {
						n++
						c.Check(fn == with && i.Val == ssa.Value(fn.Params[1]) && fa.X == ssa.Value(fn.Params[0]), "attach", "written in "+FuncName(fn), p.InstrPos(i), i.Val.String())
					}
					// elements written through a loaded list
					if ia, ok := i.Addr.(*ssa.IndexAddr); ok && loadsField(ia.X, f) {
						c.Fail("attach", "record changed in "+FuncName(fn), p.InstrPos(i), "element of an attached list")
					}
					if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
						if ia, ok := fa.X.(*ssa.IndexAddr); ok && loadsField(ia.X, f) {
							c.Fail("attach", "record changed in "+FuncName(fn), p.InstrPos(i), "field of an attached record")
						}
					}
				case *ssa.Call:
					if bi, ok := i.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "copy") && loadsField(i.Call.Args[0], f) {
						c.Fail("attach", "attached list extended in "+FuncName(fn), p.InstrPos(i), bi.Name())
					}
				}
			}
		}
	}
	c.Check(n >= 1, "attach", "attached by WithSuppressions", "-", fmt.Sprint(n))
	up := p.Method("", "Analyzer", "updateIssues")
	look := p.Method("", "Analyzer", "getSuppressionsAtLineInFile")
	g := NewGate(p)
	g.noInline(look, with)
	g.Run(up)
	k := 0
	for _, e := range g.Events {
		if e.Kind != "call" || e.Fn != with {
			continue
		}
		k++
		ok := false
		for _, x := range g.Events {
			if x.Kind == "call" && x.Fn == look && e.Args[1].single() == res(x, 0) && e.Args[0].single() == gparam(up, 1) {
				ok = true
			}
		}
		c.Check(ok, "attach", "a finding gets its own records", p.InstrPos(e.Ins), e.Args[1].String())
	}
	c.Check(k >= 1, "attach", "records are attached", p.Pos(up.Pos()), fmt.Sprint(k))
}

func loadsField(v ssa.Value, f *types.Var) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return addrField(fa) == f
		}
	case *ssa.Slice:
		return loadsField(x.X, f)
	}
	return false
}
