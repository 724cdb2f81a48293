package main

import (
	"fmt"
	"strings"
)

func init() { register("C30", checkC30) }

func checkC30(c *Ctx) {
	p := c.P
	rel := "report/sarif"
	c.Rule("rule-index", "a result's rule index is the position of the descriptor with its rule id in the final list of rules")
	c.Rule("one-descriptor", "a descriptor is added exactly when no earlier finding had the same rule id")
	c.Rule("taxonomy", "each CWE a finding refers to has a taxonomy entry")
	c.Rule("own-result", "a result carries its own finding's rule id, level, message, location and suppressions")
	m := p.reportModel(rel, "GenerateReport", nil)
	g := m.G
	ruleID := m.f("RuleID")

	// the list of rule descriptors
	var list *Term // loop-carried symbol
	var la gl2
	c.Guard("rule-index", "rules", func() {
		drivers := g.fieldWrites(namedOf(p, rel, "ToolComponent"), "Rules")
		for _, w := range drivers {
			for _, a := range w.Val.possible(w.G).L {
				t := a.t
				pos := p.InstrPos(w.Ev.Ins)
				if t.Op == "comp" && stripRev(t.Args[1]) == m.Issues {
					// built by a traversal with a condition of its own: the symbol is its carried variable
					for s, l := range g.Latch {
						if l.List == t.Args[1] && hasAppend(l.Val) && sameElemType(s, t) && list == nil && appendOf(l.Val, t.Args[2]) {
							list, la = s, l
						}
					}
					continue
				}
				if t.Op == "loopval" {
					list, la = t.Args[0], g.Latch[t.Args[0]]
					continue
				}
				c.Fail("rule-index", "list of rule descriptors", pos, "is "+brief(t.String()))
			}
		}
		if list == nil {
			c.Fail("rule-index", "list of rule descriptors", "-", "is not built while traversing the findings")
			return
		}
		c.Check(g.emptyAt(la.Init.term()), "rule-index", "list of rule descriptors starts empty", "-", la.Init.String())
		// it only grows at its end
		added := bF
		for _, a := range la.Val.L {
			switch {
			case a.t == list:
			case a.t.Op == "append" && a.t.Args[0] == list && len(a.t.Args) == 2:
				added = bOr(added, a.g)
				id := m.memAt(a.t.Args[1], "ReportingDescriptor", "ID")
				c.Check(id != nil && m.is(*id, "RuleID"), "one-descriptor", "id of a new descriptor", "-", "is the finding's rule id")
			default:
				c.Fail("rule-index", "list of rule descriptors only grows at its end", "-", "becomes "+brief(a.t.String()))
			}
		}
		c.Check(added != bF, "one-descriptor", "descriptors are added", "-", "")
		// never reordered
		for _, e := range g.Events {
			if e.Kind == "call" && (strings.HasPrefix(e.Name, "sort.") || strings.HasPrefix(e.Name, "slices.")) {
				for _, a := range e.Args {
					if gvHas(a, func(x *Term) bool { return x == list }) {
						c.Fail("rule-index", "list of rule descriptors is never reordered", p.InstrPos(e.Ins), e.Name)
					}
				}
			}
			if e.Kind == "store" {
				for _, a := range e.Args[0].L {
					if a.t.Op == "indexaddr" && contains(a.t, func(x *Term) bool { return x == list }) {
						c.Fail("rule-index", "list of rule descriptors is never overwritten", p.InstrPos(e.Ins), brief(a.t.String()))
					}
				}
			}
		}
		// index of each result
		ws := g.fieldWrites(namedOf(p, rel, "Result"), "RuleIndex")
		c.Check(len(ws) > 0, "rule-index", "rule index is set", "-", fmt.Sprint(len(ws)))
		for _, w := range ws {
			pos := p.InstrPos(w.Ev.Ins)
			found := bF
			for _, a := range w.Val.possible(w.G).L {
				gd := bAnd(a.g, w.G)
				t := strip(a.t)
				switch {
				case m.isNewIndex(t, list):
					// a descriptor was appended for this finding
					ok, d := implies(bAnd(gd, la.G), added)
					c.Check(ok, "rule-index", "index of a new descriptor", pos, "one is appended: "+d)
				case t.Op == "firstidx" && t.Args[0] == list:
					found = bOr(found, a.g)
					c.Check(m.condIsSameID(condTerms[t], list), "rule-index", "index of a known descriptor", pos, "first with "+bString(condTerms[t]))
					ok, d := implies(bAnd(gd, la.G), bNot(added))
					c.Check(ok, "one-descriptor", "known descriptors are not added again", pos, d)
				case t.Op == "mapget":
					found = bOr(found, a.g)
					c.Check(strip(t.Args[1]) == ruleID, "rule-index", "index of a known descriptor", pos, "looked up by "+t.Args[1].String())
					n := 0
					for _, e := range g.Events {
						if e.Kind == "mapstore" && e.Args[0].single() == t.Args[0] {
							n++
							v := e.Args[2].single()
							c.Check(m.is(e.Args[1], "RuleID") && v != nil && m.isNewIndex(strip(v), list), "rule-index", "index remembered for a rule id", p.InstrPos(e.Ins), brief(e.Args[2].String()))
							ok, d := sameCond(bAnd(e.G, la.G), added)
							c.Check(ok, "rule-index", "index remembered exactly when a descriptor is added", p.InstrPos(e.Ins), d)
						}
					}
					c.Check(n > 0, "rule-index", "indices are remembered", pos, fmt.Sprint(n))
					ok, d := implies(bAnd(gd, la.G), bNot(added))
					c.Check(ok, "one-descriptor", "known descriptors are not added again", pos, d)
				default:
					c.Fail("rule-index", "rule index of a result", pos, "is "+brief(t.String()))
				}
			}
			c.Check(found != bF, "one-descriptor", "known descriptors are found again", pos, bString(found))
		}
	})

	c.Guard("taxonomy", "taxa", func() {
		cwe := m.f("Cwe")
		n := 0
		for _, w := range g.fieldWrites(namedOf(p, rel, "ReportingDescriptorReference"), "ID") {
			if !m.overIssues(w.Loops) {
				continue
			}
			n++
			v := w.Val.single()
			c.Check(v != nil && strip(g.deComp(v)) == g.ptrField(cwe, "ID"), "taxonomy", "CWE a rule refers to", p.InstrPos(w.Ev.Ins), brief(w.Val.String()))
		}
		c.Check(n > 0, "taxonomy", "rules refer to CWEs", "-", fmt.Sprint(n))
		// taxa
		k := 0
		for _, w := range g.fieldWrites(namedOf(p, rel, "ToolComponent"), "Taxa") {
			cd, f, why := m.listValue(w.Val, w.G)
			pos := p.InstrPos(w.Ev.Ins)
			if why != "" {
				c.Fail("taxonomy", "taxonomy entries", pos, why)
				continue
			}
			k++
			id := m.memAt(f, "ReportingDescriptor", "ID")
			if id != nil {
				// a weakness missing from the catalogue has no entry to show (see C08)
				v := *id
				var real []gl
				for _, a := range v.L {
					if !contains(a.t, func(x *Term) bool { return x.Op == "nil" }) {
						real = append(real, a)
					}
				}
				v = gvNorm(real)
				id = &v
			}
			c.Check(id != nil && m.gvMentions(*id, "Cwe"), "taxonomy", "id of a taxonomy entry", pos, "is the CWE number")
			// an entry is added for each finding with a CWE not seen before
			cweSet := g.notNil(cwe)
			seen := bF
			for _, a := range bSupport(cd) {
				look, is := a, bddOf(a)
				if isEq(a) {
					// what is remembered is there
					x, y := strip(a.Args[0]), strip(a.Args[1])
					if isNilT(x) {
						x, y = y, x
					}
					if !isNilT(y) || x.Op != "mapget" {
						continue
					}
					look, is = x, bNot(is)
				}
				if (look.Op == "has" || look.Op == "mapget") && strip(look.Args[1]) == g.ptrField(cwe, "ID") {
					seen = bOr(seen, is)
					for _, e := range g.Events {
						if e.Kind == "mapstore" && e.Args[0].single() == look.Args[0] {
							ok, d := implies(bAnd(e.G, m.noFailure()), bOr(cd, is))
							c.Check(ok && strip(e.Args[1].term()) == g.ptrField(cwe, "ID"), "taxonomy", "a CWE is remembered only when its entry is added", p.InstrPos(e.Ins), d)
						}
					}
				}
			}
			ok, d := implies(bAnd(bAnd(cweSet, bNot(seen)), m.noFailure()), cd)
			c.Check(ok, "taxonomy", "entry for each new CWE", pos, d)
		}
		c.Check(k == 1, "taxonomy", "taxonomy entries are set", "-", fmt.Sprint(k))
		// the taxonomy is part of the run
		t := g.fieldWrites(namedOf(p, rel, "Run"), "Taxonomies")
		c.Check(len(t) == 1, "taxonomy", "taxonomy is part of the run", "-", fmt.Sprint(len(t)))
	})

	c.Guard("own-result", "result", func() {
		m.own(c, rel, "Result", "RuleID", "RuleID")
		m.own(c, rel, "ReportingDescriptor", "ID", "RuleID")
		for _, w := range g.fieldWrites(namedOf(p, rel, "Result"), "Suppressions") {
			pos := p.InstrPos(w.Ev.Ins)
			v := g.nonEmptyList(w.Val.possible(w.G)).single()
			if v == nil || v.Op != "comp" && v.Op != "nil" {
				c.Fail("own-result", "suppressions of a result", pos, "are "+brief(w.Val.String()))
				continue
			}
			if v.Op == "nil" {
				c.Fail("own-result", "suppressions of a result", pos, "are never shown")
				continue
			}
			sup := m.f("Suppressions")
			c.Check(stripRev(g.deComp(v.Args[1])) == sup && g.emptyAt(v.Args[0]) && condTerms[v] == bT, "own-result", "suppressions of a result", pos, "one for each suppression of the finding: "+brief(v.String())+" when "+bString(condTerms[v]))
		}
		for f, src := range map[string]string{"Kind": "Kind", "Justification": "Justification"} {
			ws := g.fieldWrites(namedOf(p, rel, "Suppression"), f)
			c.Check(len(ws) > 0, "own-result", "suppression "+f, "-", fmt.Sprint(len(ws)))
			for _, w := range ws {
				el := g.listElem(m.f("Suppressions"), elemType(m.f("Suppressions").Typ))
				v := w.Val.single()
				c.Check(v != nil && strip(g.deComp(v)) == g.anyField(el, src), "own-result", "suppression "+f, p.InstrPos(w.Ev.Ins), brief(w.Val.String()))
			}
		}
		c.Check(len(g.fieldWrites(namedOf(p, rel, "Result"), "Suppressions")) > 0, "own-result", "suppressions are set", "-", "")
		// locations: the result's own physical location
		locs := g.fieldWrites(namedOf(p, rel, "Result"), "Locations")
		c.Check(len(locs) > 0, "own-result", "locations are set", "-", fmt.Sprint(len(locs)))
		for _, w := range locs {
			c.Check(m.overIssues(w.Loops) && len(w.Loops) == 1, "own-result", "locations are set for each result", p.InstrPos(w.Ev.Ins), "")
			es, ok := g.sliceElems(w.Ev.Mem, w.Val.term())
			if ok {
				c.Check(len(es) == 1, "own-result", "one location per result", p.InstrPos(w.Ev.Ins), fmt.Sprint(len(es)))
			}
		}
		for _, x := range [][3]string{{"Region", "StartLine", "Line"}, {"Region", "EndLine", "Line"}, {"Region", "StartColumn", "Col"}, {"Region", "EndColumn", "Col"}} {
			for _, w := range g.fieldWrites(namedOf(p, rel, x[0]), x[1]) {
				if noErrors(w.G) == bF {
					continue
				}
				for _, a := range noFailed(w.Val).L {
					c.Check(m.mentions(a.t, x[2]), "own-result", x[0]+"."+x[1], p.InstrPos(w.Ev.Ins), brief(a.t.String()))
				}
			}
		}
		// start is the first part of the line range, end the last
		for _, w := range g.fieldWrites(namedOf(p, rel, "Region"), "StartLine") {
			if noErrors(w.G) == bF {
				continue
			}
			c.Check(!gvHas(noFailed(w.Val), func(x *Term) bool { return x.Op == "index" && len(x.Args) == 2 && x.Args[1] == mkInt(1) }), "own-result", "start line is the first of a range", p.InstrPos(w.Ev.Ins), brief(w.Val.String()))
		}
		for _, w := range g.fieldWrites(namedOf(p, rel, "Result"), "Fixes") {
			given := bF
			for _, a := range w.Val.L {
				if !isNilT(strip(a.t)) {
					given = bOr(given, bAnd(w.G, a.g))
				}
			}
			if given == bF {
				continue
			}
			ok, d := implies(given, bNot(g.eq(gvT(m.f("Autofix")), mkString(""))))
			c.Check(ok, "own-result", "a fix is shown", p.InstrPos(w.Ev.Ins), "only when there is one: "+d)
		}
	})
	c.Min("rule-index", 4)
	c.Min("one-descriptor", 3)
	c.Min("taxonomy", 5)
	c.Min("own-result", 10)
}

func hasAppend(v GV) bool {
	for _, a := range v.L {
		if a.t.Op == "append" {
			return true
		}
	}
	return false
}

func appendOf(v GV, x *Term) bool {
	for _, a := range v.L {
		if a.t.Op == "append" && a.t.Args[len(a.t.Args)-1] == x {
			return true
		}
	}
	return false
}

func sameElemType(a, b *Term) bool {
	return a.Typ != nil && b.Typ != nil && a.Typ.String() == b.Typ.String()
}

// isNewIndex: len(list), the index the next appended element gets.
func (m *reportModel) isNewIndex(t, list *Term) bool {
	isLen := func(x *Term) bool { return x.Op == "len" && x.Args[0] == list }
	if isLen(t) {
		return true
	}
	// (len(list)+1)-1
	if t.Op == "bin" && t.Obj == "-" && t.Args[1] == mkInt(1) {
		u := t.Args[0]
		return u.Op == "bin" && u.Obj == "+" && (isLen(u.Args[0]) && u.Args[1] == mkInt(1) || isLen(u.Args[1]) && u.Args[0] == mkInt(1))
	}
	return false
}

// memAt finds the value written to a field of a fresh object during the traversal.
func (m *reportModel) memAt(obj *Term, typ, field string) *GV {
	for _, w := range m.G.fieldWrites(namedOf(m.P, "report/sarif", typ), field) {
		if w.Base == obj {
			v := w.Val
			return &v
		}
	}
	return nil
}

// condIsSameID: a descriptor of the list has the finding's rule id.
func (m *reportModel) condIsSameID(cd BDD, list *Term) bool {
	g := m.G
	el := g.listElem(list, elemType(list.Typ))
	return sameBDD(cd, g.eq(gvT(m.f("RuleID")), g.ptrField(el, "ID")))
}

func sameBDD(a, b BDD) bool { ok, _ := sameCond(a, b); return ok }

// own: the field is always the same field of the finding when written during the traversal for it.
func (m *reportModel) own(c *Ctx, rel, typ, field, src string) {
	n := 0
	for _, w := range m.G.fieldWrites(namedOf(m.P, rel, typ), field) {
		if !m.overIssues(w.Loops) {
			continue
		}
		if m.mentions(w.Val.term(), "Cwe") {
			continue
		}
		if v := w.Val.single(); v != nil && contains(v, func(x *Term) bool { return x.Op == "call" }) {
			continue // taxonomy entries
		}
		n++
		c.Check(m.is(w.Val, src), "own-result", typ+"."+field, m.P.InstrPos(w.Ev.Ins), brief(w.Val.String()))
	}
	c.Check(n > 0, "own-result", typ+"."+field+" is set", "-", fmt.Sprint(n))
}
