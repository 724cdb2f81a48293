package main

import (
	"fmt"
	"strings"
)

func init() { register("C05", checkC05) }

func checkC05(c *Ctx) {
	c.Rule("scores", "the score constants increase from low to high")
	c.Rule("kept", "for each pair of thresholds the reported list is, in order, exactly the recorded findings whose severity and confidence are at or above them")
	c.Rule("count", "for each pair of thresholds the reported number found counts exactly the kept findings that are neither suppressed nor ignored-and-shown")
	c.Rule("names", "low, medium and high are the only accepted names, in any letter case; anything else ends the command")
	c.Rule("untouched", "between collecting and reporting, no field of a finding is assigned by the command, except its AI suggestion")
	p := c.P
	p.reportData(c, "kept")
	c.Guard("kept", "main", func() {
		m := p.mainModel()
		g := m.G
		sc := m.scores()
		c.Check(sc[0] < sc[1] && sc[1] < sc[2], "scores", "issue.Low < issue.Medium < issue.High", "issue/issue.go", fmt.Sprint(sc))
		rep := m.one("(*gosec.Analyzer).Report")
		L := res(rep, 0)
		el := g.listElem(L, elemType(callSig(rep).Results().At(0).Type()))
		info := m.calls("gosec.NewReportInfo")
		c.Check(len(info) > 0, "kept", "NewReportInfo is called", "-", fmt.Sprintf("%d call sites", len(info)))
		names := []string{"low", "medium", "high"}
		ls, lc := m.lowerOf("severity"), m.lowerOf("confidence")
		if ls == nil || lc == nil {
			c.Fail("names", "threshold options", "-", "an option's value is never normalised to lower case")
			return
		}
		sup := bAnd(g.eq(g.lenOf(nil, g.ptrField(el, "Suppressions")), mkInt(0)),
			bNot(bddOf(g.ptrField(el, "NoSec"))))
		for _, e := range info {
			pos := p.InstrPos(e.Ins)
			for i, sn := range names {
				for j, cn := range names {
					what := fmt.Sprintf("severity=%s confidence=%s", sn, cn)
					cs := bAnd(caseOf(g, ls, names, i), caseOf(g, lc, names, j))
					ctx := bAnd(e.G, cs)
					if ctx == bF {
						c.Fail("kept", what, pos, "the report is never reached with these thresholds")
						continue
					}
					sev, conf := g.ptrField(el, "Severity"), g.ptrField(el, "Confidence")
					keep := bAnd(g.geT(sev, mkInt(sc[i]), sev.Typ), g.geT(conf, mkInt(sc[j]), conf.Typ))
					ok, d := isFilter(g, e.Args[0], ctx, cs, L, el, keep)
					c.Check(ok, "kept", what, pos, d)
					// number found
					met := e.Args[1].constrain(ctx)
					mt := met.single()
					if mt == nil {
						c.Fail("count", what, pos, "metrics object not unique")
						continue
					}
					nf := g.fieldAt(e.Mem, mt, "NumFound")
					ok, d = isCount(g, nf, ctx, cs, L, bAnd(keep, sup), bAnd(keep, bAnd(sup, bT)))
					c.Check(ok, "count", what, pos, d)
				}
			}
			for _, n := range []string{"severity", "confidence"} {
				valid := bF
				for _, s := range names {
					valid = bOr(valid, g.eq(gvT(m.lowerOf(n)), mkString(s)))
				}
				ok, d := implies(e.G, valid)
				c.Check(ok, "names", "-"+n, pos, d)
			}
		}
		n := 0
		for _, e := range g.Events {
			if e.Kind != "store" {
				continue
			}
			for _, a := range e.Args[0].L {
				if a.t.Op == "fieldaddr" && strings.HasSuffix(namedName(a.t.Args[0].Typ), "/issue.Issue") {
					n++
					c.Fail("untouched", "assignment", p.InstrPos(e.Ins), "a field of a finding is assigned: "+a.t.String())
				}
			}
		}
		if n == 0 {
			c.OK("untouched", "cmd/gosec", "no assignment to a finding's field in the command")
		}
	})
	c.Min("kept", 9)
	c.Min("count", 9)
}

func caseOf(g *Gate, x *Term, names []string, i int) BDD {
	r := bT
	for k, n := range names {
		e := g.eq(gvT(x), mkString(n))
		if k != i {
			e = bNot(e)
		}
		r = bAnd(r, e)
	}
	return r
}

// fieldAt reads a field of a struct pointer in a memory snapshot.
func (g *Gate) fieldAt(mem GMem, ptr *Term, name string) GV {
	f := ptrFieldVar(ptr.Typ, name)
	if f == nil {
		panic(undecided{"no field " + name + " in " + ptr.String()})
	}
	return g.load(mem, mk("fieldaddr", f, "", newPtr(f.Type()), ptr))
}

// isFilter: the value is the list of elements of L that satisfy keep, in order.
func isFilter(g *Gate, v GV, ctx, cs BDD, L, el *Term, keep BDD) (bool, string) {
	for _, a := range v.L {
		if sat(bAnd(a.g, ctx)) == bF {
			continue
		}
		t := a.t
		if t.Op == "nil" || t.Op == "emptylist" {
			ok, d := implies(bAnd(a.g, ctx), bNot(g.existsB(L, keep)))
			if !ok {
				return false, "empty list although findings are kept: " + d
			}
			continue
		}
		if t.Op != "comp" || !isEmptyList(t.Args[0]) {
			if t == L {
				if ok, d := implies(bAnd(a.g, ctx), bNot(g.existsB(L, bNot(keep)))); !ok {
					return false, "unfiltered list: " + d
				}
				continue
			}
			return false, "not a filter of the recorded findings: " + t.String()
		}
		if t.Args[1] != L || t.Args[2] != el {
			return false, "list over " + t.Args[1].String() + " with elements " + t.Args[2].String()
		}
		got := bConstrain(condTerms[t], bAnd(a.g, cs))
		if ok, d := sameCond(bAnd(got, cs), bAnd(keep, cs)); !ok {
			return false, "kept: " + d
		}
	}
	return true, "in order, exactly when " + bString(keep)
}

// isCount: the value is the number of elements of L that satisfy want.
func isCount(g *Gate, v GV, ctx, cs BDD, L *Term, want, _ BDD) (bool, string) {
	exp := g.countT(L, want)
	n := 0
	for _, a := range v.L {
		on := sat(bAnd(a.g, ctx))
		if on == bF {
			continue
		}
		t := strip(a.t)
		if t == exp {
			n++
			continue
		}
		if t.Op == "count" && t.Args[0] == L {
			if ok, d := sameCond(bAnd(condTerms[t], cs), bAnd(want, cs)); !ok {
				return false, "counts differently: " + d
			}
			n++
			continue
		}
		// kept only where it is known to be equal already
		eq := bF
		for _, at := range bSupport(a.g) {
			if at.Op == "bin" && at.Obj == "==" && (at.Args[0] == t || at.Args[1] == t) {
				o := at.Args[0]
				if o == t {
					o = at.Args[1]
				}
				if o == exp || o.Op == "count" && o.Args[0] == L && sat(bAnd(cs, bXor(condTerms[o], want))) == bF {
					eq = bOr(eq, bm.atom(at))
				}
			}
		}
		if ok, d := implies(on, eq); !ok {
			return false, "reports " + brief(t.String()) + ": " + d
		}
		n++
	}
	if n == 0 {
		return false, "value not determined"
	}
	return true, "counts exactly when " + bString(want)
}
