package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C09", checkC09) }

// mentions: the value is computed from the named field of the finding.
func (m *reportModel) mentions(t *Term, name string) bool {
	f := m.f(name)
	return deepContains(m.G.deComp(t), func(x *Term) bool { return x == f })
}

func (m *reportModel) gvMentions(v GV, name string) bool {
	for _, a := range v.L {
		if !m.mentions(a.t, name) {
			return false
		}
	}
	return len(v.L) > 0
}

// is: the value is the named field of the finding, unchanged.
func (m *reportModel) is(v GV, name string) bool {
	t := v.single()
	return t != nil && strip(m.G.deComp(t)) == m.f(name)
}

// under keeps the alternatives possible under a condition.
func (v GV) possible(c BDD) GV {
	var out []gl
	for _, a := range v.L {
		if sat(bAnd(a.g, c)) != bF {
			out = append(out, a)
		}
	}
	return gvNorm(out)
}

// oncePerFinding: the writes to a field happen exactly once for each finding of the list when no error
// was returned, and with the given value.
func (m *reportModel) oncePerFinding(c *Ctx, rule, what string, ws []fwrite) {
	tot := bF
	for _, w := range ws {
		if !m.overIssues(w.Loops) || len(w.Loops) != 1 {
			c.Fail(rule, what, m.P.InstrPos(w.Ev.Ins), "not written once for each finding")
			return
		}
		if sat(bAnd(tot, w.G)) != bF {
			c.Fail(rule, what, m.P.InstrPos(w.Ev.Ins), "may be written twice for a finding")
		}
		tot = bOr(tot, w.G)
	}
	if len(ws) == 0 {
		c.Fail(rule, what, "-", "never written")
	}
}

// listValue: the list is built by one traversal of the findings; it returns the condition under which
// a finding contributes and what it contributes.
func (m *reportModel) listValue(v GV, ctx BDD) (BDD, *Term, string) {
	v = m.G.nonEmptyList(v.possible(ctx))
	t := v.single()
	if t == nil {
		return bF, nil, "is not one list: " + brief(v.String())
	}
	if t.Op != "comp" {
		return bF, nil, "is not built from the findings one by one: " + brief(t.String())
	}
	if !m.G.emptyAt(t.Args[0]) {
		return bF, nil, "starts with other entries: " + brief(t.Args[0].String())
	}
	L, cd, f := t.Args[1], condTerms[t], t.Args[2]
	for L.Op == "comp" && isEmptyList(L.Args[0]) {
		L, cd, f = m.G.fuse(L, cd, f)
	}
	if L != m.Issues {
		return bF, nil, "is built from " + brief(L.String()) + " rather than the findings in their order"
	}
	return cd, f, ""
}

// nonEmptyList leaves out that there is no list when what it is built from is empty.
func (g *Gate) nonEmptyList(v GV) GV {
	var list *Term
	none := bF
	for _, a := range v.L {
		switch {
		case isEmptyList(a.t):
			none = bOr(none, a.g)
		case list == nil && a.t.Op == "comp" && isEmptyList(a.t.Args[0]):
			list = a.t
		default:
			return v
		}
	}
	if list == nil || none == bF {
		return v
	}
	n := g.lenOf(nil, list.Args[1]).single()
	if n == nil || sat(bAnd(none, bNot(g.eq1(n, mkInt(0))))) != bF {
		return v
	}
	return gvT(list)
}

// suiteIndex: a suite chosen by its position is the one of the finding's description: the position remembered
// for the description, which is that of the suite added for it, or the end of the list just added to.
func (m *reportModel) suiteIndex(c *Ctx, w fwrite) {
	if w.Base.Op != "index" {
		return
	}
	pos := m.P.InstrPos(w.Ev.Ins)
	L, i := w.Base.Args[0], strip(w.Base.Args[1])
	atEnd := func(L, i *Term) bool {
		x, k, ok := offset(i)
		if !ok {
			return false
		}
		n := m.G.lenOf(nil, L.Args[0]).single()
		if n == nil {
			return false
		}
		y, l, ok := offset(n)
		return ok && x == y && k == l
	}
	isAppend := func(t *Term) bool { return t.Op == "append" && len(t.Args) == 2 }
	if isAppend(L) {
		c.Check(atEnd(L, i), "own-data", "junit position of a new suite", pos, "is "+brief(i.String()))
		return
	}
	if i.Op != "mapget" {
		return
	}
	remembered := bF
	for _, e := range m.G.Events {
		if e.Kind != "mapstore" || e.Args[0].term() != i.Args[0] {
			continue
		}
		for _, a := range caseSplit(e.Args[2]) {
			if sat(bAnd(a.g, e.G)) == bF {
				continue
			}
			// the list the suite was added to under this condition
			ok := false
			for _, x := range m.G.fieldWrites(namedOf(m.P, "report/junit", "Report"), "Testsuites") {
				for _, b := range x.Val.L {
					if sat(bAnds(b.g, x.G, a.g, e.G)) != bF && isAppend(b.t) && atEnd(b.t, a.t) {
						ok = true
					}
				}
			}
			for _, l := range m.G.Latch {
				for _, b := range l.Val.L {
					if sat(bAnds(b.g, a.g, e.G)) != bF && isAppend(b.t) && atEnd(b.t, a.t) {
						ok = true
					}
				}
			}
			c.Check(ok, "own-data", "junit position remembered for a description", m.P.InstrPos(e.Ins), "is "+brief(a.t.String()))
			remembered = bOr(remembered, bAnd(a.g, e.G))
		}
	}
	known := bF
	for _, a := range bSupport(w.G) {
		if a.Op == "has" && len(a.Args) == 2 && a.Args[0] == i.Args[0] {
			known = bOr(known, bm.atom(a))
		}
	}
	ok, d := implies(w.G, known)
	c.Check(ok, "own-data", "junit position is only taken for a known description", pos, d)
	c.Check(remembered != bF, "own-data", "junit position remembered for a description", pos, "never")
}

func (g *Gate) emptyAt(t *Term) bool {
	if isEmptyList(t) {
		return true
	}
	n := g.lenOf(nil, t).single()
	return n == mkInt(0)
}

// noFailure: no step of the traversal failed for a finding.
func (m *reportModel) noFailure() BDD {
	fail := bF
	for _, e := range m.G.Events {
		if e.Kind == "earlystop" && stripRev(e.Args[0].term()) == m.Issues {
			for _, a := range bSupport(e.G) {
				if c, ok := condTerms[a]; ok && a.Op == "exists" && stripRev(condList(a)) == m.Issues {
					fail = bOr(fail, c)
				}
			}
		}
	}
	return bNot(fail)
}

// storedElems are the elements of a list made in a loop, as they are stored into it.
func (g *Gate) storedElems(l *Term) ([]GV, bool) {
	at, ok := allocElemT(l).(*types.Array)
	if l.Op != "alloc" || !ok || at.Len() > 64 {
		return nil, false
	}
	out := make([]GV, at.Len())
	for _, e := range g.Events {
		if e.Kind != "store" || len(e.Args) < 2 {
			continue
		}
		for _, a := range e.Args[0].L {
			if a.t.Op != "indexaddr" || strip(a.t.Args[0]) != l {
				continue
			}
			k, ok := constInt(strip(a.t.Args[1]))
			if !ok || k < 0 || k >= at.Len() || out[k].L != nil || !(bAnd(a.g, e.G) == e.G) {
				return nil, false
			}
			out[k] = e.Args[1]
		}
	}
	for _, v := range out {
		if v.L == nil {
			return nil, false
		}
	}
	return out, true
}

func checkC09(c *Ctx) {
	p := c.P
	c.Rule("every-finding", "each finding handed to the writer produces exactly one entry, in order")
	c.Rule("own-data", "an entry carries its own finding's file, line, description, severity and further data")
	c.Rule("whole-data", "formats that render the data as a whole are given all of it")
	c.Rule("template", "the text and HTML templates show every finding, error and the statistics")
	c.Rule("encoding", "no field of a finding or of the report data is left out of the encoded form")

	// CSV
	p.reportData(c, "whole-data")
	p.keptParts(c, "whole-data", "report/sarif", "report/sonar", "report/junit")
	c.Guard("every-finding", "csv", func() {
		m := p.reportModel("report/csv", "WriteReport", func(e *GEvent) bool { return strings.HasPrefix(e.Name, "(*encoding/csv.Writer).Write") })
		m.complete(c, "every-finding", "csv")
		ws := gateCalls(m.G, "(*encoding/csv.Writer).Write")
		for _, e := range gateCalls(m.G, "(*encoding/csv.Writer).WriteAll") {
			// the same as writing them one by one
			base, parts := listParts(m.G, e.Args[1].term())
			if !isEmptyList(base) || len(parts) != 1 || parts[0].L == nil {
				c.Fail("every-finding", "csv record", p.InstrPos(e.Ins), "the records cannot be read off")
				continue
			}
			one := *e
			one.Args = []GV{e.Args[0], gvT(parts[0].f)}
			one.Loops = append(append([]*Term{}, e.Loops...), parts[0].L)
			one.G = bAnd(e.G, parts[0].c)
			ws = append(ws, &one)
		}
		tot := bF
		for _, e := range ws {
			pos := p.InstrPos(e.Ins)
			c.Check(m.overIssues(e.Loops) && len(e.Loops) == 1 && sat(bAnd(tot, e.G)) == bF, "every-finding", "csv record", pos, "written once per finding")
			tot = bOr(tot, e.G)
			es, ok := m.G.sliceElems(e.Mem, e.Args[1].term())
			if e.Name == "(*encoding/csv.Writer).WriteAll" {
				es, ok = m.G.storedElems(e.Args[1].term())
			}
			if !ok || len(es) != 7 {
				c.Fail("own-data", "csv record", pos, fmt.Sprintf("has %d columns instead of 7, or they cannot be read off", len(es)))
				continue
			}
			for i, f := range []string{"File", "Line", "What", "", "", "Code", ""} {
				if f != "" {
					c.Check(m.is(es[i], f), "own-data", "csv column "+f, pos, "is "+brief(es[i].String()))
				}
			}
			for i, f := range map[int]string{3: "Severity", 4: "Confidence"} {
				c.Check(m.isScore(es[i].term(), f), "own-data", "csv column "+f, pos, "is "+brief(es[i].String()))
			}
			c.Check(m.gvMentions(es[6].possible(m.G.notNil(m.f("Cwe"))), "Cwe"), "own-data", "csv column CWE", pos, "is "+brief(es[6].String()))
		}
		ok, d := implies(m.noFailure(), tot)
		c.Check(ok, "every-finding", "csv writes a record", "-", d)
	})

	// golint
	c.Guard("every-finding", "golint", func() {
		m := p.reportModel("report/golint", "WriteReport", nil)
		m.complete(c, "every-finding", "golint")
		tot := bF
		for _, e := range m.G.Events {
			if e.Kind != "call" {
				continue
			}
			var args []*Term
			var f *Term
			switch e.Name {
			case "fmt.Fprintf":
				f = e.Args[1].term()
			case "fmt.Fprintln":
				f = mkString(strings.Repeat("%v ", max(len(e.Var)-1, 0)) + "%v\n")
			case "fmt.Fprint", "io.WriteString":
				f = mkString("%s")
			default:
				continue
			}
			pos := p.InstrPos(e.Ins)
			if e.Name == "io.WriteString" {
				args = []*Term{e.Args[1].term()}
			} else {
				if !e.VarOK {
					c.Fail("own-data", "golint line", pos, "arguments cannot be read off")
					continue
				}
				for _, v := range e.Var {
					args = append(args, m.G.deComp(v.term()))
				}
			}
			c.Check(m.overIssues(e.Loops) && len(e.Loops) == 1 && sat(bAnd(tot, e.G)) == bF, "every-finding", "golint line", pos, "written once per finding")
			tot = bOr(tot, e.G)
			ps, ok := sprintfPieces(f, args)
			if !ok {
				c.Fail("own-data", "golint line", pos, "format cannot be read off")
				continue
			}
			// resolve cases inside the pieces
			var vals []*Term
			for _, q := range ps {
				if q.val != nil {
					vals = append(vals, q.val)
				}
			}
			has := func(pred func(t *Term) bool) bool {
				for _, v := range vals {
					if pred(v) {
						return true
					}
				}
				return false
			}
			for _, n := range []string{"File", "Col", "RuleID"} {
				c.Check(has(func(t *Term) bool { return strip(t) == m.f(n) }), "own-data", "golint "+n, pos, showPieces(ps))
			}
			for _, n := range []string{"Line", "What"} {
				c.Check(has(func(t *Term) bool { return m.gvMentionsT(t, n) }), "own-data", "golint "+n, pos, showPieces(ps))
			}
			for _, n := range []string{"Severity", "Confidence"} {
				c.Check(has(func(t *Term) bool { return m.isScore(t, n) || strip(t) == m.f(n) }), "own-data", "golint "+n, pos, showPieces(ps))
			}
			// the weakness of the finding is shown when there is one
			c.Check(has(func(t *Term) bool {
				shown := false
				for _, a := range splitTerm(t, bT) {
					g := bRestrict(a.g, func(x *Term) (bool, bool) { return false, isEq(x) && m.mentions(x, "Cwe") })
					if m.mentions(a.t, "Cwe") {
						shown = true
					} else if sat(g) != bF {
						return false
					}
				}
				return shown
			}), "own-data", "golint CWE", pos, showPieces(ps))
			// the description is shown whole
			c.Check(has(func(t *Term) bool {
				all := true
				for _, a := range splitTerm(t, bT) {
					whole := false
					for _, q := range pieces(a.t) {
						if q.val != nil && strip(q.val) == m.f("What") {
							whole = true
						}
					}
					all = all && whole
				}
				return all
			}), "own-data", "golint description", pos, showPieces(ps))
		}
		ok, d := implies(m.noFailure(), tot)
		c.Check(ok, "every-finding", "golint writes a line", "-", d)
	})

	// JUnit
	c.Guard("every-finding", "junit", func() {
		m := p.reportModel("report/junit", "GenerateReport", nil)
		m.complete(c, "every-finding", "junit")
		rel := "report/junit"
		cases := m.G.fieldWrites(namedOf(p, rel, "Testsuite"), "Testcases")
		m.oncePerFinding(c, "every-finding", "junit test case", cases)
		tot := bF
		for _, w := range cases {
			tot = bOr(tot, w.G)
			pos := p.InstrPos(w.Ev.Ins)
			for _, a := range w.Val.L {
				if sat(bAnd(a.g, w.G)) == bF {
					continue
				}

				ok := a.t.Op == "append" && len(a.t.Args) == 2 && (a.t.Args[0].Op == "nil" || a.t.Args[0].Op == "loopmem" || contains(a.t.Args[0], func(x *Term) bool {
					return x.Obj == any(fieldOf(p, rel, "Testsuite", "Testcases")) && len(x.Args) > 0 && (unref(x.Args[0]) == w.Base || x.Op == "field" && w.Base.Op != "index")
				}))
				c.Check(ok, "every-finding", "junit test cases grow by one", pos, brief(a.t.String()))
			}

			c.Check(m.mentions(w.Base, "What") || w.Base.Op == "alloc" || contains(w.Base, func(x *Term) bool { return x.Op == "append" }), "own-data", "junit suite of a finding", pos, "chosen by its description: "+brief(w.Base.String()))
			m.suiteIndex(c, w)
		}
		ok, d := implies(m.noFailure(), tot)
		c.Check(ok, "every-finding", "junit adds a test case", "-", d)
		// a new suite is added to the report
		made := bF
		for _, w := range m.G.fieldWrites(namedOf(p, rel, "Testsuite"), "Name") {
			if v := w.Val.single(); v != nil {
				if s, isS := constStr(v); isS && s == "" {
					continue
				}
			}
			made = bOr(made, w.G)
			c.Check(m.is(w.Val, "What"), "own-data", "junit suite name", p.InstrPos(w.Ev.Ins), brief(w.Val.String()))
		}
		added := bF
		for _, w := range m.G.fieldWrites(namedOf(p, rel, "Report"), "Testsuites") {
			if len(w.Loops) == 1 && m.overIssues(w.Loops) {
				added = bOr(added, w.G)
				for _, a := range w.Val.L {
					if sat(bAnd(a.g, w.G)) != bF {
						c.Check(a.t.Op == "append", "every-finding", "junit suites grow", p.InstrPos(w.Ev.Ins), brief(a.t.String()))
					}
				}
			}
		}
		if added == bF {
			// the suites are collected in a list of their own
			for _, l := range m.G.Latch {
				for _, a := range l.Val.L {
					if l.List == m.Issues && a.t.Op == "append" && strings.HasSuffix(namedName(a.t.Args[len(a.t.Args)-1].Typ), "junit.Testsuite") {
						added = bOr(added, a.g)
					}
				}
			}
		}
		ok, d = implies(made, added)
		c.Check(ok, "every-finding", "junit adds each new suite", "-", d)
		for _, e := range m.G.Events {
			if e.Kind == "mapstore" {
				k := e.Args[1]
				c.Check(m.is(k, "What"), "own-data", "junit suite index", p.InstrPos(e.Ins), "keyed by "+brief(k.String()))
			}
		}
		for _, w := range m.G.fieldWrites(namedOf(p, rel, "Testcase"), "Name") {
			c.Check(m.is(w.Val, "File"), "own-data", "junit test case name", p.InstrPos(w.Ev.Ins), brief(w.Val.String()))
		}
		n := 0
		for _, w := range m.G.fieldWrites(namedOf(p, rel, "Failure"), "Text") {
			for _, a := range caseSplit(w.Val) {
				n++
				ps := pieces(a.t)
				for _, f := range []string{"File", "Line", "What", "Severity", "Confidence", "Code"} {
					ok := false
					for _, q := range ps {
						ok = ok || q.val != nil && m.mentions(q.val, f)
					}
					c.Check(ok, "own-data", "junit text "+f, p.InstrPos(w.Ev.Ins), showPieces(ps))
				}
				cw := false
				for _, q := range ps {
					cw = cw || q.val != nil && m.mentions(q.val, "Cwe")
				}
				if !cw {
					g := bRestrict(a.g, func(x *Term) (bool, bool) { return false, isEq(x) && m.mentions(x, "Cwe") })
					c.Check(sat(g) == bF, "own-data", "junit text CWE", p.InstrPos(w.Ev.Ins), showPieces(ps))
				}
			}
		}
		c.Check(n > 0, "own-data", "junit text", "-", fmt.Sprint(n))
	})

	// SonarQube
	c.Guard("every-finding", "sonarqube", func() {
		m := p.reportModel("report/sonar", "GenerateReport", nil)
		m.complete(c, "every-finding", "sonarqube")
		rel := "report/sonar"
		okEnd := bT
		if e := m.errResult(); e != nil {
			okEnd = bAnd(m.R.RetG, m.G.eq(*e, mkNil()))
		}
		ret := m.R.Rets[0].possible(okEnd)
		rp := ret.single()
		if rp == nil {
			c.Fail("every-finding", "sonarqube report", "-", "not one report: "+brief(ret.String()))
			return
		}
		list := m.G.memField(m.R.Mem, rp, "Issues")
		cd, f, why := m.listValue(list, okEnd)
		if why != "" {
			c.Fail("every-finding", "sonarqube entries", "-", why)
			return
		}
		paths := m.G.fieldWrites(namedOf(p, rel, "Location"), "FilePath")
		c.Check(len(paths) == 1, "own-data", "sonarqube file path is set", "-", fmt.Sprint(len(paths)))
		for _, w := range paths {
			v := m.G.deCompGV(w.Val)
			// left out exactly when there is no path below a scanned root
			out := m.G.eq(v, mkString(""))
			ok, d := implies(bAnd(m.noFailure(), bNot(out)), cd)
			c.Check(ok, "every-finding", "sonarqube entry of a finding below a scanned root", p.InstrPos(w.Ev.Ins), d)
			for _, a := range v.L {
				if s, isS := constStr(strip(a.t)); isS && s == "" {
					// no path: no root contains the file
					inRoot := m.underRoot()
					ok, d := implies(a.g, bNot(inRoot))
					c.Check(ok, "every-finding", "sonarqube omits a finding", p.InstrPos(w.Ev.Ins), "only outside the roots: "+d)
					continue
				}
				c.Check(m.mentions(a.t, "File"), "own-data", "sonarqube file path", p.InstrPos(w.Ev.Ins), brief(a.t.String()))
			}
		}
		c.Check(f.Op == "alloc", "every-finding", "sonarqube entry", "-", "a fresh entry per finding")
		m.sonarParts(c, f)
		m.simple(c, rel, "Location", "Message", "What")
		m.simple(c, rel, "Issue", "RuleID", "RuleID")
		m.simpleMention(c, rel, "TextRange", "StartLine", "Line")
		m.simpleMention(c, rel, "TextRange", "EndLine", "Line")
		m.simpleMention(c, rel, "Issue", "Severity", "Severity")
	})

	// SARIF
	c.Guard("every-finding", "sarif", func() {
		m := p.reportModel("report/sarif", "GenerateReport", nil)
		m.complete(c, "every-finding", "sarif")
		rel := "report/sarif"
		n := 0
		for _, w := range m.G.fieldWrites(namedOf(p, rel, "Run"), "Results") {
			if t := w.Val.single(); t != nil && t.Op == "nil" {
				continue
			}
			n++
			cd, f, why := m.listValue(w.Val, w.G)
			pos := p.InstrPos(w.Ev.Ins)
			if why != "" {
				c.Fail("every-finding", "sarif results", pos, why)
				continue
			}
			ok, d := implies(m.noFailure(), cd)
			c.Check(ok, "every-finding", "sarif result of a finding", pos, d)
			c.Check(f.Op == "alloc", "every-finding", "sarif result", pos, "a fresh result per finding")
			m.sarifParts(c, f)
		}
		c.Check(n == 1, "every-finding", "sarif results are set once", "-", fmt.Sprint(n))
		m.simple(c, rel, "Result", "RuleID", "RuleID")
		m.simpleMention(c, rel, "Result", "Level", "Severity")
		m.simpleMention(c, rel, "Region", "StartLine", "Line")
		m.simpleMention(c, rel, "Region", "EndLine", "Line")
		m.simpleMention(c, rel, "Region", "StartColumn", "Col")
		okMsg := false
		for _, w := range m.G.fieldWrites(namedOf(p, rel, "Result"), "Message") {
			for _, x := range m.G.fieldWrites(namedOf(p, rel, "Message"), "Text") {
				if w.Val.single() != nil && x.Base == w.Val.single() && m.is(x.Val, "What") {
					okMsg = true
				}
			}
		}
		c.Check(okMsg, "own-data", "sarif result message", "-", "is the description of the finding")
		okURI := false
		for _, w := range m.G.fieldWrites(namedOf(p, rel, "ArtifactLocation"), "URI") {
			for _, a := range w.Val.L {
				if s, isS := constStr(strip(a.t)); isS && s == "" {
					ok, d := implies(a.g, bNot(m.underRoot()))
					c.Check(ok, "own-data", "sarif location of a finding below a root", p.InstrPos(w.Ev.Ins), d)
					continue
				}
				okURI = true
				c.Check(m.mentions(a.t, "File"), "own-data", "sarif location", p.InstrPos(w.Ev.Ins), brief(a.t.String()))
			}
		}
		c.Check(okURI, "own-data", "sarif location is set", "-", "")
	})

	// formats that encode the whole data
	for _, f := range []struct{ rel, enc string }{{"report/json", "encoding/json"}, {"report/yaml", "gopkg.in/yaml"}, {"report/html", "html/template"}, {"report/text", "text/template"}} {
		c.Guard("whole-data", f.rel, func() {
			m := p.reportModel(f.rel, "WriteReport", nil)
			n := 0
			for _, e := range m.G.Events {
				if e.Kind != "call" {
					continue
				}
				isEnc := strings.Contains(e.Name, f.enc) && (strings.Contains(e.Name, "Marshal") || strings.HasSuffix(e.Name, ".Execute") || strings.HasSuffix(e.Name, ".Encode"))
				if !isEnc {
					continue
				}
				n++
				ok := false
				for _, a := range e.Args {
					if t := a.single(); t != nil && strip(t) == m.Data {
						ok = true
					}
				}
				c.Check(ok, "whole-data", f.rel+" encodes the report data", p.InstrPos(e.Ins), e.Name)
				if e.Result != nil && strings.Contains(e.Name, "Marshal") {
					m.writtenWhole(c, "whole-data", f.rel, e)
				}
			}
			c.Check(n == 1, "whole-data", f.rel+" encodes once", p.Pos(m.Fn.Pos()), fmt.Sprint(n))
			// the data is not altered first
			for _, e := range m.G.Events {
				if e.Kind == "store" || e.Kind == "mapstore" {
					for _, a := range e.Args[0].L {
						if contains(a.t, func(x *Term) bool { return x == m.Data }) {
							c.Fail("whole-data", f.rel+" changes the data", p.InstrPos(e.Ins), brief(a.t.String()))
						}
					}
				}
			}
		})
	}
	for _, f := range []string{"report/sarif", "report/sonar", "report/junit"} {
		c.Guard("whole-data", f, func() {
			m := p.reportModelWith(f, "WriteReport", "GenerateReport")
			n := 0
			for _, e := range m.G.Events {
				if e.Kind == "call" && strings.Contains(e.Name, "Marshal") {
					n++
					gen := false
					for _, g := range m.G.Events {
						if g.Kind == "call" && strings.HasSuffix(g.Name, ".GenerateReport") && g.Result != nil {
							gen = gen || contains(e.Args[0].term(), func(x *Term) bool { return x == g.Result })
							ok := false
							for _, a := range g.Args {
								ok = ok || a.single() == m.Data
							}
							c.Check(ok, "whole-data", f+" report is generated from the data", p.InstrPos(g.Ins), "")
						}
					}
					c.Check(gen, "whole-data", f+" encodes the generated report", p.InstrPos(e.Ins), brief(e.Args[0].String()))
					m.writtenWhole(c, "whole-data", f, e)
				}
			}
			c.Check(n == 1, "whole-data", f+" encodes once", p.Pos(m.Fn.Pos()), fmt.Sprint(n))
		})
	}
	checkTemplates(c)
	checkTags(c)
}

func (m *reportModel) gvMentionsT(t *Term, name string) bool {
	for _, a := range splitTerm(m.G.deComp(t), bT) {
		if !m.mentions(a.t, name) {
			return false
		}
	}
	return true
}

// isScore: the value is the text of the named score of the finding.
func (m *reportModel) isScore(t *Term, name string) bool {
	want := m.scoreText(name)
	for _, a := range splitTerm(m.G.deComp(t), bT) {
		for _, b := range want.L {
			if strip(a.t) != strip(b.t) && sat(bAnd(a.g, b.g)) != bF {
				return false
			}
		}
	}
	return true
}

func fieldOf(p *Program, rel, typ, field string) *types.Var {
	st := structOf(namedOf(p, rel, typ))
	i := fieldIndex(st, field)
	if i < 0 {
		panic(undecided{"no field " + typ + "." + field})
	}
	return st.Field(i)
}

func (m *reportModel) simple(c *Ctx, rel, typ, field, src string) {
	ws := m.G.fieldWrites(namedOf(m.P, rel, typ), field)
	c.Check(len(ws) > 0, "own-data", rel+" "+typ+"."+field+" is set", "-", fmt.Sprint(len(ws)))
	for _, w := range ws {
		c.Check(m.overIssues(w.Loops) && m.is(w.Val, src), "own-data", rel+" "+typ+"."+field, m.P.InstrPos(w.Ev.Ins), brief(w.Val.String()))
	}
}

func (m *reportModel) simpleMention(c *Ctx, rel, typ, field, src string) {
	ws := m.G.fieldWrites(namedOf(m.P, rel, typ), field)
	c.Check(len(ws) > 0, "own-data", rel+" "+typ+"."+field+" is set", "-", fmt.Sprint(len(ws)))
	for _, w := range ws {
		ok := m.overIssues(w.Loops)
		if v := w.Val.single(); v == nil || !m.mentions(v, src) {
			// a table: it must be decided by the field
			all := true
			for _, a := range w.Val.L {
				all = all && (m.mentions(a.t, src) || bHas(a.g, func(x *Term) bool { return x == m.f(src) }) || bMentions(a.g, m.f(src)))
			}
			ok = ok && all
		}
		c.Check(ok, "own-data", rel+" "+typ+"."+field, m.P.InstrPos(w.Ev.Ins), brief(w.Val.String()))
	}
}

func bMentions(b BDD, f *Term) bool {
	return bHas(b, func(x *Term) bool { return deepContains(x, func(y *Term) bool { return y == f }) })
}

// underRoot: some scanned root is a prefix of the finding's file.
func (m *reportModel) underRoot() BDD {
	var roots *Term
	for i, q := range m.Fn.Params {
		if types.TypeString(q.Type(), nil) == "[]string" {
			roots = gparam(m.Fn, i)
		}
	}
	if roots == nil {
		panic(undecided{"no root paths"})
	}
	el := m.G.listElem(roots, types.Typ[types.String])
	for _, e := range m.G.Events {
		if e.Kind == "call" && e.Name == "strings.HasPrefix" && e.Result != nil && e.Args[0].single() == m.f("File") && contains(e.Args[1].term(), func(x *Term) bool { return x == el }) {
			return m.G.existsB(roots, bddOf(e.Result))
		}
	}
	// another way to decide it (e.g. relative paths): any condition over the roots and the file
	return bF
}

// writtenWhole: the encoded bytes are written in full to the writer.
func (m *reportModel) writtenWhole(c *Ctx, rule, what string, enc *GEvent) {
	raw := res(enc, 0)
	n := 0
	for _, e := range m.G.Events {
		if e.Kind != "call" || !(e.Name == "(io.Writer).Write" || e.Name == "fmt.Fprint" || e.Name == "fmt.Fprintln" || e.Name == "io.WriteString" || e.Name == "fmt.Fprintf" || strings.HasSuffix(e.Name, ".Write") || e.Name == "io.Copy") {
			continue
		}
		as := append([]GV{}, e.Args...)
		if e.VarOK {
			as = append(as, e.Var...)
		}
		ok := false
		for _, a := range as {
			t := a.single()
			if t == nil {
				continue
			}
			t = strip(t)
			if t == raw || t.Op == "append" && spreadOf(t.Args[len(t.Args)-1]) == raw || t.Op == "convert" && strip(t.Args[0]) == raw {
				ok = true
			}
		}
		if ok {
			n++
			ok, d := implies(bAnd(enc.G, m.G.eq(gvT(errOf(enc)), mkNil())), e.G)
			c.Check(ok, rule, what+" writes the encoded report", m.P.InstrPos(e.Ins), d)
		}
	}
	c.Check(n == 1, rule, what+" writes the whole encoded report once", m.P.Pos(m.Fn.Pos()), fmt.Sprintf("%d writes of it", n))
}

func spreadOf(t *Term) *Term {
	if t.Op == "spread" {
		return t.Args[0]
	}
	return nil
}

func checkTemplates(c *Ctx) {
	p := c.P
	c.Guard("template", "text", func() {
		e := p.embedded("report/text", ".txt")
		root := e.parse("", "")
		type use struct {
			src  string
			iff  []string
			over string
			v    string
		}
		var uses []use
		ranges := map[string]int{}
		var visit func(l *parse.ListNode, iff []string, over, v string)
		visit = func(l *parse.ListNode, iff []string, over, v string) {
			if l == nil {
				return
			}
			for _, n := range l.Nodes {
				switch n := n.(type) {
				case *parse.ActionNode:
					uses = append(uses, use{n.Pipe.String(), iff, over, v})
				case *parse.IfNode:
					visit(n.List, append(iff[:len(iff):len(iff)], n.Pipe.String()), over, v)
					visit(n.ElseList, append(iff[:len(iff):len(iff)], "not "+n.Pipe.String()), over, v)
				case *parse.WithNode:
					visit(n.List, append(iff[:len(iff):len(iff)], n.Pipe.String()), over, v)
				case *parse.RangeNode:
					o := ""
					for _, cm := range n.Pipe.Cmds {
						o += cm.String()
					}
					nv := ""
					if k := len(n.Pipe.Decl); k > 0 {
						nv = n.Pipe.Decl[k-1].String()
					}
					ranges[over+o]++
					i2 := iff
					visit(n.List, i2, over+o, nv)
				}
			}
		}
		visit(root, nil, "", "")
		c.Check(ranges[".Issues"] == 1, "template", "text template lists the findings", e.path, fmt.Sprint(ranges))
		for _, f := range []string{"FileLocation", "RuleID", "What", "Confidence", "Severity", "printCode"} {
			n, cond := 0, ""
			for _, u := range uses {
				if u.over != ".Issues" {
					continue
				}
				hit := strings.Contains(u.src, u.v+"."+f)
				if f == "printCode" {
					hit = strings.Contains(u.src, "printCode")
				}
				if hit && strings.Contains(u.src, "highlight") && f == "Severity" {
					continue
				}
				if hit && len(u.iff) == 0 {
					n++
				} else if hit {
					cond += fmt.Sprint(u.iff)
				}
			}
			c.Check(n == 1, "template", "text template shows "+f, e.path, fmt.Sprintf("%d times unconditionally %s", n, cond))
		}
		cw := 0
		for _, u := range uses {
			if u.over == ".Issues" && strings.Contains(u.src, ".Cwe") && len(u.iff) <= 1 {
				cw++
			}
		}
		c.Check(cw >= 1, "template", "text template shows Cwe", e.path, fmt.Sprint(cw))
		c.Check(ranges[".Errors"] == 1, "template", "text template lists the files with errors", e.path, fmt.Sprint(ranges))
		for _, f := range []string{"Line", "Column", "Err"} {
			n := 0
			for _, u := range uses {
				if strings.HasPrefix(u.over, ".Errors") && u.over != ".Errors" && len(u.iff) == 0 && strings.Contains(u.src, u.v+"."+f) {
					n++
				}
			}
			c.Check(n == 1, "template", "text template shows error "+f, e.path, fmt.Sprint(n))
		}
		for _, f := range []string{"NumFiles", "NumLines", "NumNosec", "NumFound"} {
			conds := map[string]bool{}
			for _, u := range uses {
				if u.over == "" && strings.Contains(u.src, ".Stats."+f) {
					if len(u.iff) == 0 {
						conds["always"] = true
					} else if len(u.iff) == 1 {
						conds[u.iff[0]] = true
					}
				}
			}
			ok := conds["always"]
			for k := range conds {
				ok = ok || conds["not "+k]
			}
			c.Check(ok, "template", "text template shows Stats."+f, e.path, fmt.Sprint(conds))
		}
	})
	c.Guard("template", "text functions", func() {
		fn := p.Func("report/text", "printCodeSnippet")
		if fn == nil {
			return
		}
		g := NewGate(p)
		g.Run(fn)
		code := g.ptrField(gparam(fn, 0), "Code")
		n := 0
		for _, e := range g.Events {
			if e.Kind == "earlystop" {
				c.Fail("template", "code lines", p.InstrPos(e.Ins), "stops before the last line when "+bString(e.G))
			}
			if e.Kind == "call" && strings.HasSuffix(e.Name, ".WriteString") {
				n++
				c.Check(e.G == bT || len(e.Loops) > 0, "template", "code line is written", p.InstrPos(e.Ins), bString(e.G))
			}
		}
		checkCodeLines(c, g, code, fn)
		uses := false
		for _, e := range g.Events {
			if e.Kind == "call" {
				for _, a := range e.Args {
					uses = uses || gvHas(a, func(x *Term) bool { return x == code })
				}
			}
		}
		c.Check(uses, "template", "code of the finding is shown", p.Pos(fn.Pos()), "")
		for _, e := range g.Events {
			c.Check(!(e.Kind == "call" && e.Name == "bufio.NewScanner"), "template", "code lines of any length are shown", p.InstrPos(e.Ins), "a Scanner gives up on long lines")
		}
	})
	c.Guard("template", "highlight", func() {
		fn := p.Func("report/text", "highlight")
		if fn == nil {
			return
		}
		g := NewGate(p)
		r := g.Run(fn)
		for _, a := range r.Rets[0].L {
			c.Check(deepContains(a.t, func(x *Term) bool { return x == gparam(fn, 0) }) || gatesThrough(g, a.t, gparam(fn, 0)), "template", "highlighted location", p.Pos(fn.Pos()), brief(a.t.String()))
		}
	})
	c.Guard("template", "html", func() {
		e := p.embedded("report/html", ".html")
		root := e.parse("", "")
		n := 0
		for _, nd := range root.Nodes {
			if a, ok := nd.(*parse.ActionNode); ok && a.Pipe.String() == "." {
				n++
			} else if nd.Type() != parse.NodeText && nd.Type() != parse.NodeComment {
				c.Check(nd.Type() == parse.NodeAction, "template", "html template node", e.path, nd.String())
			}
		}
		c.Check(n == 1, "template", "html template embeds the whole data", e.path, fmt.Sprint(n))
		// the page reads the data by the names it is encoded with
		for typ, prefix := range map[string]string{"issue.Issue": "", "Metrics": "Stats."} {
			rel, name := "", typ
			if i := strings.Index(typ, "."); i > 0 {
				rel, name = typ[:i], typ[i+1:]
			}
			st := structOf(namedOf(p, rel, name))
			want := map[string]bool{"File": true, "Line": true, "What": true, "RuleID": true, "Severity": true, "Confidence": true, "Code": true, "Cwe": true,
				"NumFiles": true, "NumLines": true, "NumNosec": true, "NumFound": true}
			for i := 0; i < st.NumFields(); i++ {
				if !want[st.Field(i).Name()] {
					continue
				}
				re := regexp.MustCompile(`\.data\.` + regexp.QuoteMeta(prefix+jsonName(st, i)) + `\b`)
				c.Check(re.MatchString(e.text), "template", "html page shows "+typ+"."+st.Field(i).Name(), e.path, prefix+jsonName(st, i))
			}
		}
		ri := structOf(namedOf(p, "", "ReportInfo"))
		for i := 0; i < ri.NumFields(); i++ {
			if n := ri.Field(i).Name(); n == "Issues" || n == "Stats" {
				c.Check(regexp.MustCompile(`\.data\.`+jsonName(ri, i)+`\b`).MatchString(e.text), "template", "html page reads "+n, e.path, jsonName(ri, i))
			}
		}
	})
}

func gatesThrough(g *Gate, t, want *Term) bool {
	for _, e := range g.Events {
		if e.Kind == "call" && e.Result == t && e.VarOK {
			for _, v := range e.Var {
				if gvHas(v, func(x *Term) bool { return x == want }) {
					return true
				}
			}
		}
	}
	return false
}

func checkTags(c *Ctx) {
	p := c.P
	for _, t := range []struct{ rel, name string }{{"issue", "Issue"}, {"issue", "SuppressionInfo"}, {"", "ReportInfo"}, {"", "Metrics"}, {"", "Error"},
		{"report/sonar", "Report"}, {"report/sonar", "Issue"}} {
		c.Guard("encoding", t.name, func() {
			st := structOf(namedOf(p, t.rel, t.name))
			seen := map[string]string{}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if !f.Exported() {
					continue
				}
				tag := structTag(st.Tag(i), "json")
				what := t.rel + "." + t.name + "." + f.Name()
				c.Check(tag != "-" && structTag(st.Tag(i), "yaml") != "-", "encoding", what+" is encoded", p.Pos(f.Pos()), "tag "+tag)
				optional := f.Name() == "Autofix" || f.Name() == "SecondaryLocations"
				c.Check(optional || !strings.Contains(tag, "omitempty"), "encoding", what+" is always present", p.Pos(f.Pos()), "tag "+tag)
				n := strings.ToLower(jsonName(st, i))
				c.Check(seen[n] == "", "encoding", what+" has its own key", p.Pos(f.Pos()), "key "+n+" "+seen[n])
				seen[n] = f.Name()
			}
		})
	}
	// SARIF: required properties are never omitted when zero, except where zero means absent
	c.Guard("encoding", "sarif", func() {
		for _, t := range [][2]string{{"Run", "Results"}, {"Result", "RuleIndex"}, {"Result", "Message"}, {"Message", "Text"}} {
			st := structOf(namedOf(p, "report/sarif", t[0]))
			i := fieldIndex(st, t[1])
			if i < 0 {
				c.Fail("encoding", "sarif "+t[0]+"."+t[1], "-", "missing")
				continue
			}
			c.Check(structTag(st.Tag(i), "json") != "-", "encoding", "sarif "+t[0]+"."+t[1], p.Pos(st.Field(i).Pos()), st.Tag(i))
		}
	})
	c.Guard("encoding", "junit", func() {
		for _, t := range [][2]string{{"Report", "Testsuites"}, {"Testsuite", "Testcases"}, {"Testsuite", "Name"}, {"Testcase", "Failure"}, {"Testcase", "Name"}, {"Failure", "Text"}} {
			st := structOf(namedOf(p, "report/junit", t[0]))
			i := fieldIndex(st, t[1])
			if i < 0 {
				c.Fail("encoding", "junit "+t[0]+"."+t[1], "-", "missing")
				continue
			}
			c.Check(structTag(st.Tag(i), "xml") != "-", "encoding", "junit "+t[0]+"."+t[1], p.Pos(st.Field(i).Pos()), st.Tag(i))
		}
	})
}

// unref removes what stands for a load.
func unref(t *Term) *Term {
	for t.Op == "deref" && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

// checkCodeLines: when the code is printed line by line, every line that is not empty is written, and ends.
func checkCodeLines(c *Ctx, g *Gate, code *Term, fn *ssa.Function) {
	p := c.P
	var over *Term
	wrote, ended := bF, bF
	empty := func(b BDD) BDD {
		return bRestrict(b, func(a *Term) (bool, bool) {
			if !isEq(a) || len(a.Args) != 2 {
				return false, false
			}
			x, y := strip(a.Args[0]), strip(a.Args[1])
			if s, ok := constStr(x); ok && s == "" {
				x, y = y, x
			}
			s, ok := constStr(y)
			return false, ok && s == "" && over != nil && deepContains(x, func(t *Term) bool { return t.Op == "elem" && t.Args[0] == over })
		})
	}
	for _, e := range g.Events {
		if e.Kind != "call" || len(e.Loops) != 1 || !(strings.Contains(e.Name, ".Write") || strings.HasPrefix(e.Name, "fmt.Fprint") || e.Name == "io.WriteString") {
			continue
		}
		L := strip(e.Loops[0])
		n := callName(L)
		if n != "strings.Split" && n != "strings.SplitAfter" && n != "strings.SplitSeq" && n != "strings.Lines" || strip(L.Args[0]) != code {
			continue
		}
		over = e.Loops[0]
		vals := e.Args
		if e.VarOK {
			vals = append(append([]GV{}, vals...), e.Var...)
		}
		for _, v := range vals {
			for _, a := range caseSplit(v) {
				g := bAnd(a.g, e.G)
				if sat(g) == bF {
					continue
				}
				has := deepContains(a.t, func(t *Term) bool { return t.Op == "elem" && t.Args[0] == over })
				if has {
					wrote = bOr(wrote, g)
				}
				raw := strip(a.t).Op == "elem" && strip(a.t).Args[0] == over && (n == "strings.SplitAfter" || n == "strings.Lines")
				ch, isChar := constInt(strip(a.t))
				if raw || isChar && ch == '\n' || strings.HasSuffix(lastLit(a.t), "\n") || strings.HasSuffix(e.Name, "Fprintln") {
					ended = bOr(ended, g)
				}
			}
		}
	}
	if over == nil {
		return
	}
	left := sat(empty(bNot(wrote)))
	c.Check(left == bF, "template", "every code line is written", p.Pos(fn.Pos()), "left out when "+bString(left))
	ok, d := implies(wrote, ended)
	c.Check(ok, "template", "every code line ends", p.Pos(fn.Pos()), d)
}
