package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// What an entry of a report holds is followed from the entry itself: the value of a field is what was stored
// last, and a part of an entry is looked at only if the entry refers to it.

// noErrors: the condition when no call reported an error.
func noErrors(b BDD) BDD {
	return bRestrict(b, func(a *Term) (bool, bool) {
		if cond, ok := condTerms[a]; ok && (a.Op == "exists" || a.Op == "stops") {
			return false, noErrors(cond) == bF
		}
		if !isEq(a) || len(a.Args) != 2 {
			return false, false
		}
		x, y := strip(a.Args[0]), strip(a.Args[1])
		if y.Op == "nil" {
			x, y = y, x
		}
		return true, x.Op == "nil" && y.Typ != nil && isErrorType(y.Typ)
	})
}

// noFailed keeps what a value is when no call reported an error.
func noFailed(v GV) GV {
	if len(v.L) < 2 {
		return v
	}
	var ls []gl
	for _, a := range v.L {
		if g := sat(noErrors(a.g)); g != bF {
			ls = append(ls, gl{g, a.t})
		}
	}
	return gvNorm(ls)
}

// part is the value of a field of an object, followed along a path. "[]" stands for the only element of a list.
func (m *reportModel) part(obj *Term, path ...string) (GV, string) {
	v := gvT(obj)
	for _, name := range path {
		t := v.single()
		if t == nil {
			return GV{}, "not one part before " + name + ": " + brief(v.String())
		}
		t = strip(t)
		if name == "[]" {
			isArr := false
			if t.Op == "alloc" {
				_, isArr = allocElemT(t).(*types.Array)
			}
			if t.Op == "append" && isEmptyList(t.Args[0]) && len(t.Args) == 2 && t.Args[1].Op != "spread" {
				v = gvT(t.Args[1])
				continue
			}
			if !isArr || allocElemT(t).(*types.Array).Len() != 1 {
				return GV{}, fmt.Sprintf("not a list with one element: %s", brief(t.String()))
			}
			n := 0
			for _, e := range m.G.Events {
				if a := e.Args; e.Kind == "store" && len(a) == 2 {
					if x := a[0].single(); x != nil && x.Op == "indexaddr" && x.Args[0] == t {
						v = noFailed(a[1])
						n++
					}
				}
			}
			if n != 1 {
				return GV{}, fmt.Sprintf("element set %d times", n)
			}
			continue
		}
		if t.Typ == nil || structOf(t.Typ) == nil || fieldIndex(structOf(t.Typ), name) < 0 {
			return GV{}, "has no field " + name + ": " + brief(t.String())
		}
		nt, _ := deref2(t.Typ).(*types.Named)
		var val *GV
		for _, w := range m.G.fieldWrites(nt, name) {
			if w.Base == t && noErrors(w.G) != bF {
				x := noFailed(w.Val)
				val = &x
			}
		}
		if val == nil {
			return GV{}, name + " is never set"
		}
		v = *val
	}
	return v, ""
}

// linePart: which part of the finding's line the text is: 0 its first line, 1 its last line if it has one.
func (m *reportModel) linePart(t *Term) (int, bool) {
	t = strip(m.G.deComp(t))
	line := m.f("Line")
	cl, k := call0(t)
	switch {
	case t.Op == "index" && len(t.Args) == 2:
		s := strip(t.Args[0])
		i, ok := constInt(strip(t.Args[1]))
		cn := callName(s)
		if ok && (cn == "strings.Split" || cn == "strings.SplitN") && strip(s.Args[0]) == line {
			if sep, _ := constStr(strip(s.Args[1])); sep == "-" {
				return int(i), true
			}
		}
	case callName(cl) == "strings.Cut" && strip(cl.Args[0]) == line:
		if sep, _ := constStr(strip(cl.Args[1])); sep == "-" {
			return k, true
		}
	}
	return 0, false
}

// number: the text a number was read from.
func number(t *Term) *Term {
	t, k := call0(t)
	switch callName(t) {
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		if k == 0 {
			return strip(t.Args[0])
		}
	}
	return nil
}

// isRange: the condition that the finding's line is a range, seen through the ways to ask for it.
func (m *reportModel) rangeAtoms(b BDD) BDD {
	second := bm.atom(mk("sym", "the line is a range", "", types.Typ[types.Bool]))
	line := m.f("Line")
	return bMap(b, func(a *Term) BDD {
		if !deepContains(m.G.deComp(a), func(x *Term) bool { return x == line }) {
			return bm.atom(a)
		}
		cl, k := call0(a)
		switch {
		case callName(cl) == "strings.Contains", callName(cl) == "strings.Cut" && k == 2:
			return second
		case a.Op == "bin" && len(a.Args) == 2:
			k := 1
			if _, ok := constInt(strip(a.Args[0])); ok {
				k = 0
			}
			n, ok := constInt(strip(a.Args[k]))
			if !ok || strip(a.Args[1-k]).Op != "len" {
				break
			}
			switch {
			case isEq(a) && n == 1:
				return bNot(second)
			case isEq(a) && n == 2:
				return second
			case isEq(a):
				return bF
			case a.Obj == any("<") && k == 1: // len < n
				if n == 2 {
					return bNot(second)
				}
				if n < 2 {
					return bF
				}
				return bT
			case a.Obj == any("<") && k == 0: // n < len
				if n == 1 {
					return second
				}
				if n > 1 {
					return bF
				}
				return bT
			}
		}
		return bm.atom(a)
	})
}

// firstLine and lastLine: the value is the first or the last line of the finding.
func (m *reportModel) isLine(v GV, last bool) (bool, string) {
	second := bm.atom(mk("sym", "the line is a range", "", types.Typ[types.Bool]))
	n := 0
	for _, a := range v.L {
		g := m.rangeAtoms(noErrors(a.g))
		if sat(g) == bF {
			continue
		}
		n++
		x := number(m.G.deComp(a.t))
		if x == nil {
			return false, "not a number that was read: " + brief(a.t.String())
		}
		i, ok := m.linePart(x)
		if !ok {
			return false, "not read from the line of the finding: " + brief(x.String())
		}
		switch {
		case !last && i != 0:
			return false, fmt.Sprintf("part %d of the line", i)
		case last && i == 0 && sat(bAnd(g, second)) != bF:
			return false, "the first line of a range"
		case last && i == 1 && sat(bAnd(g, bNot(second))) != bF, i > 1:
			return false, "a part the line does not have"
		}
	}
	return n > 0, brief(v.String())
}

// sonarParts: an entry of a SonarQube report refers to its finding's place.
func (m *reportModel) sonarParts(c *Ctx, f *Term) {
	m.checkParts(c, f, "sonarqube", []string{"PrimaryLocation", "TextRange"}, map[string][]string{
		"What": {"PrimaryLocation", "Message"}, "File": {"PrimaryLocation", "FilePath"}, "RuleID": {"RuleID"}, "Severity": {"Severity"},
	})
}

func (m *reportModel) sarifParts(c *Ctx, f *Term) {
	reg := []string{"Locations", "[]", "PhysicalLocation", "Region"}
	m.checkParts(c, f, "sarif", reg, map[string][]string{
		"What": {"Message", "Text"}, "File": {"Locations", "[]", "PhysicalLocation", "ArtifactLocation", "URI"}, "RuleID": {"RuleID"}, "Severity": {"Level"},
	})
	col, why := m.part(f, append(append([]string{}, reg...), "StartColumn")...)
	if why == "" {
		x := number(m.G.deComp(col.term()))
		c.Check(x != nil && x == m.f("Col"), "own-data", "sarif column", "-", brief(col.String()))
	} else {
		c.Fail("own-data", "sarif column", "-", why)
	}
	code, why := m.part(f, append(append([]string{}, reg...), "Snippet", "Text")...)
	if why != "" {
		c.Fail("own-data", "sarif snippet", "-", why)
		return
	}
	ok := m.gvMentionsAny(code, "Code")
	for _, a := range code.L { // or what was written to a builder
		if x := strip(m.G.deComp(a.t)); strings.HasSuffix(callName(x), ".String") && len(x.Args) > 0 {
			for _, e := range m.G.Events {
				if e.Kind == "call" && strings.Contains(e.Name, ".Write") && len(e.Args) == 2 && e.Args[0].single() != nil && strip(e.Args[0].single()) == strip(x.Args[0]) {
					ok = ok || m.gvMentionsAny(e.Args[1], "Code")
				}
			}
		}
	}
	c.Check(ok, "own-data", "sarif snippet", "-", brief(code.String()))
	m.snippetLoop(c, f)
}

func (m *reportModel) gvMentionsAny(v GV, name string) bool {
	for _, a := range v.L {
		if m.mentions(a.t, name) || bMentions(a.g, m.f(name)) {
			return true
		}
	}
	return false
}

func (m *reportModel) checkParts(c *Ctx, f *Term, what string, reg []string, fields map[string][]string) {
	for _, n := range []string{"File", "RuleID", "Severity", "What"} {
		v, why := m.part(f, fields[n]...)
		if why != "" {
			c.Fail("own-data", what+" "+strings.Join(fields[n], "."), "-", why)
			continue
		}
		ok := m.gvMentionsAny(m.G.deCompGV(v), n)
		c.Check(ok, "own-data", what+" "+strings.Join(fields[n], "."), "-", brief(v.String()))
	}
	for i, n := range []string{"StartLine", "EndLine"} {
		v, why := m.part(f, append(append([]string{}, reg...), n)...)
		if why != "" {
			c.Fail("own-data", what+" "+n, "-", why)
			continue
		}
		ok, d := m.isLine(v, i == 1)
		c.Check(ok, "own-data", what+" "+n, "-", d)
	}
}

// snippetLoop: the snippet is collected from the lines of the finding's code, starting with its first line: each
// line that has the number being looked for is added and makes the next number the one looked for, and nothing but
// having passed the last line ends the search. A snippet made in another way is not judged.
func (m *reportModel) snippetLoop(c *Ctx, entry *Term) {
	g := m.G
	var acc, num *Term
	var la, ln gl2
	for s, l := range g.Latch {
		if l.List == nil || callName(strip(l.List)) != "strings.Split" || strip(g.deComp(strip(l.List).Args[0])) != m.f("Code") {
			continue
		}
		b, ok := s.Typ.Underlying().(*types.Basic)
		switch {
		case !ok:
		case b.Info()&types.IsString != 0:
			if acc != nil {
				return
			}
			acc, la = s, l
		case b.Info()&types.IsInteger != 0:
			if num != nil {
				return
			}
			num, ln = s, l
		}
	}
	end, _ := m.part(entry, "Locations", "[]", "PhysicalLocation", "Region", "EndLine")
	if num == nil {
		// no line after the first is looked for, or the search ends without having seen the last one
		for _, e := range g.Events {
			if e.Kind != "earlystop" || callName(strip(e.Args[0].term())) != "strings.Split" || strip(g.deComp(strip(e.Args[0].term()).Args[0])) != m.f("Code") {
				continue
			}
			for _, a := range bSupport(e.G) {
				cond, ok := condTerms[a]
				if !ok || (a.Op != "stops" && a.Op != "exists") || a.Args[0] != e.Args[0].term() {
					continue
				}
				compared := false
				for _, x := range bSupport(cond) {
					compared = compared || x.Op == "bin" && x.Obj == any("<") && m.mentions(x, "Line") && deepContains(x, func(y *Term) bool { return y.Op == "elem" })
				}
				c.Check(compared, "own-data", "sarif snippet ends with the last line", m.P.InstrPos(e.Ins), bString(cond))
			}
		}
	}
	if acc == nil || num == nil {
		return
	}
	start, _ := m.part(entry, "Locations", "[]", "PhysicalLocation", "Region", "StartLine")
	c.Check(gvEq(g.deCompGV(ln.Init).possible(bT), g.deCompGV(start)) || ln.Init.single() != nil && ln.Init.single() == start.single(), "own-data", "sarif snippet starts with the first line", "-", brief(ln.Init.String()))
	// the line belongs to the snippet: it starts with the number being looked for
	var has BDD
	found := false
	for _, a := range append(append([]gl{}, la.Val.L...), ln.Val.L...) {
		for _, x := range bSupport(a.g) {
			if callName(strip(x)) == "strings.HasPrefix" && deepContains(x, func(y *Term) bool { return y == num }) {
				if found && has != bm.atom(x) {
					return
				}
				has, found = bm.atom(x), true
			}
		}
	}
	if !found {
		return
	}
	multi := bF
	for _, a := range end.L {
		for _, b := range start.L {
			multi = bOr(multi, bAnds(a.g, b.g, g.bin(token.LSS, b.t, a.t, types.Typ[types.Bool], types.Typ[types.Int]).bool()))
		}
	}
	for _, a := range la.Val.L {
		added := a.t != acc
		if added {
			ok, d := implies(a.g, has)
			c.Check(ok, "own-data", "sarif snippet has the lines of the finding only", "-", d)
			c.Check(deepContains(a.t, func(y *Term) bool { return y == acc }), "own-data", "sarif snippet keeps the lines before", "-", brief(a.t.String()))
			if !strings.HasSuffix(lastLit(a.t), "\n") {
				ok, d := implies(noErrors(a.g), bNot(noErrors(multi)))
				c.Check(ok, "own-data", "sarif snippet separates its lines", "-", d)
			}
		} else {
			ok, d := implies(a.g, bNot(has))
			c.Check(ok, "own-data", "sarif snippet has every line of the finding", "-", d)
		}
	}
	for _, a := range ln.Val.L {
		x, k, ok := offset(a.t)
		switch {
		case a.t == num:
			ok, d := implies(a.g, bNot(has))
			c.Check(ok, "own-data", "sarif snippet goes on to the next line", "-", d)
		default:
			c.Check(ok && x == num && k == 1, "own-data", "sarif snippet goes on to the next line", "-", brief(a.t.String()))
			ok, d := implies(a.g, has)
			c.Check(ok, "own-data", "sarif snippet goes on to the next line", "-", d)
		}
	}
	// the search ends when the last line was passed
	for _, e := range g.Events {
		if e.Kind != "earlystop" || e.Args[0].single() != la.List && e.Args[0].single() != ln.List {
			continue
		}
		for _, a := range bSupport(e.G) {
			cond, ok := condTerms[a]
			if !ok || (a.Op != "stops" && a.Op != "exists") || a.Args[0] != ln.List {
				continue
			}
			past := bF
			for _, b := range end.L {
				past = bOr(past, bAnd(noErrors(b.g), bNot(g.bin(token.LSS, num, b.t, types.Typ[types.Bool], types.Typ[types.Int]).bool())))
			}
			ok, d := implies(noErrors(cond), bAnd(past, has))
			if !ok { // or before the line, when the number looked for is past the last one
				after := bF
				for _, b := range end.L {
					after = bOr(after, bAnd(noErrors(b.g), g.bin(token.LSS, b.t, num, types.Typ[types.Bool], types.Typ[types.Int]).bool()))
				}
				ok, d = implies(noErrors(cond), bOr(after, bAnd(past, has)))
			}
			c.Check(ok, "own-data", "sarif snippet ends with the last line", m.P.InstrPos(e.Ins), d)
		}
	}
}

// lastLit is the literal text a string ends with.
func lastLit(t *Term) string {
	ps := pieces(t)
	if len(ps) == 0 || ps[len(ps)-1].val != nil {
		return ""
	}
	return ps[len(ps)-1].lit
}

// call0 is the call a result belongs to, and the number of the result.
func call0(t *Term) (*Term, int) {
	t = strip(t)
	if t.Op == "extract" && len(t.Args) == 1 {
		for i := 0; i < 8; i++ {
			if t.Obj == any(itoa(i)) {
				return strip(t.Args[0]), i
			}
		}
		return t, -1
	}
	return t, 0
}
