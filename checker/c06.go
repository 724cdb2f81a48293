package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() { register("C06", checkC06) }

// engines of the scanner: the two sibling implementations of rule selection.
type engineAPI struct {
	rel, filter, listType, info, load, registered string
	listField, supField, setField                 string
}

var engines = []engineAPI{
	{"rules", "NewRuleFilter", "RuleList", "RulesInfo", "LoadRules", "RuleSet", "Rules", "RuleSuppressed", "RuleSuppressedMap"},
	{"analyzers", "NewAnalyzerFilter", "AnalyzerList", "AnalyzersInfo", "LoadAnalyzers", "AnalyzerSet", "Analyzers", "AnalyzerSuppressed", "AnalyzerSuppressedMap"},
}

func checkC06(c *Ctx) {
	c.Rule("filter", "a filter drops a rule exactly when it excludes and names it, or includes and does not name it")
	c.Rule("generate", "a rule is in the list exactly when no filter drops it or suppressions are tracked, and is marked suppressed exactly when a filter drops it")
	c.Rule("info", "builders and suppression marks are handed over for every listed rule under its own identifier")
	c.Rule("load", "every builder handed over is run under its identifier and registered with its own suppression mark")
	c.Rule("lookup", "the suppression mark looked up for a finding is the one registered for its rule")
	c.Rule("options", "both engines get an include filter exactly when an include list is given, and an exclude filter exactly when an exclude list is given, and the tracking option")
	c.Rule("precedence", "the include and exclude options override the configuration file and are read back from the configuration for both engines")
	c.Rule("wiring", "the generated rules and analyzers are the ones loaded into the scanner")
	c.Rule("complete", "every documented rule is listed, under an identifier of its own")

	for _, en := range engines {
		c.Guard("filter", en.rel, func() { checkFilter(c, en) })
		c.Guard("generate", en.rel, func() { checkGenerate(c, en) })
		c.Guard("info", en.rel, func() { checkInfo(c, en) })
		c.Guard("load", en.rel, func() { checkLoad(c, en) })
	}
	c.Guard("complete", "tables", func() { checkComplete(c) })
	c.Guard("lookup", "rules", func() { checkLookup(c, "", "RuleSet", "IsRuleSuppressed", "RuleSuppressedMap") })
	c.Guard("lookup", "analyzers", func() { checkLookup(c, "analyzers", "AnalyzerSet", "IsSuppressed", "AnalyzerSuppressedMap") })
	c.Guard("options", "main", func() { checkSelectionOptions(c) })
}

func checkFilter(c *Ctx, en engineAPI) {
	p := c.P
	fn := p.Func(en.rel, en.filter)
	if fn == nil {
		panic(undecided{en.filter + " not found"})
	}
	g := NewGate(p)
	r := g.Run(fn)
	action, ids := gparam(fn, 0), gparam(fn, 1)
	id := mk("ruleid", nil, "", types.Typ[types.String])
	v := g.callClosure(r.Rets[0], r.Mem, gvT(id)).bool()
	named := g.existsB(ids, g.eq(gvT(id), elemOf(ids, types.Typ[types.String])))
	// what is known of the set of names: built from the list, or searched in the list
	for _, a := range bSupport(v) {
		if a.Op == "has" && a.Args[0].Op == "alloc" && a.Args[1] == id {
			if ok, why := setOf(g, a.Args[0], ids); !ok {
				c.Fail("filter", en.filter+": set of names", p.Pos(fn.Pos()), why)
				return
			}
			v = bSubst(v, a, named)
		}
	}
	want := bNot(bXor(bddOf(action), named))
	ok, d := sameCond(v, want)
	c.Check(ok, "filter", en.filter+": drops a rule", p.Pos(fn.Pos()), d)
}

// setOf: the map object holds exactly the elements of a list as keys.
func setOf(g *Gate, m, list *Term) (bool, string) {
	n := 0
	for _, e := range g.Events {
		if e.Kind == "call" {
			for _, a := range append(append([]GV{}, e.Args...), e.Recv) {
				if gvHas(a, func(x *Term) bool { return x == m }) {
					return false, "the set is passed to " + e.Name
				}
			}
		}
		if e.Kind != "mapstore" || e.Args[0].single() != m {
			continue
		}
		n++
		if e.G != bT || len(e.Loops) != 1 || e.Loops[0] != list || e.Args[1].single() != elemOf(list, types.Typ[types.String]) {
			return false, "the set is not built from every given name: " + bString(e.G) + " " + e.Args[1].String()
		}
	}
	return n == 1, fmt.Sprintf("%d writes build the set of names", n)
}

func checkGenerate(c *Ctx, en engineAPI) {
	p := c.P
	fn := p.Func(en.rel, "Generate")
	if fn == nil {
		panic(undecided{"Generate not found"})
	}
	g := NewGate(p)
	r := g.Run(fn)
	track := bddOf(gparam(fn, 0))
	filters := gparam(fn, 1)
	rules := g.fieldOfValue(r, r.Rets[0], en.listField)
	sup := g.fieldOfValue(r, r.Rets[0], en.supField)
	rm, sm := rules.single(), sup.single()
	if rm == nil || sm == nil || rm == sm {
		panic(undecided{"rule list is not built from two maps"})
	}
	// condition "some filter drops the rule" for definition d
	drops := func(d *Term, key *Term) BDD {
		for _, e := range g.Events {
			if e.Kind == "call" && e.Name == "dynamic" && len(e.Args) == 1 && e.Args[0].single() == key && len(e.Loops) >= 1 && e.Loops[len(e.Loops)-1] == filters && e.Recv.single() == g.listElem(filters, elemType(filters.Typ)) {
				return g.existsB(filters, bddOf(e.Result))
			}
		}
		panic(undecided{"no filter is asked about " + key.String()})
	}
	pos := p.Pos(fn.Pos())
	n, ns := 0, 0
	var list *Term
	var dterm *Term
	inList := bF
	for _, e := range g.Events {
		if e.Kind != "mapstore" || e.Args[0].single() != rm {
			continue
		}
		n++
		if len(e.Loops) == 0 {
			c.Fail("generate", en.rel+": list of rules", p.InstrPos(e.Ins), "not built from the table of rules")
			return
		}
		list = e.Loops[0]
		dterm = e.Args[2].single()
		if dterm == nil || dterm.Typ == nil {
			panic(undecided{"listed rule is not one definition"})
		}
		key := g.anyField(dterm, "ID")
		c.Check(e.Args[1].single() == key, "generate", en.rel+": a rule is listed under its identifier", p.InstrPos(e.Ins), e.Args[1].String())
		inner := g.innerExists(e, 1)
		inList = bOr(inList, inner)
		c.Check(dterm == g.listElem(list, dterm.Typ) || baseOf(dterm) == list, "generate", en.rel+": the listed rule is the one of the table", p.InstrPos(e.Ins), brief(dterm.String()))
	}
	if n == 0 {
		c.Fail("generate", en.rel+": list of rules", pos, "nothing is listed")
		return
	}
	key := g.anyField(dterm, "ID")
	dr := drops(dterm, key)
	ok, d := sameCond(inList, bOr(track, bNot(dr)))
	c.Check(ok, "generate", en.rel+": a rule is listed", pos, d)
	// every definition is considered
	for _, e := range g.Events {
		if e.Kind == "earlystop" && e.Args[0].single() == list {
			c.Fail("generate", en.rel+": traversal of the table", p.InstrPos(e.Ins), "ends early when "+bString(e.G))
		}
	}
	// suppression mark: the last write wins
	val := bF
	for _, e := range g.Events {
		if e.Kind != "mapstore" || e.Args[0].single() != sm {
			continue
		}
		ns++
		if len(e.Loops) == 0 || e.Loops[0] != list || e.Args[1].single() != key {
			c.Fail("generate", en.rel+": suppression mark", p.InstrPos(e.Ins), "is not set under the rule's identifier: "+e.Args[1].String())
			return
		}
		if len(e.Loops) == 1 {
			val = bOr(bAnd(e.G, e.Args[2].bool()), bAnd(bNot(e.G), val))
			continue
		}
		b := e.Args[2].bool()
		if b == bT || b == bF {
			w := g.innerExists(e, 1)
			if b == bT {
				val = bOr(val, w)
			} else {
				val = bAnd(val, bNot(w))
			}
			continue
		}
		c.Fail("generate", en.rel+": suppression mark", p.InstrPos(e.Ins), "is overwritten for each filter with "+e.Args[2].String())
		return
	}
	ok, d = sameCond(bAnd(val, inList), bAnd(dr, inList))
	c.Check(ok && ns > 0, "generate", en.rel+": a listed rule is marked suppressed", pos, d)
}

// baseOf is the list a definition is an element of.
func baseOf(t *Term) *Term {
	for t != nil {
		if t.Op == "elem" {
			return t.Args[0]
		}
		if len(t.Args) == 0 {
			return nil
		}
		t = t.Args[0]
	}
	return nil
}

// innerExists moves the condition of an event out of all but the first n traversals around it.
func (g *Gate) innerExists(e *GEvent, n int) BDD {
	c := e.G
	for i := len(e.Loops) - 1; i >= n; i-- {
		c = g.existsB(e.Loops[i], c)
	}
	return c
}

// fieldOfValue reads a field of a returned struct or struct pointer.
func (g *Gate) fieldOfValue(r *GResult, v GV, name string) GV {
	return g.apply1(v, func(t *Term) GV {
		if _, ok := t.Typ.Underlying().(*types.Pointer); ok {
			return g.memField(r.Mem, t, name)
		}
		st := structOf(t.Typ)
		if st == nil {
			panic(undecided{"not a struct: " + t.String()})
		}
		i := fieldIndex(st, name)
		if i < 0 {
			panic(undecided{"no field " + name})
		}
		return g.field(t, st.Field(i))
	})
}

func checkInfo(c *Ctx, en engineAPI) {
	p := c.P
	fn := p.Method(en.rel, en.listType, en.info)
	if fn == nil {
		panic(undecided{en.info + " not found"})
	}
	g := NewGate(p)
	r := g.Run(fn)
	pos := p.Pos(fn.Pos())
	recv := gparam(fn, 0)
	rules, sup := g.anyField(recv, en.listField), g.anyField(recv, en.supField)
	c.Check(r.Rets[1].single() == sup, "info", en.info+": suppression marks", pos, r.Rets[1].String())
	out := r.Rets[0].single()
	if out == rules {
		c.OK("info", en.info+": builders", "the list itself")
		return
	}
	n := 0
	for _, e := range g.Events {
		if e.Kind == "earlystop" {
			c.Fail("info", en.info+": traversal", p.InstrPos(e.Ins), "ends early")
		}
		if e.Kind != "mapstore" || e.Args[0].single() != out {
			continue
		}
		n++
		if len(e.Loops) != 1 || keysOf(e.Loops[0]) != rules || e.G != bT {
			c.Fail("info", en.info+": builders", p.InstrPos(e.Ins), "not handed over for every listed rule: "+bString(e.G))
			continue
		}
		k, v := perKey(e.Args[1].term(), e.Loops[0], rules), perKey(e.Args[2].term(), e.Loops[0], rules)
		V := mk("theval", nil, "", nil, rules)
		okK := k.Op == "thekey" || k.Op == "field" && fieldName(k) == "ID" && k.Args[0] == V
		okV := v == V || v.Op == "field" && fieldName(v) == "Create" && v.Args[0] == V
		c.Check(okK && okV, "info", en.info+": builders", p.InstrPos(e.Ins), brief(k.String())+" = "+brief(v.String()))
	}
	c.Check(n == 1, "info", en.info+": one entry per rule", pos, fmt.Sprint(n))
}

func fieldName(t *Term) string {
	if v, ok := t.Obj.(*types.Var); ok {
		return v.Name()
	}
	return ""
}

func checkLoad(c *Ctx, en engineAPI) {
	p := c.P
	fn := p.Method("", "Analyzer", en.load)
	if fn == nil {
		panic(undecided{en.load + " not found"})
	}
	g := NewGate(p)
	g.Run(fn)
	pos := p.Pos(fn.Pos())
	defs, sup := gparam(fn, 1), gparam(fn, 2)
	var build *GEvent
	for _, e := range g.Events {
		if e.Kind == "earlystop" {
			c.Fail("load", en.load+": traversal", p.InstrPos(e.Ins), "ends early when "+bString(e.G))
		}
		if e.Kind == "call" && e.Name == "dynamic" && len(e.Loops) > 0 && keysOf(e.Loops[0]) == defs {
			build = e
			K, V := mk("thekey", nil, "", nil, defs), mk("theval", nil, "", nil, defs)
			L := e.Loops[0]
			f := perKey(e.Recv.term(), L, defs)
			id := perKey(e.Args[0].term(), L, defs)
			okF := f == V || f.Op == "field" && fieldName(f) == "Create" && f.Args[0] == V
			okID := id == K || id.Op == "field" && fieldName(id) == "ID" && id.Args[0] == V
			c.Check(okF && okID && e.G == bT && len(e.Loops) == 1, "load", en.load+": builds every rule under its identifier", p.InstrPos(e.Ins), brief(f.String())+"("+brief(id.String())+")")
		}
	}
	if build == nil {
		c.Fail("load", en.load+": builds every rule", pos, "no builder is called")
		return
	}
	L := build.Loops[0]
	rule := build.Result
	if en.rel == "rules" {
		rule = res(build, 0)
	}
	marks, adds, every := 0, 0, bF
	for _, e := range g.Events {
		switch e.Kind {
		case "mapstore":
			m := e.Args[0].single()
			if m != nil && strings.HasSuffix(m.String(), "."+en.setField) {
				marks++
				v := perKey(e.Args[2].term(), L, defs)
				mark := v.Op == "mapget" && v.Args[0] == sup && (v.Args[1].Op == "thekey" || fieldName(v.Args[1]) == "ID")
				key := e.Args[1].single()
				own := key != nil && contains(key, func(x *Term) bool { return x == rule })
				c.Check(mark && own && e.G == bT && len(e.Loops) == 1, "load", en.load+": registers the rule's own mark", p.InstrPos(e.Ins), brief(e.Args[1].String())+" = "+brief(v.String()))
			} else if m != nil && en.rel == "rules" && strings.HasSuffix(m.String(), ".Rules") {
				adds++
				every = bOr(every, e.G)
				// the new rule is added to those registered before
				node := e.Args[1].single()
				okN := len(e.Loops) == 2 && e.Loops[1] == res(build, 1) && node != nil && contains(node, func(x *Term) bool { return x == elemOf(e.Loops[1], nil) || x.Op == "elem" && x.Args[0] == e.Loops[1] })
				okV := true
				for _, a := range e.Args[2].L {
					switch {
					case a.t.Op == "append":
						okV = okV && a.t.Args[len(a.t.Args)-1] == rule && len(a.t.Args) == 2 && a.t.Args[0].Op == "mapget" && a.t.Args[0].Args[1] == node
					default:
						els, ok := g.sliceElems(nil, a.t)
						has, no := false, false
						for _, x := range g.Events {
							if x.Kind == "store" && x.Loops != nil && len(x.Loops) == len(e.Loops) && x.Args[0].single() != nil && contains(x.Args[0].single(), func(y *Term) bool { return y == a.t }) && x.Args[1].single() == rule {
								has = true
							}
						}
						for _, b := range bSupport(bAnd(e.G, a.g)) {
							no = no || b.Op == "has"
						}
						_ = els
						_ = ok
						// a fresh list only for a kind of node without rules so far
						neg := sat(bAnd(bAnd(e.G, a.g), g.hasAny(e.G))) == bF
						okV = okV && has && no && neg
					}
				}
				c.Check(okN && okV, "load", en.load+": adds the rule to those of every node kind it asked for", p.InstrPos(e.Ins), brief(e.Args[2].String()))
			}
		case "store":
			if en.rel == "analyzers" && e.Args[0].single() != nil && strings.HasSuffix(e.Args[0].single().String(), "Analyzers") {
				adds++
				every = bOr(every, e.G)
				v := e.Args[1].single()
				okV := v != nil && v.Op == "append" && v.Args[len(v.Args)-1] == rule && v.Args[0].Op == "loopmem"
				c.Check(okV && e.G == bT && len(e.Loops) == 1, "load", en.load+": adds the analyzer to the list", p.InstrPos(e.Ins), brief(e.Args[1].String()))
			}
		}
	}
	c.Check(every == bT, "load", en.load+": every rule is added", pos, bString(every))
	c.Check(marks == 1 && adds >= 1, "load", en.load+": registration", pos, fmt.Sprintf("%d marks, %d lists", marks, adds))
}

// hasAny is the conjunction of the map-membership atoms of a condition taken as true.
func (g *Gate) hasAny(b BDD) BDD {
	r := bT
	for _, a := range bSupport(b) {
		if a.Op == "has" {
			r = bAnd(r, bddOf(a))
		}
	}
	return r
}

func checkLookup(c *Ctx, rel, typ, name, field string) {
	p := c.P
	fn := p.Method(rel, typ, name)
	if fn == nil {
		panic(undecided{name + " not found"})
	}
	g := NewGate(p)
	r := g.Run(fn)
	m := g.anyField(gparam(fn, 0), field)
	v := r.Rets[0].bool()
	want := bddOf(mk("mapget", nil, "", types.Typ[types.Bool], m, gparam(fn, 1)))
	// reading the entry only when present is the same
	v2 := v
	for _, a := range bSupport(v) {
		if a.Op == "has" && a.Args[0] == m {
			v2 = bSubst(v2, a, bT)
			if sat(bAnd(bSubst(v, a, bF), bT)) != bF && bSubst(v, a, bF) != want {
				v2 = bF
			}
		}
	}
	c.Check(v == want || v2 == want, "lookup", name, p.Pos(fn.Pos()), bString(v))
}

// documented lists the rules that the documentation names as available.
var documented = strings.Fields(`G101 G102 G103 G104 G106 G107 G108 G109 G110 G111 G112 G114 G115
	G201 G202 G203 G204 G301 G302 G303 G304 G305 G306 G307 G401 G402 G403 G404 G405 G406 G407
	G501 G502 G503 G504 G505 G506 G507 G601 G602`)

func checkComplete(c *Ctx) {
	p := c.P
	seen := map[string]int{}
	for _, en := range engines {
		for _, d := range p.ruleTable(en.rel) {
			seen[d.ID]++
		}
	}
	for _, id := range documented {
		c.Check(seen[id] == 1, "complete", "rule "+id, "README.md", fmt.Sprintf("listed %d times", seen[id]))
	}
	for id, n := range seen {
		if n > 1 {
			c.Fail("complete", "identifier "+id, "-", fmt.Sprintf("used by %d rules", n))
		}
	}
}

func checkSelectionOptions(c *Ctx) {
	p := c.P
	m := p.mainModel()
	g := m.G
	gl1 := m.one("(*gosec.Analyzer).Process")
	opt := map[string]string{"include": "include", "exclude": "exclude"}
	for _, en := range engines {
		ld := m.calls("(*gosec.Analyzer)." + en.load)
		if len(ld) != 1 {
			c.Fail("wiring", en.load, "-", fmt.Sprintf("called %d times", len(ld)))
			continue
		}
		e := ld[0]
		pos := p.InstrPos(e.Ins)
		ok, d := implies(gl1.G, e.G)
		c.Check(ok, "wiring", en.load+" before the scan", pos, d)
		c.Check(gvEq(e.Args[0], gl1.Args[0]), "wiring", en.load+" on the scanner that runs", pos, "same object")
		// arguments are the two results of Info(Generate(...))
		var gen *GEvent
		a, b := e.Args[1].constrain(e.G).single(), e.Args[2].constrain(e.G).single()
		for _, x := range m.calls(en.rel + ".Generate") {
			for _, y := range g.Events {
				if y.Kind == "call" && strings.HasSuffix(y.Name, ")."+en.info) && y.Args[0].single() == x.Result && a != nil && b != nil && res(y, 0) == a && res(y, 1) == b {
					gen = x
				}
			}
		}
		if !c.Check(gen != nil, "wiring", en.load+" gets the generated list and its marks", pos, fmt.Sprint(a != nil, b != nil)) {
			continue
		}
		pos = p.InstrPos(gen.Ins)
		c.Check(gen.Args[0].bool() == m.flagB("track-suppressions"), "options", en.rel+": tracking option", pos, gen.Args[0].String())
		fl := gen.Args[1]
		if gen.VarOK {
			c.Fail("options", en.rel+": filters", pos, "a fixed list of filters")
			continue
		}
		// the filters in each of the four cases
		var inc, exc *Term
		for _, x := range m.calls("(gosec.Config).GetGlobal") {
			if o, ok := constStr(x.Args[1].term()); ok && gvHas(fl, func(y *Term) bool { return y == res(x, 0) }) {
				if o == opt["include"] {
					inc = res(x, 0)
				}
				if o == opt["exclude"] {
					exc = res(x, 0)
				}
			}
		}
		if !c.Check(inc != nil && exc != nil && inc != exc, "options", en.rel+": filters use the configured include and exclude lists", pos, "") {
			continue
		}
		ni, ne := bNot(g.eq(gvT(inc), mkString(""))), bNot(g.eq(gvT(exc), mkString("")))
		for k := 0; k < 4; k++ {
			cs := gen.G
			what := "no list"
			wi, we := k&1 != 0, k&2 != 0
			if wi {
				cs = bAnd(cs, ni)
				what = "include list"
			} else {
				cs = bAnd(cs, bNot(ni))
			}
			if we {
				cs = bAnd(cs, ne)
				what += " and exclude list"
			} else {
				cs = bAnd(cs, bNot(ne))
			}
			if sat(cs) == bF {
				c.Fail("options", en.rel+": "+what, pos, "impossible")
				continue
			}
			v := fl.constrain(cs).single()
			var seen []string
			ok := v != nil
			if ok {
				els := filterList(v)
				for _, f := range els {
					seen = append(seen, describeFilter(m, f, en, inc, exc))
				}
			}
			got := map[string]int{}
			for _, s := range seen {
				got[s]++
			}
			w := map[string]int{}
			if wi {
				w["include"] = 1
			}
			if we {
				w["exclude"] = 1
			}
			c.Check(ok && fmt.Sprint(got) == fmt.Sprint(w), "options", en.rel+": filters with "+what, pos, fmt.Sprint(seen))
		}
	}
	checkPrecedence(c)
}

// checkPrecedence: options take precedence over the configuration file.
func checkPrecedence(c *Ctx) {
	p := c.P
	m := p.mainModel()
	g := m.G
	gl1 := m.one("(*gosec.Analyzer).Process")
	opt := map[string]string{"include": "include", "exclude": "exclude"}
	for o, f := range opt {
		var sets []*GEvent
		for _, e := range m.calls("(gosec.Config).SetGlobal") {
			if s, ok := constStr(e.Args[1].term()); ok && s == o {
				sets = append(sets, e)
			}
		}
		if !c.Check(len(sets) == 1, "precedence", "option "+f+" is stored in the configuration", "-", fmt.Sprint(len(sets))) {
			continue
		}
		e := sets[0]
		pos := p.InstrPos(e.Ins)
		set := bNot(g.eq(gvT(m.flagTerm(f)), mkString("")))
		// whenever the scan is reached with the option set, it was stored
		ok, d := implies(bAnd(gl1.G, set), e.G)
		c.Check(ok, "precedence", "option "+f+" is stored whenever it is set", pos, d)
		c.Check(e.Args[2].constrain(bAnd(e.G, set)).single() == m.flagTerm(f), "precedence", "option "+f+" is stored with its value", pos, e.Args[2].String())
		// when it is not set a list given in the file stays
		var prev *Term
		for _, x := range m.calls("(gosec.Config).GetGlobal") {
			if s, ok := constStr(x.Args[1].term()); ok && s == o && eventIndex(g, x) < eventIndex(g, e) {
				prev = res(x, 0)
			}
		}
		if prev == nil {
			ok, d = implies(e.G, set)
		} else {
			ok, d = implies(e.G, bOr(set, g.eq(gvT(prev), mkString(""))))
		}
		c.Check(ok, "precedence", "a configured "+f+" list stays when the option is not set", pos, d)
		// and read back afterwards
		last := -1
		for _, x := range m.calls("(gosec.Config).GetGlobal") {
			if s, ok := constStr(x.Args[1].term()); ok && s == o && gvHas(m.one("rules.Generate").Args[1], func(y *Term) bool { return true }) {
				if i := eventIndex(g, x); i > last {
					last = i
				}
			}
		}
		c.Check(last > eventIndex(g, e), "precedence", "the "+f+" list is read after the option was stored", pos, "")
	}
}

func eventIndex(g *Gate, e *GEvent) int {
	for i, x := range g.Events {
		if x == e {
			return i
		}
	}
	return -1
}

func filterList(t *Term) []*Term {
	switch t.Op {
	case "nil":
		return nil
	case "append":
		return append(filterList(t.Args[0]), t.Args[1:]...)
	}
	return []*Term{t}
}

func describeFilter(m *mainModel, f *Term, en engineAPI, inc, exc *Term) string {
	for _, e := range m.calls(en.rel + "." + en.filter) {
		if e.Result != f {
			continue
		}
		split := func(l *Term) bool {
			ok := false
			for _, a := range e.Args[1].L {
				ok = false
				for _, s := range m.calls("strings.Split") {
					sep, isC := constStr(s.Args[1].term())
					if s.Result == a.t && isC && sep == "," && s.Args[0].single() == l {
						ok = true
					}
				}
				if !ok {
					return false
				}
			}
			return ok
		}
		b := e.Args[0].bool()
		switch {
		case b == bF && split(inc):
			return "include"
		case b == bT && split(exc):
			return "exclude"
		}
		return "other filter " + e.Args[0].String() + " " + brief(e.Args[1].String())
	}
	return "unknown " + brief(f.String())
}
