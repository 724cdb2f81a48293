package main

import (
	"fmt"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C02", checkC02) }

// The index of annotations of a scanner: what is recorded for an annotation and what a lookup returns.
type annotationIndex struct {
	p          *Program
	add, get   *ssa.Function
	line, file *Term
	S, E       GV // first and last line of a line range, as functions of its text
	gAdd       *Gate
	rAdd       *GResult
	recvAdd    *Term
	sup        *Term
}

func (p *Program) annotationIndex() *annotationIndex {
	x := &annotationIndex{p: p}
	x.add, x.get = p.Method("", "ignores", "add"), p.Method("", "ignores", "get")
	if x.add == nil || x.get == nil {
		panic(undecided{"the index of annotations was not found"})
	}
	x.gAdd = NewGate(p)
	x.gAdd.KeepMem = func(e *GEvent) bool { return e.Kind == "mapstore" }
	x.rAdd = x.gAdd.Run(x.add)
	x.recvAdd, x.file, x.line, x.sup = gparam(x.add, 0), gparam(x.add, 1), gparam(x.add, 2), gparam(x.add, 3)
	return x
}

// entry finds the new index entry in a stored list: a struct with two integers and a map.
func (x *annotationIndex) entry(v GV) *Term {
	var out *Term
	for _, a := range v.L {
		contains(a.t, func(t *Term) bool {
			if t.Op == "struct" {
				if n, ok := t.Typ.(*types.Named); ok && n.Obj().Name() == "ignore" {
					out = t
					return true
				}
			}
			return false
		})
	}
	return out
}

func cmpField(t types.Type) *types.Struct { return structOf(t) }

func checkC02(c *Ctx) {
	c.Rule("range", "the line range of a text is its number, or its two numbers separated by a dash")
	c.Rule("record", "an annotation is recorded for its file under its own line range with every rule it names, and changes no entry of another range")
	c.Rule("lookup", "a finding gets what is recorded in its file for every range that contains it or is contained in it, and nothing else")
	c.Rule("effect", "a finding is suppressed exactly when an annotation for all rules or for its rule covers it, or its rule is suppressed externally")
	c.Rule("directive", "every comment group with an annotation contributes the rules it names before the justification, or all rules when it names none")
	c.Rule("collect", "the annotations of every commented node are recorded under the file and lines of that node before the rules run on the file")
	c.Rule("off", "with annotations ignored nothing is recorded")
	c.Rule("index", "nothing else writes the index of annotations")

	c.Guard("record", "add", func() { checkAnnotationRecord(c) })
	c.Guard("effect", "lookup", func() { checkAnnotationEffect(c) })
	c.Guard("directive", "ignore", func() { checkDirective(c, nil) })
	c.Guard("collect", "nodes", func() { checkAnnotationCollect(c) })
	c.Guard("index", "writes", func() { checkIndexWrites(c) })
}

// lineRange: the two line numbers recorded for an entry.
func (x *annotationIndex) lineRange(entry *Term) {
	st := structOf(entry.Typ)
	x.S = x.gAdd.field(entry, st.Field(fieldIndex(st, "start")))
	x.E = x.gAdd.field(entry, st.Field(fieldIndex(st, "end")))
}

// rangeCases: what the numbers are for a text of one and of two numbers.
func (x *annotationIndex) rangeCases(c *Ctx) {
	pos := x.p.Pos(x.add.Pos())
	for _, two := range []bool{false, true} {
		K := bT
		sup := map[*Term]bool{}
		for _, v := range []GV{x.S, x.E} {
			for _, a := range v.L {
				for _, t := range bSupport(a.g) {
					sup[t] = true
				}
			}
		}
		bad := ""
		for _, t := range sortedTerms(sup) {
			switch {
			case contains(t, func(y *Term) bool { return y.Op == "len" }):
				// the number of parts
				n := int64(1)
				if two {
					n = 2
				}
				r := mapTerm(t, func(y *Term) *Term {
					if y.Op == "len" && partsOf(y.Args[0], x.line) {
						return mkInt(n)
					}
					return y
				})
				if r.Op == "bin" && r.Obj == "<" {
					r = ltT(r.Args[0], r.Args[1], types.Typ[types.Int])
				} else if r.Op == "bin" && r.Obj == "==" {
					r = eqT(r.Args[0], r.Args[1])
				}
				switch bddOf(r) {
				case bT:
					K = bAnd(K, bddOf(t))
				case bF:
					K = bAnd(K, bNot(bddOf(t)))
				default:
					bad = t.String()
				}
			case t.Op == "extract" && t.Args[0].Op == "call" && funcNameOf(t.Args[0]) == "strings.Cut":
				if two {
					K = bAnd(K, bddOf(t))
				} else {
					K = bAnd(K, bNot(bddOf(t)))
				}
			default:
				// a number that could not be read
				e := atoiError(t)
				if e == nil {
					bad = t.String()
				}
				K = bAnd(K, bddOf(t))
			}
		}
		if bad != "" {
			c.Fail("range", fmt.Sprintf("text with two numbers=%v", two), pos, "depends on "+bad)
			continue
		}
		s, e := x.S.constrain(K).single(), x.E.constrain(K).single()
		ok := s != nil && e != nil && atoiPart(s, x.line) == 0
		if two {
			ok = ok && atoiPart(e, x.line) == 1
		} else {
			ok = ok && s == e
		}
		c.Check(ok, "range", fmt.Sprintf("text with two numbers=%v", two), pos, fmt.Sprint(x.S.constrain(K), " ", x.E.constrain(K)))
	}
}

func funcNameOf(t *Term) string {
	if fn, ok := t.Obj.(*ssa.Function); ok {
		return funcQual(fn)
	}
	return ""
}

func partsOf(t, line *Term) bool {
	if t.Op != "call" || t.Args[0] != line {
		return false
	}
	sep, _ := constStr(t.Args[1])
	switch funcNameOf(t) {
	case "strings.Split":
		return sep == "-"
	case "strings.SplitN":
		n, ok := constInt(t.Args[2])
		return sep == "-" && ok && (n < 0 || n >= 2)
	}
	return false
}

// atoiPart: the term is the number in part k of the text.
func atoiPart(t, line *Term) int {
	if t.Op != "extract" && t.Op != "res" {
		if len(t.Args) == 0 {
			return -1
		}
	}
	k := -1
	contains(t, func(y *Term) bool {
		if y.Op == "call" && (funcNameOf(y) == "strconv.Atoi" || funcNameOf(y) == "strconv.ParseInt") {
			a := y.Args[0]
			if a.Op == "index" && partsOf(a.Args[0], line) {
				if n, ok := constInt(a.Args[1]); ok {
					k = int(n)
				}
			}
			if (a.Op == "extract" || a.Op == "res") && a.Args[0].Op == "call" && funcNameOf(a.Args[0]) == "strings.Cut" && a.Args[0].Args[0] == line {
				if sep, _ := constStr(a.Args[0].Args[1]); sep == "-" {
					fmt.Sscanf(strings.TrimPrefix(a.ctx(), "#"), "%d", &k)
				}
			}
			return true
		}
		return false
	})
	return k
}

func (t *Term) ctx() string { return fmt.Sprint(t.Obj) }

// atoiError: the atom says that a number could be read.
func atoiError(t *Term) *Term {
	if t.Op != "bin" || t.Obj != "==" {
		return nil
	}
	for i, a := range t.Args {
		if a.Op == "nil" {
			o := t.Args[1-i]
			if contains(o, func(y *Term) bool { return y.Op == "call" && strings.HasPrefix(funcNameOf(y), "strconv.") }) {
				return o
			}
		}
	}
	return nil
}

func checkAnnotationRecord(c *Ctx) {
	x := c.P.annotationIndex()
	g, p := x.gAdd, c.P
	pos := p.Pos(x.add.Pos())
	var entry *Term
	var final *GEvent
	nIndex := 0
	for _, e := range g.Events {
		if e.Kind == "mapstore" && e.Args[0].single() == x.recvAdd {
			nIndex++
			if t := x.entry(e.Args[2]); t != nil {
				entry, final = t, e
			}
			c.Check(e.Args[1].single() == x.file && len(e.Loops) == 0, "record", "entries of the annotated file", p.InstrPos(e.Ins), e.Args[1].String())
		}
	}
	if entry == nil {
		c.Fail("record", "new entry", pos, "nothing is recorded")
		return
	}
	x.lineRange(entry)
	x.rangeCases(c)
	old := mk("mapget", nil, "", final.Args[2].L[0].t.Typ, x.recvAdd, x.file)
	// the entry that already has this range
	isList := func(t *Term) bool {
		return t == old || t.Op == "mapget" && t.Args[0] == x.recvAdd && t.Args[1] == x.file
	}
	var list *Term
	for _, e := range g.Events {
		for _, l := range e.Loops {
			for _, q := range pieces2(l) {
				if isList(q) {
					list = q
				}
			}
		}
	}
	if list == nil {
		for _, a := range caseSplit(final.Args[2]) {
			contains(a.t, func(t *Term) bool {
				if isList(t) {
					list = t
				}
				return list != nil
			})
		}
	}
	if list == nil {
		c.Fail("record", "earlier entries", pos, "are not kept")
		return
	}
	hasFile := bddOf(mk("has", nil, "", types.Typ[types.Bool], x.recvAdd, x.file))
	el := g.listElem(list, elemType(list.Typ))
	same := bAnd(g.gvEqB(g.anyFieldV(el, "start"), x.S), g.gvEqB(g.anyFieldV(el, "end"), x.E))
	exists := bAnd(hasFile, g.existsB(list, same))
	// the new list
	fresh, freshMap := bF, (*Term)(nil)
	for _, a := range caseSplit(final.Args[2]) {
		if a.g = bAnd(a.g, final.G); sat(a.g) == bF {
			continue
		}
		base, added := appendParts(a.t)
		okBase := isList(base) || isEmptyList(base) && sat(bAnd(a.g, hasFile)) == bF || localObj(base) && sat(bAnd(a.g, hasFile)) == bF
		switch {
		case len(added) == 0 && okBase:
		case len(added) == 1 && okBase && added[0].Op == "struct":
			fresh = bOr(fresh, a.g)
			st := structOf(added[0].Typ)
			freshMap = g.field(added[0], st.Field(fieldIndex(st, "suppressions"))).single()
			same := bAnd(g.gvEqB(g.field(added[0], st.Field(fieldIndex(st, "start"))), x.S), g.gvEqB(g.field(added[0], st.Field(fieldIndex(st, "end"))), x.E))
			c.Check(sat(bAnd(a.g, bNot(same))) == bF, "record", "range of a new entry", p.InstrPos(final.Ins), brief(added[0].String()))
		default:
			c.Fail("record", "earlier entries stay", p.InstrPos(final.Ins), brief(a.t.String())+" when "+bString(a.g))
		}
	}
	for _, e := range g.Events {
		if e.Kind == "mapstore" && e.Args[0].single() == x.recvAdd && e != final {
			c.Fail("record", "entries are written once", p.InstrPos(e.Ins), "another write of the list of entries")
		}
	}
	// what is written into suppression maps
	merged := bF
	filled := bF
	for _, e := range g.Events {
		if e.Kind != "mapstore" || e.Args[0].single() == x.recvAdd {
			continue
		}
		ip := p.InstrPos(e.Ins)
		rules := -1
		for i, l := range e.Loops {
			if l.Op == "maprange" && l.Args[0] == x.sup {
				rules = i
			}
		}
		if rules < 0 {
			c.Fail("record", "rules of an annotation", ip, "are not all recorded")
			continue
		}
		L := e.Loops[rules]
		K, V := perKey(e.Args[1].term(), L, x.sup), e.Args[2]
		c.Check(K.Op == "thekey", "record", "a suppression is recorded under its rule", ip, brief(K.String()))
		for _, m := range caseSplit(e.Args[0]) {
			G := bAnd(e.G, m.g)
			if sat(G) == bF {
				continue
			}
			if m.t == freshMap {
				filled = bOr(filled, G)
				ok := true
				for _, a := range caseSplit(V) {
					els, k := g.sliceElems(e.Mem, a.t)
					ok = ok && (k && len(els) == 1 && els[0].single() != nil && perKey(els[0].single(), L, x.sup).Op == "theval" || appendsOnly(a.t, m.t, L, x.sup))
				}
				c.Check(ok, "record", "a new entry holds the annotation's suppression", ip, V.String())
				continue
			}
			// an earlier entry: one with the same range
			fe := m.t
			if !(fe.Op == "field" && fieldName(fe) == "suppressions") {
				c.Fail("record", "suppressions are written into", ip, brief(m.t.String()))
				continue
			}
			ent := fe.Args[0]
			var ok bool
			d := ""
			switch {
			case ent == el:
				ok, d = implies(G, same)
				merged = bOr(merged, g.existsB(list, G))
			case strings.HasPrefix(ent.Op, "first") || strings.HasPrefix(ent.Op, "last"):
				// the first entry for which a condition holds
				ok, d = implies(bAnd(G, onList(condTerms[ent], list)), same)
				merged = bOr(merged, G)
			default:
				d = brief(ent.String())
			}
			c.Check(ok, "record", "an annotation is merged only with those of the same range", ip, d)
			okV := true
			for _, a := range V.L {
				if sat(bAnd(a.g, e.G)) == bF {
					continue
				}
				okM := appendsTo(a.t, m.t, e.Args[1].term(), bAnd(a.g, G), L, x.sup)
				if s := e.Args[0].single(); !okM && s != nil {
					okM = appendsTo(a.t, s, e.Args[1].term(), bAnd(a.g, e.G), L, x.sup)
				}
				okV = okV && okM
			}
			c.Check(okV, "record", "merging keeps what was recorded", ip, V.String())
		}
	}
	ok, d := sameCond(fresh, bNot(exists))
	c.Check(ok, "record", "a new entry is made exactly when there is none of this range", pos, d)
	ok, d = implies(fresh, filled)
	c.Check(ok, "record", "a new entry holds every rule", pos, d)
	ok, d = implies(exists, merged)
	c.Check(ok, "record", "an annotation on a known range is merged", pos, d)
}

// pieces2 splits a joined term into its possible values.
func pieces2(t *Term) []*Term {
	var out []*Term
	for _, a := range splitTerm(t, bT) {
		out = append(out, a.t)
	}
	return out
}

func (g *Gate) gvEqB(a, b GV) BDD {
	r := bF
	for _, y := range b.L {
		r = bOr(r, bAnd(y.g, g.eq(a, y.t)))
	}
	return r
}

func (g *Gate) gvLtB(a, b GV) BDD {
	r := bF
	for _, x := range a.L {
		for _, y := range b.L {
			r = bOr(r, bAnds(x.g, y.g, g.lt(x.t, y.t, types.Typ[types.Int])))
		}
	}
	return r
}

func (g *Gate) anyFieldV(t *Term, name string) GV { return gvT(g.anyField(t, name)) }

// appendParts: the elements added to a list.
func appendParts(t *Term) (*Term, []*Term) {
	if t.Op == "append" {
		b, a := appendParts(t.Args[0])
		return b, append(a, t.Args[1:]...)
	}
	return t, nil
}

// onList rewrites a condition on the elements of a list with cases in terms of one of the cases.
func onList(b BDD, list *Term) BDD {
	return bMap(b, func(a *Term) BDD {
		return bddOf(mapTerm(a, func(t *Term) *Term {
			if t.Op == "elem" && t.Args[0] != list {
				for _, q := range pieces2(t.Args[0]) {
					if q == list {
						return elemOf(list, t.Typ)
					}
				}
			}
			return t
		}))
	})
}

// unver drops the versions of map reads.
func unver(b BDD) BDD {
	return bMap(b, func(a *Term) BDD { return bddOf(unverT(a)) })
}

func unverT(t *Term) *Term {
	return mapTerm(t, func(x *Term) *Term {
		if (x.Op == "has" || x.Op == "mapget") && x.Ctx != "" {
			return mk(x.Op, x.Obj, "", x.Typ, x.Args...)
		}
		return x
	})
}

// appendsTo: the value is what a map holds under the key, plus the traversed suppression.
func appendsTo(v, m, key *Term, G BDD, L, sup *Term) bool {
	v, m, key, G = unverT(v), unverT(m), unverT(key), unver(G)
	base, added := appendParts(v)
	if len(added) != 1 || perKey(added[0], L, sup).Op != "theval" {
		return false
	}
	if base.Op == "mapget" && base.Args[0] == m && base.Args[1] == key {
		return true
	}
	h := bddOf(mk("has", nil, "", types.Typ[types.Bool], m, key))
	return (isEmptyList(base) || localObj(base)) && sat(bAnd(G, h)) == bF
}

func appendsOnly(v, m, L, sup *Term) bool {
	base, added := appendParts(v)
	return len(added) == 1 && perKey(added[0], L, sup).Op == "theval" && (isEmptyList(base) || base.Op == "mapget" && base.Args[0] == m)
}

func checkAnnotationEffect(c *Ctx) {
	p := c.P
	x := p.annotationIndex()
	for _, e := range x.gAdd.Events {
		if e.Kind == "mapstore" && e.Args[0].single() == x.recvAdd {
			if t := x.entry(e.Args[2]); t != nil {
				x.lineRange(t)
			}
		}
	}
	if x.S.L == nil {
		panic(undecided{"the line range of an entry is unknown"})
	}
	fn := p.Method("", "Analyzer", "getSuppressionsAtLineInFile")
	if fn == nil {
		panic(undecided{"the lookup of suppressions was not found"})
	}
	g := NewGate(p)
	recv, file, line, id := gparam(fn, 0), x.file, x.line, gparam(fn, 3)
	r := g.Run(fn, gvT(recv), gvT(file), gvT(line), gvT(id))
	pos := p.Pos(fn.Pos())
	v := unver(r.Rets[1].bool())
	// the map that answers
	var res *Term
	for _, a := range bSupport(v) {
		if a.Op == "has" && localObj(a.Args[0]) {
			res = a.Args[0]
		}
	}
	if res == nil {
		c.Fail("effect", "answer of the lookup", pos, bString(v))
		return
	}
	key := func(k *Term) BDD { return bddOf(mk("has", nil, "", types.Typ[types.Bool], res, k)) }
	star := mkString("*")
	ext := externalB(g, recv, id)
	ok, d := sameCond(v, bOrs(key(star), key(id), ext))
	c.Check(ok, "effect", "a finding is suppressed", pos, d)

	n := 0
	for _, e := range g.Events {
		if e.Kind == "earlystop" && len(e.Loops) == 0 {
			c.Fail("lookup", "traversal of the annotations", p.InstrPos(e.Ins), "ends early when "+bString(e.G))
		}
		if e.Kind != "mapstore" || e.Args[0].single() != res {
			continue
		}
		n++
		ip := p.InstrPos(e.Ins)
		if len(e.Loops) != 2 {
			c.Fail("lookup", "answer", ip, "is not built from the recorded entries")
			continue
		}
		list, sup := e.Loops[0], e.Loops[1]
		okL := list.Op == "mapget" && list.Args[1] == file && strings.HasSuffix(list.Args[0].String(), ".Ignores")
		c.Check(okL, "lookup", "entries of the finding's file", ip, brief(list.String()))
		el := g.listElem(list, elemType(list.Typ))
		c.Check(sup.Op == "maprange" && sup.Args[0] == g.anyField(el, "suppressions"), "lookup", "every rule of an entry", ip, brief(sup.String()))
		c.Check(perKey(e.Args[1].term(), sup, sup.Args[0]).Op == "thekey", "lookup", "under its rule", ip, brief(e.Args[1].String()))
		a, b := g.anyFieldV(el, "start"), g.anyFieldV(el, "end")
		within := bAnd(bNot(g.gvLtB(x.S, a)), bNot(g.gvLtB(b, x.E)))
		around := bAnd(bNot(g.gvLtB(a, x.S)), bNot(g.gvLtB(x.E, b)))
		hasFile := bddOf(mk("has", nil, "", types.Typ[types.Bool], list.Args[0], file))
		got := bSubst(e.G, mk("has", nil, "", types.Typ[types.Bool], list.Args[0], file), bT)
		_ = hasFile
		ok, d := sameCond(got, bOr(within, around))
		c.Check(ok, "lookup", "ranges that count", ip, d)
		// earlier answers are kept
		okV := true
		for _, y := range caseSplit(e.Args[2]) {
			base, added := appendParts(y.t)
			okB := base.Op == "mapget" && base.Args[0] == res || isEmptyList(base)
			okA := len(added) == 1 && added[0].Op == "spread" && perKey(added[0].Args[0], sup, sup.Args[0]).Op == "theval"
			okV = okV && okA && okB && (base.Op == "mapget" || sat(bAnd(bAnd(y.g, e.G), bddOf(mk("has", nil, "", types.Typ[types.Bool], res, e.Args[1].term())))) == bF)
		}
		c.Check(okV, "lookup", "all annotations that cover a finding take effect together", ip, e.Args[2].String())
	}
	c.Check(n == 1, "lookup", "answer", pos, fmt.Sprintf("%d writes", n))
	// the lookup is asked about the finding's own place and rule
	up := p.Method("", "Analyzer", "updateIssues")
	if up == nil {
		panic(undecided{"updateIssues not found"})
	}
	gu := NewGate(p)
	gu.noInline(fn)
	gu.Run(up)
	is := gparam(up, 1)
	asked := 0
	for _, e := range gu.Events {
		if e.Kind == "call" && e.Fn == fn {
			asked++
			okA := true
			for i, f := range []string{"File", "Line", "RuleID"} {
				okA = okA && e.Args[i+1].single() == gu.ptrField(is, f)
			}
			c.Check(okA, "effect", "the lookup is for the finding's file, lines and rule", p.InstrPos(e.Ins), fmt.Sprint(e.Args[1:]))
		}
	}
	c.Check(asked >= 1, "effect", "the lookup is made for a finding", p.Pos(up.Pos()), fmt.Sprint(asked))
}

// externalB: the rule is suppressed from outside, in either engine.
func externalB(g *Gate, recv, id *Term) BDD {
	p := g.P
	r := bF
	for _, en := range []struct{ field, set, name string }{{"ruleset", "RuleSet", "IsRuleSuppressed"}, {"analyzerSet", "AnalyzerSet", "IsSuppressed"}} {
		rel := ""
		if en.set == "AnalyzerSet" {
			rel = "analyzers"
		}
		fn := p.Method(rel, en.set, en.name)
		if fn == nil {
			panic(undecided{en.name + " not found"})
		}
		set := g.ptrField(recv, en.field)
		gg := NewGate(p)
		res := gg.Run(fn, gvT(set), gvT(id))
		r = bOr(r, res.Rets[0].bool())
	}
	return r
}

// checkDirective decides what one node's comments contribute. With just set, it gets the
// records written (for the property about suppression records).
func checkDirective(c *Ctx, just func(g *Gate, e *GEvent, groups *Term, found func(BDD) BDD)) {
	p := c.P
	fn := p.Method("", "Analyzer", "ignore")
	if fn == nil {
		panic(undecided{"ignore not found"})
	}
	getGlobal := p.Method("", "Config", "GetGlobal")
	tagFn := p.Func("", "NoSecTag")
	g := NewGate(p)
	g.noInline(getGlobal, tagFn)
	g.KeepMem = func(e *GEvent) bool { return e.Kind == "mapstore" }
	r := g.Run(fn)
	pos := p.Pos(fn.Pos())
	recv, n := gparam(fn, 0), gparam(fn, 1)
	off := bddOf(g.ptrField(recv, "ignoreNosec"))
	var M *Term
	for _, a := range r.Rets[0].L {
		if a.t.Op != "nil" {
			M = a.t
		}
	}
	if M == nil || !localObj(M) {
		c.Fail("directive", "rules of a node", pos, r.Rets[0].String())
		return
	}
	var named, all *GEvent
	var writes []*GEvent
	for _, e := range g.Events {
		if e.Kind == "mapstore" && e.Args[0].single() == M {
			writes = append(writes, eachList(g, e)...)
		}
	}
	for _, e := range writes {
		if s, ok := constStr(e.Args[1].term()); ok && s == "*" {
			all = e
		} else if named == nil {
			named = e
		} else {
			c.Fail("directive", "rules of a node", p.InstrPos(e.Ins), "written at another place under "+e.Args[1].String())
		}
	}
	if named == nil || all == nil {
		c.Fail("directive", "rules of a node", pos, "named rules or the mark for all rules are not recorded")
		return
	}
	groups := all.Loops[0]
	okG := groups.Op == "mapget" && groups.Args[1] == n && strings.HasSuffix(groups.Args[0].String(), ".Comments")
	c.Check(okG && len(all.Loops) == 1, "directive", "every comment group of the node", pos, brief(groups.String()))
	for _, e := range g.Events {
		if e.Kind == "earlystop" && e.Args[0].single() == groups {
			c.Fail("directive", "every comment group of the node", p.InstrPos(e.Ins), "traversal ends early when "+bString(e.G))
		}
	}
	hasNode := bddOf(mk("has", nil, "", types.Typ[types.Bool], groups.Args[0], n))
	// nothing when annotations are ignored
	for _, e := range []*GEvent{named, all} {
		c.Check(sat(bAnd(e.G, off)) == bF, "off", "with annotations ignored", p.InstrPos(e.Ins), bString(e.G))
	}
	retM := bF
	for _, a := range r.Rets[0].L {
		if a.t == M {
			retM = bOr(retM, a.g)
		}
	}
	ok, d := sameCond(retM, bAnd(bNot(off), hasNode))
	if !ok {
		ok, d = implies(bAnd(bNot(off), hasNode), retM)
	}
	c.Check(ok, "directive", "what was found is returned", pos, d)

	// the two tags
	tags := map[*Term]string{}
	var gets []*GEvent
	for _, e := range g.Events {
		if e.Kind == "call" && e.Fn == getGlobal {
			gets = append(gets, e)
		}
		if e.Kind == "call" && e.Fn == tagFn {
			tags[e.Result] = "?"
		}
	}
	// settings of the two options: given or not
	opt := map[string]*GEvent{}
	for _, e := range gets {
		if s, ok := constStr(e.Args[1].term()); ok {
			opt[s] = e
		}
	}
	defN := constValueOf(p, "Nosec")
	altN := constValueOf(p, "NoSecAlternative")
	if opt[defN] == nil || opt[altN] == nil {
		c.Fail("directive", "tags", pos, "the configured tags are not read")
		return
	}
	text := func(t *Term) bool { // the text of the group
		return contains(t, func(y *Term) bool {
			return y.Op == "call" && strings.HasSuffix(funcNameOf(y), "CommentGroup).Text") && y.Args[0] == g.listElem(groups, elemType(groups.Typ))
		})
	}
	for k := 0; k < 4; k++ {
		cs := bT
		given := map[string]bool{defN: k&1 != 0, altN: k&2 != 0}
		for o, e := range opt {
			isNil := g.eq(gvT(res(e, 1)), mkNil())
			if given[o] {
				cs = bAnd(cs, isNil)
			} else {
				cs = bAnd(cs, bNot(isNil))
			}
		}
		// the tags of this case
		var D, A *Term
		tagOf := func(arg *Term) *Term {
			for t := range tags {
				if t.Args[0] == arg {
					return t
				}
			}
			return nil
		}
		D = tagOf(mkString(defN))
		if given[defN] {
			D = tagOf(res(opt[defN], 0))
		}
		A = D
		if given[altN] {
			A = tagOf(res(opt[altN], 0))
		}
		what := fmt.Sprintf("configured tag=%v alternative=%v", given[defN], given[altN])
		if D == nil || A == nil {
			c.Fail("directive", "tags with "+what, pos, "are not used")
			continue
		}
		Z := mk("sym", "no rule named", "", types.Typ[types.Bool])
		seen := map[string]bool{}
		bad := ""
		classify := func(b BDD) BDD {
			return bMap(b, func(a *Term) BDD {
				cl := ""
				neg := false
				switch {
				case a.Op == "has" && a.Args[0] == M:
					return bF
				case bddOf(a) == off || bddOf(a) == hasNode:
					return bddOf(a)
				case contains(a, func(y *Term) bool { return y.Op == "call" && strings.Contains(funcNameOf(y), "FindAllString") }):
					// number of named rules
					e := eqT(lenArg(a), mkInt(0))
					if bddOf(e) == bddOf(a) {
						return bddOf(Z)
					}
					bad = "depends on " + a.String()
					return bddOf(a)
				case a.Op == "call" && funcNameOf(a) == "strings.HasPrefix" && text(a.Args[0]):
					cl = "prefix " + tagName(a.Args[1], D, A)
				case a.Op == "call" && strings.HasSuffix(funcNameOf(a), "Regexp).MatchString") && text(a.Args[1]):
					cl = "line " + tagPattern(a.Args[0], D, A)
				case strings.HasPrefix(a.Op, "exists") && strings.HasSuffix(a.Args[0].String(), ".List"):
					if directiveMatch(p, g, condTerms[a], a.Args[0]) {
						cl = "directive"
					}
				}
				if cl == "" || strings.Contains(cl, "?") {
					bad = "depends on " + a.String()
					return bddOf(a)
				}
				_ = neg
				seen[cl] = true
				return bddOf(mk("sym", cl, "", types.Typ[types.Bool]))
			})
		}
		S := func(s string) BDD { return bddOf(mk("sym", s, "", types.Typ[types.Bool])) }
		want := bF
		for _, t := range []*Term{D, A} {
			want = bOrs(want, S("prefix "+tagName(t, D, A)), S("line "+tagName(t, D, A)))
		}
		want = bAnds(bNot(off), hasNode, bOr(want, S("directive")))
		gn := classify(bAnd(bConstrain(named.G, cs), bT))
		ga := classify(bConstrain(all.G, cs))
		if bad != "" {
			c.Fail("directive", "annotations recognised with "+what, p.InstrPos(all.Ins), bad)
			continue
		}
		// with no rule named there is nothing in the list
		some := bNot(bddOf(Z))
		ok, d := sameCond(bAnd(gn, some), bAnd(want, some))
		c.Check(ok, "directive", "named rules are recorded with "+what, p.InstrPos(named.Ins), d)
		ok, d = sameCond(ga, bAnd(want, bddOf(Z)))
		c.Check(ok, "directive", "all rules are recorded with "+what, p.InstrPos(all.Ins), d)
	}
	// which rules are named
	checkNamedRules(c, g, named, all, text)
	if just != nil {
		just(g, named, groups, nil)
		just(g, all, groups, nil)
	}
}

func lenArg(a *Term) *Term {
	var out *Term
	contains(a, func(y *Term) bool {
		if y.Op == "len" && out == nil {
			out = y
		}
		return false
	})
	if out == nil {
		return a
	}
	return out
}

func constValueOf(p *Program, name string) string {
	spkg := p.SPkg[modPath]
	if nc, ok := spkg.Members[name].(*ssa.NamedConst); ok {
		s, _ := constStr(mkConst(nc.Value.Value, types.Typ[types.String]))
		return s
	}
	panic(undecided{"constant " + name + " not found"})
}

func tagName(t, D, A *Term) string {
	switch {
	case t == D:
		return "default"
	case t == A:
		return "alternative"
	}
	// the tag may be joined over the cases; the guard of the case decides
	for _, x := range pieces2(t) {
		if x == D {
			return "default"
		}
	}
	for _, x := range pieces2(t) {
		if x == A {
			return "alternative"
		}
	}
	return "?"
}

// tagPattern: the pattern that finds a tag at the start of a line.
func tagPattern(re, D, A *Term) string {
	if re.Op != "call" || !strings.HasPrefix(funcNameOf(re), "regexp.MustCompile") {
		return "?"
	}
	ps := pieces(re.Args[0])
	var lit strings.Builder
	tag := "?"
	for _, q := range ps {
		if q.val == nil {
			if tag != "?" {
				return "?"
			}
			lit.WriteString(q.lit)
			continue
		}
		t := q.val
		if t.Op == "call" && funcNameOf(t) == "regexp.QuoteMeta" {
			tag = tagName(t.Args[0], D, A)
		} else {
			return "?"
		}
	}
	if lit.String() != "\n *" && lit.String() != "\\n *" {
		return "?"
	}
	return tag
}

// directiveMatch: the condition says that a comment of the list matches the directive pattern.
func directiveMatch(p *Program, g *Gate, b BDD, list *Term) bool {
	sup := bSupport(b)
	if len(sup) != 1 {
		return false
	}
	a := sup[0]
	okText := false
	okRe := false
	contains(a, func(y *Term) bool {
		if y.Op == "call" && strings.Contains(funcNameOf(y), "Regexp).") {
			txt := y.Args[1].String()
			okText = strings.HasSuffix(txt, ".Text") && contains(y.Args[1], func(z *Term) bool { return z.Op == "elem" && z.Args[0] == list })
			okRe = directivePattern(p, y.Args[0])
			n := funcNameOf(y)
			okRe = okRe && (strings.HasSuffix(n, "MatchString") && b == bddOf(a) || strings.HasSuffix(n, "FindStringSubmatch") && b == bNot(bddOf(eqT(lenArg(a), mkInt(0)))))
		}
		return false
	})
	return okText && okRe
}

// directivePattern: the pattern of //gosec:disable directives.
func directivePattern(p *Program, re *Term) bool {
	s, ok := patternOf(p, re)
	return ok && samePattern(s, "^//gosec:disable(?: (.+))?$")
}

// patternOf: the text of a compiled pattern.
func patternOf(p *Program, re *Term) (string, bool) {
	if re.Op == "deref" && re.Args[0].Op == "global" {
		if gl, ok := re.Args[0].Obj.(*ssa.Global); ok && p.immutableGlobal(gl) {
			gi, mi := p.gateInit(gl.Pkg)
			if t := gi.load(mi, re.Args[0]).single(); t != nil {
				re = t
			}
		}
	}
	if re.Op == "call" && strings.HasPrefix(funcNameOf(re), "regexp.MustCompile") {
		return constStr(re.Args[0])
	}
	return "", false
}

// samePattern: two patterns match the same texts, as far as their simplified trees tell.
func samePattern(a, b string) bool {
	norm := func(s string) string {
		re, err := syntax.Parse(s, syntax.Perl)
		if err != nil {
			return "!" + s
		}
		var rec func(r *syntax.Regexp) *syntax.Regexp
		rec = func(r *syntax.Regexp) *syntax.Regexp {
			for r.Op == syntax.OpCapture {
				r = r.Sub[0]
			}
			for i, s := range r.Sub {
				r.Sub[i] = rec(s)
			}
			return r
		}
		return rec(re).Simplify().String()
	}
	return norm(a) == norm(b)
}

// eachList: what is done for each element of a list that is one of several is done for the known elements of
// some of them, and for each element of the others.
func eachList(g *Gate, e *GEvent) []*GEvent {
	if len(e.Loops) != 2 || e.Loops[1].Op != "gv" {
		return []*GEvent{e}
	}
	L := e.Loops[1]
	with := func(on BDD, loops []*Term, f func(*Term) *Term) *GEvent {
		n := *e
		s := newSubst(g, L, f)
		n.Loops = loops
		n.G = bAnd(s.bdd(e.G), on)
		n.Args = nil
		for _, a := range e.Args {
			n.Args = append(n.Args, s.gv(a))
		}
		return &n
	}
	var out []*GEvent
	var rest []gl
	on := bF
	for _, a := range gvTerms[L].L {
		els, ok := g.sliceElems(e.Mem, a.t)
		if !ok {
			rest = append(rest, a)
			on = bOr(on, a.g)
			continue
		}
		for i, x := range els {
			x := x.constrain(bAnd(a.g, e.G)).term()
			out = append(out, with(a.g, e.Loops[:1], func(t *Term) *Term {
				if t.Op == "elem" && t.Args[0] == L {
					return x
				}
				if t.Op == "idx" && t.Args[0] == L {
					return mkInt(int64(i))
				}
				return nil
			}))
		}
	}
	if len(out) == 0 {
		return []*GEvent{e}
	}
	if len(rest) > 0 {
		other := gvNorm(rest).constrain(on).term()
		out = append(out, with(on, []*Term{e.Loops[0], other}, func(t *Term) *Term {
			if (t.Op == "elem" || t.Op == "idx") && t.Args[0] == L {
				return mk(t.Op, t.Obj, t.Ctx, t.Typ, other)
			}
			return nil
		}))
	}
	return out
}

func checkNamedRules(c *Ctx, g *Gate, named, all *GEvent, text func(*Term) bool) {
	p := c.P
	ip := p.InstrPos(named.Ins)
	if len(named.Loops) != 2 {
		c.Fail("directive", "named rules", ip, "not every match is recorded")
		return
	}
	for _, e := range g.Events {
		if e.Kind == "earlystop" && e.Args[0].single() == named.Loops[1] {
			c.Fail("directive", "named rules", p.InstrPos(e.Ins), "traversal of the matches ends early when "+bString(e.G))
		}
	}
	for _, k := range caseSplit(named.Args[1]) {
		if sat(bAnd(k.g, named.G)) == bF {
			continue
		}
		// the key is a whole match of the identifier pattern in the directive
		var call *Term
		contains(k.t, func(y *Term) bool {
			if y.Op == "call" && strings.Contains(funcNameOf(y), "Regexp).FindAllString") {
				call = y
			}
			return call != nil
		})
		if call == nil {
			c.Fail("directive", "named rules", ip, brief(k.t.String()))
			continue
		}
		pat, ok := patternOf(p, call.Args[0])
		n, isN := constInt(call.Args[2])
		c.Check(ok && samePattern(pat, `G\d{3}`) && isN && n < 0, "directive", "rule identifiers are G and three digits, all of them", ip, brief(call.String()))
		dir := call.Args[1]
		okD := false
		for _, d := range splitTerm(dir, bAnd(k.g, named.G)) {
			if sat(d.g) == bF {
				continue
			}
			okD = beforeDashes(p, d.t, text)
			if !okD {
				break
			}
		}
		c.Check(okD, "directive", "rules are named before the justification", ip, brief(dir.String()))
	}
}

// beforeDashes: the part of an annotation's text before two or more dashes.
func beforeDashes(p *Program, t *Term, text func(*Term) bool) bool {
	return dashPart(p, t, 0, text)
}

func dashPart(p *Program, t *Term, k int64, text func(*Term) bool) bool {
	if t.Op != "index" {
		return false
	}
	if n, ok := constInt(t.Args[1]); !ok || n != k {
		return false
	}
	sp := t.Args[0]
	if sp.Op != "call" || !strings.HasSuffix(funcNameOf(sp), "Regexp).Split") {
		return false
	}
	pat, ok := patternOf(p, sp.Args[0])
	n, isN := constInt(sp.Args[2])
	return ok && samePattern(pat, "-{2,}") && isN && n == 2 && annotationText(p, sp.Args[1], text)
}

// annotationText: what follows the tag, or the directive itself.
func annotationText(p *Program, t *Term, text func(*Term) bool) bool {
	ok := true
	for _, q := range splitTerm(t, bT) {
		y := q.t
		switch {
		case y.Op == "index" && y.Args[0].Op == "call" && strings.HasPrefix(funcNameOf(y.Args[0]), "strings.SplitN") && text(y.Args[0].Args[0]):
			n, k := constInt(y.Args[1])
			m, j := constInt(y.Args[0].Args[2])
			ok = ok && k && n == 1 && j && m == 2
		case y.Op == "extract" && fmt.Sprint(y.Obj) == "1" && funcNameOf(y.Args[0]) == "strings.Cut" && text(y.Args[0].Args[0]):
		case y.Op == "index" && y.Args[0].Op == "call" && strings.HasSuffix(funcNameOf(y.Args[0]), "Regexp).FindStringSubmatch"):
			ok = ok && directivePattern(p, y.Args[0].Args[0])
		case y.Op == "const":
		default:
			return false
		}
	}
	return ok
}

func checkAnnotationCollect(c *Ctx) {
	p := c.P
	add := p.Method("", "ignores", "add")
	ign := p.Method("", "Analyzer", "ignore")
	fn := p.Method("", "Analyzer", "updateIgnores")
	if add == nil || ign == nil || fn == nil {
		panic(undecided{"collection of annotations not found"})
	}
	g := NewGate(p)
	getLine := p.Func("issue", "GetLine")
	g.noInline(add, ign, getLine)
	g.Run(fn)
	pos := p.Pos(fn.Pos())
	recv := gparam(fn, 0)
	ctx := g.ptrField(recv, "context")
	comments := g.ptrField(ctx, "Comments")
	n := 0
	for _, e := range g.Events {
		if e.Kind == "earlystop" {
			c.Fail("collect", "every commented node", p.InstrPos(e.Ins), "traversal ends early when "+bString(e.G))
		}
		if e.Kind != "call" || e.Fn != add {
			continue
		}
		n++
		ip := p.InstrPos(e.Ins)
		if len(e.Loops) != 1 || keysOf(e.Loops[0]) != comments {
			c.Fail("collect", "every commented node", ip, fmt.Sprintf("%d traversals", len(e.Loops)))
			continue
		}
		L := e.Loops[0]
		norm := func(t *Term) *Term { return perKey(t, L, comments) }
		isNode := func(t *Term) bool { return t.Op == "thekey" }
		var m *GEvent
		for _, x := range g.Events {
			if x.Kind == "call" && x.Fn == ign && x.Result == e.Args[3].single() {
				m = x
			}
		}
		if !c.Check(m != nil && isNode(norm(m.Args[1].term())) && m.G == bT && m.Args[0].single() == recv, "collect", "the rules recorded are those of the node", ip, e.Args[3].String()) {
			continue
		}
		// recorded whenever there is something to record
		some := bNot(g.eq(gvT(mk("len", nil, "", types.Typ[types.Int], m.Result)), mkInt(0)))
		ok, d := implies(some, e.G)
		c.Check(ok, "collect", "what a node's comments say is recorded", ip, d)
		okF := true
		for _, a := range caseSplit(e.Args[1]) {
			t := norm(a.t)
			okF = okF && t.Op == "call" && strings.HasSuffix(funcNameOf(t), "token.File).Name") && nodeFile(t.Args[0], isNode)
		}
		c.Check(okF, "collect", "recorded for the file of the node", ip, e.Args[1].String())
		t := norm(e.Args[2].term())
		okL := t.Op == "call" && t.Obj == any(getLine) && nodeFile(t.Args[0], isNode) && isNode(t.Args[1])
		c.Check(okL, "collect", "recorded for the lines of the node", ip, brief(t.String()))
		okI := false
		for _, a := range e.Args[0].L {
			okI = strings.Contains(a.t.String(), ".Ignores") || localObj(a.t)
			if !okI {
				break
			}
		}
		c.Check(okI, "collect", "recorded in the scanner's index", ip, e.Args[0].String())
	}
	c.Check(n == 1, "collect", "annotations are recorded", pos, fmt.Sprintf("at %d places", n))

	// before the rules run on a file, with that file's comments
	cr := p.Method("", "Analyzer", "CheckRules")
	g2 := NewGate(p)
	walk := 0
	g2.noInline(fn)
	g2.Run(cr)
	for i, e := range g2.Events {
		if e.Kind != "call" || e.Name != "go/ast.Walk" && e.Name != "ast.Walk" {
			continue
		}
		walk++
		prev := -1
		for j, x := range g2.Events {
			if x.Kind == "call" && x.Fn == fn && j < i && len(x.Loops) == len(e.Loops) {
				prev = j
			}
		}
		if !c.Check(prev >= 0, "collect", "before the rules run", p.InstrPos(e.Ins), "annotations are not collected") {
			continue
		}
		u := g2.Events[prev]
		ok, d := implies(e.G, u.G)
		c.Check(ok, "collect", "before the rules run on a file", p.InstrPos(u.Ins), d)
		// the comment map is that of the file walked
		var cm *Term
		for _, x := range g2.Events {
			if x.Kind == "store" && x.Args[0].single() != nil && strings.HasSuffix(x.Args[0].single().String(), ".Comments") {
				cm = x.Args[1].single()
			}
		}
		file := e.Args[1].single()
		okC := cm != nil && cm.Op == "call" && strings.HasSuffix(funcNameOf(cm), "NewCommentMap") && strip(cm.Args[1]) == strip(file) && strings.HasSuffix(cm.Args[2].String(), ".Comments") && contains(cm.Args[2], func(y *Term) bool { return y == strip(file) })
		c.Check(okC, "collect", "with the comments of the file", p.InstrPos(u.Ins), fmt.Sprint(cm))
	}
	c.Check(walk == 1, "collect", "the rules run on the files", p.Pos(cr.Pos()), fmt.Sprint(walk))
}

// nodeFile: the term is the file of the node.
func nodeFile(t *Term, isNode func(*Term) bool) bool {
	if t.Op == "call" && strings.HasSuffix(funcNameOf(t), "token.FileSet).File") {
		pos := t.Args[1]
		return contains(pos, isNode) && strings.HasSuffix(callName(pos), ").Pos")
	}
	return false
}

func callName(t *Term) string {
	if t.Op != "call" && t.Op != "invoke" {
		return ""
	}
	switch o := t.Obj.(type) {
	case *ssa.Function:
		return funcQual(o)
	case *types.Func:
		return o.FullName()
	}
	return fmt.Sprint(t.Obj)
}

func checkIndexWrites(c *Ctx) {
	p := c.P
	f := p.FieldVar("", "Context", "Ignores")
	n := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					fa, ok := i.Addr.(*ssa.FieldAddr)
					if !ok || addrField(fa) != f {
						continue
					}
					n++
					c.Check(freshMap(i.Val, 0), "index", "replaced in "+FuncName(fn), p.InstrPos(i), "by "+i.Val.String())
					if isLocalAlloc(fa.X) {
						continue // part of a new context
					}
					c.Guard("index", "replaced in "+FuncName(fn), func() { onlyWhenNil(c, fn, i) })
				case *ssa.MapUpdate:
					if named, ok := i.Map.Type().(*types.Named); ok && named.Obj().Name() == "ignores" {
						c.Check(FuncName(fn) == FuncName(p.Method("", "ignores", "add")), "index", "written in "+FuncName(fn), p.InstrPos(i), "only the recording of annotations may write the index")
					}
				case *ssa.Call:
					if bi, ok := i.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						if named, ok := i.Call.Args[0].Type().(*types.Named); ok && named.Obj().Name() == "ignores" {
							c.Fail("index", "entries removed in "+FuncName(fn), p.InstrPos(i), bi.Name())
						}
					}
				}
			}
		}
	}
	c.Check(n >= 1, "index", "created", "-", fmt.Sprint(n))
}

// freshMap: the value is a new empty map.
func freshMap(v ssa.Value, d int) bool {
	switch x := v.(type) {
	case *ssa.MakeMap:
		return true
	case *ssa.ChangeType:
		return freshMap(x.X, d)
	case *ssa.Call:
		if fn := x.Call.StaticCallee(); fn != nil && d < 3 {
			for _, b := range fn.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if len(r.Results) != 1 || !freshMap(r.Results[0], d+1) {
						return false
					}
				}
			}
			return len(fn.Blocks) > 0
		}
	}
	return false
}

// localObj: the term is an object made during the evaluation.
func localObj(t *Term) bool { return t.Op == "alloc" }

// noInline makes calls of some functions events instead of evaluating them.
func (g *Gate) noInline(fns ...*ssa.Function) {
	old := g.Inline
	g.Inline = func(f *ssa.Function) bool {
		for _, x := range fns {
			if f == x {
				return false
			}
		}
		return old(f)
	}
}

// addrField is the field an address instruction names.
func addrField(fa *ssa.FieldAddr) *types.Var {
	st := structOf(fa.X.Type().Underlying().(*types.Pointer).Elem())
	return st.Field(fa.Field)
}

// onlyWhenNil: the field is set only when it was nil.
func onlyWhenNil(c *Ctx, fn *ssa.Function, st *ssa.Store) {
	top := fn
	for top.Parent() != nil {
		top = top.Parent()
	}
	g := NewGate(c.P)
	g.KeepMem = func(e *GEvent) bool { return e.Ins == ssa.Instruction(st) }
	g.Inline = func(f *ssa.Function) bool { return f.Parent() != nil }
	g.Run(top)
	n := 0
	for _, e := range g.Events {
		if e.Ins != ssa.Instruction(st) || e.Kind != "store" {
			continue
		}
		n++
		was := bF
		for _, a := range bSupport(e.G) {
			if a.Op == "bin" && a.Obj == "==" && contains(a, func(y *Term) bool { return y.Op == "nil" }) && strings.Contains(a.String(), ".Ignores") {
				was = bOr(was, bddOf(a))
			}
		}
		ok, d := implies(e.G, was)
		c.Check(ok, "index", "replaced only when there is none in "+FuncName(fn), c.P.InstrPos(st), d)
	}
	if n == 0 {
		c.Fail("index", "replaced in "+FuncName(fn), c.P.InstrPos(st), "not evaluated")
	}
}
