package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C32", checkC32) }

func checkC32(c *Ctx) {
	c.Rule("kinds", "a rule is registered for every kind of node it examines")
	c.Rule("visit", "every rule registered for the kind of a node is asked, and its finding recorded")
	c.Rule("walk", "the traversal goes on below every node")
	c.Rule("lookup", "the rules of a node are all those registered for its kind")
	c.Rule("register", "a rule is registered for every kind given, next to the rules which are there")
	c.Rule("load", "every rule is registered for the kinds its builder gives")
	c.Rule("rules", "every file is walked")
	c.Rule("analyzers", "every analyzer runs, and its findings are recorded")
	c.Guard("kinds", "rules", func() { checkKinds(c) })
	c.Guard("visit", "Visit", func() { checkVisit(c) })
	c.Guard("lookup", "RegisteredFor", func() { checkRegisteredFor(c) })
	c.Guard("register", "Register", func() { checkRegister(c) })
	c.Guard("load", "LoadRules", func() { checkLoad32(c) })
	c.Guard("rules", "CheckRules", func() { checkRulesFiles(c) })
	c.Guard("analyzers", "CheckAnalyzers", func() { checkAnalyzerFiles(c) })
}

func checkKinds(c *Ctx) {
	p := c.P
	makers := map[*ssa.Function]bool{}
	for _, f := range p.findingMakers() {
		makers[f] = true
	}
	all := p.nodeKinds()
	c.Check(len(all) > 40, "kinds", "kinds of nodes", "-", fmt.Sprintf("%d kinds of syntax nodes known", len(all)))
	n := 0
	for _, d := range p.ruleTable("rules") {
		if d.Create == nil {
			continue
		}
		c.Guard("kinds", d.ID, func() {
			g := NewGate(p)
			r := g.Run(d.Create)
			pos := p.Pos(d.Create.Pos())
			var rule types.Type
			for _, l := range r.Rets[0].L {
				if t := strip(l.t); t.Typ != nil {
					rule = t.Typ
				}
			}
			var fn *ssa.Function
			if rule != nil {
				fn = p.methodOf(rule, "Match")
			}
			if fn == nil {
				panic(undecided{"the rule built is not known"})
			}
			nf := &nodeFlow{p: p, memo: map[string]*nodeRun{}, kinds: map[string]types.Type{}, stop: makers}
			runs := map[string]*nodeRun{}
			for _, k := range all {
				nf.memo = map[string]*nodeRun{}
				runs[k.String()] = nf.run(fn, []nodeVal{anyVal, {k: 'n', typ: k}, anyVal}, 0)
			}
			// what is done for the kinds the rule knows nothing about is done for every node
			base := map[ssa.Instruction]bool{}
			for _, k := range all {
				if nf.kinds[k.String()] == nil {
					runs[k.String()].each(func(ins ssa.Instruction) { base[ins] = true })
				}
			}
			var need []types.Type
			for _, k := range all {
				if nf.kinds[k.String()] == nil {
					continue
				}
				does := false
				runs[k.String()].each(func(ins ssa.Instruction) {
					if base[ins] {
						return
					}
					if call, ok := ins.(ssa.CallInstruction); ok && makers[call.Common().StaticCallee()] {
						does = true
					}
					does = does || stateWrite(ins)
				})
				if does {
					need = append(need, k)
				}
			}
			c.Check(len(need) > 0, "kinds", d.ID+" examines nodes", pos, "no kind of node leads to a finding")
			for _, l := range r.Rets[1].L {
				els, ok := g.sliceElems(r.Mem, strip(l.t))
				if !ok {
					panic(undecided{"the kinds it is registered for are not known: " + brief(l.t.String())})
				}
				have := map[string]bool{}
				for _, e := range els {
					t := e.single()
					if t == nil || t.Op != "iface" {
						panic(undecided{"one of the kinds it is registered for is not known"})
					}
					have[t.Obj.(types.Type).String()] = true
				}
				for _, k := range need {
					n++
					c.Check(have[k.String()], "kinds", d.ID+" for "+nodeName(k), pos, "the rule examines such nodes but is not registered for them")
				}
			}
		})
	}
	c.Min("kinds", 60)
}

// dependsOnlyOn: the condition holds whatever the listed atoms say... it is true without any other.
func alwaysFor(b BDD) (BDD, bool) {
	m := sat(bNot(noExists(noLoopVars(b))))
	return m, m == bF
}

func checkVisit(c *Ctx) {
	p := c.P
	fn := p.Method("", "Analyzer", "Visit")
	rf := p.Method("", "RuleSet", "RegisteredFor")
	if fn == nil || rf == nil {
		panic(undecided{"Visit or RegisteredFor not found"})
	}
	rec := p.recorders()
	g := NewGate(p)
	g.noInline(rec...)
	g.noInline(rf)
	r := g.Run(fn)
	pos := p.Pos(fn.Pos())
	recv, node := gparam(fn, 0), gparam(fn, 1)
	ctx := g.anyField(recv, "context")
	var match *GEvent
	for _, e := range g.Events {
		if e.Kind == "call" && e.Method != nil && e.Method.Name() == "Match" || strings.HasSuffix(e.Name, ".Rule).Match") {
			if match != nil {
				c.Fail("visit", "one question per rule", p.InstrPos(e.Ins), "Match is called again")
			}
			match = e
		}
	}
	if !c.Check(match != nil, "visit", "rules are asked", pos, "Match is never called") {
		return
	}
	ip := p.InstrPos(match.Ins)
	if !c.Check(len(match.Loops) == 1, "visit", "loop", ip, fmt.Sprint(match.Loops)) {
		return
	}
	L := match.Loops[0]
	src := stripRev(L)
	c.Check(src.Op == "call" && strings.HasSuffix(funcNameOf(src), "RuleSet).RegisteredFor") && src.Args[len(src.Args)-1] == node, "visit", "every registered rule", ip, "the rules asked are "+brief(src.String()))
	m, ok := alwaysFor(match.G)
	c.Check(ok, "visit", "always asked", ip, "not when "+bString(m))
	rule := match.Recv.single()
	c.Check(rule != nil && rule == elemOf(L, rule.Typ), "visit", "the rule asked", ip, match.Recv.String())
	c.Check(len(match.Args) == 2 && match.Args[0].single() == node && match.Args[1].single() == ctx, "visit", "what is asked", ip, fmt.Sprint(match.Args))
	for _, e := range g.Events {
		if e.Kind == "earlystop" || e.Kind == "exit" || e.Kind == "panic" {
			c.Fail("visit", "no early end", p.InstrPos(e.Ins), "the rest of the rules is skipped when "+bString(e.G))
		}
	}
	// the finding is recorded
	n := 0
	for _, e := range g.Events {
		isRec := false
		for _, f := range rec {
			isRec = isRec || e.Fn == f
		}
		if !isRec {
			continue
		}
		n++
		rp := p.InstrPos(e.Ins)
		iss := e.Args[len(e.Args)-1].single()
		c.Check(iss != nil && iss.Op == "extract" && fmt.Sprint(iss.Obj) == "0" && iss.Args[0] == match.Result, "visit", "the finding recorded", rp, e.Args[len(e.Args)-1].String())
		c.Check(len(e.Loops) == 1 && e.Loops[0] == L, "visit", "recorded for each rule", rp, fmt.Sprint(e.Loops))
		// recorded unless there is none
		b := bMap(noExists(noLoopVars(e.G)), func(a *Term) BDD {
			if isEq(a) && (isNilT(a.Args[0]) && strip(a.Args[1]) == iss || isNilT(a.Args[1]) && strip(a.Args[0]) == iss) {
				return bF
			}
			return bddOf(a)
		})
		miss := sat(bNot(b))
		c.Check(miss == bF, "visit", "every finding recorded", rp, "a finding is dropped when "+bString(miss))
	}
	c.Check(n == 1, "visit", "recorded once", pos, fmt.Sprintf("%d places record the finding", n))
	// and the children are visited in the same way
	for _, l := range r.Rets[0].L {
		c.Check(strip(l.t) == recv, "walk", "below every node", pos, fmt.Sprintf("the visitor of what is below a node is %s when %s", brief(l.t.String()), bString(l.g)))
	}
	back := sat(bNot(noExists(noLoopVars(r.RetG))))
	c.Check(back == bF, "walk", "returns", pos, "does not return when "+bString(back))
}

func checkRegisteredFor(c *Ctx) {
	p := c.P
	fn := p.Method("", "RuleSet", "RegisteredFor")
	g := NewGate(p)
	r := g.Run(fn)
	pos := p.Pos(fn.Pos())
	n := 0
	for _, l := range r.Rets[0].L {
		t := strip(l.t)
		switch {
		case t.Op == "mapget":
			t = unverT(t)
			n++
			c.Check(rulesField(t.Args[0]) && kindOf(t.Args[1], gparam(fn, 1)), "lookup", "the rules of the kind", pos, "gives "+brief(t.String()))
		case t.Op == "emptylist" || isNilT(t):
			// only if there are none
			b := bMap(l.g, func(a *Term) BDD {
				if a.Op == "has" && rulesField(a.Args[0]) && kindOf(a.Args[1], gparam(fn, 1)) {
					return bT
				}
				return bddOf(a)
			})
			m := sat(b)
			c.Check(m == bF, "lookup", "no rules", pos, "no rule is given when "+bString(m))
		default:
			c.Fail("lookup", "the rules of the kind", pos, "gives "+brief(t.String()))
		}
	}
	c.Check(n > 0, "lookup", "looks them up", pos, "no rules are looked up")
}

func rulesField(t *Term) bool {
	return strings.HasSuffix(t.String(), ".Rules")
}

func kindOf(t, node *Term) bool {
	t = strip(t)
	return t.Op == "call" && callName(t) == "reflect.TypeOf" && strip(t.Args[0]) == node
}

func checkRegister(c *Ctx) {
	p := c.P
	fn := p.Method("", "RuleSet", "Register")
	if fn == nil {
		panic(undecided{"no method Register"})
	}
	g := NewGate(p)
	g.KeepMem = func(e *GEvent) bool { return e.Kind == "mapstore" }
	g.Run(fn)
	pos := p.Pos(fn.Pos())
	rule := gparam(fn, 1)
	var nodes *Term
	for i := range fn.Params {
		if _, ok := fn.Params[i].Type().Underlying().(*types.Slice); ok {
			nodes = gparam(fn, i)
		}
	}
	if nodes == nil {
		panic(undecided{"the kinds are not given as a list"})
	}
	node := elemOf(nodes, elemType(nodes.Typ))
	covered := bF
	n := 0
	for _, e := range g.Events {
		if e.Kind == "earlystop" {
			c.Fail("register", "every kind", p.InstrPos(e.Ins), "the rest is skipped when "+bString(e.G))
		}
		if e.Kind != "mapstore" || e.Args[0].single() == nil || !rulesField(e.Args[0].single()) {
			continue
		}
		n++
		ip := p.InstrPos(e.Ins)
		key := e.Args[1].single()
		if !c.Check(len(e.Loops) == 1 && stripRev(e.Loops[0]) == nodes, "register", "loop", ip, fmt.Sprint(e.Loops)) {
			continue
		}
		node = elemOf(e.Loops[0], node.Typ)
		if !c.Check(key != nil && kindOf(key, node), "register", "kind", ip, "stored under "+e.Args[1].String()) {
			continue
		}
		covered = bOr(covered, noExists(noLoopVars(e.G)))
		// the new list holds what was there and the rule
		for _, l := range e.Args[2].L {
			t := l.t
			t = strip(t)
			if t.Op == "append" {
				base := strip(t.Args[0])
				was := base.Op == "mapget" && rulesField(base.Args[0]) && kindOf(base.Args[1], node)
				has := false
				for _, a := range t.Args[1:] {
					has = has || strip(a) == rule
				}
				c.Check(was && has, "register", "next to the others", ip, "stores "+brief(t.String()))
				continue
			}
			els, ok := g.sliceElems(e.Mem, t)
			has := false
			for _, x := range els {
				has = has || x.single() != nil && strip(x.single()) == rule
			}
			fresh := sat(bMap(bAnd(l.g, e.G), func(a *Term) BDD {
				if a.Op == "has" && rulesField(a.Args[0]) && kindOf(a.Args[1], node) {
					return bT
				}
				return bddOf(a)
			}))
			c.Check(ok && has && fresh == bF, "register", "next to the others", ip, fmt.Sprintf("stores %s when %s", brief(t.String()), bString(bAnd(l.g, e.G))))
		}
	}
	miss := sat(bNot(covered))
	c.Check(n > 0 && miss == bF, "register", "every kind", pos, "a rule is not registered when "+bString(miss))
	fv := p.FieldVar("", "RuleSet", "Rules")
	// nothing else changes the table
	for _, f := range p.Funcs {
		if f == fn || devTools[relPath(FuncPkg(f))] {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.MapUpdate:
					if fieldRead(x.Map) == fv {
						c.Fail("register", "changed in "+FuncName(f), p.InstrPos(ins), "the table of rules is changed")
					}
				case *ssa.Call:
					if bl, ok := x.Call.Value.(*ssa.Builtin); ok && (bl.Name() == "delete" || bl.Name() == "clear") && fieldRead(x.Call.Args[0]) == fv {
						c.Fail("register", "changed in "+FuncName(f), p.InstrPos(ins), "rules are removed from the table")
					}
				}
			}
		}
	}
}

// fieldRead is the field a value is read from.
func fieldRead(v ssa.Value) *types.Var {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return addrField(fa)
		}
	case *ssa.Field:
		st, _ := x.X.Type().Underlying().(*types.Struct)
		if st != nil {
			return st.Field(x.Field)
		}
	}
	return nil
}

func checkLoad32(c *Ctx) {
	p := c.P
	fn := p.Method("", "Analyzer", "LoadRules")
	reg := p.Method("", "RuleSet", "Register")
	g := NewGate(p)
	g.noInline(reg)
	g.Run(fn)
	pos := p.Pos(fn.Pos())
	defs := gparam(fn, 1)
	n := 0
	for _, e := range g.Events {
		if e.Kind == "earlystop" {
			c.Fail("load", "every rule", p.InstrPos(e.Ins), "the rest is skipped when "+bString(e.G))
		}
		if e.Fn != reg {
			continue
		}
		n++
		ip := p.InstrPos(e.Ins)
		m, ok := alwaysFor(e.G)
		c.Check(ok, "load", "always registered", ip, "not when "+bString(m))
		c.Check(len(e.Loops) == 1 && overKeys(e.Loops[0], defs), "load", "every rule", ip, fmt.Sprint(e.Loops))
		r, k := e.Args[1].single(), e.Args[len(e.Args)-1].single()
		built := func(t *Term, i string) *Term {
			if t != nil {
				t = strip(t)
			}
			if t == nil || t.Op != "extract" || fmt.Sprint(t.Obj) != i || t.Args[0].Op != "call" || !contains(t.Args[0], func(x *Term) bool { return x == defs }) {
				return nil
			}
			return t.Args[0]
		}
		a, b := built(r, "0"), built(k, "1")
		c.Check(a != nil && a == b, "load", "what is registered", ip, fmt.Sprintf("%s for %s", e.Args[1], e.Args[len(e.Args)-1]))
	}
	c.Check(n == 1, "load", "registers", pos, fmt.Sprintf("%d places register rules", n))
}

// overKeys: the loop runs over the keys of the map, in some order.
func overKeys(L, m *Term) bool {
	L = stripRev(L)
	for i := 0; i < 6; i++ {
		if L == m {
			return true
		}
		switch {
		case L.Op == "maprange" && len(L.Args) > 0:
			L = L.Args[0]
		case L.Op == "call" && (genericNameOf2Term(L, "slices.Sorted") || genericNameOf2Term(L, "maps.Keys") || genericNameOf2Term(L, "slices.Collect")):
			L = L.Args[len(L.Args)-1]
		case L.Op == "sorted" || L.Op == "keys":
			L = L.Args[0]
		default:
			return false
		}
	}
	return false
}

func genericNameOf2Term(t *Term, name string) bool {
	s := callName(t)
	if i := strings.Index(s, "["); i >= 0 {
		s = s[:i]
	}
	return s == name
}
