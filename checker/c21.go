package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C21", checkC21) }

func checkC21(c *Ctx) {
	c.Rule("files", "each walked file is counted once, with all its lines")
	c.Rule("annotations", "each effective annotation is counted once")
	c.Rule("found", "the number found counts the recorded findings that are not ignored and shown")
	c.Rule("writers", "nothing else changes the counters")
	c.Rule("report", "the counters reported are the scanner's")
	allowed := map[string][]*ssa.Function{}
	c.Guard("files", "CheckRules", func() { checkFileCounts(c, allowed) })
	c.Guard("annotations", "ignore", func() { checkNosecCount(c, allowed) })
	c.Guard("found", "recording", func() { checkFoundCount(c, allowed) })
	c.Guard("writers", "stores", func() { checkCounterWriters(c, allowed) })
	c.Guard("report", "Report", func() { checkMetricsReport(c) })
	for _, r := range []string{"files", "annotations", "found", "writers", "report"} {
		c.Min(r, 2)
	}
}

// counter: the final value of a counter of the scanner as the value before plus parts.
func counterParts(g *Gate, mem GMem, recv *Term, name string) (parts []gl, stays BDD, ok bool) {
	st := g.memField(mem, recv, "stats").single()
	if st == nil {
		return nil, bF, false
	}
	v := g.memField(mem, st, name)
	old := g.ptrField(st, name)
	stays = bF
	for _, x := range v.L {
		if x.t == old {
			stays = bOr(stays, x.g)
			continue
		}
		if x.t.Op == "bin" && x.t.Obj == "+" && (x.t.Args[0] == old || x.t.Args[1] == old) {
			o := x.t.Args[0]
			if o == old {
				o = x.t.Args[1]
			}
			parts = append(parts, gl{x.g, o})
			continue
		}
		return []gl{x}, stays, false
	}
	return parts, stays, true
}

func checkFileCounts(c *Ctx, allowed map[string][]*ssa.Function) {
	p := c.P
	fn := p.Method("", "Analyzer", "CheckRules")
	visit := p.Method("", "Analyzer", "Visit")
	g := NewGate(p)
	g.noInline(visit)
	var ign []*ssa.Function
	for _, f := range p.PkgFuncs("") {
		if f != fn && p.storesField(f, p.FieldVar("", "Metrics", "NumNosec"), map[*ssa.Function]bool{}) && !p.storesField(f, p.FieldVar("", "Metrics", "NumFiles"), map[*ssa.Function]bool{}) {
			ign = append(ign, f)
		}
	}
	g.noInline(ign...)
	r := g.Run(fn)
	recv, pkg := gparam(fn, 0), gparam(fn, 1)
	pos := p.Pos(fn.Pos())
	var walk *GEvent
	for _, e := range g.Events {
		if e.Name == "go/ast.Walk" || e.Name == "go/ast.Inspect" {
			walk = e
		}
	}
	if !c.Check(walk != nil && len(walk.Loops) == 1, "files", "walk", pos, "no traversal of the files found") {
		return
	}
	L := stripRev(walk.Loops[0])
	file := strip(walk.Args[1].single())
	W := noExists(noLoopVars(walk.G))
	exp := g.countT(L, W)
	parts, stays, ok := counterParts(g, r.Mem, recv, "NumFiles")
	good := ok && len(parts) == 1 && sat(bAnd(stays, bNot(bF))) == bF
	what := "?"
	if len(parts) == 1 {
		t := parts[0].t
		what = brief(t.String())
		good = good && (t == exp || t.Op == "count" && stripRev(t.Args[0]) == L && sat(bXor(noExists(condTerms[t]), W)) == bF)
	}
	c.Check(good, "files", "number of files", pos, "the files counted are not the files walked: "+what)
	parts, stays, ok = counterParts(g, r.Mem, recv, "NumLines")
	good = ok && len(parts) == 1 && sat(stays) == bF
	what = "?"
	if len(parts) == 1 {
		t := parts[0].t
		what = brief(t.String())
		good = good && t.Op == "sum" && stripRev(t.Args[0]) == L && sat(bXor(noExists(condTerms[t]), W)) == bF && linesOf(t.Args[1], file, pkg, g)
	}
	c.Check(good, "files", "number of lines", pos, "the lines counted are not those of the files walked: "+what)
	allowed["NumFiles"] = append(allowed["NumFiles"], fn)
	allowed["NumLines"] = append(allowed["NumLines"], fn)
}

func linesOf(t, file, pkg *Term, g *Gate) bool {
	if t.Op != "call" || !strings.HasSuffix(funcNameOf(t), "token.File).LineCount") {
		return false
	}
	f := t.Args[0]
	return f.Op == "call" && strings.HasSuffix(funcNameOf(f), "token.FileSet).File") && f.Args[0] == g.ptrField(pkg, "Fset") && isPosOf(f.Args[1], file)
}

// checkNosecCount: for every comment group of an annotated node the counter grows by one exactly when a
// directive was found in it.
func checkNosecCount(c *Ctx, allowed map[string][]*ssa.Function) {
	p := c.P
	fv := p.FieldVar("", "Metrics", "NumNosec")
	n := 0
	for _, f := range p.PkgFuncs("") {
		direct := false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && addrField(fa) == fv {
						direct = true
					}
				}
			}
		}
		if !direct {
			continue
		}
		n++
		allowed["NumNosec"] = append(allowed["NumNosec"], f)
		pos := p.Pos(f.Pos())
		g := NewGate(p)
		finders := directiveFinders(p)
		g.noInline(finders...)
		r := g.Run(f)
		recv := gparam(f, 0)
		parts, stays, ok := counterParts(g, r.Mem, recv, "NumNosec")
		if !c.Check(ok && len(parts) == 1, "annotations", FuncName(f), pos, "the counter does not grow by a number of annotations") {
			continue
		}
		t := parts[0].t
		found := bF
		var L *Term
		if t.Op == "count" {
			L = stripRev(t.Args[0])
			found = noExists(condTerms[t])
		}
		// what makes an annotation effective: a directive was found
		isFound := func(a *Term) bool {
			if a.Op != "extract" || fmt.Sprint(a.Obj) != "0" {
				return false
			}
			for _, ff := range finders {
				if a.Args[0].Op == "call" && a.Args[0].Obj == any(ff) {
					return contains(a.Args[0], func(x *Term) bool { return x == elemOf(L, x.Typ) })
				}
			}
			return false
		}
		only := L != nil && found != bF
		pos1 := bF
		for _, a := range bSupport(found) {
			if isFound(a) {
				pos1 = bddOf(a)
			}
		}
		only = only && pos1 != bF && found == pos1
		c.Check(only, "annotations", "each directive", pos, "an annotation is counted when "+bString(found))
		// all groups of the node are looked at, unless annotations are switched off
		off := g.anyField(recv, "ignoreNosec")
		missing := bAnd(stays, bNot(bddOf(off)))
		missing = bExistsQ(missing, func(a *Term) bool { return false })
		hasNode := bF
		for _, a := range bSupport(missing) {
			if a.Op == "has" {
				hasNode = bddOf(a)
			}
		}
		c.Check(sat(bAnd(missing, hasNode)) == bF, "annotations", "every node", pos, "annotations are not counted when "+bString(sat(bAnd(missing, hasNode))))
		c.Check(sat(bAnd(parts[0].g, bddOf(off))) == bF, "annotations", "switched off", pos, "annotations are counted although they have no effect")
		if L != nil {
			c.Check(len(loopsStopping(g, L)) == 0, "annotations", "every group", pos, "later annotations are not looked at")
		}
	}
	c.Check(n == 1, "annotations", "places", "-", fmt.Sprintf("%d functions count annotations", n))
}

func loopsStopping(g *Gate, L *Term) []*GEvent {
	var out []*GEvent
	for _, e := range g.Events {
		if e.Kind == "earlystop" && e.Args[0].single() == L {
			out = append(out, e)
		}
	}
	return out
}

// directiveFinders are the functions which look for a directive in a comment group.
func directiveFinders(p *Program) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.PkgFuncs("") {
		s := f.Signature
		if f.Parent() != nil || s.Results().Len() == 0 || s.Params().Len() == 0 {
			continue
		}
		if b, ok := s.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
			continue
		}
		for i := 0; i < s.Params().Len(); i++ {
			if s.Params().At(i).Type().String() == "*go/ast.CommentGroup" {
				out = append(out, f)
			}
		}
	}
	return out
}

func checkFoundCount(c *Ctx, allowed map[string][]*ssa.Function) {
	p := c.P
	recs := p.recorders()
	n := 0
	for _, f := range recs {
		fv := p.FieldVar("", "Metrics", "NumFound")
		if !p.storesField(f, fv, map[*ssa.Function]bool{}) {
			continue
		}
		// the outermost recorder only
		n++
		g := NewGate(p)
		lk := suppressionLookups(p)
		g.noInline(lk...)
		r := g.Run(f)
		recv, is := gparam(f, 0), gparam(f, 1)
		pos := p.Pos(f.Pos())
		parts, _, ok := counterParts(g, r.Mem, recv, "NumFound")
		if !c.Check(ok && len(parts) > 0, "found", FuncName(f), pos, "the number found does not grow by one") {
			continue
		}
		inc := bF
		for _, x := range parts {
			c.Check(x.t == mkInt(1), "found", "by one", pos, "the number found grows by "+x.t.String())
			inc = bOr(inc, x.g)
		}
		// recorded: the list of findings grows
		oldList := g.ptrField(recv, "issues")
		rec := bF
		ignored := bF
		for _, x := range g.memField(r.Mem, recv, "issues").L {
			if x.t != oldList {
				rec = bOr(rec, x.g)
			}
		}
		for _, a := range bSupport(bOr(rec, inc)) {
			if a.Op == "extract" && a.Args[0].Op == "call" {
				for _, l := range lk {
					if a.Args[0].Obj == any(l) {
						ignored = bddOf(a)
					}
				}
			}
		}
		_ = is
		show := bddOf(g.anyField(recv, "showIgnored"))
		want := bAnd(rec, bNot(bAnd(ignored, show)))
		c.Check(ignored != bF, "found", "depends", pos, "the count does not depend on suppression")
		d := sat(bXor(inc, want))
		c.Check(d == bF, "found", "recorded findings", pos, "the number found is wrong when "+bString(d))
		allowed["NumFound"] = append(allowed["NumFound"], f)
	}
	c.Check(n >= 1, "found", "places", "-", "no recorder counts")
}

func checkCounterWriters(c *Ctx, allowed map[string][]*ssa.Function) {
	p := c.P
	in := map[string]map[*ssa.Function]bool{}
	for k, fs := range allowed {
		in[k] = map[*ssa.Function]bool{}
		for _, f := range fs {
			in[k][f] = true
			// helpers which only these call
			for again := true; again; {
				again = false
				for _, h := range p.PkgFuncs("") {
					cs := p.callersOf(h)
					ok := len(cs) > 0 && !in[k][h]
					for _, x := range cs {
						ok = ok && in[k][x]
					}
					if ok {
						in[k][h], again = true, true
					}
				}
			}
		}
	}
	for _, f := range p.Funcs {
		rel := relPath(FuncPkg(f))
		if devTools[rel] {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				own := ownerOf(fa)
				if own == nil || own != p.NamedType("", "Metrics") {
					continue
				}
				name := addrField(fa).Name()
				stored := false
				for _, u := range *fa.Referrers() {
					switch x := u.(type) {
					case *ssa.Store:
						stored = true
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						_ = x
						c.Fail("writers", FuncName(f)+" "+name, p.InstrPos(ins), "the counter "+name+" is handed out by reference")
					}
				}
				if !stored {
					c.OK("writers", FuncName(f)+" "+name, "read")
					continue
				}
				if rel == cmdRel && name == "NumFound" {
					c.OK("writers", FuncName(f)+" "+name, "set to the count of kept findings (C05)")
					continue
				}
				c.Check(in[name][f], "writers", FuncName(f)+" "+name, p.InstrPos(ins), FuncName(f)+" changes the counter "+name)
			}
		}
	}
}

func checkMetricsReport(c *Ctx) {
	p := c.P
	fn := p.Method("", "Analyzer", "Report")
	g := NewGate(p)
	r := g.Run(fn)
	recv := gparam(fn, 0)
	for i, name := range []string{"issues", "stats", "errors"} {
		v := r.Rets[i].single()
		c.Check(v == g.ptrField(recv, name), "report", name, p.Pos(fn.Pos()), "reports "+r.Rets[i].String()+" as "+name)
	}
	m := p.mainModel()
	e := m.one("gosec.NewReportInfo")
	rp := m.one("(*gosec.Analyzer).Report")
	if c.Check(e != nil && rp != nil, "report", "main", "-", "the report is not made from the scan") {
		v := e.Args[1].single()
		c.Check(v != nil && v == res(rp, 1), "report", "metrics shown", p.InstrPos(e.Ins), "the metrics shown are "+e.Args[1].String())
	}
}
