package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C14", checkC14) }

func checkC14(c *Ctx) {
	c.Rule("load", "a failure to read or load a requested package is handed over with the path it belongs to")
	c.Rule("record", "a failure handed over is recorded under its path unless the package has no buildable Go files")
	c.Rule("parse", "every error of a loaded package is recorded under its file with its line, column and message")
	c.Rule("every", "the errors of every loaded package are recorded before the package is checked")
	c.Rule("go-on", "a package that cannot be loaded does not keep the others from being scanned")
	c.Rule("kept", "recorded errors are never removed or overwritten and reach the report")

	c.Guard("load", "Process", func() { checkLoadErrors(c) })
	c.Guard("record", "AppendError", func() { checkAppendError(c) })
	c.Guard("parse", "ParseErrors", func() { checkParseErrors(c) })
	c.Guard("every", "Process", func() { checkParsedAlways(c) })
	c.Guard("go-on", "Process", func() { goOn(c) })
	c.Guard("kept", "errors", func() { checkErrorsKept(c) })
	for _, r := range []string{"load", "record", "parse", "every", "go-on", "kept"} {
		c.Min(r, 1)
	}
}

func checkLoadErrors(c *Ctx) {
	m := c.P.processModel()
	g := m.G
	var app []*GEvent
	for _, e := range m.Main {
		if e.Fn == m.check["AppendError"] {
			app = append(app, e)
		}
	}
	if !c.Check(len(app) > 0, "load", "AppendError", c.P.Pos(m.Fn.Pos()), "load errors are never recorded") {
		return
	}
	fields := map[string]string{}
	called := BDD(bF)
	for _, e := range app {
		ip := c.P.InstrPos(e.Ins)
		if !c.Check(len(e.Loops) == 1 && e.Loops[0] == m.Recv && m.Recv != nil, "load", "for every outcome", ip, fmt.Sprint(e.Loops)) {
			return
		}
		for i, n := range map[int]string{1: "path", 2: "err"} {
			t := e.Args[i].single()
			ok := t != nil && t.Op == "field" && t.Args[0].Op == "elem" && t.Args[0].Args[0] == m.Recv
			if c.Check(ok, "load", "recorded "+n, ip, e.Args[i].String()) {
				fields[n] = fieldName(t)
			}
		}
		if fields["err"] == "" || fields["path"] == "" {
			return
		}
		isNil := g.eq(e.Args[2], mkNil())
		W := noLoopVars(noExists(e.G))
		called = bOr(called, bOr(W, isNil))
	}
	miss := sat(bNot(called))
	c.Check(miss == bF, "load", "every failure", c.P.InstrPos(app[0].Ins), "a failure is not recorded when "+bString(miss))
	// the worker: the error is set whenever reading or loading failed
	for _, w := range m.Workers {
		_, _, job := m.jobsOf(w)
		for _, e := range w.Events {
			if e.Kind != "send" || e.Args[0].single() != m.Results {
				continue
			}
			ip := c.P.InstrPos(e.Ins)
			v := e.Args[1].single()
			if !c.Check(v != nil, "load", "outcome", ip, e.Args[1].String()) {
				continue
			}
			st := structOf(v.Typ)
			pv := g.field(v, st.Field(fieldIndex(st, fields["path"])))
			c.Check(pv.single() == job && job != nil, "load", "path of the outcome", ip, pv.String())
			ev := g.field(v, st.Field(fieldIndex(st, fields["err"])))
			isNil := g.eq(ev, mkNil())
			for _, x := range w.Events {
				if x.Kind != "call" || !strings.HasSuffix(x.Name, "build.Context).ImportDir") && !strings.HasSuffix(x.Name, "go/packages.Load") {
					continue
				}
				er := res(x, 1)
				failed := bNot(g.eq(gvT(er), mkNil()))
				lost := sat(bAnds(e.G, x.G, failed, isNil))
				c.Check(lost == bF, "load", "error of "+shortName(x.Name), c.P.InstrPos(x.Ins), "the failure is not handed over when "+bString(lost))
				for _, cs := range caseSplit(ev) {
					if sat(bAnds(cs.g, e.G, x.G, failed)) == bF || isNilT(cs.t) {
						continue
					}
					c.Check(wraps(cs.t, func(t *Term) bool {
						return t == er || t.Op == "extract" && fmt.Sprint(t.Obj) == "1" && callName(t.Args[0]) == callName(er.Args[0])
					}), "load", "error of "+shortName(x.Name)+" kept", c.P.InstrPos(x.Ins), "the failure is handed over as "+brief(cs.t.String()))
				}
			}
		}
	}
}

// wraps: the error itself, or one made from it with %w.
func wraps(t *Term, err func(*Term) bool) bool {
	t = strip(t)
	if err(t) {
		return true
	}
	if t.Op == "call" && funcNameOf(t) == "fmt.Errorf" {
		f, ok := constStr(t.Args[0])
		if ok && strings.Contains(f, "%w") {
			for _, a := range t.Args[1:] {
				if err(strip(a)) {
					return true
				}
			}
		}
	}
	if t.Op == "call" && funcNameOf(t) == "errors.Join" {
		for _, a := range t.Args {
			if err(strip(a)) {
				return true
			}
		}
	}
	return false
}

// errorRecord checks a store of an error in the map of errors: appended to what is recorded for the key.
func errorRecord(c *Ctx, rule string, g *Gate, e *GEvent, key *Term, line, col, msg func(v GV, when BDD) string) BDD {
	ip := c.P.InstrPos(e.Ins)
	m := e.Args[0].single()
	c.Check(m != nil && fieldName2(m) == "errors", rule, "map", ip, e.Args[0].String())
	k := e.Args[1]
	for _, cs := range caseSplit(k) {
		if sat(bAnd(cs.g, e.G)) != bF {
			c.Check(cs.t == key, rule, "key", ip, "recorded under "+brief(cs.t.String()))
		}
	}
	for _, cs := range caseSplit(e.Args[2]) {
		G := bAnd(cs.g, e.G)
		if sat(G) == bF {
			continue
		}
		base, added := appendParts(cs.t)
		okB := false
		switch {
		case base.Op == "mapget" && base.Args[0] == m && base.Args[1] == key:
			okB = true
		case isEmptyList(base) || isNilT(base):
			// only when nothing is recorded yet
			okB = true
			for _, a := range bSupport(G) {
				if a.Op == "has" && a.Args[0] == m && a.Args[1] == key {
					if sat(bAnd(unver(G), unver(bddOf(a)))) == bF {
						okB = true
						goto done
					}
				}
			}
			okB = false
		done:
		}
		c.Check(okB, rule, "earlier errors kept", ip, "the list starts with "+brief(base.String())+" when "+bString(G))
		if !c.Check(len(added) == 1, rule, "one error", ip, fmt.Sprintf("%d added", len(added))) {
			continue
		}
		v := added[0]
		if v.Op == "load" {
			v = v.Args[0]
		}
		st := structOf(v.Typ)
		if st == nil || fieldIndex(st, "Line") < 0 {
			c.Fail(rule, "error", ip, "records "+brief(v.String()))
			continue
		}
		for n, f := range map[string]func(GV, BDD) string{"Line": line, "Column": col, "Err": msg} {
			fv := g.field(v, st.Field(fieldIndex(st, n)))
			d := f(fv, G)
			c.Check(d == "", rule, n, ip, "is "+d)
		}
	}
	return e.G
}

func fieldName2(t *Term) string {
	if t.Op == "load" {
		return addrName(t.Args[0])
	}
	return fieldName(t)
}

func checkAppendError(c *Ctx) {
	p := c.P
	fn := p.Method("", "Analyzer", "AppendError")
	g := NewGate(p)
	g.Run(fn)
	file, err := gparam(fn, 1), gparam(fn, 2)
	recorded := BDD(bF)
	zero := func(v GV, _ BDD) string {
		if n, ok := constInt(v.single()); ok && n == 0 {
			return ""
		}
		return v.String()
	}
	for _, e := range g.Events {
		if e.Kind == "mapstore" {
			recorded = bOr(recorded, errorRecord(c, "record", g, e, file, zero, zero, func(v GV, _ BDD) string {
				t := v.single()
				if t != nil && t.Op == "call" && strings.HasSuffix(callName(t), "error).Error") && contains(t, func(x *Term) bool { return x == err }) {
					return ""
				}
				return v.String()
			}))
		}
	}
	noGo := bddOf(mk("atom", "nogo", "", types.Typ[types.Bool]))
	F := bMap(recorded, func(a *Term) BDD {
		if a.Op == "has" {
			return bddOf(a)
		}
		if isNoGo(g, a, err) {
			return noGo
		}
		return bddOf(a)
	})
	miss := sat(bAnd(bNot(F), bNot(noGo)))
	c.Check(miss == bF, "record", "every error", p.Pos(fn.Pos()), "not recorded when "+bString(miss))
	extra := sat(bAnd(F, noGo))
	c.Check(extra == bF, "record", "no Go files", p.Pos(fn.Pos()), "a package without Go files is recorded when "+bString(extra))
}

// isNoGo: the error is, or wraps, a *build.NoGoError.
func isNoGo(g *Gate, a, err *Term) bool {
	if a.Op != "call" || funcNameOf(a) != "errors.As" || a.Args[0] != err {
		return false
	}
	t := strip(a.Args[1])
	return t.Typ != nil && strings.HasSuffix(t.Typ.String(), "**go/build.NoGoError")
}

func checkParseErrors(c *Ctx) {
	p := c.P
	fn := p.Method("", "Analyzer", "ParseErrors")
	g := NewGate(p)
	r := g.Run(fn)
	pkg := gparam(fn, 1)
	L := g.ptrField(pkg, "Errors")
	recorded := BDD(bF)
	n := 0
	for _, e := range g.Events {
		if e.Kind != "mapstore" {
			continue
		}
		n++
		ip := p.InstrPos(e.Ins)
		if !c.Check(len(e.Loops) == 1 && stripRev(e.Loops[0]) == L, "parse", "for every error", ip, fmt.Sprint(e.Loops)) {
			continue
		}
		el := elemOf(e.Loops[0], elemType(L.Typ))
		pos := g.anyField(el, "Pos")
		split := func(t *Term) bool {
			if t.Op != "call" || (funcNameOf(t) != "strings.Split" && funcNameOf(t) != "strings.SplitN") || t.Args[0] != pos {
				return false
			}
			s, ok := constStr(t.Args[1])
			return ok && s == ":"
		}
		k := e.Args[1].possible(e.G).single()
		okK := k != nil && k.Op == "index" && split(k.Args[0]) && k.Args[1] == mkInt(0)
		if !c.Check(okK, "parse", "file", ip, "recorded under "+e.Args[1].String()) {
			continue
		}
		parts := k.Args[0]
		num := func(i int64) func(GV, BDD) string {
			return func(v GV, when BDD) string {
				short := g.lt(g.lenOf(nil, parts).term(), mkInt(i+1), types.Typ[types.Int])
				for _, cs := range caseSplit(v) {
					G := bAnd(cs.g, when)
					if sat(G) == bF {
						continue
					}
					if n, ok := constInt(cs.t); ok && n == 0 {
						if sat(bAnd(G, bNot(short))) != bF {
							return "0 although the position has it"
						}
						continue
					}
					t := cs.t
					ok := t.Op == "extract" && fmt.Sprint(t.Obj) == "0" && funcNameOf(t.Args[0]) == "strconv.Atoi" && t.Args[0].Args[0] == mk("index", nil, "", t.Args[0].Args[0].Typ, parts, mkInt(i))
					if !ok {
						t0 := t
						ok = t0.Op == "extract" && funcNameOf(t0.Args[0]) == "strconv.Atoi" && t0.Args[0].Args[0].Op == "index" && t0.Args[0].Args[0].Args[0] == parts && t0.Args[0].Args[0].Args[1] == mkInt(i)
					}
					if !ok {
						return brief(t.String())
					}
				}
				return ""
			}
		}
		recorded = bOr(recorded, errorRecord(c, "parse", g, e, k, num(1), num(2), func(v GV, _ BDD) string {
			t := v.single()
			if t != nil && t.Op == "call" && funcNameOf(t) == "strings.TrimSpace" {
				t = t.Args[0]
			}
			if t == g.anyField(el, "Msg") {
				return ""
			}
			return v.String()
		}))
	}
	if !c.Check(n > 0, "parse", "records", p.Pos(fn.Pos()), "nothing is recorded") {
		return
	}
	// the only reason not to record one is a position that is no number, which ends the scan with an error
	stop := BDD(bF)
	for _, x := range g.Events {
		if x.Kind == "earlystop" && x.Args[0].single() == L {
			for _, a := range bSupport(x.G) {
				if a.Op == "exists" && a.Args[0] == L {
					stop = bOr(stop, condTerms[a])
				}
			}
			bad := sat(bAnd(x.G, g.eq(r.Rets[0], mkNil())))
			c.Check(bad == bF, "parse", "early end", p.InstrPos(x.Ins), "ends without an error when "+bString(bad))
		}
	}
	for _, a := range bSupport(stop) {
		ok := contains(a, func(t *Term) bool { n := funcNameOf(t); return t.Op == "call" && n == "strconv.Atoi" }) || a.Op == "bin" && contains(a, func(t *Term) bool { return t.Op == "len" })
		c.Check(ok, "parse", "early end", p.Pos(fn.Pos()), "the errors are not recorded depending on "+brief(a.String()))
	}
	empty := g.eq(g.lenOf(nil, L), mkInt(0))
	miss := sat(bAnds(bNot(recorded), bNot(stop), bNot(empty)))
	c.Check(miss == bF, "parse", "every error", p.Pos(fn.Pos()), "not recorded when "+bString(miss))
}

func checkParsedAlways(c *Ctx) {
	m := c.P.processModel()
	g := m.G
	var pe *GEvent
	for _, e := range m.Main {
		if e.Fn == m.check["ParseErrors"] {
			pe = e
		}
	}
	if !c.Check(pe != nil && len(pe.Loops) == 2, "every", "ParseErrors", c.P.Pos(m.Fn.Pos()), "not called for the packages") {
		return
	}
	ip := c.P.InstrPos(pe.Ins)
	pkg := pe.Args[1].single()
	ok := pkg != nil && pkg == elemOf(pe.Loops[1], pkg.Typ) && pe.Loops[0] == m.Recv
	if !c.Check(ok, "every", "package", ip, pe.Args[1].String()) {
		return
	}
	W := noLoopVars(noExists(pe.G))
	unnamed := g.eq(gvT(g.ptrField(pkg, "Name")), mkString(""))
	none := g.eq(g.lenOf(nil, g.ptrField(pkg, "Errors")), mkInt(0))
	miss := sat(bAnds(bNot(W), bNot(unnamed), bNot(none)))
	c.Check(miss == bF, "every", "every package", ip, "not when "+bString(miss))
	for _, e := range m.Main {
		if e.Fn == m.check["CheckRules"] {
			c.Check(eventPos(m.Main, pe) < eventPos(m.Main, e), "every", "first", ip, "the package is checked first")
		}
	}
	// what it returns ends the scan with an error, and only that
	er := pe.Result
	for _, x := range m.Main {
		if x.Kind == "earlystop" && x.Args[0].single() == pe.Loops[1] {
			for _, a := range bSupport(x.G) {
				if a.Op == "exists" && a.Args[0] == pe.Loops[1] {
					bad := sat(bAnd(condTerms[a], g.eq(gvT(er), mkNil())))
					c.Check(bad == bF, "go-on", "early end", c.P.InstrPos(x.Ins), "the scan ends when "+bString(bad))
				}
			}
		}
	}
}

func goOn(c *Ctx) {
	m := c.P.processModel()
	g := m.G
	n := 0
	for _, e := range m.Main {
		if e.Fn != m.check["CheckRules"] && e.Fn != m.check["CheckAnalyzers"] {
			continue
		}
		n++
		W := noLoopVars(noExists(e.G))
		for _, a := range bSupport(W) {
			// nothing but the package itself decides
			own := len(e.Loops) == 2 && !contains(a, func(t *Term) bool {
				return t.Op == "field" && t.Args[0].Op == "elem" && t.Args[0].Args[0] == m.Recv && !contains(a, func(y *Term) bool { return y.Op == "elem" && y.Args[0] == e.Loops[1] })
			})
			c.Check(own, "go-on", "another failure", c.P.InstrPos(e.Ins), "depends on "+brief(a.String()))
		}
	}
	c.Check(n >= 2, "go-on", "checks", c.P.Pos(m.Fn.Pos()), fmt.Sprint(n))
	for _, x := range m.Main {
		if x.Kind == "earlystop" && x.Args[0].single() == m.Recv {
			for _, a := range bSupport(x.G) {
				if a.Op == "exists" && a.Args[0] == m.Recv {
					for _, b := range bSupport(condTerms[a]) {
						own := b.Op == "exists" || contains(b, func(t *Term) bool { return t.Op == "first" })
						c.Check(own, "go-on", "early end", c.P.InstrPos(x.Ins), "the scan ends depending on "+brief(b.String()))
					}
				}
			}
		}
	}
	_ = g
}

func checkErrorsKept(c *Ctx) {
	p := c.P
	fv := p.FieldVar("", "Analyzer", "errors")
	allowed := map[*ssa.Function]bool{}
	for _, n := range []string{"ParseErrors", "AppendError", "Reset"} {
		allowed[p.Method("", "Analyzer", n)] = true
	}
	allowed[p.Func("", "NewAnalyzer")] = true
	isErrs := func(v ssa.Value) bool {
		mp, ok := v.Type().Underlying().(*types.Map)
		return ok && strings.HasSuffix(mp.Elem().String(), modPath+".Error")
	}
	n := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && addrField(fa) == fv {
						n++
						// a new scanner or an explicit reset
						_, fresh := x.Val.(*ssa.MakeMap)
						c.Check(fresh && allowed[f], "kept", "replaced in "+FuncName(f), p.InstrPos(ins), "the recorded errors are replaced")
					}
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") && isErrs(x.Common().Args[0]) {
						n++
						c.Check(allowed[f] && strings.HasSuffix(FuncName(f), "Reset"), "kept", "deleted in "+FuncName(f), p.InstrPos(ins), "recorded errors are deleted")
					}
				case *ssa.MapUpdate:
					if isErrs(x.Map) {
						n++
						c.Check(reachedFrom(p, f, p.Method("", "Analyzer", "ParseErrors"), p.Method("", "Analyzer", "AppendError")), "kept", "stored in "+FuncName(f), p.InstrPos(ins), "recorded errors are overwritten")
					}
				}
			}
		}
	}
	c.Stat("writes of the errors", n)
	rep := p.Method("", "Analyzer", "Report")
	g := NewGate(p)
	r := g.Run(rep)
	ok := len(r.Rets) == 3 && r.Rets[2].single() == g.ptrField(gparam(rep, 0), "errors")
	c.Check(ok, "kept", "Report", p.Pos(rep.Pos()), "does not return the recorded errors")
	m := p.mainModel()
	re := m.one("(*gosec.Analyzer).Report")
	for _, e := range m.calls("gosec.NewReportInfo") {
		c.Check(e.Args[2].single() == res(re, 2), "kept", "report", p.InstrPos(e.Ins), "the report gets "+e.Args[2].String())
	}
}

// reachedFrom: f is one of the functions or only called from them.
func reachedFrom(p *Program, f *ssa.Function, roots ...*ssa.Function) bool {
	for _, r := range roots {
		if f == r {
			return true
		}
	}
	if f.Object() == nil || f.Object().Exported() {
		return false
	}
	n := 0
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
					n++
					if g != f && !reachedFrom(p, g, roots...) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}
