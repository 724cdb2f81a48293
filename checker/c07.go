package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C07", checkC07) }

// finding is one call that makes a finding, in one way of reaching it.
type findingCall struct {
	Site  *ssa.Call
	In    *ssa.Function
	Ctx   context
	Node  []*Term // node or position
	ID    []*Term
	What  []*Term
	Sev   []*Term
	Conf  []*Term
	Label string
}

// findingCalls lists the calls that make findings: of Context.NewIssue or issue.New under the Match
// method of a rule, of the analyzers' constructor under the Run function of an analyzer.
func (p *Program) findingCalls(roots map[*ssa.Function]bool, makers map[*ssa.Function]bool) (out []findingCall, lost []string) {
	for _, f := range p.Funcs {
		if devTools[relPath(FuncPkg(f))] || makers[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				fn := call.Common().StaticCallee()
				if fn == nil || !makers[fn] {
					continue
				}
				cs := p.contexts(f, roots)
				if len(cs) == 0 {
					lost = append(lost, FuncName(f)+" at "+p.InstrPos(ins))
					continue
				}
				for _, cx := range cs {
					fc := findingCall{Site: call, In: f, Ctx: cx, Label: p.InstrPos(ins)}
					sig := fn.Signature
					off := len(call.Common().Args) - sig.Params().Len()
					var strs, scores []ssa.Value
					for i := 0; i < sig.Params().Len(); i++ {
						a := call.Common().Args[i+off]
						switch t := sig.Params().At(i).Type(); {
						case types.TypeString(t, nil) == "go/ast.Node" || types.TypeString(t, nil) == "go/token.Pos":
							fc.Node = p.origins(fval{cx.fr, a})
						case types.Identical(t, types.Typ[types.String]):
							strs = append(strs, a)
						case types.Identical(t, namedOf(p, "issue", "Score")):
							scores = append(scores, a)
						}
					}
					if len(strs) != 2 || len(scores) != 2 {
						panic(undecided{"parameters of " + FuncName(fn) + " not recognised"})
					}
					fc.ID = p.origins(fval{cx.fr, strs[0]})
					fc.What = p.origins(fval{cx.fr, strs[1]})
					fc.Sev = p.origins(fval{cx.fr, scores[0]})
					fc.Conf = p.origins(fval{cx.fr, scores[1]})
					out = append(out, fc)
				}
			}
		}
	}
	return
}

// ownMeta: the term is the named field of the metadata embedded in the receiver of the rule.
func ownMeta(t *Term, root *ssa.Function, name string) bool {
	if t.Op != "field" {
		return false
	}
	f, ok := t.Obj.(*types.Var)
	if !ok || f.Name() != name {
		return false
	}
	t = t.Args[0]
	first := true
	for t.Op == "field" {
		f := t.Obj.(*types.Var)
		if !f.Embedded() {
			return false
		}
		if first && f.Name() != "MetaData" {
			return false
		}
		first = false
		t = t.Args[0]
	}
	return !first && t.Op == "param" && t.Obj == any(root.Params[0])
}

var idForm = regexp.MustCompile(`^G[0-9]{3}$`)

func checkC07(c *Ctx) {
	p := c.P
	c.Rule("unique", "every rule and analyzer has an identifier of its own and a description")
	c.Rule("constructed", "a rule is made with the identifier it is registered under, and with the severity, confidence and description its findings use")
	c.Rule("emitted", "a finding is made with the identifier, severity, confidence and description of the rule that makes it")
	c.Rule("stored", "the finding shows exactly what it was made with")
	c.Rule("kept", "nothing changes the identifier, severity, confidence or description of a finding later")
	byRoot := map[*ssa.Function][]ruleDef{}
	seen := map[string]string{}
	var rdefs, adefs []ruleDef
	c.Guard("unique", "tables", func() {
		rdefs, adefs = p.ruleTable("rules"), p.ruleTable("analyzers")
		for i, d := range append(append([]ruleDef{}, rdefs...), adefs...) {
			where := "rules"
			if i >= len(rdefs) {
				where = "analyzers"
			}
			c.Check(idForm.MatchString(d.ID) && seen[d.ID] == "", "unique", "identifier "+d.ID, where, "also in "+seen[d.ID])
			c.Check(strings.TrimSpace(d.Desc) != "", "unique", "description of "+d.ID, where, d.Desc)
			seen[d.ID] = where
		}
	})
	c.Min("unique", 10)
	makersR := map[*ssa.Function]bool{p.Func("issue", "New"): true, p.Method("", "Context", "NewIssue"): true}
	roots := map[*ssa.Function]bool{}
	uses := map[*ssa.Function]map[string]bool{} // Match method -> metadata its findings use
	for _, m := range p.ruleMatches() {
		roots[m] = true
		uses[m] = map[string]bool{}
	}
	var fcs []findingCall
	c.Guard("emitted", "rules", func() {
		var lost []string
		fcs, lost = p.findingCalls(roots, makersR)
		for _, l := range lost {
			c.Fail("emitted", l, l, "no rule is known to lead here")
		}
		for _, fc := range fcs {
			checkEmitted(c, fc, func(t *Term, n string) bool {
				if n == "table" {
					// a map of descriptions held by the rule itself: its entries are judged where it is made
					f := t.Obj.(*types.Var)
					if b := t.Args[0]; b.Op == "param" && b.Obj == any(fc.Ctx.root.Params[0]) {
						uses[fc.Ctx.root]["table:"+f.Name()] = true
						return true
					}
					return false
				}
				if ownMeta(t, fc.Ctx.root, n) {
					uses[fc.Ctx.root][n] = true
					return true
				}
				return false
			})
		}
		c.Min("emitted", 80)
	})
	c.Guard("constructed", "rules", func() {
		for _, d := range rdefs {
			d := d
			c.Guard("constructed", "rule "+d.ID, func() { checkConstructed(c, d, uses, byRoot) })
		}
		c.Min("constructed", 30)
	})
	c.Guard("emitted", "analyzers", func() { checkAnalyzerFindings(c, adefs) })
	c.Guard("stored", "constructions", func() { checkStored(c) })
	c.Guard("kept", "writes", func() { p.onlyWhileMade(c, "kept", "RuleID", "Severity", "Confidence", "What") })
}

// checkEmitted judges what one call makes a finding with.
func checkEmitted(c *Ctx, fc findingCall, own func(t *Term, name string) bool) {
	at := fmt.Sprintf("%s for %s", FuncName(fc.In), FuncName(fc.Ctx.root))
	all := func(ts []*Term, ok func(*Term) bool) (bool, string) {
		good := len(ts) > 0
		var bad []string
		for _, t := range ts {
			if !ok(t) {
				good = false
				bad = append(bad, brief(t.String()))
			}
		}
		return good, strings.Join(bad, ", ")
	}
	ok, bad := all(fc.ID, func(t *Term) bool { return own(t, "ID") })
	c.Check(ok, "emitted", "identifier of a finding of "+at, fc.Label, "is the rule's own "+bad)
	for _, s := range []struct {
		name string
		ts   []*Term
	}{{"Severity", fc.Sev}, {"Confidence", fc.Conf}} {
		ok, bad := all(s.ts, func(t *Term) bool {
			if k, isC := constInt(t); isC {
				return k >= 0 && k <= 2
			}
			return own(t, s.name)
		})
		c.Check(ok, "emitted", strings.ToLower(s.name)+" of a finding of "+at, fc.Label, "is set "+bad)
	}
	ok, bad = all(fc.What, func(t *Term) bool { return describes(t, own) })
	c.Check(ok, "emitted", "description of a finding of "+at, fc.Label, "is not empty "+bad)
}

// describes: the text cannot be empty: it holds literal text or the rule's own description.
func describes(t *Term, own func(*Term, string) bool) bool {
	if s, ok := constStr(t); ok {
		return strings.TrimSpace(s) != ""
	}
	if own(t, "What") {
		return true
	}
	switch t.Op {
	case "bin":
		return t.Obj == "+" && (describes(t.Args[0], own) || describes(t.Args[1], own))
	case "either":
		for _, a := range t.Args {
			if !describes(a, own) {
				return false
			}
		}
		return len(t.Args) > 0
	case "call":
		if f, ok := t.Obj.(*ssa.Function); ok && (funcQual(f) == "fmt.Sprintf") {
			if s, ok := constStr(t.Args[0]); ok {
				args := t.Args[1:]
				if len(args) == 1 && args[0].Op == "list" {
					args = args[0].Args
				}
				if ps, ok := sprintfPieces(mkString(s), args); ok {
					for _, q := range ps {
						if q.val == nil && strings.TrimSpace(q.lit) != "" || q.val != nil && own(q.val, "What") {
							return true
						}
					}
				}
			}
		}
	case "elem":
		// an entry of a table of descriptions the rule was made with: judged where the rule is made
		b := t.Args[0]
		if b.Op == "field" {
			if f, ok := b.Obj.(*types.Var); ok {
				if m, ok := f.Type().Underlying().(*types.Map); ok && types.Identical(m.Elem(), types.Typ[types.String]) {
					return own(mk("table", f, "", nil, b.Args[0]), "table")
				}
			}
		}
	}
	return false
}

// checkConstructed evaluates the constructor of a rule.
func checkConstructed(c *Ctx, d ruleDef, uses map[*ssa.Function]map[string]bool, byRoot map[*ssa.Function][]ruleDef) {
	p := c.P
	if d.Create == nil {
		panic(undecided{"constructor of " + d.ID + " not found"})
	}
	pos := p.Pos(d.Create.Pos())
	g := NewGate(p)
	r := g.Run(d.Create, gvT(mkString(d.ID)))
	types_ := map[string]types.Type{}
	for _, x := range r.Rets[0].L {
		t := strip(x.t)
		if t.Op != "alloc" {
			c.Fail("constructed", "rule "+d.ID, pos, "is made as "+brief(t.String()))
			continue
		}
		types_[t.Typ.String()] = t.Typ
	}
	for _, typ := range types_ {
		var match *ssa.Function
		for m := range uses {
			if types.Identical(m.Signature.Recv().Type(), typ) {
				match = m
			}
		}
		if match == nil {
			// the method is promoted from an embedded rule
			sel := types.NewMethodSet(typ).Lookup(nil, "Match")
			if sel != nil {
				for m := range uses {
					if m.Object() == sel.Obj() {
						match = m
					}
				}
			}
		}
		if match == nil {
			c.Fail("constructed", "rule "+d.ID, pos, "no Match method for "+typ.String())
			continue
		}
		byRoot[match] = append(byRoot[match], d)
		idm := p.methodOf(typ, "ID")
		if idm == nil {
			c.Fail("constructed", "rule "+d.ID, pos, "no ID method for "+typ.String())
			continue
		}
		for _, x := range r.Rets[0].L {
			self := strip(x.t)
			if self.Typ.String() != typ.String() {
				continue
			}
			when := x.g
			// what the rule answers for its identifier
			vs, _, _ := g.frame(idm, nil, nil, []GV{gvT(self)}, nil, "id", cloneMem(r.Mem), 0)
			v := vs[0].constrain(when)
			ok := len(v.L) > 0
			for _, y := range v.L {
				if s, isS := constStr(strip(y.t)); !isS || s != d.ID {
					ok = false
				}
			}
			c.Check(ok, "constructed", "identifier of rule "+d.ID, pos, "is "+brief(v.String()))
			meta := metaPath(typ)
			if meta == nil {
				c.Fail("constructed", "metadata of rule "+d.ID, pos, "no metadata in "+typ.String())
				continue
			}
			var names []string
			for n := range uses[match] {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				if table, isT := strings.CutPrefix(n, "table:"); isT {
					checkDescriptions(c, g, d, r.Mem, self, table, when, pos)
					continue
				}
				addr := self
				for _, f := range meta {
					addr = mk("fieldaddr", f, "", types.NewPointer(f.Type()), addr)
				}
				v := g.memField(r.Mem, addr, n).constrain(when)
				set := p.fieldIsSet(g, n, when)
				ok := len(v.L) > 0 && set
				for _, y := range v.L {
					t := strip(y.t)
					switch n {
					case "ID":
						s, isS := constStr(t)
						ok = ok && isS && s == d.ID
					case "Severity", "Confidence":
						k, isI := constInt(t)
						ok = ok && isI && k >= 0 && k <= 2
					case "What":
						some := false
						for _, q := range pieces(t) {
							if q.val == nil && strings.TrimSpace(q.lit) != "" {
								some = true
							}
						}
						ok = ok && some
					}
				}
				c.Check(ok, "constructed", strings.ToLower(n)+" of rule "+d.ID, pos, fmt.Sprintf("is %s, set in the constructor: %v", brief(v.String()), set))
			}
		}
	}
}

// checkDescriptions: every entry of a rule's table of descriptions is a text.
func checkDescriptions(c *Ctx, g *Gate, d ruleDef, mem GMem, self *Term, table string, when BDD, pos string) {
	v := g.memField(mem, self, table).constrain(when)
	n := 0
	for _, x := range v.L {
		for _, e := range g.Events {
			if e.Kind != "mapstore" || e.Args[0].term() == nil || strip(e.Args[0].term()) != strip(x.t) {
				continue
			}
			n++
			ok := len(e.Args[2].L) > 0
			for _, y := range e.Args[2].L {
				s, isS := constStr(strip(y.t))
				ok = ok && isS && strings.TrimSpace(s) != ""
			}
			c.Check(ok, "constructed", "descriptions of rule "+d.ID, pos, "is "+brief(e.Args[2].String()))
		}
	}
	c.Check(n > 0, "constructed", "table of descriptions of rule "+d.ID, pos, fmt.Sprintf("%d entries of %s", n, brief(v.String())))
}

// fieldIsSet: the metadata field is written whenever the rule is made.
func (p *Program) fieldIsSet(g *Gate, name string, when BDD) bool {
	set := bF
	for _, w := range g.fieldWrites(namedOf(p, "issue", "MetaData"), name) {
		if len(w.Loops) == 0 {
			set = bOr(set, w.G)
		}
	}
	return bImp(when, set) == bT
}

// metaPath is the chain of embedded fields to the metadata of a rule.
func metaPath(t types.Type) []*types.Var {
	st := structOf(t)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Embedded() {
			continue
		}
		if f.Name() == "MetaData" {
			return []*types.Var{f}
		}
		if _, isP := f.Type().Underlying().(*types.Pointer); isP {
			continue
		}
		if m := metaPath(f.Type()); m != nil {
			return append([]*types.Var{f}, m...)
		}
	}
	return nil
}

// methodOf finds the function behind a method of a type, promoted ones included.
func (p *Program) methodOf(t types.Type, name string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// checkAnalyzerFindings: the analyzers' findings.
func checkAnalyzerFindings(c *Ctx, defs []ruleDef) {
	p := c.P
	roots := map[*ssa.Function]bool{}
	for _, d := range defs {
		g := NewGate(p)
		r := g.Run(d.Create, gvT(mkString(d.ID)))
		pos := p.Pos(d.Create.Pos())
		t := r.Rets[0].single()
		if t == nil || strip(t).Op != "alloc" {
			c.Fail("constructed", "analyzer "+d.ID, pos, "is made as "+brief(r.Rets[0].String()))
			continue
		}
		name := g.memField(r.Mem, strip(t), "Name").single()
		s := ""
		if name != nil {
			s, _ = constStr(strip(name))
		}
		c.Check(s == d.ID, "constructed", "identifier of analyzer "+d.ID, pos, "is "+s)
		run := g.memField(r.Mem, strip(t), "Run").single()
		var fn *ssa.Function
		if run != nil {
			fn, _ = strip(run).Obj.(*ssa.Function)
		}
		if !c.Check(fn != nil, "constructed", "run function of analyzer "+d.ID, pos, "is known") {
			continue
		}
		roots[fn] = true
	}
	makers := map[*ssa.Function]bool{}
	for _, f := range p.findingMakers() {
		if relPath(FuncPkg(f)) == "analyzers" {
			makers[f] = true
		}
	}
	fcs, lost := p.findingCalls(roots, makers)
	for _, l := range lost {
		c.Fail("emitted", l, l, "no analyzer is known to lead here")
	}
	c.Check(len(fcs) >= 3, "emitted", "findings of the analyzers", "-", fmt.Sprint(len(fcs)))
	for _, fc := range fcs {
		checkEmitted(c, fc, func(t *Term, n string) bool {
			return n == "ID" && isField(t, "Name") && isField(t.Args[0], "Analyzer") && t.Args[0].Args[0] == mk("param", fc.Ctx.root.Params[0], "", fc.Ctx.root.Params[0].Type())
		})
	}
	// the pass an analyzer runs with names that analyzer
	n := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok || call.Common().IsInvoke() || call.Common().StaticCallee() != nil || len(call.Common().Args) != 1 {
					continue
				}
				if types.TypeString(call.Common().Args[0].Type(), nil) != "*golang.org/x/tools/go/analysis.Pass" {
					continue
				}
				fr := &fframe{fn: f}
				callee := p.origins(fval{fr, call.Common().Value})
				pass := p.origins(fval{fr, call.Common().Args[0]})
				if len(callee) != 1 || !isField(callee[0], "Run") {
					c.Fail("emitted", "run of an analyzer in "+FuncName(f), p.InstrPos(ins), "what runs is "+fmt.Sprint(callee))
					continue
				}
				n++
				who := callee[0].Args[0]
				ok = len(pass) == 1 && pass[0].Op == "alloc"
				detail := ""
				if ok {
					al := pass[0].Obj.(*ssa.Alloc)
					o := &origins{p: p, seen: map[okey]bool{}}
					ts, known := o.storedField(fr, al, passField(al, "Analyzer"))
					ok = known && len(ts) == 1 && (ts[0] == who || isField(who, "Analyzer") && who.Args[0] == pass[0])
					detail = fmt.Sprint(ts)
				}
				c.Check(ok, "emitted", "pass of an analyzer in "+FuncName(f), p.InstrPos(ins), "names the analyzer that runs "+brief(detail))
			}
		}
	}
	c.Check(n >= 1, "emitted", "runs of analyzers", "-", fmt.Sprint(n))
}

func passField(al *ssa.Alloc, name string) *types.Var {
	st := structOf(al.Type())
	if i := fieldIndex(st, name); i >= 0 {
		return st.Field(i)
	}
	return nil
}

func isField(t *Term, name string) bool {
	if t.Op != "field" {
		return false
	}
	f, ok := t.Obj.(*types.Var)
	return ok && f.Name() == name
}

// checkStored: a finding shows what its constructor was given.
func checkStored(c *Ctx) {
	p := c.P
	n := 0
	for _, f := range p.findingMakers() {
		g := NewGate(p)
		r := g.Run(f)
		var strs, scores []*Term
		sig := f.Signature
		off := len(f.Params) - sig.Params().Len()
		for i := 0; i < sig.Params().Len(); i++ {
			switch t := sig.Params().At(i).Type(); {
			case types.Identical(t, types.Typ[types.String]):
				strs = append(strs, gparam(f, i+off))
			case types.Identical(t, namedOf(p, "issue", "Score")):
				scores = append(scores, gparam(f, i+off))
			}
		}
		pos := p.Pos(f.Pos())
		if len(strs) != 2 || len(scores) != 2 {
			c.Fail("stored", "finding made in "+FuncName(f), pos, "parameters not recognised")
			continue
		}
		for _, x := range r.Rets[0].L {
			t := strip(x.t)
			if isNilT(t) {
				continue
			}
			if t.Op != "alloc" {
				c.Fail("stored", "finding made in "+FuncName(f), pos, "is "+brief(t.String()))
				continue
			}
			n++
			for _, w := range []struct {
				field string
				want  *Term
			}{{"RuleID", strs[0]}, {"What", strs[1]}, {"Severity", scores[0]}, {"Confidence", scores[1]}} {
				v := g.memField(r.Mem, t, w.field).constrain(x.g)
				c.Check(v.single() == w.want, "stored", w.field+" of a finding made in "+FuncName(f), pos, "is "+brief(v.String()))
			}
		}
	}
	c.Check(n >= 2, "stored", "constructors of findings", "-", fmt.Sprint(n))
	// Context.NewIssue hands on what it is given
	fn := p.Method("", "Context", "NewIssue")
	if fn == nil {
		panic(undecided{"Context.NewIssue not found"})
	}
	g := NewGate(p)
	mkNew := p.Func("issue", "New")
	g.noInline(mkNew)
	r := g.Run(fn)
	t := r.Rets[0].single()
	ok := t != nil && strip(t).Op == "call" && strip(t).Obj == any(mkNew)
	if c.Check(ok, "stored", "finding of Context.NewIssue", p.Pos(fn.Pos()), "is "+brief(r.Rets[0].String())) {
		a := strip(t).Args
		k := len(a) - 5
		for i := 0; i < 5; i++ {
			c.Check(a[k+i] == gparam(fn, 1+i), "stored", fmt.Sprintf("argument %d of Context.NewIssue", i+1), p.Pos(fn.Pos()), "is handed on: "+brief(a[k+i].String()))
		}
	}
}

// onlyWhileMade: the fields of a finding are only written by the functions that make findings.
func (p *Program) onlyWhileMade(c *Ctx, rule string, names ...string) {
	makers := map[*ssa.Function]bool{}
	for _, f := range p.findingMakers() {
		makers[f] = true
	}
	for _, name := range names {
		fv := p.FieldVar("issue", "Issue", name)
		n := 0
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					s, ok := ins.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok || addrField(fa) != fv {
						continue
					}
					n++
					_, local := strip2(fa.X).(*ssa.Alloc)
					local = local || p.onlyCalledBy(f, makers, 3)
					c.Check(local, rule, "write to the "+name+" of a finding in "+FuncName(f), p.InstrPos(ins), "only while it is made")
				}
			}
		}
		c.Check(n > 0, rule, "writes to the "+name+" of a finding", "-", fmt.Sprint(n))
	}
	// nor is a whole finding overwritten
	it := namedOf(p, "issue", "Issue")
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok || !types.Identical(s.Val.Type(), it) {
					continue
				}
				_, local := s.Addr.(*ssa.Alloc)
				c.Check(local, rule, "assignment of a whole finding in "+FuncName(f), p.InstrPos(ins), "only to a new variable")
			}
		}
	}
}
