package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", checkC01)
}

// suppressionLookups finds the functions deciding whether a finding is suppressed: their results are
// a list of suppressions and a flag.
func suppressionLookups(p *Program) []*ssa.Function {
	si := p.NamedType("issue", "SuppressionInfo")
	var out []*ssa.Function
	for _, f := range p.PkgFuncs("") {
		rs := f.Signature.Results()
		if rs.Len() == 2 && si != nil {
			if sl, ok := rs.At(0).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), si) {
				if b, ok := rs.At(1).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// outcome of recording one finding under one assignment of the settings.
type outcome struct {
	kept, supp, found map[int]bool
	nosec             string // final marks: "true","false","unset","?"
	suppOK            bool
	keptOK            bool
	pos               string
	viaHelper         string
}

// route describes one way findings enter the results.
type route struct {
	name  string
	entry *ssa.Function
	// isFinding recognises the term of the finding being recorded
	isFinding func(t *Term) bool
	// start recognises the instruction at which the finding becomes available
	start func(g *Graph, n *Node) bool
	seed  func(t *Term) *Term
}

func (p *Program) findingRoutes(r *Roles) []*route {
	ruleMatch := func(t *Term) bool {
		return t.Op == "call" && isMethodNamed(t.Obj, modPath, "Rule", "Match")
	}
	isIssuePtr := func(t types.Type) bool { return t != nil && namedName(t) == modPath+"/issue.Issue" }
	isFinding1 := func(t *Term) bool {
		t = strip(t)
		return t.Op == "extract" && t.Obj == "0" && ruleMatch(t.Args[0])
	}
	isFinding2 := func(t *Term) bool {
		t = strip(t)
		return (t.Op == "elem" || t.Op == "index") && isIssuePtr(t.Typ) && contains(t, func(x *Term) bool { return x.Op == "tassert" })
	}
	return []*route{
		{
			name: "syntax-tree rules (Visit)", entry: p.Method("", "Analyzer", "Visit"), isFinding: isFinding1,
			start: func(g *Graph, n *Node) bool {
				ci := n.Call()
				return ci != nil && ci.Method != nil && isMethodNamed(ci.Method, modPath, "Rule", "Match")
			},
		},
		{
			name: "SSA analyzers (CheckAnalyzers)", entry: p.Method("", "Analyzer", "CheckAnalyzers"), isFinding: isFinding2,
			start: func(g *Graph, n *Node) bool {
				u, ok := n.Ins.(*ssa.UnOp)
				if !ok || n.Kind != "" {
					return false
				}
				return isFinding2(n.Val(g.R.E, u))
			},
			seed: func(t *Term) *Term {
				// the analyzer ran without error and returned a list of findings; the package has SSA
				if t.Op == "tassertok" {
					return mkBool(true)
				}
				if t.Op == "bin" && t.Obj == "==" && (t.Args[0].Op == "nil" || t.Args[1].Op == "nil") {
					o := t.Args[0]
					if o.Op == "nil" {
						o = t.Args[1]
					}
					if o.Op == "extract" && isErrorType(o.Typ) {
						return mkBool(true)
					}
					if o.Op == "extract" || o.Op == "recv" {
						return mkBool(false)
					}
				}
				return nil
			},
		},
	}
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func isMethodNamed(o any, pkg, typ, name string) bool {
	f, ok := o.(*types.Func)
	if !ok || f == nil || f.Name() != name {
		if sf, ok2 := o.(*ssa.Function); ok2 && sf != nil {
			if tf, ok3 := sf.Object().(*types.Func); ok3 && tf != nil {
				return isMethodNamed(tf, pkg, typ, name)
			}
		}
		return false
	}
	sig := f.Type().(*types.Signature)
	if sig.Recv() == nil {
		return false
	}
	return namedName(sig.Recv().Type()) == pkg+"."+typ
}

type setting struct{ ignored, track, show, ignNosec bool }

func (s setting) String() string {
	return fmt.Sprintf("suppressed=%v track=%v show-ignored=%v ignore-annotations=%v", s.ignored, s.track, s.show, s.ignNosec)
}

func allSettings() []setting {
	var out []setting
	for i := 0; i < 16; i++ {
		out = append(out, setting{i&1 != 0, i&2 != 0, i&4 != 0, i&8 != 0})
	}
	return out
}

// recordOutcome runs the decision analysis for one route under one assignment.
func recordOutcome(p *Program, r *Roles, rt *route, s setting, errNil, exclGen *bool) *outcome {
	if rt.entry == nil {
		panic(undecided{"entry of " + rt.name + " not found"})
	}
	e := NewEngine(p)
	lookups := map[*ssa.Function]bool{}
	for _, f := range suppressionLookups(p) {
		lookups[f] = true
	}
	if len(lookups) == 0 {
		panic(undecided{"no suppression lookup function found"})
	}
	e.Inline = func(fn *ssa.Function) bool {
		return p.InModule(fn) && !lookups[fn] && (FuncPkg(fn).Path() == modPath || FuncPkg(fn).Path() == sub("issue")) && !p.noInlineForRecording(fn)
	}
	isLookup := func(t *Term) bool {
		f, ok := t.Obj.(*ssa.Function)
		return ok && t.Op == "call" && lookups[f]
	}
	e.Hook = func(t *Term) *Term {
		switch {
		case isFieldOf(t, r.Track):
			return mkBool(s.track)
		case isFieldOf(t, r.ShowIgnored):
			return mkBool(s.show)
		case isFieldOf(t, r.IgnoreNosec):
			return mkBool(s.ignNosec)
		case isFieldOf(t, r.ExclGen):
			if exclGen != nil {
				return mkBool(*exclGen)
			}
			return mkBool(false)
		case t.Op == "extract" && t.Obj == "1" && isLookup(t.Args[0]):
			return mkBool(s.ignored)
		case t.Op == "bin" && t.Obj == "==" && (t.Args[0].Op == "nil" || t.Args[1].Op == "nil"):
			o := t.Args[0]
			if o.Op == "nil" {
				o = t.Args[1]
			}
			if rt.isFinding(o) {
				return mkBool(false)
			}
			if o.Op == "extract" && o.Obj == "1" && contains(o, func(x *Term) bool { return isMethodNamed(x.Obj, modPath, "Rule", "Match") }) && errNil != nil {
				return mkBool(*errNil)
			}
		case t.Op == "bin" && t.Obj == "==":
			// "has suppressions" is the same fact as "suppressed" for a lookup result
			for i := 0; i < 2; i++ {
				if v, ok := constInt(t.Args[i]); ok && v == 0 {
					o := t.Args[1-i]
					if o.Op == "len" && o.Args[0].Op == "extract" && o.Args[0].Obj == "0" && isLookup(o.Args[0].Args[0]) {
						return mkBool(!s.ignored)
					}
				}
			}
		}
		if rt.seed != nil {
			return rt.seed(t)
		}
		return nil
	}
	res := e.Run(rt.entry)
	g := res.Graph()
	starts := g.Find(func(n *Node) bool { return rt.start(g, n) })
	if len(starts) == 0 {
		panic(undecided{"no point where a finding becomes available in " + rt.name})
	}
	isStart := func(n *Node) bool {
		for _, s := range starts {
			if s == n {
				return true
			}
		}
		return false
	}
	o := &outcome{kept: map[int]bool{}, supp: map[int]bool{}, found: map[int]bool{}, suppOK: true, keptOK: true}
	suppField, nosecField := p.FieldVar("issue", "Issue", "Suppressions"), p.FieldVar("issue", "Issue", "NoSec")
	foundField := p.FieldVar("", "Metrics", "NumFound")
	isKeep := func(n *Node) bool {
		a, v, ok := n.Store()
		if !ok || !isFieldAddrOf(a, r.Issues) {
			return false
		}
		// the new list is the old one with this finding appended
		good := v.Op == "append" && len(v.Args) >= 2
		for _, x := range v.Args[1:] {
			// over several iterations the abstraction holds the findings of earlier ones too
			good = good && rt.isFinding(x)
		}
		if good {
			for _, b := range alts(v.Args[0]) {
				if !isFieldOf(b, r.Issues) {
					good = false
				}
			}
		}
		if !good {
			o.keptOK = false
		}
		return true
	}
	isSupp := func(n *Node) bool {
		a, v, ok := n.Store()
		if !ok || !isFieldAddrOf(a, suppField) {
			return false
		}
		if !(v.Op == "extract" && v.Obj == "0" && isLookup(v.Args[0])) && !(v.Op == "append" && contains(v, func(x *Term) bool { return x.Op == "extract" && isLookup(x.Args[0]) })) {
			o.suppOK = false
		}
		return true
	}
	isFound := func(n *Node) bool {
		a, v, ok := n.Store()
		if !ok || !isFieldAddrOf(a, foundField) {
			return false
		}
		w := strip(v)
		if !(w.Op == "bin" && w.Obj == "+") || !(w.Args[0] == mkInt(1) || w.Args[1] == mkInt(1)) {
			// widened counters are fine as long as the operation adds one
			if st, ok := n.Ins.(*ssa.Store); ok {
				if bo, ok := st.Val.(*ssa.BinOp); ok && isOne(bo.Y) && bo.Op.String() == "+" {
					return true
				}
			}
			o.found[9] = true
		}
		return true
	}
	stop := func(n *Node) bool { return isStart(n) || n == g.Exit }
	for _, st := range starts {
		o.pos = p.InstrPos(st.Ins)
		for k := range g.Counts(st, stop, isKeep) {
			o.kept[k] = true
		}
		for k := range g.Counts(st, stop, isSupp) {
			o.supp[k] = true
		}
		for k := range g.Counts(st, stop, isFound) {
			o.found[k] = true
		}
		// marks
		want := map[string]bool{}
		marks := g.Find(func(n *Node) bool {
			a, _, ok := n.Store()
			return ok && isFieldAddrOf(a, nosecField)
		})
		for _, mrk := range marks {
			_, v, _ := mrk.Store()
			switch {
			case isTrue(v):
				want["true"] = true
			case isFalse(v):
				want["false"] = true
			default:
				want["?"] = true
			}
		}
		isMark := func(n *Node) bool {
			a, _, ok := n.Store()
			return ok && isFieldAddrOf(a, nosecField)
		}
		if g.ReachAvoid(st, stop, isMark) {
			want["unset"] = true
		}
		o.nosec = fmt.Sprint(keys(want))
	}
	return o
}

func isOne(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.ExactString() == "1"
}

func keys(m map[string]bool) []string {
	var out []string
	for _, k := range []string{"true", "false", "unset", "?"} {
		if m[k] {
			out = append(out, k)
		}
	}
	return out
}

// noInlineForRecording keeps the analysis of the recording decision away from the parts that only
// produce findings or log.
func (p *Program) noInlineForRecording(fn *ssa.Function) bool {
	switch fn {
	case p.Method("", "RuleSet", "RegisteredFor"), p.Func("", "GetLocation"), p.Method("", "ImportTracker", "TrackFile"), p.Method("", "Analyzer", "Config"):
		return true
	}
	return false
}

func checkC01(c *Ctx) {
	p := c.P
	c.Rule("decision", "for each combination of suppressed/track/show-ignored/ignore-annotations, on every executable path from the point a finding is available to the next finding or the end, the finding is appended to the results exactly as often as the property demands")
	c.Rule("suppressions-attached", "a finding kept because of tracking gets the suppressions that were looked up for it; an unsuppressed finding gets none")
	c.Rule("ignored-mark", "a finding is marked as ignored exactly when it is suppressed and ignored findings are shown")
	c.Rule("error-independent", "an error returned by a rule changes none of this")
	c.Rule("lookup-arguments", "the suppression lookup is asked about the finding's own file, line and rule id")
	c.Rule("who-may-write", "the result list is written only by the recording decision, the constructor and the reset")
	c.assume = append(c.assume, "rules never set the ignored mark themselves (checked: no other store to it in the module)")
	c.Guard("decision", "roles", func() {
		r := p.analyzerRoles()
		for n, f := range map[string]*types.Var{"track": r.Track, "show-ignored": r.ShowIgnored, "ignore-annotations": r.IgnoreNosec, "issues": r.Issues} {
			if f == nil {
				panic(undecided{"no scanner field carries the setting " + n})
			}
		}
		for _, rt := range p.findingRoutes(r) {
			for _, s := range allSettings() {
				errs := []*bool{nil}
				if rt.seed == nil {
					t, f := true, false
					errs = []*bool{&t, &f}
				}
				for _, en := range errs {
					rule := "decision"
					name := rt.name + ": " + s.String()
					if en != nil && !*en {
						rule = "error-independent"
						name += " rule-error"
					}
					c.Guard(rule, name, func() {
						o := recordOutcome(p, r, rt, s, en, nil)
						want := 1
						if s.ignored && !s.track && !s.show {
							want = 0
							if s.ignNosec {
								// suppression lookup yields nothing in this configuration (annotations are
								// not collected): either answer is right
								c.Check((only(o.kept, 0) || only(o.kept, 1)) && o.keptOK, rule, name, o.pos, "kept "+countsString(o.kept))
								return
							}
						}
						c.Check(only(o.kept, want) && o.keptOK, rule, name, o.pos, fmt.Sprintf("a finding is recorded %s times, expected exactly %d (well-formed append: %v)", countsString(o.kept), want, o.keptOK))
						if want == 1 || len(o.supp) > 0 {
							ws := 0
							if s.ignored && s.track {
								ws = 1
							}
							okc := only(o.supp, ws) && o.suppOK
							if !s.track && s.ignored {
								okc = true // not observable without tracking unless shown
								if s.show {
									okc = only(o.supp, 0)
								}
							}
							c.Check(okc, "suppressions-attached", name, o.pos, fmt.Sprintf("suppressions attached %s times, expected %d (looked-up value: %v)", countsString(o.supp), ws, o.suppOK))
						}
						if want == 1 {
							okm := false
							if s.ignored && s.show {
								okm = o.nosec == "[true]"
							} else {
								okm = o.nosec == "[false]" || o.nosec == "[unset]" || o.nosec == "[false unset]"
							}
							c.Check(okm, "ignored-mark", name, o.pos, "mark stored: "+o.nosec)
						}
					})
				}
			}
			c.Guard("lookup-arguments", rt.name, func() { lookupArgs(c, r, rt) })
		}
		// who may write the results
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					st, ok := ins.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					fv := fieldVar(fa.X.Type(), fa.Field)
					if fv == r.Issues {
						kind := ""
						if call, ok := st.Val.(*ssa.Call); ok {
							if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
								kind = "append"
							}
						}
						if _, ok := st.Val.(*ssa.MakeSlice); ok {
							kind = "fresh"
						}
						if sl, ok := st.Val.(*ssa.Slice); ok {
							if al, ok := sl.X.(*ssa.Alloc); ok && al.Heap {
								kind = "fresh"
							}
						}
						if cst, ok := st.Val.(*ssa.Const); ok && cst.IsNil() {
							kind = "fresh"
						}
						root := rootFunc(f)
						okw := kind == "append" || kind == "fresh" && (root.Name() == "NewAnalyzer" || p.onlyFromReset(root))
						c.Check(okw, "who-may-write", FuncName(f), p.InstrPos(ins), "store to the result list is "+kind)
					}
				}
			}
		}
		c.Min("who-may-write", 3)
	})
	c.Min("decision", 32)
	c.Min("lookup-arguments", 2)
	nosec := p.FieldVar("issue", "Issue", "NoSec")
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == nosec && FuncPkg(f).Path() != modPath && !isTestSupport(f) {
						c.Fail("who-may-write", FuncName(f), p.InstrPos(ins), "the ignored mark is set outside the recording decision")
					}
				}
			}
		}
	}
}

func isTestSupport(f *ssa.Function) bool {
	pk := FuncPkg(f)
	return pk != nil && pk.Path() == sub("testutils")
}

func rootFunc(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// onlyFromReset: f is Reset or a helper whose only callers are Reset or the constructor.
func (p *Program) onlyFromReset(f *ssa.Function) bool {
	if f.Name() == "Reset" && f.Signature.Recv() != nil {
		return true
	}
	cs := p.callersOf(f)
	if len(cs) == 0 {
		return false
	}
	for _, g := range cs {
		if !(g.Name() == "NewAnalyzer" || g != f && p.onlyFromReset(g)) {
			return false
		}
	}
	return true
}

func (p *Program) callersOf(f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f && !seen[rootFunc(g)] {
					seen[rootFunc(g)] = true
					out = append(out, rootFunc(g))
				}
			}
		}
	}
	return out
}

func lookupArgs(c *Ctx, r *Roles, rt *route) {
	p := c.P
	lookups := map[*ssa.Function]bool{}
	for _, f := range suppressionLookups(p) {
		lookups[f] = true
	}
	e := NewEngine(p)
	e.Inline = func(fn *ssa.Function) bool {
		return p.InModule(fn) && !lookups[fn] && (FuncPkg(fn).Path() == modPath || FuncPkg(fn).Path() == sub("issue")) && !p.noInlineForRecording(fn)
	}
	e.Hook = func(t *Term) *Term {
		if rt.seed != nil {
			return rt.seed(t)
		}
		return nil
	}
	g := e.Run(rt.entry).Graph()
	n := 0
	for _, nd := range g.Find(func(n *Node) bool { ci := n.Call(); return ci != nil && ci.Fn != nil && lookups[ci.Fn] }) {
		ci := nd.Call()
		n++
		want := map[string]bool{"File": false, "Line": false, "RuleID": false}
		for _, a := range ci.Args {
			for name := range want {
				if isFieldOf(a, p.FieldVar("issue", "Issue", name)) && rt.isFinding(derefBase(a.Args[0])) {
					want[name] = true
				}
			}
			if rt.isFinding(a) {
				// the whole finding is handed over
				for k := range want {
					want[k] = true
				}
			}
		}
		c.Check(want["File"] && want["Line"] && want["RuleID"], "lookup-arguments", rt.name, p.InstrPos(nd.Ins), fmt.Sprintf("lookup called with %v", ci.Args))
	}
	if n == 0 {
		c.Fail("lookup-arguments", rt.name, "-", "the suppression lookup is never called")
	}
}

func derefBase(t *Term) *Term {
	if t.Op == "deref" {
		return t.Args[0]
	}
	return t
}
