package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C29", checkC29) }

// isCallTo: a call of the named function or method, with its arguments (the receiver first).
func isCallTo(t *Term, name string) ([]*Term, bool) {
	t = strip(t)
	if t.Op != "call" {
		return nil, false
	}
	switch o := t.Obj.(type) {
	case *ssa.Function:
		if funcQual(o) == name {
			return t.Args, true
		}
	case *types.Func:
		if o.FullName() == name {
			return t.Args, true
		}
	}
	return nil, false
}

func checkC29(c *Ctx) {
	p := c.P
	c.Rule("node", "a finding of a rule is made for the construct the rule was shown, or a part of it")
	c.Rule("instruction", "a finding of an analyzer is made for the position of the instruction it examined")
	c.Rule("location", "file, line, column and code are computed from that position in the file that contains it")
	c.Rule("range", "a construct of several lines is shown as first-last line")
	c.Rule("snippet", "the code shown is the lines of that file around the construct, each with its number")
	c.Rule("present", "no finding without a position is recorded")
	c.Rule("kept", "nothing changes the location of a finding later")
	makersR := map[*ssa.Function]bool{p.Func("issue", "New"): true, p.Method("", "Context", "NewIssue"): true}
	roots := map[*ssa.Function]bool{}
	for _, m := range p.ruleMatches() {
		roots[m] = true
	}
	c.Guard("node", "rules", func() {
		fcs, _ := p.findingCalls(roots, makersR)
		for _, fc := range fcs {
			ok := len(fc.Node) > 0
			bad := ""
			for _, t := range fc.Node {
				if !partOf(t, fc.Ctx.root) {
					ok = false
					bad = brief(t.String())
				}
			}
			c.Check(ok, "node", "finding of "+FuncName(fc.In)+" for "+FuncName(fc.Ctx.root), fc.Label, "is made for what it was shown or a part of it "+bad)
		}
		c.Min("node", 30)
	})
	c.Guard("instruction", "analyzers", func() {
		ar := map[*ssa.Function]bool{}
		for _, d := range p.ruleTable("analyzers") {
			if f := p.analyzerRun(d); f != nil {
				ar[f] = true
			}
		}
		makers := map[*ssa.Function]bool{}
		for _, f := range p.findingMakers() {
			if relPath(FuncPkg(f)) == "analyzers" {
				makers[f] = true
			}
		}
		fcs, _ := p.findingCalls(ar, makers)
		for _, fc := range fcs {
			ok := len(fc.Node) > 0
			bad := ""
			for _, t := range fc.Node {
				if !instrPos(t) {
					ok = false
					bad = brief(t.String())
				}
			}
			c.Check(ok, "instruction", "finding of "+FuncName(fc.In)+" for "+FuncName(fc.Ctx.root), fc.Label, "is made for the position of an instruction "+bad)
		}
		c.Min("instruction", 3)
	})
	c.Guard("location", "rules", func() { checkRuleLocation(c) })
	c.Guard("location", "analyzers", func() { checkAnalyzerLocation(c) })
	c.Guard("snippet", "lines", func() { checkSnippetLines(c) })
	c.Guard("present", "findings", func() { checkPresent(c) })
	c.Guard("kept", "writes", func() { p.onlyWhileMade(c, "kept", "File", "Line", "Col", "Code") })
}

// analyzerRun is the function an analyzer runs.
func (p *Program) analyzerRun(d ruleDef) *ssa.Function {
	g := NewGate(p)
	r := g.Run(d.Create, gvT(mkString(d.ID)))
	t := r.Rets[0].single()
	if t == nil || strip(t).Op != "alloc" {
		return nil
	}
	run := g.memField(r.Mem, strip(t), "Run").single()
	if run == nil {
		return nil
	}
	fn, _ := strip(run).Obj.(*ssa.Function)
	return fn
}

// partOf: the node a rule was shown, or one reached from it through the fields of the syntax tree
// (to the declaration of a name as well).
func partOf(t *Term, root *ssa.Function) bool {
	for {
		switch t.Op {
		case "assert", "elem":
			t = t.Args[0]
		case "field":
			f := t.Obj.(*types.Var)
			if f.Pkg() == nil || f.Pkg().Path() != "go/ast" {
				return false
			}
			t = t.Args[0]
		case "call":
			// helpers of the syntax tree that give a part of their argument
			if a, ok := isCallTo(t, "go/ast.Unparen"); ok && len(a) == 1 {
				t = a[0]
				continue
			}
			return false
		case "param":
			return len(root.Params) > 1 && t.Obj == any(root.Params[1])
		default:
			return isNilT(t) // a helper found no node: the caller does not get here
		}
	}
}

// instrPos: the position of an instruction of the program examined.
func instrPos(t *Term) bool {
	if t.Op != "call" || len(t.Args) != 1 {
		return false
	}
	name := ""
	var recv types.Type
	switch o := t.Obj.(type) {
	case *ssa.Function:
		name = o.Name()
		if o.Signature.Recv() != nil {
			recv = o.Signature.Recv().Type()
		}
	case *types.Func:
		name = o.Name()
		if s, ok := o.Type().(*types.Signature); ok && s.Recv() != nil {
			recv = s.Recv().Type()
		}
	}
	if name != "Pos" || recv == nil {
		return false
	}
	return strings.Contains(types.TypeString(recv, nil), "golang.org/x/tools/go/ssa.")
}

// checkRuleLocation: issue.New with the file Context.NewIssue finds.
func checkRuleLocation(c *Ctx) {
	p := c.P
	ctxNew := p.Method("", "Context", "NewIssue")
	newFn := p.Func("issue", "New")
	if ctxNew == nil || newFn == nil {
		panic(undecided{"NewIssue or New not found"})
	}
	// the file is the one that contains the node
	{
		g := NewGate(p)
		g.noInline(newFn)
		r := g.Run(ctxNew)
		t := r.Rets[0].single()
		ok := t != nil && strip(t).Op == "call" && strip(t).Obj == any(newFn)
		if c.Check(ok, "location", "finding of Context.NewIssue", p.Pos(ctxNew.Pos()), "is "+brief(r.Rets[0].String())) {
			a := strip(t).Args
			node := gparam(ctxNew, 1)
			c.Check(isFileOf(a[0], node) && a[1] == node, "location", "file of Context.NewIssue", p.Pos(ctxNew.Pos()), "is "+brief(a[0].String()))
		}
	}
	g := NewGate(p)
	line := p.Func("issue", "GetLine")
	_ = line
	r := g.Run(newFn)
	t := r.Rets[0].single()
	if t == nil || strip(t).Op != "alloc" {
		panic(undecided{"issue.New gives " + r.Rets[0].String()})
	}
	t = strip(t)
	fobj, node := gparam(newFn, 0), gparam(newFn, 1)
	pos := func(x *Term) string {
		x = strip(x)
		for _, n := range []string{"Pos", "End"} {
			if a, ok := isCallTo(x, "(go/ast.Node)."+n); ok && len(a) == 1 && strip(a[0]) == node {
				return n
			}
		}
		return ""
	}
	lineAt := func(x *Term, n string) bool { return lineOf(x, fobj, pos, n) }
	at := p.Pos(newFn.Pos())
	v := g.memField(r.Mem, t, "File")
	a, ok := isCallTo(v.term(), "(*go/token.File).Name")
	c.Check(ok && a[0] == fobj, "location", "file of a rule's finding", at, "is "+brief(v.String()))
	v = g.memField(r.Mem, t, "Col")
	c.Check(isColumn(v, fobj, func(x *Term) bool { return pos(x) == "Pos" }), "location", "column of a rule's finding", at, "is "+brief(v.String()))
	// line: "start" or "start-end", the latter exactly when they differ
	v = g.memField(r.Mem, t, "Line")
	single, multi := bF, bF
	good := true
	for _, x := range v.L {
		ps := pieces(x.t)
		switch {
		case len(ps) == 1 && ps[0].val != nil && isDecimal(ps[0].verb) && lineAt(ps[0].val, "Pos"):
			single = bOr(single, x.g)
		case len(ps) == 3 && ps[0].val != nil && ps[2].val != nil && ps[1].lit == "-" && isDecimal(ps[0].verb) && isDecimal(ps[2].verb) && lineAt(ps[0].val, "Pos") && lineAt(ps[2].val, "End"):
			multi = bOr(multi, x.g)
		default:
			good = false
			c.Fail("range", "line of a rule's finding", at, "is "+showPieces(ps))
		}
	}
	if good {
		var starts, ends *Term
		for _, x := range v.L {
			for _, q := range pieces(x.t) {
				if q.val != nil && lineAt(q.val, "Pos") {
					starts = strip(q.val)
				}
				if q.val != nil && lineAt(q.val, "End") {
					ends = strip(q.val)
				}
			}
		}
		okS, d := false, "no range"
		if starts != nil && ends != nil {
			same := g.eq(gvT(starts), ends)
			okS, d = sameCond(multi, bNot(same))
		}
		c.Check(okS, "range", "when a range is shown", at, d)
		c.Check(bOr(single, multi) == bT, "range", "line is always shown", at, "single line otherwise")
	}
	// code: the lines of the file around the construct
	n := 0
	snippet := p.Func("issue", "CodeSnippet")
	g2 := NewGate(p)
	g2.noInline(snippet)
	r2 := g2.Run(newFn)
	_ = r2
	for _, e := range g2.Events {
		if e.Kind == "call" && e.Fn == snippet {
			n++
			fa, okF := fileOpened(e.Args[0].term())
			nm, okN := isCallTo(fa, "(*go/token.File).Name")
			c.Check(okF && okN && nm[0] == fobj, "snippet", "file of a rule's code", p.InstrPos(e.Ins), "is "+brief(e.Args[0].String()))
			checkWindow(c, g2, e, "rule", func(x *Term) bool { return lineAt(x, "Pos") }, func(x *Term) bool { return lineAt(x, "End") })
			c.Check(g2.usesResult(r2, t, "Code", e), "snippet", "code of a rule's finding", p.InstrPos(e.Ins), "is the text found there")
		}
	}
	c.Check(n >= 1, "snippet", "code of a rule's finding", at, fmt.Sprint(n))
}

// isFileOf: the file of the file set that contains the node.
func isFileOf(t, node *Term) bool {
	a, ok := isCallTo(t, "(*go/token.FileSet).File")
	if !ok || len(a) != 2 {
		return false
	}
	b, ok := isCallTo(a[1], "(go/ast.Node).Pos")
	return ok && strip(b[0]) == node
}

func isDecimal(verb string) bool { return verb == "d" || verb == "%d" || verb == "v" || verb == "%v" }

// lineOf: the line, in the file, of the position.
func lineOf(x, fobj *Term, pos func(*Term) string, want string) bool {
	x = strip(x)
	if a, ok := isCallTo(x, "(*go/token.File).Line"); ok && len(a) == 2 && a[0] == fobj {
		return pos(a[1]) == want
	}
	if fieldName(x) == "Line" {
		if a, ok := isCallTo(unfield(x), "(*go/token.File).Position"); ok && len(a) == 2 && a[0] == fobj {
			return pos(a[1]) == want
		}
	}
	return false
}

func unfield(x *Term) *Term {
	x = strip(x)
	if x.Op == "deref" {
		x = x.Args[0]
	}
	return x.Args[0]
}

// isColumn: the column of the position, in decimal.
func isColumn(v GV, fobj *Term, pos func(*Term) bool) bool {
	if len(v.L) == 0 {
		return false
	}
	for _, x := range v.L {
		ps := pieces(x.t)
		if len(ps) != 1 || ps[0].val == nil || !isDecimal(ps[0].verb) {
			return false
		}
		q := strip(ps[0].val)
		if fieldName(q) != "Column" {
			return false
		}
		a, ok := isCallTo(unfield(q), "(*go/token.File).Position")
		if !ok || len(a) != 2 || a[0] != fobj || !pos(a[1]) {
			return false
		}
	}
	return true
}

// fileOpened: the name of the file an *os.File was opened with.
func fileOpened(t *Term) (*Term, bool) {
	t = strip(t)
	for t.Op == "res" || t.Op == "extract" {
		t = t.Args[0]
	}
	a, ok := isCallTo(t, "os.Open")
	if !ok || len(a) != 1 {
		return t, false
	}
	return a[0], true
}

// checkWindow: the lines shown start at most one line before the construct and end one after it.
func checkWindow(c *Ctx, g *Gate, e *GEvent, who string, first, last func(*Term) bool) {
	p := c.P
	// evaluated for constructs at the start of a file and further down
	for _, at := range []int64{1, 2, 3, 50} {
		judge := func(v GV, is func(*Term) bool, ok func(int64) bool) (bool, string) {
			var base *Term
			for _, x := range v.L {
				b, _ := splitSum(x.t)
				if is(b) {
					base = strip(b)
				}
			}
			if base == nil {
				return false, brief(v.String())
			}
			on := atValue(e.G, base, at)
			var got []string
			good := false
			for _, x := range v.L {
				if bAnd(on, atValue(x.g, base, at)) == bF {
					continue
				}
				k, isI := evalAt(x.t, base, at)
				got = append(got, fmt.Sprint(k))
				good = isI && ok(k)
				if !good {
					break
				}
			}
			return good, strings.Join(got, " or ")
		}
		ok, d := judge(e.Args[1], first, func(k int64) bool { return k == at-1 || at == 1 && k <= 1 })
		c.Check(ok, "snippet", fmt.Sprintf("first line of a %s's code for line %d", who, at), p.InstrPos(e.Ins), "is "+d)
		ok, d = judge(e.Args[2], last, func(k int64) bool { return k == at+1 })
		c.Check(ok, "snippet", fmt.Sprintf("last line of a %s's code for line %d", who, at), p.InstrPos(e.Ins), "is "+d)
	}
}

// evalAt computes a sum for a value of its base.
func evalAt(t, base *Term, k int64) (int64, bool) {
	t = strip(t)
	if t == base {
		return k, true
	}
	if v, ok := constInt(t); ok {
		return v, true
	}
	if t.Op == "bin" && len(t.Args) == 2 {
		a, ok1 := evalAt(t.Args[0], base, k)
		b, ok2 := evalAt(t.Args[1], base, k)
		if ok1 && ok2 {
			switch t.Obj {
			case "+":
				return a + b, true
			case "-":
				return a - b, true
			}
		}
	}
	if (t.Op == "call" || t.Op == "builtin") && len(t.Args) == 2 && (t.Obj == "max" || t.Obj == "min") {
		a, ok1 := evalAt(t.Args[0], base, k)
		b, ok2 := evalAt(t.Args[1], base, k)
		if ok1 && ok2 {
			if (a < b) == (t.Obj == "max") {
				return b, true
			}
			return a, true
		}
	}
	return 0, false
}

// atValue decides the comparisons of a condition for a value of the base.
func atValue(b BDD, base *Term, k int64) BDD {
	return bRestrict(b, func(t *Term) (bool, bool) {
		if len(t.Args) != 2 {
			return false, false
		}
		x, ok1 := evalAt(t.Args[0], base, k)
		y, ok2 := evalAt(t.Args[1], base, k)
		if !ok1 || !ok2 {
			return false, false
		}
		op := t.Op
		if op == "bin" {
			op, _ = t.Obj.(string)
		}
		switch op {
		case "<", "lt":
			return x < y, true
		case "==", "eq":
			return x == y, true
		}
		return false, false
	})
}

// checkSnippetLines: every line of the file within the bounds is shown with its number, and no other.
func checkSnippetLines(c *Ctx) {
	p := c.P
	fn := p.Func("issue", "CodeSnippet")
	if fn == nil {
		panic(undecided{"CodeSnippet not found"})
	}
	g := NewGate(p)
	r := g.Run(fn)
	file, start, end := gparam(fn, 0), gparam(fn, 1), gparam(fn, 2)
	n := 0
	for _, e := range g.Events {
		if e.Kind != "call" || len(e.Loops) != 1 {
			continue
		}
		var shown *Term
		switch e.Name {
		case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString":
			shown = e.Args[1].term()
		case "fmt.Fprintf":
			var as []*Term
			for _, v := range e.Var {
				as = append(as, v.term())
			}
			shown = mk("call", p.SSA.ImportedPackage("fmt").Func("Sprintf"), "", types.Typ[types.String], append([]*Term{e.Args[1].term()}, as...)...)
		default:
			continue
		}
		at := p.InstrPos(e.Ins)
		n++
		ps := pieces(shown)
		if !c.Check(len(ps) == 4 && ps[0].val != nil && ps[1].lit == ": " && ps[2].val != nil && ps[3].lit == "\n" && isDecimal(ps[0].verb) && plainVerb(ps[2].verb), "snippet", "form of a line", at, "is "+showPieces(ps)) {
			continue
		}
		// the text is the current line of the file
		tx, ok := isCallTo(ps[2].val, "(*bufio.Scanner).Text")
		src := false
		var sc *Term
		if ok {
			sc = strip(tx[0])
			if a, ok := isCallTo(sc, "bufio.NewScanner"); ok && strip(a[0]) == file {
				src = true
			}
		}
		c.Check(src, "snippet", "text of a line", at, "is "+brief(ps[2].val.String()))
		// the number counts the lines read
		num := strip(ps[0].val)
		lv, init, step, okN := counterOf(g, num)
		okN = okN && init+step == 1
		c.Check(okN, "snippet", "number of a line", at, fmt.Sprintf("starts at %d", init+step))
		if !okN || sc == nil {
			continue
		}
		// shown exactly when it is within the bounds
		in := bAnds(bNot(g.lt(num, start, start.Typ)), bNot(g.lt(end, num, start.Typ)))
		scan := bF
		for _, q := range bSupport(e.G) {
			if a, ok := isCallTo(q, "(*bufio.Scanner).Scan"); ok && strip(a[0]) == sc {
				scan = bddOf(q)
			}
		}
		ok2, d := sameCond(e.G, bAnd(scan, in))
		c.Check(scan != bF && ok2, "snippet", "which lines are shown", at, d)
		// the counter moves on by one for every line read, as long as lines within the bounds can follow
		l := g.Rounds[lv]
		stepOK := len(l.Val.L) > 0
		for _, x := range l.Val.L {
			b, k := splitSum(x.t)
			if strip(b) != lv || k != 1 {
				stepOK = false
			}
		}
		c.Check(stepOK, "snippet", "count of the lines", at, "is "+brief(l.Val.String()))
		// reading only ends early behind the last line
		early := bAnds(scan, bNot(l.G), bNot(g.lt(end, num, start.Typ)))
		c.Check(sat(noFail(early)) == bF || early == bF, "snippet", "end of the lines", at, "reading stops early only after the last line shown: "+bString(early))
	}
	c.Check(n == 1, "snippet", "lines shown", p.Pos(fn.Pos()), fmt.Sprint(n))
	_ = r
}

func noFail(b BDD) BDD { return b }

// counterOf: a value that counts the rounds of a loop.
func counterOf(g *Gate, t *Term) (lv *Term, init, step int64, ok bool) {
	b, k := splitSum(t)
	b = strip(b)
	in, isL := g.LoopInit[b]
	if !isL {
		return nil, 0, 0, false
	}
	v := in.single()
	if v == nil {
		return nil, 0, 0, false
	}
	i, isI := constInt(strip(v))
	return b, i, k, isI
}

// splitSum writes a term as a base plus a constant.
func splitSum(t *Term) (*Term, int64) {
	t = strip(t)
	if t.Op != "bin" || len(t.Args) != 2 {
		return t, 0
	}
	a, b := strip(t.Args[0]), strip(t.Args[1])
	switch t.Obj {
	case "+":
		if k, ok := constInt(a); ok {
			x, j := splitSum(b)
			return x, j + k
		}
		if k, ok := constInt(b); ok {
			x, j := splitSum(a)
			return x, j + k
		}
	case "-":
		if k, ok := constInt(b); ok {
			x, j := splitSum(a)
			return x, j - k
		}
	}
	return t, 0
}

// usesResult: where the call succeeds, the field of the new value is its result.
func (g *Gate) usesResult(r *GResult, t *Term, field string, e *GEvent) bool {
	v := g.memField(r.Mem, t, field)
	good := bF
	for _, x := range v.L {
		if strip(x.t) == res(e, 0) {
			good = bOr(good, x.g)
		}
	}
	return bImp(bAnd(e.G, g.eq(gvT(errOf(e)), mkNil())), good) == bT
}

// checkAnalyzerLocation: findings of the analyzers.
func checkAnalyzerLocation(c *Ctx) {
	p := c.P
	n := 0
	for _, fn := range p.findingMakers() {
		if relPath(FuncPkg(fn)) != "analyzers" {
			continue
		}
		var fset, at *Term
		for i, q := range fn.Params {
			switch types.TypeString(q.Type(), nil) {
			case "*go/token.FileSet":
				fset = gparam(fn, i)
			case "go/token.Pos":
				at = gparam(fn, i)
			}
		}
		pos := p.Pos(fn.Pos())
		if fset == nil || at == nil {
			c.Fail("location", "finding made in "+FuncName(fn), pos, "file set and position not recognised")
			continue
		}
		snippet := p.Func("issue", "CodeSnippet")
		g := NewGate(p)
		g.noInline(snippet)
		// looking the file up twice gives the same file
		var fobj *Term
		old := g.Hook
		g.Hook = func(x *Term) *Term {
			if x.Op == "call" {
				if a, ok := isCallTo(x, "(*go/token.FileSet).File"); ok && len(a) == 2 && a[0] == fset && strip(a[1]) == at {
					if fobj == nil {
						fobj = x
					}
					return fobj
				}
			}
			if old != nil {
				return old(x)
			}
			return nil
		}
		r := g.Run(fn)
		if fobj == nil {
			c.Fail("location", "file of a finding made in "+FuncName(fn), pos, "the file of the position is never looked up")
			continue
		}
		where := func(x *Term) string {
			if strip(x) == at {
				return "Pos"
			}
			return ""
		}
		for _, x := range r.Rets[0].L {
			t := strip(x.t)
			if isNilT(t) {
				ok, d := implies(x.g, g.eq(gvT(fobj), mkNil()))
				c.Check(ok, "present", "no finding from "+FuncName(fn), pos, "only without a file: "+d)
				continue
			}
			n++
			ok, d := implies(x.g, g.notNil(fobj))
			c.Check(ok, "present", "finding made in "+FuncName(fn), pos, "only for a position in a file: "+d)
			v := g.memField(r.Mem, t, "File").constrain(x.g)
			a, okN := isCallTo(v.term(), "(*go/token.File).Name")
			c.Check(okN && a[0] == fobj, "location", "file of an analyzer's finding", pos, "is "+brief(v.String()))
			v = g.memField(r.Mem, t, "Col").constrain(x.g)
			c.Check(isColumn(v, fobj, func(y *Term) bool { return strip(y) == at }), "location", "column of an analyzer's finding", pos, "is "+brief(v.String()))
			v = g.memField(r.Mem, t, "Line").constrain(x.g)
			okL := len(v.L) > 0
			for _, y := range v.L {
				ps := pieces(y.t)
				if len(ps) != 1 || ps[0].val == nil || !isDecimal(ps[0].verb) || !lineOf(ps[0].val, fobj, where, "Pos") {
					okL = false
				}
			}
			c.Check(okL, "location", "line of an analyzer's finding", pos, "is "+brief(v.String()))
			k := 0
			for _, e := range g.Events {
				if e.Kind == "call" && e.Fn == snippet {
					k++
					fa, okF := fileOpened(e.Args[0].term())
					nm, okN := isCallTo(fa, "(*go/token.File).Name")
					c.Check(okF && okN && nm[0] == fobj, "snippet", "file of an analyzer's code", p.InstrPos(e.Ins), "is "+brief(e.Args[0].String()))
					isLine := func(y *Term) bool { return lineOf(y, fobj, where, "Pos") }
					checkWindow(c, g, e, "analyzer", isLine, isLine)
					c.Check(g.usesResult(r, t, "Code", e), "snippet", "code of an analyzer's finding", p.InstrPos(e.Ins), "is the text found there")
				}
			}
			c.Check(k >= 1, "snippet", "code of an analyzer's finding", pos, fmt.Sprint(k))
		}
	}
	c.Check(n >= 1, "location", "constructors of analyzers' findings", "-", fmt.Sprint(n))
}

// checkPresent: what is recorded is a finding.
func checkPresent(c *Ctx) {
	p := c.P
	fv := p.FieldVar("", "Analyzer", "issues")
	for _, rec := range p.recorders() {
		var finding *Term
		for i, q := range rec.Params {
			if types.Identical(q.Type(), types.NewPointer(namedOf(p, "issue", "Issue"))) {
				finding = gparam(rec, i)
			}
		}
		if finding == nil {
			c.Fail("present", "recorder "+FuncName(rec), p.Pos(rec.Pos()), "finding not recognised")
			continue
		}
		g := NewGate(p)
		g.Run(rec)
		n := 0
		for _, e := range g.Events {
			if e.Kind != "store" {
				continue
			}
			for _, a := range e.Args[0].L {
				if a.t.Op != "fieldaddr" || a.t.Obj != any(fv) {
					continue
				}
				n++
				ok, d := implies(bAnd(e.G, a.g), g.notNil(finding))
				c.Check(ok, "present", "finding recorded by "+FuncName(rec), p.InstrPos(e.Ins), "is never missing: "+d)
			}
		}
		c.Check(n > 0, "present", "findings recorded by "+FuncName(rec), p.Pos(rec.Pos()), fmt.Sprint(n))
	}
	c.Min("present", 3)
}
