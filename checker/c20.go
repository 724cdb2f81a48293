package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C20", checkC20) }

func checkC20(c *Ctx) {
	c.Rule("file", "the per-file context is set afresh before a file is walked")
	c.Rule("reset", "a reset leaves no state of the previous run")
	c.Rule("rule-state", "what a rule keeps between constructs is keyed by the construct, or forgotten")
	c.Rule("shared", "rules and analyzers change no package-level state and no context")
	c.Rule("construct", "a new scanner starts empty")
	c.Guard("file", "CheckRules", func() { checkFileState(c) })
	c.Guard("reset", "Reset", func() { checkReset(c) })
	c.Guard("rule-state", "rules", func() { checkRuleState(c) })
	c.Min("file", 8)
	c.Min("reset", 6)
	c.Min("construct", 5)
	c.Min("shared", 50)
	c.Min("rule-state", 1)
}

// --- per-file state ------------------------------------------------------------------------------

func checkFileState(c *Ctx) {
	p := c.P
	fn := p.Method("", "Analyzer", "CheckRules")
	g := NewGate(p)
	walks := func(n string) bool { return n == "go/ast.Walk" || n == "go/ast.Inspect" }
	inl := map[*ssa.Function]bool{}
	for f := range p.reachableFrom(fn) {
		inl[f] = true
	}
	visit := p.Method("", "Analyzer", "Visit")
	g.noInline(visit)
	g.KeepMem = func(e *GEvent) bool { return walks(e.Name) }
	g.Run(fn)
	recv, pkg := gparam(fn, 0), gparam(fn, 1)
	n := 0
	for _, e := range g.Events {
		if !walks(e.Name) {
			continue
		}
		n++
		pos := p.InstrPos(e.Ins)
		file := e.Args[1].single()
		if file == nil {
			c.Fail("file", "walk", pos, "walks "+e.Args[1].String())
			continue
		}
		file = strip(file)
		ctx := g.memField(e.Mem, recv, "context").constrain(e.G).single()
		if ctx == nil {
			c.Fail("file", "context", pos, "the context is not one object")
			continue
		}
		field := func(name string) *Term {
			v := g.memField(e.Mem, ctx, name).constrain(e.G).single()
			if v == nil {
				return nil
			}
			return strip(v)
		}
		is := func(name string, ok func(*Term) bool, what string) {
			v := field(name)
			s := "not one value"
			if v != nil {
				s = brief(v.String())
			}
			c.Check(v != nil && ok(v), "file", name, pos, "when a file is walked its "+what+" is "+s)
		}
		same := func(t *Term) func(*Term) bool { return func(v *Term) bool { return v == t } }
		is("FileSet", same(g.ptrField(pkg, "Fset")), "position table")
		is("Root", same(file), "root")
		is("Info", same(g.ptrField(pkg, "TypesInfo")), "type information")
		is("Pkg", same(g.ptrField(pkg, "Types")), "package")
		is("PkgFiles", same(g.ptrField(pkg, "Syntax")), "list of files")
		is("Comments", func(v *Term) bool {
			return v.Op == "call" && funcNameOf(v) == "go/ast.NewCommentMap" && len(v.Args) == 3 && v.Args[0] == g.ptrField(pkg, "Fset") &&
				strip(v.Args[1]) == file && v.Args[2] == g.ptrField(file, "Comments")
		}, "comment map")
		// scratch data: made since the previous file was walked
		var walk ssa.Instruction = e.Ins
		for _, name := range []string{"Imports", "PassedValues"} {
			v := field(name)
			if !c.Check(v != nil && v.Op == "alloc" && emptyObject(g, e.Mem, v), "file", name, pos, fmt.Sprintf("when a file is walked %s is not an empty new one: %v", name, v)) {
				continue
			}
			at, _ := v.Obj.(ssa.Value)
			ins, _ := at.(ssa.Instruction)
			fg := p.flowGraph(&fframe{fn: fn}, func(i ssa.Instruction) bool { return i == ins || i == walk })
			isWalk := func(n *fnode) bool { return n.ins == walk && n.kind == "" }
			old := fg.reach(append(fg.find(isWalk), fg.entry), isWalk, func(n *fnode) bool { return n.ins == ins })
			c.Check(ins != nil && old == nil, "file", name+" per file", pos, name+" of one file is used for the next")
		}
	}
	c.Check(n == 1, "file", "walks", p.Pos(fn.Pos()), fmt.Sprintf("%d traversals", n))
}

// emptyObject: a new map, or a new object whose maps and lists are new and empty.
func emptyObject(g *Gate, mem GMem, t *Term) bool {
	switch x := t.Typ.Underlying().(type) {
	case *types.Map:
		return t.Op == "alloc" && g.noMapStores(t)
	case *types.Pointer:
		if t.Op != "alloc" {
			return false
		}
		st := structOf(x)
		if st == nil {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			v := g.load(mem, mk("fieldaddr", f, "", types.NewPointer(f.Type()), t)).single()
			if v == nil || !emptyValue(g, mem, v) {
				return false
			}
		}
		return true
	}
	return false
}

// emptyValue: a zero value, an empty list or a new empty object.
func emptyValue(g *Gate, mem GMem, v *Term) bool {
	v = strip(v)
	switch {
	case isNilT(v) || isEmptyList(v):
		return true
	case v.Op == "const" || v.Op == "zero":
		return isZeroTerm(v)
	case v.Op == "alloc":
		return emptyObject(g, mem, v)
	case v.Op == "struct":
		for _, a := range v.Args {
			if !emptyValue(g, mem, a) {
				return false
			}
		}
		return true
	}
	return false
}

func isZeroTerm(t *Term) bool {
	if t.Op == "zero" {
		return true
	}
	s := t.String()
	return s == "0" || s == `""` || s == "false" || s == "nil"
}

func (g *Gate) noMapStores(m *Term) bool {
	for _, e := range g.Events {
		if e.Kind == "mapstore" && e.Args[0].single() == m {
			return false
		}
	}
	return true
}

// --- reset ---------------------------------------------------------------------------------------

func checkReset(c *Ctx) {
	p := c.P
	reset := p.Method("", "Analyzer", "Reset")
	st := structOf(types.NewPointer(p.NamedType("", "Analyzer")))
	// the state: every field some method other than the reset and the setters of the configuration changes
	changed := map[string]string{}
	for _, f := range p.PkgFuncs("") {
		if rootFunc(f) == reset || f.Name() == "SetConfig" || p.onlyFromReset(f) || f == reset {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && !isLocalAlloc(fa.X) {
						if i := fieldOfAnalyzer(p, fa); i >= 0 {
							changed[st.Field(i).Name()] = FuncName(f)
						}
					}
				}
			}
		}
	}
	// and what is changed through references
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if holdsState(f.Type()) {
			if changed[f.Name()] == "" {
				changed[f.Name()] = "the scan"
			}
		}
	}
	check := func(rule string, g *Gate, mem GMem, obj *Term, pos string) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			by := changed[f.Name()]
			if by == "" {
				continue
			}
			v := g.load(mem, mk("fieldaddr", f, "", types.NewPointer(f.Type()), obj))
			ok := len(v.L) > 0
			for _, x := range v.L {
				ok = ok && (sat(x.g) == bF || emptyValue(g, mem, x.t))
			}
			c.Check(ok, rule, f.Name(), pos, f.Name()+", changed by "+by+", is left as "+brief(v.String()))
		}
	}
	g := NewGate(p)
	r := g.Run(reset)
	check("reset", g, r.Mem, gparam(reset, 0), p.Pos(reset.Pos()))
	// findings handed out before stay what they were
	for f := range p.reachableFrom(reset) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if sl, ok := st.Val.(*ssa.Slice); ok && !madeHere(sl.X) {
						c.Fail("reset", "shared memory", p.InstrPos(ins), "the reset reuses the memory of what was reported before")
					}
				}
			}
		}
	}
	mkr := p.Func("", "NewAnalyzer")
	g2 := NewGate(p)
	r2 := g2.Run(mkr)
	obj := r2.Rets[0].single()
	if c.Check(obj != nil && obj.Op == "alloc", "construct", "NewAnalyzer", p.Pos(mkr.Pos()), "the scanner is not a new object") {
		check("construct", g2, r2.Mem, obj, p.Pos(mkr.Pos()))
	}
}

// holdsState: types of the scanner whose contents a scan builds up.
func holdsState(t types.Type) bool {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	switch s {
	case "*gosec.Context", "*gosec.Metrics", "gosec.RuleSet", "*gosec.RuleSet", "*analyzers.AnalyzerSet", "[]*issue.Issue":
		return true
	}
	if m, ok := t.Underlying().(*types.Map); ok && s != "gosec.Config" {
		// memories of compiled patterns say nothing about what was scanned
		return !strings.HasSuffix(m.Elem().String(), "regexp.Regexp")
	}
	return false
}

func fieldOfAnalyzer(p *Program, fa *ssa.FieldAddr) int {
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok || !types.Identical(pt.Elem(), p.NamedType("", "Analyzer")) {
		return -1
	}
	return fa.Field
}

// --- what rules keep -----------------------------------------------------------------------------

// ruleTypes are the types implementing the rule interface, with their Match methods.
func (p *Program) ruleMatches() []*ssa.Function {
	it, _ := p.NamedType("", "Rule").Underlying().(*types.Interface)
	var out []*ssa.Function
	for _, f := range p.Funcs {
		r := f.Signature.Recv()
		if r == nil || f.Name() != "Match" || it == nil || devTools[relPath(FuncPkg(f))] || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		if types.Implements(r.Type(), it) {
			out = append(out, f)
		}
	}
	return out
}

// identityType: values of the type denote one construct of the program being scanned.
func identityType(t types.Type) bool {
	s := types.TypeString(t, nil)
	if pt, ok := t.(*types.Pointer); ok {
		s = types.TypeString(pt.Elem(), nil)
		for _, q := range []string{"go/ast.", "go/types.", "golang.org/x/tools/go/ssa."} {
			if strings.HasPrefix(s, q) {
				return true
			}
		}
		return false
	}
	switch s {
	case "go/ast.Node", "go/ast.Expr", "go/ast.Stmt", "go/ast.Decl", "go/types.Object", "golang.org/x/tools/go/ssa.Value", "golang.org/x/tools/go/ssa.Instruction":
		return true
	}
	return false
}

type stateField struct {
	v     *types.Var
	owner *types.Named
}

// container: maps and lists whose keys or elements are constructs.
func identityContainer(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Map:
		return identityType(x.Key())
	case *types.Slice:
		return identityType(x.Elem())
	}
	return identityType(t)
}

func checkRuleState(c *Ctx) {
	p := c.P
	matches := p.ruleMatches()
	var roots []*ssa.Function
	roots = append(roots, matches...)
	for _, f := range p.PkgFuncs("analyzers") {
		roots = append(roots, f)
	}
	roots = append(roots, p.Method("", "Analyzer", "Visit"))
	except := map[*ssa.Function]bool{}
	reach := p.reachableExcept(except, roots...)
	var fs []*ssa.Function
	for f := range reach {
		if f.Name() != "init" && f.Synthetic == "" || f.Parent() != nil {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return funcQual(fs[i]) < funcQual(fs[j]) })
	owners := map[*types.Var]*types.Named{} // fields of rule types
	ruleTypes := map[*types.Named]bool{}
	for _, m := range matches {
		t := m.Signature.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			ruleTypes[n] = true
		}
	}
	written := map[*types.Var][]ssa.Instruction{}
	for _, f := range fs {
		inRules := strings.HasPrefix(relPath(FuncPkg(f)), "rules")
		who := FuncName(f)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				pos := p.InstrPos(ins)
				switch x := ins.(type) {
				case *ssa.Store:
					if gl := baseGlobal(x.Addr); gl != nil {
						c.Check(memoGlobal(gl), "shared", who, pos, who+" changes "+gl.RelString(nil)+" while a file is checked")
						continue
					}
					c.OK("shared", who, "store")
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || madeHere(fa.X) {
						continue
					}
					v := addrField(fa)
					own := ownerOf(fa)
					if own == nil {
						continue
					}
					if ruleTypes[own] {
						owners[v] = own
						written[v] = append(written[v], ins)
						continue
					}
					if inRules || relPath(FuncPkg(f)) == "analyzers" {
						n := own.Obj().Name()
						if own.Obj().Pkg() != nil && own.Obj().Pkg().Path() == modPath && (n == "Context" || n == "Analyzer" || n == "ImportTracker") {
							c.Fail("shared", who, pos, who+" changes the field "+v.Name()+" of the scan's "+n)
						}
					}
				case *ssa.MapUpdate:
					if gl := baseGlobal(x.Map); gl != nil {
						c.Check(memoGlobal(gl), "shared", who, pos, who+" changes "+gl.RelString(nil)+" while a file is checked")
						continue
					}
					c.OK("shared", who, "map")
					fa := mapField(x.Map)
					if fa == nil {
						continue
					}
					own := ownerOf(fa)
					v := addrField(fa)
					if own == nil || !ruleTypes[own] {
						continue
					}
					key := x.Key
					for {
						mi, ok := key.(*ssa.MakeInterface)
						if !ok {
							break
						}
						key = mi.X
					}
					c.Check(identityType(key.Type()), "rule-state", who+" "+v.Name(), pos, who+" remembers something under the key "+typeShort(key.Type())+", which several constructs share")
				}
			}
		}
	}
	// scratch data kept in the context
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				mu, ok := ins.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				fa := mapField(mu.Map)
				if fa == nil || addrField(fa).Name() != "PassedValues" {
					continue
				}
				v := mu.Value
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				pos := p.InstrPos(ins)
				_, fresh := v.(*ssa.MakeMap)
				c.Check(fresh && identityContainer(v.Type()), "rule-state", FuncName(f)+" scratch", pos, FuncName(f)+" keeps "+typeShort(v.Type())+" between constructs")
				c.Check(ownID(mu.Key), "rule-state", FuncName(f)+" scratch key", pos, FuncName(f)+" keeps its data under a key other rules may use")
			}
		}
	}
	// fields
	var vs []*types.Var
	for v := range written {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Pos() < vs[j].Pos() })
	for _, v := range vs {
		own := owners[v]
		name := own.Obj().Name() + "." + v.Name()
		if identityContainer(v.Type()) {
			c.OK("rule-state", name, "holds constructs")
			continue
		}
		pos := p.InstrPos(written[v][0])
		for _, m := range matches {
			t := m.Signature.Recv().Type()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			if t != types.Type(own) {
				continue
			}
			at := stateLeak(p, m, v)
			c.Check(at == "", "rule-state", name, pos, FuncName(m)+" reads "+name+" as an earlier construct left it: "+at)
		}
	}
	c.Check(len(matches) > 20, "rule-state", "rules", "-", fmt.Sprintf("%d rules", len(matches)))
	c.OK("rule-state", "fields", fmt.Sprintf("%d fields are written", len(vs)))
}

func typeShort(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// memoGlobal: package-level memories which hold the same for every program scanned.
func memoGlobal(g *ssa.Global) bool {
	t := g.Type().(*types.Pointer).Elem()
	if m, ok := t.Underlying().(*types.Map); ok {
		return strings.HasSuffix(m.Elem().String(), "regexp.Regexp")
	}
	return strings.HasPrefix(t.String(), "sync.")
}

// madeHere: the object was made in this function.
func madeHere(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return madeHere(x.X)
	}
	return false
}

func ownerOf(fa *ssa.FieldAddr) *types.Named {
	t := fa.X.Type()
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// mapField is the field a map was read from.
func mapField(v ssa.Value) *ssa.FieldAddr {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return fa
			}
			return nil
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// ownID: the identifier of the rule itself.
func ownID(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		n := ""
		if x.Call.IsInvoke() {
			n = x.Call.Method.Name()
		} else if f := x.Call.StaticCallee(); f != nil {
			n = f.Name()
		}
		return n == "ID"
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		return ok && addrField(fa).Name() == "ID"
	}
	return false
}

// stateLeak: a place where the field may be read before the call of Match has set it, unless every call
// puts it back to a constant.
func stateLeak(p *Program, m *ssa.Function, v *types.Var) string {
	touches := func(ins ssa.Instruction) *ssa.FieldAddr {
		switch x := ins.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
				return fa
			}
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				return fa
			}
		}
		return nil
	}
	ofV := func(ins ssa.Instruction) bool {
		fa := touches(ins)
		return fa != nil && addrField(fa) == v
	}
	g := p.flowGraph(&fframe{fn: m}, func(ins ssa.Instruction) bool { return ofV(ins) })
	isStore := func(n *fnode) bool {
		s, ok := n.ins.(*ssa.Store)
		return ok && n.kind == "" && ofV(s)
	}
	isLoad := func(n *fnode) bool {
		_, ok := n.ins.(*ssa.UnOp)
		return ok && n.kind == "" && ofV(n.ins)
	}
	constStore := func(n *fnode) bool {
		if !isStore(n) {
			return false
		}
		_, ok := n.ins.(*ssa.Store).Val.(*ssa.Const)
		return ok
	}
	sameFile := func(n *fnode) bool { return v.Type().String() == "go/token.Pos" && sameFileEdge(n) }
	l := g.reach([]*fnode{g.entry}, isLoad, func(n *fnode) bool { return isStore(n) || sameFile(n) })
	if l == nil {
		return ""
	}
	// put back on every way out
	var dirty []*fnode
	for _, n := range g.find(isStore) {
		if !constStore(n) {
			dirty = append(dirty, n)
		}
	}
	if g.reach(dirty, func(n *fnode) bool { return n.kind == "exit" }, constStore) == nil {
		return ""
	}
	return p.InstrPos(l.ins)
}

// sameFileEdge: the way taken when the file remembered is still the one being checked.
func sameFileEdge(n *fnode) bool {
	v, holds := n.cond()
	b, ok := v.(*ssa.BinOp)
	if !ok || !(b.Op == token.EQL && holds || b.Op == token.NEQ && !holds) {
		return false
	}
	isRoot, isOwn := false, false
	for _, x := range []ssa.Value{b.X, b.Y} {
		u, ok := x.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		if own := ownerOf(fa); own != nil && own.Obj().Name() == "Context" {
			isRoot = isRoot || addrField(fa).Name() == "Root"
		} else {
			isOwn = true
		}
	}
	return isRoot && isOwn
}
