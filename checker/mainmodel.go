package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mainModel is the gated evaluation of the command's main function with everything in the command's
// own packages inlined and the library API left as named events.
type mainModel struct {
	P       *Program
	G       *Gate
	flagVar map[*ssa.Global]string // variables bound with flag.Var / flag.BoolVar ...
	flags   map[string]bool        // names of all registered flags
}

const cmdRel = "cmd/gosec"

var theMain *mainModel

var flagPtrFns = map[string]int{"flag.Bool": 0, "flag.String": 0, "flag.Int": 0, "flag.Uint": 0, "flag.Duration": 0, "flag.Int64": 0}
var flagVarFns = map[string]int{"flag.Var": 1, "flag.BoolVar": 1, "flag.StringVar": 1, "flag.IntVar": 1, "flag.TextVar": 1, "flag.DurationVar": 1}

func mkFlag(name string, t types.Type) *Term { return mk("flag", name, "", t) }

// flagTerm is the value of the command-line option of that name.
func (m *mainModel) flagTerm(name string) *Term {
	if !m.flags[name] {
		panic(undecided{"no command-line option named -" + name})
	}
	return mkFlag(name, nil)
}

func (m *mainModel) flagB(name string) BDD { return bddOf(m.flagTerm(name)) }

func (p *Program) mainModel() *mainModel {
	if theMain != nil {
		return theMain
	}
	m := &mainModel{P: p, flagVar: map[*ssa.Global]string{}, flags: map[string]bool{}}
	spkg := p.SPkg[modPath+"/"+cmdRel]
	if spkg == nil {
		panic(undecided{"command package not found"})
	}
	for _, f := range append([]*ssa.Function{spkg.Func("init")}, p.PkgFuncs(cmdRel)...) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				fn := c.Call.StaticCallee()
				if fn == nil {
					continue
				}
				q := funcQual(fn)
				i, isVar := flagVarFns[q]
				if _, isPtr := flagPtrFns[q]; !isPtr && !isVar {
					continue
				}
				k, ok := c.Call.Args[i].(*ssa.Const)
				if !ok || k.Value == nil {
					continue
				}
				name, _ := constStr(mkConst(k.Value, k.Type()))
				m.flags[name] = true
				if isVar {
					a := c.Call.Args[0]
					for {
						if mi, ok := a.(*ssa.MakeInterface); ok {
							a = mi.X
							continue
						}
						break
					}
					if gl, ok := a.(*ssa.Global); ok {
						m.flagVar[gl] = name
					}
				}
			}
		}
	}
	g := NewGate(p)
	m.G = g
	g.Globals = true
	g.Inline = func(f *ssa.Function) bool {
		if !p.InModule(f) {
			return false
		}
		pk := FuncPkg(f)
		return pk != nil && strings.HasPrefix(pk.Path(), modPath+"/cmd/")
	}
	g.Pure = func(n string) bool {
		return n == "flag.Args" || n == "flag.NArg" || n == "os.Getenv" || n == "flag.Parse"
	}
	g.Hook = m.hook
	g.KeepMem = func(e *GEvent) bool {
		switch shortName(e.Name) {
		case "gosec.NewReportInfo", "gosec.NewAnalyzer", "report.CreateReport":
			return true
		}
		return false
	}
	g.Opaque = func(g *Gate, e *GEvent) (GV, bool) {
		if e.Name == "flag.NArg" {
			if fa := flagArgs(p); fa != nil {
				return g.lenOf(nil, mk("call", fa, "", fa.Signature.Results().At(0).Type())), true
			}
		}
		return GV{}, false
	}
	fn := spkg.Func("main")
	g.Run(fn)
	theMain = m
	return m
}

func flagArgs(p *Program) *ssa.Function {
	for _, pk := range p.SSA.AllPackages() {
		if pk.Pkg.Path() == "flag" {
			return pk.Func("Args")
		}
	}
	return nil
}

func (m *mainModel) hook(t *Term) *Term {
	switch t.Op {
	case "deref":
		a := t.Args[0]
		if a.Op == "call" {
			if fn, ok := a.Obj.(*ssa.Function); ok {
				if _, ok := flagPtrFns[funcQual(fn)]; ok {
					if n, ok := constStr(a.Args[0]); ok {
						return mkFlag(n, t.Typ)
					}
				}
			}
		}
		if a.Op == "global" {
			if n, ok := m.flagVar[a.Obj.(*ssa.Global)]; ok {
				if _, isS := t.Typ.Underlying().(*types.Struct); !isS {
					return mkFlag(n, t.Typ)
				}
			}
		}
	case "field":
		a := t.Args[0]
		if a.Op == "deref" && a.Args[0].Op == "global" {
			if n, ok := m.flagVar[a.Args[0].Obj.(*ssa.Global)]; ok {
				if st, ok := a.Typ.Underlying().(*types.Struct); ok && st.NumFields() == 1 {
					return mkFlag(n, t.Typ)
				}
			}
		}
	}
	return nil
}

// calls lists the call events whose qualified name has the given short form (module path removed).
func (m *mainModel) calls(name string) []*GEvent { return gateCalls(m.G, name) }

func shortName(n string) string {
	return strings.ReplaceAll(strings.ReplaceAll(n, modPath+"/", ""), modPath, "gosec")
}

func gateCalls(g *Gate, name string) []*GEvent {
	var out []*GEvent
	for _, e := range g.Events {
		if (e.Kind == "call" || e.Kind == "exit" || e.Kind == "defer" || e.Kind == "go") && shortName(e.Name) == name {
			out = append(out, e)
		}
	}
	return out
}

func (m *mainModel) one(name string) *GEvent {
	es := m.calls(name)
	if len(es) == 0 {
		panic(undecided{"the command never calls " + name})
	}
	return es[0]
}

// res is the i-th result of a call event.
func res(e *GEvent, i int) *Term {
	t := e.Result
	if t == nil {
		panic(undecided{"call without result: " + e.Name})
	}
	if t.Op == "tuple" {
		return t.Args[i]
	}
	if sig := callSig(e); sig != nil && sig.Results().Len() > 1 {
		return mk("extract", itoa(i), "", sig.Results().At(i).Type(), t)
	}
	return t
}

func callSig(e *GEvent) *types.Signature {
	if c, ok := e.Ins.(ssa.CallInstruction); ok {
		return c.Common().Signature()
	}
	return nil
}

func itoa(i int) string {
	return mkInt(int64(i)).C.ExactString()
}

// errOf is the error result of a call event (nil when it has none).
func errOf(e *GEvent) *Term {
	sig := callSig(e)
	if sig == nil {
		return nil
	}
	n := sig.Results().Len()
	if n == 0 || !isErrorType(sig.Results().At(n-1).Type()) {
		return nil
	}
	return res(e, n-1)
}

// notNil is the condition that a term is not nil.
func (g *Gate) notNil(t *Term) BDD { return bNot(g.eq(gvT(t), mkNil())) }

// ptrField reads field f through a pointer term on untouched memory.
func (g *Gate) ptrField(p *Term, name string) *Term {
	pt, ok := p.Typ.Underlying().(*types.Pointer)
	if !ok {
		panic(undecided{"not a pointer: " + p.String()})
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		panic(undecided{"not a struct pointer: " + p.String()})
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			f := st.Field(i)
			return g.load(GMem{}, mk("fieldaddr", f, "", types.NewPointer(f.Type()), p)).term()
		}
	}
	panic(undecided{"no field " + name + " in " + pt.Elem().String()})
}

func elemType(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	panic(undecided{"not a slice type"})
}

// listElem is the bound element of a traversal of list term l.
func (g *Gate) listElem(l *Term, t types.Type) *Term {
	return g.hook(elemOf(l, t)).term()
}

func (g *Gate) geT(x, y *Term, t types.Type) BDD { return bNot(g.bin(token.LSS, x, y, nil, t).bool()) }

// loopExists moves an event condition out of the loops around the event.
func (g *Gate) loopExists(e *GEvent, c BDD) BDD {
	for i := len(e.Loops) - 1; i >= 0; i-- {
		c = g.existsB(e.Loops[i], c)
	}
	return c
}

// shorter shows a condition relative to a known context.
func shorter(d, ctx BDD) BDD {
	r := bConstrain(d, sat(ctx))
	if r == bT {
		return d
	}
	return r
}

// condDefs spells out the conditions of the list predicates a condition mentions.
func condDefs(d BDD) string {
	s := ""
	n := 0
	for _, a := range bSupport(d) {
		if c, ok := condTerms[a]; ok && n < 6 {
			n++
			s += " [" + a.Op + " " + a.Obj.(string) + ": " + bString(c) + "]"
		}
	}
	return s
}

// implies checks a => b and shows a counterexample otherwise.
func implies(a, b BDD) (bool, string) {
	d := sat(bAnd(a, bNot(b)))
	if d == bF {
		return true, "holds on every path"
	}
	return false, "fails when " + bString(shorter(d, a)) + condDefs(d)
}

func sameCond(a, b BDD) (bool, string) {
	if a == b {
		return true, "exactly when " + bString(a)
	}
	x, y := sat(bAnd(a, bNot(b))), sat(bAnd(b, bNot(a)))
	if x == bF && y == bF {
		return true, "exactly when " + bString(a)
	}
	s := ""
	if x != bF {
		s += "happens but must not when " + bString(x) + "; "
	}
	if y != bF {
		s += "must happen but does not when " + bString(y)
	}
	return false, s
}

// anyField reads a named field of a struct value or through a pointer.
func (g *Gate) anyField(t *Term, name string) *Term {
	if _, ok := t.Typ.Underlying().(*types.Pointer); ok {
		return g.ptrField(t, name)
	}
	st, ok := t.Typ.Underlying().(*types.Struct)
	if !ok {
		panic(undecided{"not a struct: " + t.String()})
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return g.field(t, st.Field(i)).term()
		}
	}
	panic(undecided{"no field " + name})
}

// scores gives the values of the Low, Medium and High constants.
func (m *mainModel) scores() [3]int64 {
	var r [3]int64
	pk := m.P.SPkg[modPath+"/issue"]
	for i, n := range []string{"Low", "Medium", "High"} {
		c, ok := pk.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			panic(undecided{"issue." + n + " is not a constant"})
		}
		v, ok := constInt(mkConst(c.Val(), c.Type()))
		if !ok {
			panic(undecided{"issue." + n + " is not an integer"})
		}
		r[i] = v
	}
	return r
}

func newPtr(t types.Type) types.Type { return types.NewPointer(t) }

func ptrFieldVar(t types.Type, name string) *types.Var {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i)
		}
	}
	return nil
}
