package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C37", checkC37) }

// How a call is told from another is decided from the four places that do it: what the imports of a file are
// remembered as, how a name is looked up in them, what a call is said to call, and how this is looked up in a list.
// Each is evaluated once, on symbols, and its outcome is then determined for every form an import path or
// a selector can have, by folding the library functions in it.

func checkC37(c *Ctx) {
	c.Rule("imports", "every import of a scanned file is remembered under its path with the name it is used by: its own, or else the last element of the path that is not a version; a blank import has none")
	c.Rule("lookup", "a name stands for an import exactly when it is one of the names of it")
	c.Rule("callee", "a call is said to call a function of the package it names, or a method of the type of its receiver; of anything else nothing is said")
	c.Rule("listed", "a list has a call exactly when it has the package or type together with the name: a pointer like its type where this is asked, a package by its path, also within a vendor directory where this is asked")
	x := &calls37{p: c.P}
	c.Guard("imports", "imports of a file", func() { x.imports(c) })
	c.Guard("lookup", "GetImportPath", func() { x.lookup(c) })
	c.Guard("callee", "GetCallInfo", func() { x.callee(c) })
	c.Guard("listed", "lists", func() { x.listed(c) })
	c.Min("imports", 10)
	c.Min("lookup", 3)
	c.Min("callee", 10)
	c.Min("listed", 30)
}

type calls37 struct{ p *Program }

// imports: what is remembered for an import.
func (x *calls37) imports(c *Ctx) {
	p := x.p
	track := p.Method("", "ImportTracker", "TrackImport")
	file := p.Method("", "ImportTracker", "TrackFile")
	visit, rules := p.Method("", "Analyzer", "Visit"), p.Method("", "Analyzer", "CheckRules")
	if track == nil || file == nil || visit == nil {
		panic(undecided{"TrackImport, TrackFile or Visit not found"})
	}
	// every file is tracked
	found := false
	for _, fn := range []*ssa.Function{visit, rules} {
		if fn == nil {
			continue
		}
		g := NewGate(p)
		g.noInline(file)
		g.Run(fn)
		for _, e := range g.Events {
			if e.Kind != "call" || e.Fn != file || len(e.Args) != 2 {
				continue
			}
			found = true
			if fn != visit {
				continue
			}
			n := gparam(visit, 1)
			left := bF
			for _, l := range e.Args[1].L {
				left = bOr(left, bAnd(l.g, e.G))
				f := strip(l.t)
				c.Check(f.Op == "tassert" && strip(f.Args[0]) == n, "imports", "file tracked", p.InstrPos(e.Ins), brief(f.String()))
			}
			isFile := bF
			for _, a := range bSupport(e.G) {
				if a.Op == "tassertok" && strip(a.Args[0]) == n && strings.HasSuffix(assertedType(a), "ast.File") {
					isFile = bm.atom(a)
				}
			}
			ok, d := implies(isFile, left)
			c.Check(ok && isFile != bF, "imports", "every file is tracked", p.InstrPos(e.Ins), d)
		}
	}
	c.Check(found, "imports", "files are tracked", p.Pos(visit.Pos()), "neither Visit nor CheckRules tracks the imports of a file")
	g := NewGate(p)
	g.noInline(track)
	g.Run(file)
	n := 0
	for _, e := range g.Events {
		if e.Kind == "call" && e.Fn == track {
			n++
			v := e.Args[1].single()
			ok := e.G == bT && len(e.Loops) == 1 && v != nil && strip(v).Op == "elem" && g.isField(strip(v).Args[0], "Imports")
			c.Check(ok, "imports", "every import is tracked", p.InstrPos(e.Ins), brief(e.Args[1].String())+" when "+bString(e.G))
		}
		if e.Kind == "earlystop" {
			c.Fail("imports", "every import is tracked", p.InstrPos(e.Ins), "the loop is left early")
		}
	}
	c.Check(n == 1, "imports", "imports are tracked one by one", p.Pos(file.Pos()), fmt.Sprint(n, " calls"))
	// what is remembered
	for _, named := range []bool{true, false} {
		g := NewGate(p)
		g.Concrete = true
		g.Hook = notNil
		s := newShapes(p, GMem{})
		text := mk("sym", "text of the path", "", types.Typ[types.String])
		alias := mk("sym", "name of the import", "", types.Typ[types.String])
		var name any
		if named {
			name = s.ident(alias)
		}
		spec := s.ptr("ImportSpec", "ImportSpec1", "Name", name, "Path", s.node("BasicLit", "Value", text))
		g.Events = nil
		g.frame(track, nil, nil, []GV{gvT(gparam(track, 0)), gvT(spec)}, nil, "track", s.mem, 0)
		type probe struct{ path, alias, want string }
		probes := []probe{{"crypto/md5", "", "md5"}, {"unsafe", "", "unsafe"}, {"math/rand/v2", "", "rand"}, {"example.com/a/b/tool/v10", "", "tool"}, {"v2", "", "v2"}, {"rand/v2", "", "rand"}, {"z.example/z", "", "z"}, {"net/http/cgi", "", "cgi"}}
		if named {
			probes = []probe{{"crypto/md5", "hash", "hash"}, {"crypto/md5", "_", ""}, {"crypto/md5", ".", "."}, {"math/rand/v2", "rnd", "rnd"}, {"net/http/cgi", "_", ""}}
		}
		for _, pr := range probes {
			for _, q := range []string{"\"", "`"} {
				env := map[*Term]any{text: fStr(q + pr.path + q), alias: fStr(pr.alias)}
				f := newFolder(p, env)
				f.hook = func(t *Term) (any, bool) {
					if t.Op == "call" && strings.HasSuffix(callName(t), "ast.Ident).String") {
						return fStr(pr.alias), true
					}
					return nil, false
				}
				what := "import " + q + pr.path + q
				if named {
					what = "import " + pr.alias + " " + q + pr.path + q
				}
				stored := 0
				for _, e := range g.Events {
					if e.Kind != "mapstore" || !g.isField(e.Args[0].term(), "Imported") {
						continue
					}
					switch f.cond(e.G) {
					case 0:
						continue
					case -1:
						panic(undecided{what + ": condition " + bString(e.G)})
					}
					stored++
					c.Check(textOf(f.fold(e.Args[1].term())) == pr.path, "imports", what+" is known by its path", p.InstrPos(e.Ins), "by "+textOf(f.fold(e.Args[1].term())))
					v := strip(e.Args[2].term())
					if v.Op != "append" || len(v.Args) != 2 || strip(v.Args[0]).Op != "mapget" {
						c.Check(v.Op == "append" && strip(v.Args[0]).Op == "mapget", "imports", what+" keeps the names before", p.InstrPos(e.Ins), brief(v.String()))
						continue
					}
					old := strip(v.Args[0])
					c.Check(strip(old.Args[0]) == strip(e.Args[0].term()) && textOf(f.fold(old.Args[1])) == pr.path, "imports", what+" keeps the names before", p.InstrPos(e.Ins), brief(old.String()))
					c.Check(textOf(f.fold(v.Args[1])) == pr.want, "imports", what+" is known as "+pr.want, p.InstrPos(e.Ins), "as "+textOf(f.fold(v.Args[1])))
				}
				want := 1
				if pr.want == "" {
					want = 0
				}
				c.Check(stored == want, "imports", what+" is remembered", p.Pos(track.Pos()), fmt.Sprint(stored, " names, wanted ", want))
			}
		}
	}
}

func textOf(v any) string {
	k, ok := v.(constant.Value)
	if ok && k.Kind() == constant.String {
		return constant.StringVal(k)
	}
	return fmt.Sprintf("?%v", v)
}

// isField: the term is the value of a field of that name.
func (g *Gate) isField(t *Term, name string) bool {
	t = unref(strip(t))
	var f *types.Var
	switch t.Op {
	case "field", "fieldaddr", "load":
		f, _ = t.Obj.(*types.Var)
	}
	return f != nil && f.Name() == name
}

// lookup: a name is looked up among the names of the imports.
func (x *calls37) lookup(c *Ctx) {
	p := x.p
	fn := p.Func("", "GetImportPath")
	if fn == nil {
		panic(undecided{"GetImportPath not found"})
	}
	g := NewGate(p)
	r := g.Run(fn)
	name := gparam(fn, 0)
	pos := p.Pos(fn.Pos())
	for _, v := range r.Rets {
		if gvHas(v, func(t *Term) bool { return t.Op == "loopval" || t.Op == "loopvar" }) {
			// what was found is carried through the loop: the rounds are looked at one by one instead
			x.lookupRounds(c, g, fn)
			return
		}
	}
	// the name is found when one of the imports has it
	var hit func(b BDD, depth int) (bool, string)
	hit = func(b BDD, depth int) (bool, string) {
		rest := bRestrict(b, func(a *Term) (bool, bool) {
			switch {
			case a.Op == "has":
				return true, true
			case isEq(a) && depth > 0:
				u, v := strip(a.Args[0]), strip(a.Args[1])
				if v == name {
					u, v = v, u
				}
				return true, u == name && v.Op == "elem"
			case callName(a) == "slices.Contains" || strings.HasPrefix(callName(a), "slices.Contains["):
				return true, strip(a.Args[1]) == name && namesOfImport(a.Args[0])
			case a.Op == "exists" && depth < 3:
				ok, _ := hit(condTerms[a], depth+1)
				return true, ok
			}
			return false, false
		})
		return rest == bT && b != bT, bString(b)
	}
	c.Check(boolOf(r.Rets[1]) != bF, "lookup", "names are found", pos, "never")
	for i, l := range r.Rets[1].L {
		c.Check(len(r.Rets[1].L) <= 2, "lookup", "an import is found or not", pos, fmt.Sprint(i))
		if bddOf(l.t) == bT {
			ok, d := hit(l.g, 0)
			c.Check(ok, "lookup", "a name is found when an import has it", pos, d)
			c.Check(l.g == found37(l.g), "lookup", "a name is found only when an import has it", pos, bString(l.g))
		}
		if b := bddOf(l.t); b != bT && b != bF {
			ok, d := hit(b, 0)
			c.Check(ok, "lookup", "a name is found when an import has it", pos, d)
		}
	}
	for _, l := range r.Rets[0].L {
		s, isText := constStr(l.t)
		g2 := bAnd(l.g, boolOf(r.Rets[1]))
		if isText && s == "" {
			c.Check(g2 == bF, "lookup", "the import found has a path", pos, bString(g2))
			continue
		}
		t := strip(l.t)
		ok := (t.Op == "first" || t.Op == "elem") && deepContains(t, func(y *Term) bool { return y.Op == "fieldaddr" || g.isField(y, "Imported") })
		for _, a := range bSupport(l.g) {
			ok = ok && (a.Op != "exists" || t.Op != "first" || a.Args[0] == t.Args[0] || takenFrom(t.Args[0], a.Args[0]))
		}
		c.Check(ok, "lookup", "the path is the one of the import that has the name", pos, brief(t.String()))
	}
	c.Check(len(r.Rets[0].L) == 2, "lookup", "a path for a name", pos, brief(r.Rets[0].String()))
}

// lookupRounds: whenever a path is kept, the condition asks for the name, and the names looked at are those
// of this path.
func (x *calls37) lookupRounds(c *Ctx, g *Gate, fn *ssa.Function) {
	name := gparam(fn, 0)
	pos := x.p.Pos(fn.Pos())
	n := 0
	for s, l := range g.Latch {
		if b, ok := s.Typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 || l.List == nil {
			continue
		}
		for _, a := range l.Val.L {
			if a.t == s {
				continue
			}
			n++
			c.Check(strip(a.t).Op == "elem", "lookup", "the path is the one of the import that has the name", pos, brief(a.t.String()))
			asks := bMentions(a.g, name)
			for _, b := range bSupport(a.g) {
				if cond, ok := condTerms[b]; ok {
					asks = asks || bMentions(cond, name)
				}
			}
			c.Check(asks, "lookup", "a path is kept when its import has the name", pos, bString(a.g))
			c.OK("lookup", "rounds", "")
		}
	}
	c.Check(n > 0, "lookup", "a path for a name", pos, "none is kept")
}

func found37(b BDD) BDD {
	for _, a := range bSupport(b) {
		if a.Op != "exists" {
			return bF
		}
	}
	return b
}

func boolOf(v GV) BDD {
	out := bF
	for _, l := range v.L {
		out = bOr(out, bAnd(l.g, bddOf(l.t)))
	}
	return out
}

func namesOfImport(t *Term) bool {
	return deepContains(t, func(y *Term) bool {
		f, _ := y.Obj.(*types.Var)
		return f != nil && f.Name() == "Imported"
	})
}

// callee: what a call is said to call.
func (x *calls37) callee(c *Ctx) {
	p := x.p
	fn := p.Func("", "GetCallInfo")
	if fn == nil {
		panic(undecided{"GetCallInfo not found"})
	}
	pos := p.Pos(fn.Pos())
	isTypeOf := func(t *Term) bool {
		return t.Op == "call" && strings.HasSuffix(callName(t), "types.Info).TypeOf")
	}
	type shape struct {
		what  string
		build func(s *shapes) (*Term, []*Term) // the call, and what its receiver's type is the type of
		pkg   string
		name  string
	}
	obj := func(s *shapes, kind int64, decl *Term) *Term {
		var d any
		if decl != nil {
			d = decl
		}
		s.n++
		return s.ptr("Object", fmt.Sprint("Object", s.n), "Kind", mkInt(kind), "Decl", d)
	}
	arg := func(s *shapes) *Term { return s.ident("arg") }
	call := func(s *shapes, fun *Term, args ...*Term) *Term { return s.node("CallExpr", "Fun", fun, "Args", args) }
	const kindVar, kindFun = 4, 5
	for _, sh := range []shape{
		{"pkg.F()", func(s *shapes) (*Term, []*Term) { return call(s, s.sel(s.ident("pkg"), "F"), arg(s)), nil }, "pkg", "F"},
		{"pkg.F() without arguments", func(s *shapes) (*Term, []*Term) { return call(s, s.sel(s.ident("other"), "G")), nil }, "other", "G"},
		{"v.M()", func(s *shapes) (*Term, []*Term) {
			v := s.node("Ident", "Name", "v", "Obj", obj(s, kindVar, nil))
			return call(s, s.sel(v, "M"), arg(s)), []*Term{v}
		}, "", "M"},
		{"a.b.M()", func(s *shapes) (*Term, []*Term) {
			b := s.ident("b")
			v := s.node("SelectorExpr", "X", s.ident("a"), "Sel", b)
			return call(s, s.sel(v, "M"), arg(s)), []*Term{v, b}
		}, "", "M"},
		{"new(T).M()", func(s *shapes) (*Term, []*Term) {
			t := s.ident("T")
			return call(s, s.sel(call(s, s.ident("new"), t), "M"), arg(s)), []*Term{t}
		}, "", "M"},
		{"f().M()", func(s *shapes) (*Term, []*Term) {
			t := s.ident("T")
			field := s.ptr("Field", "Field1", "Type", t)
			res := s.ptr("FieldList", "FieldList1", "List", []*Term{field})
			ft := s.ptr("FuncType", "FuncType1", "Results", res)
			decl := s.node("FuncDecl", "Type", ft)
			f := s.node("Ident", "Name", "f", "Obj", obj(s, kindFun, decl))
			v := call(s, f)
			return call(s, s.sel(v, "M"), arg(s)), []*Term{t, v}
		}, "", "M"},
		{"f(x).M()", func(s *shapes) (*Term, []*Term) {
			t := s.ident("T")
			field := s.ptr("Field", "Field1", "Type", t)
			res := s.ptr("FieldList", "FieldList1", "List", []*Term{field})
			ft := s.ptr("FuncType", "FuncType1", "Results", res)
			decl := s.node("FuncDecl", "Type", ft)
			f := s.node("Ident", "Name", "f", "Obj", obj(s, kindFun, decl))
			v := call(s, f, arg(s))
			return call(s, s.sel(v, "M")), []*Term{t, v}
		}, "", "M"},
		{"f()", func(s *shapes) (*Term, []*Term) { return call(s, s.ident("f"), arg(s)), nil }, "<this>", "f"},
		{"f()()", func(s *shapes) (*Term, []*Term) { return call(s, call(s, s.ident("f"))), nil }, "<none>", ""},
		{"x, no call", func(s *shapes) (*Term, []*Term) { return s.ident("x"), nil }, "<none>", ""},
		{"pkg.X, no call", func(s *shapes) (*Term, []*Term) { return s.sel(s.ident("pkg"), "X"), nil }, "<none>", ""},
	} {
		sh := sh
		c.Guard("callee", sh.what, func() {
			g := NewGate(p)
			g.Concrete = true
			s := newShapes(p, GMem{})
			node, of := sh.build(s)
			g.Hook = func(t *Term) *Term {
				if isEq(t) && (isNilT(strip(t.Args[0])) && isTypeOf(strip(t.Args[1])) || isNilT(strip(t.Args[1])) && isTypeOf(strip(t.Args[0]))) {
					return mkBool(false)
				}
				return notNil(t)
			}
			rets, _, _ := g.frame(fn, nil, nil, []GV{gvT(node), gvT(gparam(fn, 1))}, nil, "info", s.mem, 0)
			fails := bF
			for _, l := range rets[2].L {
				if !isNilT(l.t) {
					fails = bOr(fails, l.g)
				}
			}
			if sh.pkg == "<none>" {
				c.Check(fails == bT, "callee", sh.what, pos, "something is said when "+bString(bNot(fails)))
				return
			}
			c.Check(fails == bF, "callee", sh.what+" is understood", pos, "nothing is said when "+bString(fails))
			for _, l := range rets[1].L {
				if sat(bAnd(l.g, bNot(fails))) == bF {
					continue
				}
				n, _ := constStr(strip(l.t))
				c.Check(n == sh.name, "callee", sh.what+" calls "+sh.name, pos, brief(l.t.String()))
			}
			for _, l := range rets[0].L {
				if sat(bAnd(l.g, bNot(fails))) == bF {
					continue
				}
				t := strip(l.t)
				switch sh.pkg {
				case "<this>":
					ok := t.Op == "call" && strings.HasSuffix(callName(t), "types.Package).Name") && g.isField(t.Args[0], "Pkg")
					c.Check(ok, "callee", sh.what+" is of the scanned package", pos, brief(t.String()))
				case "":
					ok := false
					if strings.HasSuffix(callName(t), "types.Type).String") || strings.HasSuffix(callName(t), "types.TypeString") {
						u := strip(t.Args[0])
						if isTypeOf(u) {
							a := unwrapIface(u.Args[len(u.Args)-1])
							for _, o := range of {
								ok = ok || a == unwrapIface(o)
							}
						}
					}
					c.Check(ok, "callee", sh.what+" is of the type of its receiver", pos, brief(t.String()))
				default:
					n, _ := constStr(t)
					c.Check(n == sh.pkg, "callee", sh.what+" is of the package named", pos, brief(t.String()))
				}
			}
		})
	}
}

// notNil: what is laid out is not nil.
func notNil(t *Term) *Term {
	if !isEq(t) {
		return nil
	}
	for i := 0; i < 2; i++ {
		o := strip(t.Args[i])
		if !isNilT(strip(t.Args[1-i])) || o.Op != "sym" || o.Typ == nil {
			continue
		}
		if pt, ok := o.Typ.Underlying().(*types.Pointer); ok && strings.HasPrefix(pt.Elem().String(), "go/ast.") {
			return mkBool(false)
		}
	}
	return nil
}

func unwrapIface(t *Term) *Term {
	t = strip(t)
	if t.Op == "iface" {
		return strip(t.Args[0])
	}
	return t
}

// listed: how a call is looked up in a list.
func (x *calls37) listed(c *Ctx) {
	p := x.p
	info, paths := p.Func("", "GetCallInfo"), p.Func("", "GetImportPath")
	type entry struct{ sel, name string }
	type probe struct {
		sel   string // what the call is said to be of
		path  string // what the name is the import of
		fails bool
		strip bool
		list  []entry
		want  bool
	}
	const F = "F"
	pkg := []probe{
		{"md5", "crypto/md5", false, false, []entry{{"crypto/md5", F}}, true},
		{"md5", "crypto/md5", false, true, []entry{{"crypto/md5", F}}, true},
		{"md5", "crypto/md5", false, false, []entry{{"crypto/md5", "G"}}, false},
		{"md5", "crypto/md5", false, false, []entry{{"md5", F}}, false},
		{"md5", "", false, false, []entry{{"md5", F}, {"", F}}, false},
		{"md5", "crypto/md5", false, false, []entry{{"crypto/md5", "G"}, {"crypto/sha1", F}}, false},
		{"md5", "crypto/md5", false, false, nil, false},
		{"md5", "crypto/md5", true, false, []entry{{"crypto/md5", F}, {"md5", F}}, false},
		{"net/http.Client", "", false, false, []entry{{"net/http.Client", F}}, true},
		{"net/http.Client", "net/http", false, false, []entry{{"net/http", F}}, false},
		{"*net/http.Client", "", false, false, []entry{{"*net/http.Client", F}}, true},
		{"q", "a.example/vendor/x.example/q", false, true, []entry{{"x.example/q", F}}, true},
		{"q", "a.example/vendor/x.example/q", false, false, []entry{{"x.example/q", F}}, false},
		{"q", "a.example/vendor/x.example/q", false, false, []entry{{"a.example/vendor/x.example/q", F}}, true},
		{"q", "vendor/x.example/q", false, true, []entry{{"x.example/q", F}}, true},
		{"a.example/vendor/x.example/q.T", "", false, true, []entry{{"x.example/q.T", F}}, true},
	}
	ptr := []probe{
		{"md5", "", false, false, []entry{{"md5", F}}, true},
		{"md5", "", false, false, []entry{{"md5", "G"}}, false},
		{"md5", "", false, false, []entry{{"sha1", F}}, false},
		{"md5", "", true, false, []entry{{"md5", F}}, false},
		{"net/http.Client", "", false, false, []entry{{"net/http.Client", F}}, true},
		{"*net/http.Client", "", false, false, []entry{{"*net/http.Client", F}}, true},
		{"*net/http.Client", "", false, false, []entry{{"net/http.Client", F}}, true},
		{"*net/http.Client", "", false, false, []entry{{"net/http.Client", "G"}}, false},
		{"*net/http.Client", "", false, false, []entry{{"net/http.Client", "G"}, {"net/http.Server", F}}, false},
		{"net/http.Client", "", false, false, []entry{{"*net/http.Client", F}}, false},
		{"*net/http.Client", "", false, false, []entry{{"*net/http.Client", "G"}, {"net/http.Client", F}}, true},
		{"net/http.Client", "", false, false, nil, false},
	}
	exact := []probe{
		{"md5", "", false, false, []entry{{"md5", F}}, true},
		{"md5", "", false, false, []entry{{"md5", "G"}, {"sha1", F}}, false},
		{"*T", "", false, false, []entry{{"T", F}}, false},
		{"*T", "", false, false, []entry{{"*T", F}}, true},
		{"T", "", false, false, nil, false},
	}
	pointed := []probe{
		{"*T", "", false, false, []entry{{"T", F}}, true},
		{"*T", "", false, false, []entry{{"*T", F}}, true},
		{"*T", "", false, false, []entry{{"T", "G"}, {"U", F}}, false},
		{"T", "", false, false, []entry{{"T", F}}, false},
	}
	for _, m := range []struct {
		name   string
		probes []probe
		direct bool
	}{{"ContainsPkgCallExpr", pkg, false}, {"ContainsCallExpr", ptr, false}, {"Contains", exact, true}, {"ContainsPointer", pointed, true}} {
		fn := p.Method("", "CallList", m.name)
		if fn == nil || info == nil || paths == nil {
			panic(undecided{m.name + ", GetCallInfo or GetImportPath not found"})
		}
		pos := p.Pos(fn.Pos())
		g := NewGate(p)
		g.noInline(info, paths)
		r := g.Run(fn)
		list, n := gparam(fn, 0), gparam(fn, 1)
		what := "call"
		if m.direct {
			what = "name"
		}
		for _, pr := range m.probes {
			pr := pr
			f := newFolder(p, map[*Term]any{})
			if m.direct {
				f.env[n] = fStr(pr.sel)
				f.env[gparam(fn, 2)] = fStr(F)
			} else if len(fn.Params) > 3 {
				f.env[gparam(fn, 3)] = fBool(pr.strip)
			}
			of := func(t *Term) (string, bool) {
				return textOf(f.fold(t)), textOf(f.fold(t))[:min(1, len(textOf(f.fold(t))))] != "?"
			}
			f.hook = func(t *Term) (any, bool) {
				switch {
				case t.Op == "extract" && t.Args[0].Op == "call" && t.Args[0].Obj == any(info):
					if strip(t.Args[0].Args[0]) != n {
						return nil, false
					}
					switch fmt.Sprint(t.Obj) {
					case "0":
						return fStr(pr.sel), true
					case "1":
						return fStr(F), true
					}
					if pr.fails {
						return foldErr{}, true
					}
					return foldNil{}, true
				case t.Op == "extract" && t.Args[0].Op == "call" && t.Args[0].Obj == any(paths):
					if s, ok := of(t.Args[0].Args[0]); !ok || s != pr.sel {
						return nil, false
					}
					if fmt.Sprint(t.Obj) == "0" {
						return fStr(pr.path), true
					}
					return fBool(pr.path != ""), true
				case (t.Op == "has" || t.Op == "mapget") && strip(t.Args[0]) == list:
					k, ok := of(t.Args[1])
					if !ok || t.Op != "has" {
						return nil, false
					}
					for _, e := range pr.list {
						if e.sel == k {
							return fBool(true), true
						}
					}
					return fBool(false), true
				case (t.Op == "has" || t.Op == "mapget") && strip(t.Args[0]).Op == "mapget" && strip(strip(t.Args[0]).Args[0]) == list:
					k, ok := of(strip(t.Args[0]).Args[1])
					k2, ok2 := of(t.Args[1])
					if !ok || !ok2 {
						return nil, false
					}
					for _, e := range pr.list {
						if e.sel == k && e.name == k2 {
							return fBool(true), true
						}
					}
					return fBool(false), true
				}
				return nil, false
			}
			yes := bF
			for _, l := range r.Rets[0].L {
				if m.direct {
					yes = bOr(yes, bAnd(l.g, bddOf(l.t)))
				} else if !isNilT(l.t) {
					yes = bOr(yes, l.g)
					t := strip(l.t)
					c.Check(t.Op == "tassert" && strip(t.Args[0]) == n, "listed", m.name+" returns the call", pos, brief(t.String()))
				}
			}
			what := fmt.Sprintf("%s: a %s of %s %s (%s", m.name, what, pr.sel, F, pr.path)
			if pr.strip {
				what += ", of any vendor"
			}
			if pr.fails {
				what += ", not understood"
			}
			what += fmt.Sprintf(") in %v", pr.list)
			k := f.cond(yes)
			if k < 0 {
				w := ""
				if f.why != nil {
					w = brief(f.why.String())
				}
				panic(undecided{what + ": " + w})
			}
			c.Check((k == 1) == pr.want, "listed", what, pos, fmt.Sprint("is found: ", k == 1))
		}
	}
}

// takenFrom: the list is made of the entries of the other one.
func takenFrom(list, of *Term) bool {
	return list.Op == "comp" && len(list.Args) > 1 && list.Args[1] == of
}
