package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C38", checkC38) }

// The rules that judge what a call is given are evaluated on calls laid out as syntax. Whether a variable
// can be resolved is a symbol, so what comes out is the condition of a finding in terms of the arguments, which is
// compared with the documented one.

func checkC38(c *Ctx) {
	c.Rule("resolved", "only literals, constants and what is made of them is resolved: the result of a call never is, a variable is if what it is declared with is, and a composite if it has parts and all of them are")
	c.Rule("given", "a call is flagged exactly when one of the arguments that matter is not resolved, in the forms the rule looks at")
	c.Rule("query", "a query is flagged exactly when it is put together from SQL text and something that is neither literal nor constant (nor quoted, in a format)")
	c.Rule("value", "a call is flagged exactly when the value it is given is one of those the rule is about")
	x := &args38{p: c.P, defs: map[string]ruleDef{}}
	for _, d := range c.P.ruleTable("rules") {
		x.defs[d.ID] = d
	}
	x.list = newLister(c.P)
	c.Guard("resolved", "TryResolve", func() { x.resolved(c) })
	x.given(c)
	x.query(c)
	x.values(c)
	c.Min("resolved", 20)
	c.Min("given", 30)
	c.Min("query", 20)
	c.Min("value", 30)
}

type args38 struct {
	p    *Program
	defs map[string]ruleDef
	list *lister
}

// scene is the syntax a rule is asked about.
type scene struct {
	*shapes
	calls map[*Term][3]string // the call expression: what it is said to be of, import path, name
	known map[*Term]BDD       // whether a node is resolved
	objs  map[*Term]string    // identifiers: var, const
	pkg   map[string]bool     // names declared at package level
}

func newScene(p *Program, mem GMem) *scene {
	return &scene{shapes: newShapes(p, mem), calls: map[*Term][3]string{}, known: map[*Term]BDD{}, objs: map[*Term]string{}, pkg: map[string]bool{}}
}

func (s *scene) ptrOf(t *Term) *Term { return unwrapIface(t) }

func (s *scene) lit(text string) *Term {
	t := s.node("BasicLit", "Kind", mkConstOf(int64(token.STRING), s.tok()), "Value", fmt.Sprintf("%q", text))
	s.known[s.ptrOf(t)] = bT
	return t
}

func (s *scene) tok() types.Type {
	st := s.ast.Scope().Lookup("BasicLit").Type().Underlying().(*types.Struct)
	return st.Field(fieldIndex(st, "Kind")).Type()
}

func (s *scene) num(text string) *Term {
	t := s.node("BasicLit", "Kind", mkConstOf(int64(token.INT), s.tok()), "Value", text)
	s.known[s.ptrOf(t)] = bT
	return t
}

func knownSym(name string) BDD {
	return bm.atom(mk("sym", name+" is resolved", "", types.Typ[types.Bool]))
}

func (s *scene) object(kind int64, decl *Term) *Term {
	s.n++
	if decl == nil {
		decl = mkNil()
	}
	st := s.ast.Scope().Lookup("Object").Type().Underlying().(*types.Struct)
	return s.ptr("Object", fmt.Sprint("Object", s.n), "Kind", mkConstOf(kind, st.Field(fieldIndex(st, "Kind")).Type()), "Decl", decl)
}

const (
	objCon = 2
	objVar = 4
)

// local is a variable set by an assignment.
func (s *scene) local(name string, rhs ...*Term) *Term {
	if len(rhs) == 0 {
		rhs = []*Term{s.other()}
	}
	return s.locals([]string{name}, rhs...)[0]
}

// locals are variables set by the same assignment.
func (s *scene) locals(names []string, rhs ...*Term) []*Term {
	var lhs, out, objs []*Term
	for _, name := range names {
		obj := s.object(objVar, nil)
		use := s.node("Ident", "Name", name, "Obj", obj)
		s.known[s.ptrOf(use)], s.objs[s.ptrOf(use)] = knownSym(name), "Var"
		objs, out = append(objs, obj), append(out, use)
		lhs = append(lhs, s.node("Ident", "Name", name, "Obj", obj))
	}
	decl := s.node("AssignStmt", "Lhs", lhs, "Rhs", rhs)
	for _, o := range objs {
		s.set(o, "Object", "Decl", decl)
	}
	return out
}

// declared is a variable of a declaration.
func (s *scene) declared(name string, pkg bool) *Term {
	t := s.node("Ident", "Name", name, "Obj", s.object(objVar, s.node("ValueSpec", "Values", []*Term{s.other()})))
	s.known[s.ptrOf(t)], s.objs[s.ptrOf(t)] = knownSym(name), "Var"
	s.pkg[name] = pkg
	return t
}

func (s *scene) konst(name string) *Term {
	t := s.node("Ident", "Name", name, "Obj", s.object(objCon, s.node("ValueSpec", "Values", []*Term{s.other()})))
	s.known[s.ptrOf(t)], s.objs[s.ptrOf(t)] = bT, "Const"
	return t
}

// other is an expression nothing is known about.
func (s *scene) other() *Term {
	t := s.node("CallExpr", "Fun", s.node("Ident", "Name", "unknown", "Obj", nil), "Args", []*Term{})
	s.known[s.ptrOf(t)] = bF
	return t
}

func (s *scene) call(of, name string, args ...*Term) *Term {
	short := of
	imp := ""
	if !strings.Contains(path.Base(of), ".") {
		short, imp = path.Base(of), of
	}
	t := s.node("CallExpr", "Fun", s.node("SelectorExpr", "X", s.node("Ident", "Name", short, "Obj", nil), "Sel", s.node("Ident", "Name", name, "Obj", nil)), "Args", args)
	s.calls[s.ptrOf(t)] = [3]string{short, imp, name}
	s.known[s.ptrOf(t)] = bF
	return t
}

func (s *scene) add(x, y *Term) *Term {
	t := s.node("BinaryExpr", "X", x, "Y", y)
	s.known[s.ptrOf(t)] = bAnd(s.known[s.ptrOf(x)], s.known[s.ptrOf(y)])
	return t
}

func (s *scene) stmt(x *Term) *Term   { return s.node("ExprStmt", "X", x) }
func (s *scene) assign(x *Term) *Term { return s.node("AssignStmt", "Rhs", []*Term{x}) }

// ask: when a rule flags the last of some nodes, which it meets one after the other.
func (x *args38) ask(d ruleDef, build func(s *scene) []*Term) BDD {
	p := x.p
	g := NewGate(p)
	info, paths, resolve, newIssue := p.Func("", "GetCallInfo"), p.Func("", "GetImportPath"), p.Func("", "TryResolve"), p.Method("", "Context", "NewIssue")
	if info == nil || paths == nil || resolve == nil || newIssue == nil {
		panic(undecided{"GetCallInfo, GetImportPath, TryResolve or NewIssue not found"})
	}
	g.noInline(info, paths, resolve, newIssue)
	g.UnrollMaps = true
	g.Unroll = 40
	g.Recurse = 6
	g.Concrete = true
	g.PreInit = x.list.pre
	var s *scene
	is := func(t *Term, fn *ssa.Function) bool { return t.Op == "call" && t.Obj == any(fn) }
	asked := func(t *Term, suffix string) *Term {
		t = strip(t)
		if t.Op == "call" && strings.HasSuffix(callName(t), suffix) && len(t.Args) > 0 {
			return s.ptrOf(t.Args[len(t.Args)-1])
		}
		return nil
	}
	g.Hook = func(t *Term) *Term {
		if m := t.Args; t.Op == "has" && m[0].Op == "param" && strings.HasSuffix(namedName(m[0].Typ), ".Config") {
			// nothing is configured
			return mkBool(false)
		}
		if t.Op == "tassertok" && len(t.Args) > 0 {
			if m := strip(t.Args[0]); m.Op == "mapget" && m.Args[0].Op == "param" && strings.HasSuffix(namedName(m.Args[0].Typ), ".Config") {
				return mkBool(false)
			}
		}
		if s == nil {
			return nil
		}
		switch t.Op {
		case "extract":
			call, i := t.Args[0], fmt.Sprint(t.Obj)
			switch {
			case is(call, info):
				v, ok := s.calls[s.ptrOf(call.Args[0])]
				switch {
				case i == "2" && !ok:
					return mk("sym", "notUnderstood", "", t.Typ)
				case i == "2":
					return mkNil()
				case i == "0":
					return mkString(v[0])
				default:
					return mkString(v[2])
				}
			case is(call, paths):
				if n, ok := constStr(strip(call.Args[0])); ok {
					for _, v := range s.calls {
						if v[0] == n {
							if i == "0" {
								return mkString(v[1])
							}
							return mkBool(v[1] != "")
						}
					}
					if i == "0" {
						return mkString("")
					}
					return mkBool(false)
				}
			}
		case "call":
			if is(t, resolve) {
				if b, ok := s.known[s.ptrOf(t.Args[0])]; ok {
					return bTerm(b)
				}
				return nil
			}
		case "tassertok":
			if id := asked(t.Args[0], "types.Info).ObjectOf"); id != nil {
				if kind, ok := s.objs[id]; ok {
					return mkBool(assertedType(t) == "*go/types."+kind)
				}
			}
		case "bin":
			if !isEq(t) {
				break
			}
			for k := 0; k < 2; k++ {
				if !isNilT(strip(t.Args[k])) {
					continue
				}
				o := strip(t.Args[1-k])
				if n := asked(o, "types.Scope).Lookup"); n != nil {
					if name, ok := constStr(n); ok {
						return mkBool(!s.pkg[name])
					}
				}
				if strings.HasSuffix(callName(o), "types.Package).Scope") || o.Op == "sym" && o.Obj == any("notUnderstood") || is(o, newIssue) {
					return mkBool(false)
				}
			}
			if a, b := s.ptrOf(t.Args[0]), s.ptrOf(t.Args[1]); s.made[a] && s.made[b] {
				return mkBool(a == b)
			}
			return notNil(t)
		}
		if t.Op == "call" || t.Op == "extract" {
			f := newFolder(p, nil)
			switch v := f.fold(t).(type) {
			case constant.Value:
				return mkConst(v, t.Typ)
			case foldNil:
				return mkNil()
			case foldErr:
				return mk("sym", "notUnderstood", "", t.Typ)
			}
		}
		return nil
	}
	rule, mem := x.list.make(g, d)
	fn := p.methodOf(rule.Typ, "Match")
	if fn == nil {
		panic(undecided{"the rule has no Match"})
	}
	mem = cloneMem(mem)
	s = newScene(p, mem)
	nodes := build(s)
	flagged := bF
	for i, n := range nodes {
		rets, retG, after := g.frame(fn, nil, nil, []GV{gvT(rule), gvT(n), gvT(gparam(fn, 2))}, nil, fmt.Sprint("match", i), mem, 0)
		mem = after
		flagged = bF
		for _, v := range rets[0].L {
			if !isNilT(v.t) {
				flagged = bOr(flagged, v.g)
			}
		}
		flagged = bAnd(flagged, retG)
	}
	return flagged
}

type case38 struct {
	id    string
	what  string
	build func(s *scene) []*Term
	want  BDD
}

func (x *args38) check(c *Ctx, rule string, cases []case38) {
	for _, k := range cases {
		k := k
		c.Guard(rule, k.id+" "+k.what, func() {
			d, ok := x.defs[k.id]
			if !ok || d.Create == nil {
				c.Fail(rule, k.id, "-", "the rule is not registered")
				return
			}
			got := x.ask(d, k.build)
			c.Check(got == k.want, rule, k.id+" "+k.what, c.P.Pos(d.Create.Pos()), "flagged when "+bString(got)+"; has to be when "+bString(k.want))
		})
	}
}

func one38(f func(s *scene) *Term) func(s *scene) []*Term {
	return func(s *scene) []*Term { return []*Term{f(s)} }
}

func (x *args38) given(c *Ctx) {
	un := func(names ...string) BDD {
		b := bF
		for _, n := range names {
			b = bOr(b, bNot(knownSym(n)))
		}
		return b
	}
	var cases []case38
	add := func(id, what string, want BDD, f func(s *scene) *Term) {
		cases = append(cases, case38{id, what, one38(f), want})
	}
	// G204: every argument
	for _, f := range []struct{ pkg, name string }{{"os/exec", "Command"}, {"syscall", "Exec"}, {"os", "StartProcess"}} {
		f := f
		n := f.pkg + "." + f.name
		add("G204", n+" of literals", bF, func(s *scene) *Term { return s.call(f.pkg, f.name, s.lit("ls"), s.lit("-l")) })
		add("G204", n+" of a variable first", un("v"), func(s *scene) *Term { return s.call(f.pkg, f.name, s.local("v"), s.lit("-l")) })
		add("G204", n+" of a variable last", un("v"), func(s *scene) *Term { return s.call(f.pkg, f.name, s.lit("ls"), s.lit("-l"), s.local("v")) })
	}
	add("G204", "of variables", un("v", "w"), func(s *scene) *Term {
		return s.call("os/exec", "Command", s.local("v"), s.lit("x"), s.declared("w", false))
	})
	add("G204", "of a package variable", un("v"), func(s *scene) *Term { return s.call("os/exec", "Command", s.lit("x"), s.declared("v", true)) })
	add("G204", "of a constant", bF, func(s *scene) *Term { return s.call("os/exec", "Command", s.konst("k"), s.lit("x")) })
	add("G204", "of a call", bT, func(s *scene) *Term { return s.call("os/exec", "Command", s.lit("x"), s.other()) })
	add("G204", "of a concatenation", un("v"), func(s *scene) *Term {
		return s.call("os/exec", "Command", s.lit("x"), s.add(s.lit("a"), s.local("v")))
	})
	add("G204", "with a context, which is not an argument", bF, func(s *scene) *Term {
		return s.call("os/exec", "CommandContext", s.local("ctx"), s.lit("ls"), s.lit("-l"))
	})
	add("G204", "with a context and a variable", un("v"), func(s *scene) *Term {
		return s.call("os/exec", "CommandContext", s.local("ctx"), s.local("v"), s.lit("-l"))
	})
	add("G204", "with a context and a variable last", un("v"), func(s *scene) *Term {
		return s.call("os/exec", "CommandContext", s.local("ctx"), s.lit("ls"), s.local("v"))
	})
	add("G204", "without arguments", bF, func(s *scene) *Term { return s.call("os/exec", "Command") })
	add("G204", "another call", bF, func(s *scene) *Term { return s.call("os/exec", "LookPath", s.local("v")) })
	// G107: the URL
	for _, name := range []string{"Get", "Head", "Post", "PostForm"} {
		name := name
		add("G107", name+" of a literal", bF, func(s *scene) *Term { return s.call("net/http", name, s.lit("http://a"), s.local("v")) })
		add("G107", name+" of a variable", un("v"), func(s *scene) *Term { return s.call("net/http", name, s.local("v"), s.lit("x")) })
		add("G107", name+" of a package variable", bT, func(s *scene) *Term { return s.call("net/http", name, s.declared("v", true)) })
	}
	add("G107", "of a constant", bF, func(s *scene) *Term { return s.call("net/http", "Get", s.konst("k")) })
	add("G107", "another call", bF, func(s *scene) *Term { return s.call("net/http", "NewRequest", s.local("v")) })
	// G304: variables, concatenations and joined paths
	for _, f := range []struct{ pkg, name string }{{"os", "Open"}, {"os", "OpenFile"}, {"os", "ReadFile"}, {"io/ioutil", "ReadFile"}} {
		f := f
		n := f.pkg + "." + f.name
		add("G304", n+" of a literal", bF, func(s *scene) *Term { return s.call(f.pkg, f.name, s.lit("/a")) })
		add("G304", n+" of a variable", un("v"), func(s *scene) *Term { return s.call(f.pkg, f.name, s.local("v")) })
	}
	add("G304", "of a package variable", un("v"), func(s *scene) *Term { return s.call("os", "Open", s.declared("v", true)) })
	add("G304", "of a constant", bF, func(s *scene) *Term { return s.call("os", "Open", s.konst("k")) })
	add("G304", "of a concatenation with a variable last", un("v"), func(s *scene) *Term { return s.call("os", "Open", s.add(s.lit("/a/"), s.local("v"))) })
	add("G304", "of a concatenation with a variable first", un("v"), func(s *scene) *Term { return s.call("os", "Open", s.add(s.local("v"), s.lit("/a"))) })
	add("G304", "of a concatenation with a variable inside", un("v"), func(s *scene) *Term {
		return s.call("os", "Open", s.add(s.add(s.lit("/a/"), s.local("v")), s.lit(".txt")))
	})
	add("G304", "of a concatenation of two variables", un("v", "w"), func(s *scene) *Term {
		return s.call("os", "Open", s.add(s.add(s.local("w"), s.lit("/")), s.local("v")))
	})
	add("G304", "of a concatenation of constants", bF, func(s *scene) *Term { return s.call("os", "Open", s.add(s.lit("/a/"), s.konst("k"))) })
	for _, j := range []string{"path", "path/filepath"} {
		j := j
		add("G304", "of a path joined by "+j+" from a variable", un("v"), func(s *scene) *Term {
			return s.call("os", "Open", s.call(j, "Join", s.lit("/a"), s.local("v")))
		})
		add("G304", "of a path joined by "+j+" from literals", bF, func(s *scene) *Term {
			return s.call("os", "Open", s.call(j, "Join", s.lit("/a"), s.lit("b"), s.konst("k")))
		})
	}
	add("G304", "of a path joined from a concatenation", un("v"), func(s *scene) *Term {
		return s.call("os", "ReadFile", s.call("path/filepath", "Join", s.add(s.lit("/a"), s.local("v")), s.lit("b")))
	})
	add("G304", "another call", bF, func(s *scene) *Term { return s.call("os", "Stat", s.local("v")) })
	for _, f := range []string{"Clean", "Rel", "EvalSymlinks"} {
		f := f
		add("G304", "of a variable set by filepath."+f, bF, func(s *scene) *Term {
			return s.call("os", "Open", s.local("v", s.call("path/filepath", f, s.local("w"))))
		})
		add("G304", "of a variable set by filepath."+f+" with an error", bF, func(s *scene) *Term {
			return s.call("os", "Open", s.locals([]string{"v", "err"}, s.call("path/filepath", f, s.local("w")))[0])
		})
		cases = append(cases, case38{"G304", "of a variable given to filepath." + f + " before", func(s *scene) []*Term {
			v := s.local("v")
			return []*Term{s.call("path/filepath", f, v), s.call("os", "Open", v)}
		}, bF})
		for i, n := range []string{"v", "w"} {
			i, n := i, n
			for j := 0; j < 2; j++ {
				j := j
				want := un(n)
				if i == j {
					want = bF
				}
				add("G304", fmt.Sprint("of variable ", i, " when variable ", j, " of the same assignment is set by filepath.", f), want, func(s *scene) *Term {
					rhs := []*Term{s.other(), s.other()}
					rhs[j] = s.call("path/filepath", f, s.local("x"))
					return s.call("os", "Open", s.locals([]string{"v", "w"}, rhs...)[i])
				})
			}
		}
	}
	add("G304", "of a variable set by another function", un("v"), func(s *scene) *Term {
		return s.call("os", "Open", s.local("v", s.call("path/filepath", "Base", s.local("w"))))
	})
	cleaned := func(same bool) func(s *scene) []*Term {
		return func(s *scene) []*Term {
			v := s.local("v")
			w := v
			if !same {
				w = s.local("w")
			}
			return []*Term{s.call("path/filepath", "Clean", w), s.call("os", "Open", v)}
		}
	}
	cases = append(cases,
		case38{"G304", "of a variable cleaned before", cleaned(true), bF},
		case38{"G304", "of a variable when another was cleaned before", cleaned(false), un("v")})
	// G203: only literals are safe
	for _, name := range []string{"HTML", "JS", "URL"} {
		name := name
		add("G203", name+" of a literal", bF, func(s *scene) *Term { return s.call("html/template", name, s.lit("x")) })
		add("G203", name+" of a variable", bT, func(s *scene) *Term { return s.call("html/template", name, s.local("v")) })
		add("G203", name+" of a call", bT, func(s *scene) *Term { return s.call("html/template", name, s.other()) })
	}
	add("G203", "another call", bF, func(s *scene) *Term { return s.call("html/template", "New", s.local("v")) })
	x.check(c, "given", cases)
}

func (x *args38) query(c *Ctx) {
	var cases []case38
	const db, sel = "*database/sql.DB", "SELECT * FROM t WHERE a = "
	add := func(id, what string, want bool, f func(s *scene) *Term) {
		cases = append(cases, case38{id, what, one38(f), bOf(want)})
	}
	for _, how := range []struct {
		what string
		f    func(s *scene, q *Term) *Term
	}{
		{"Query", func(s *scene, q *Term) *Term { return s.assign(s.call(db, "Query", q)) }},
		{"Exec as statement", func(s *scene, q *Term) *Term { return s.stmt(s.call(db, "Exec", q, s.local("p"))) }},
		{"QueryContext", func(s *scene, q *Term) *Term { return s.assign(s.call(db, "QueryContext", s.local("ctx"), q)) }},
		{"PrepareContext of a Tx", func(s *scene, q *Term) *Term {
			return s.assign(s.call("*database/sql.Tx", "PrepareContext", s.local("ctx"), q))
		}},
	} {
		how := how
		q := func(what string, want bool, f func(s *scene) *Term) {
			add("G202", how.what+" of "+what, want, func(s *scene) *Term { return how.f(s, f(s)) })
		}
		q("SQL and a variable", true, func(s *scene) *Term { return s.add(s.lit(sel), s.local("v")) })
		q("SQL, a literal and a variable", true, func(s *scene) *Term { return s.add(s.add(s.lit(sel), s.lit("x")), s.local("v")) })
		q("SQL, a variable and a literal", true, func(s *scene) *Term { return s.add(s.add(s.lit(sel), s.local("v")), s.lit(" AND b")) })
		q("SQL and a call", true, func(s *scene) *Term { return s.add(s.lit(sel), s.other()) })
		q("SQL, a constant and a variable", true, func(s *scene) *Term { return s.add(s.add(s.lit(sel), s.konst("k")), s.local("v")) })
		q("SQL and a constant", false, func(s *scene) *Term { return s.add(s.lit(sel), s.konst("k")) })
		q("SQL and a literal", false, func(s *scene) *Term { return s.add(s.lit(sel), s.lit("1")) })
		q("another text and a variable", false, func(s *scene) *Term { return s.add(s.lit("PRAGMA "), s.local("v")) })
		q("a literal", false, func(s *scene) *Term { return s.lit(sel + "1") })
		q("a variable put together from SQL and a variable", true, func(s *scene) *Term { return s.local("q", s.add(s.lit(sel), s.local("v"))) })
		q("a variable put together with one inside", true, func(s *scene) *Term {
			return s.local("q", s.add(s.add(s.lit(sel+"'"), s.local("v")), s.lit("' AND 1=1")))
		})
		q("a variable put together from SQL and a constant", false, func(s *scene) *Term { return s.local("q", s.add(s.lit(sel), s.konst("k"))) })
		q("a variable put together from another text", false, func(s *scene) *Term { return s.local("q", s.add(s.lit("PRAGMA "), s.local("v"))) })
	}
	add("G202", "another call", false, func(s *scene) *Term { return s.assign(s.call(db, "Ping", s.add(s.lit(sel), s.local("v")))) })
	add("G202", "a method of another type", false, func(s *scene) *Term { return s.assign(s.call("*example.T", "Query", s.add(s.lit(sel), s.local("v")))) })
	add("G202", "SQL in another argument", false, func(s *scene) *Term {
		return s.assign(s.call(db, "QueryContext", s.add(s.lit(sel), s.local("v")), s.lit(sel)))
	})
	// G201: a variable made by a format
	for _, how := range []struct {
		what string
		f    func(s *scene, q *Term) *Term
	}{
		{"Query", func(s *scene, q *Term) *Term { return s.assign(s.call(db, "Query", q)) }},
		{"Exec as statement", func(s *scene, q *Term) *Term { return s.stmt(s.call(db, "Exec", q)) }},
		{"QueryRowContext of a Tx", func(s *scene, q *Term) *Term {
			return s.assign(s.call("*database/sql.Tx", "QueryRowContext", s.local("ctx"), q))
		}},
	} {
		how := how
		q := func(what string, want bool, f func(s *scene) *Term) {
			add("G201", how.what+" of "+what, want, func(s *scene) *Term { return how.f(s, s.local("q", f(s))) })
		}
		fm := func(s *scene, args ...*Term) *Term { return s.call("fmt", "Sprintf", args...) }
		q("SQL formatted with a variable", true, func(s *scene) *Term { return fm(s, s.lit(sel+"'%s'"), s.local("v")) })
		q("SQL formatted with a call", true, func(s *scene) *Term { return fm(s, s.lit(sel+"%v"), s.other()) })
		q("SQL formatted with a constant", false, func(s *scene) *Term { return fm(s, s.lit(sel+"%s"), s.konst("k")) })
		q("SQL formatted with a constant and a variable", true, func(s *scene) *Term { return fm(s, s.lit(sel+"%s AND %s"), s.konst("k"), s.local("v")) })
		q("SQL formatted with a variable and a constant", true, func(s *scene) *Term { return fm(s, s.lit(sel+"%s AND %s"), s.local("v"), s.konst("k")) })
		q("SQL formatted with a number", false, func(s *scene) *Term { return fm(s, s.lit(sel+"%d"), s.local("v")) })
		q("SQL formatted with a quoted name", false, func(s *scene) *Term {
			return fm(s, s.lit("SELECT * FROM %s"), s.call("github.com/lib/pq", "QuoteIdentifier", s.local("v")))
		})
		q("SQL formatted with a quoted name and a variable", true, func(s *scene) *Term {
			return fm(s, s.lit("SELECT * FROM %s WHERE %s"), s.call("github.com/lib/pq", "QuoteIdentifier", s.local("v")), s.local("w"))
		})
		q("SQL put together from literals and formatted with a variable", true, func(s *scene) *Term {
			return fm(s, s.add(s.lit("SELECT * "), s.lit("FROM t WHERE a = '%s'")), s.local("v"))
		})
		q("another text formatted with a variable", false, func(s *scene) *Term { return fm(s, s.lit("PRAGMA %s"), s.local("v")) })
		q("another function of a variable", false, func(s *scene) *Term { return s.call("fmt", "Errorf", s.lit(sel+"%s"), s.local("v")) })
	}
	add("G201", "another call", false, func(s *scene) *Term {
		return s.assign(s.call(db, "Ping", s.local("q", s.call("fmt", "Sprintf", s.lit(sel+"%s"), s.local("v")))))
	})
	x.check(c, "query", cases)
}

func (x *args38) values(c *Ctx) {
	var cases []case38
	add := func(id, what string, want bool, f func(s *scene) *Term) {
		cases = append(cases, case38{id, what, one38(f), bOf(want)})
	}
	// G403
	for _, k := range []struct {
		bits string
		want bool
	}{{"512", true}, {"1024", true}, {"2047", true}, {"2048", false}, {"3072", false}, {"4096", false}, {"0x400", true}} {
		k := k
		add("G403", "a key of "+k.bits+" bits", k.want, func(s *scene) *Term { return s.call("crypto/rsa", "GenerateKey", s.local("r"), s.num(k.bits)) })
		add("G403", "a multi-prime key of "+k.bits+" bits", k.want, func(s *scene) *Term {
			return s.call("crypto/rsa", "GenerateMultiPrimeKey", s.local("r"), s.num("3"), s.num(k.bits))
		})
	}
	add("G403", "a key of unknown size", false, func(s *scene) *Term { return s.call("crypto/rsa", "GenerateKey", s.local("r"), s.local("n")) })
	// G102
	for _, k := range []struct {
		addr string
		want bool
	}{{"0.0.0.0:80", true}, {"0.0.0.0", true}, {":2000", true}, {":", true}, {"127.0.0.1:80", false}, {"localhost:80", false}, {"[::1]:80", false}, {"10.0.0.0:80", false}} {
		k := k
		for _, pkg := range []string{"net", "crypto/tls"} {
			pkg := pkg
			add("G102", pkg+" on "+k.addr, k.want, func(s *scene) *Term { return s.call(pkg, "Listen", s.lit("tcp"), s.lit(k.addr), s.local("c")) })
			add("G102", pkg+" on a variable set to "+k.addr, k.want, func(s *scene) *Term {
				return s.call(pkg, "Listen", s.lit("tcp"), s.local("a", s.lit(k.addr)), s.local("c"))
			})
		}
	}
	add("G102", "the network looks like an address", false, func(s *scene) *Term { return s.call("net", "Listen", s.lit(":80"), s.lit("127.0.0.1:80")) })
	for _, k := range []struct {
		addr string
		want bool
	}{{":80", true}, {"0.0.0.0:80", true}, {"127.0.0.1:80", false}} {
		k := k
		add("G102", "on the results of a call given "+k.addr, k.want, func(s *scene) *Term {
			return s.call("net", "Listen", s.node("CallExpr", "Fun", s.ident("parse"), "Args", []*Term{s.lit("x"), s.lit(k.addr)}))
		})
		add("G102", "on the results of a call given a variable set to "+k.addr, k.want, func(s *scene) *Term {
			return s.call("net", "Listen", s.node("CallExpr", "Fun", s.ident("parse"), "Args", []*Term{s.local("a", s.lit(k.addr))}))
		})
	}
	add("G102", "another call", false, func(s *scene) *Term { return s.call("net", "Dial", s.lit("tcp"), s.lit(":80")) })
	add("G102", "on a variable of unknown value", false, func(s *scene) *Term { return s.call("net", "Listen", s.lit("tcp"), s.local("a")) })
	// G303
	for _, k := range []struct {
		path string
		want bool
	}{{"/tmp/x", true}, {"/tmp", true}, {"/usr/tmp/x", true}, {"/var/tmp/x/y", true}, {"/tmpfile", false}, {"/home/tmp/x", false}, {"tmp/x", false}, {"/x/tmp/", false}} {
		k := k
		for _, f := range []struct{ pkg, name string }{{"os", "Create"}, {"os", "WriteFile"}, {"io/ioutil", "WriteFile"}} {
			f := f
			add("G303", f.pkg+"."+f.name+" of "+k.path, k.want, func(s *scene) *Term { return s.call(f.pkg, f.name, s.lit(k.path), s.local("d")) })
		}
		add("G303", "joined from "+k.path, k.want, func(s *scene) *Term {
			return s.call("os", "Create", s.call("path/filepath", "Join", s.lit(k.path), s.local("v")))
		})
		add("G303", "put together from "+k.path, k.want, func(s *scene) *Term { return s.call("os", "Create", s.add(s.lit(k.path), s.local("v"))) })
	}
	add("G303", "in the directory for temporary files", true, func(s *scene) *Term {
		return s.call("os", "Create", s.call("path/filepath", "Join", s.call("os", "TempDir"), s.lit("x")))
	})
	add("G303", "put together from the directory for temporary files", true, func(s *scene) *Term { return s.call("os", "Create", s.add(s.call("os", "TempDir"), s.lit("/x"))) })
	add("G303", "of a variable", false, func(s *scene) *Term { return s.call("os", "Create", s.local("v")) })
	add("G303", "another argument", false, func(s *scene) *Term { return s.call("os", "WriteFile", s.lit("/home/x"), s.lit("/tmp/x")) })
	add("G303", "a later part", false, func(s *scene) *Term {
		return s.call("os", "Create", s.call("path/filepath", "Join", s.lit("/home"), s.lit("/tmp/x")))
	})
	// G111
	for _, k := range []struct {
		pkg, name, path string
		want            bool
	}{{"net/http", "Dir", "/", true}, {"net/http", "Dir", "/srv", false}, {"net/http", "Dir", "", false}, {"net/http", "FS", "/", false}, {"example/other", "Dir", "/", false}} {
		k := k
		add("G111", k.pkg+"."+k.name+" of "+k.path, k.want, func(s *scene) *Term { return s.call(k.pkg, k.name, s.lit(k.path)) })
	}
	x.check(c, "value", cases)
}

// resolved: what can be resolved.
func (x *args38) resolved(c *Ctx) {
	p := x.p
	root := p.Func("", "TryResolve")
	if root == nil {
		panic(undecided{"TryResolve not found"})
	}
	// the functions that decide a node
	seen := map[*ssa.Function]bool{}
	var deciders []*ssa.Function
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || !p.InModule(fn) {
			return
		}
		seen[fn] = true
		ps := fn.Params
		if fn.Signature.Recv() != nil {
			ps = ps[1:]
		}
		if len(ps) > 0 && fn.Signature.Results().Len() == 1 && isBasicBool(fn.Signature.Results().At(0).Type()) && strings.HasSuffix(ps[0].Type().String(), "go/ast.Node") {
			deciders = append(deciders, fn)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					visit(call.Common().StaticCallee())
				}
			}
		}
	}
	visit(root)
	inner := deciders[len(deciders)-1]
	pos := p.Pos(inner.Pos())
	isDecider := func(fn any) bool {
		for _, d := range deciders {
			if any(d) == fn {
				return true
			}
		}
		return false
	}
	if inner != root {
		g := NewGate(p)
		g.noInline(inner)
		r := g.Run(root)
		t := r.Rets[0].single()
		k := 0
		if inner.Signature.Recv() != nil {
			k = 1
		}
		c.Check(t != nil && strip(t).Op == "call" && strip(t).Obj == any(inner) && strip(strip(t).Args[k]) == gparam(root, 0), "resolved", "TryResolve asks for its node", p.Pos(root.Pos()), brief(r.Rets[0].String()))
	}
	part := func(s *scene, name string) *Term {
		t := s.node("Ident", "Name", name, "Obj", nil)
		s.known[s.ptrOf(t)] = knownSym(name)
		return t
	}
	all := func(names ...string) BDD {
		b := bT
		for _, n := range names {
			b = bAnd(b, knownSym(n))
		}
		return b
	}
	list := func(kind, field string, n int) func(s *scene) *Term {
		return func(s *scene) *Term {
			els := []*Term{}
			for i := 0; i < n; i++ {
				els = append(els, part(s, fmt.Sprint("part", i)))
			}
			if kind == "AssignStmt" || kind == "ValueSpec" {
				names := []*Term{s.ident("x")}
				if kind == "AssignStmt" {
					return s.node(kind, field, els, "Lhs", names)
				}
			}
			return s.node(kind, field, els)
		}
	}
	variable := func(decl func(s *scene) *Term) func(s *scene) *Term {
		return func(s *scene) *Term { return s.node("Ident", "Name", "x", "Obj", s.object(objVar, decl(s))) }
	}
	for _, k := range []struct {
		what  string
		build func(s *scene) *Term
		want  BDD
	}{
		{"a literal", func(s *scene) *Term { return s.node("BasicLit", "Value", "1") }, bT},
		{"a call", func(s *scene) *Term {
			return s.node("CallExpr", "Fun", part(s, "part0"), "Args", []*Term{part(s, "part1")})
		}, bF},
		{"a call without arguments", func(s *scene) *Term { return s.node("CallExpr", "Fun", part(s, "part0"), "Args", []*Term{}) }, bF},
		{"a sum", func(s *scene) *Term { return s.node("BinaryExpr", "X", part(s, "part0"), "Y", part(s, "part1")) }, all("part0", "part1")},
		{"a composite without parts", list("CompositeLit", "Elts", 0), bF},
		{"a composite of one part", list("CompositeLit", "Elts", 1), all("part0")},
		{"a composite of two parts", list("CompositeLit", "Elts", 2), all("part0", "part1")},
		{"a composite of three parts", list("CompositeLit", "Elts", 3), all("part0", "part1", "part2")},
		{"a declaration without values", list("ValueSpec", "Values", 0), bF},
		{"a declaration of one value", list("ValueSpec", "Values", 1), all("part0")},
		{"a declaration of two values", list("ValueSpec", "Values", 2), all("part0", "part1")},
		{"an assignment of nothing", list("AssignStmt", "Rhs", 0), bF},
		{"an assignment of one value", list("AssignStmt", "Rhs", 1), all("part0")},
		{"an assignment of two values", list("AssignStmt", "Rhs", 2), all("part0", "part1")},
		{"an assignment of three values", list("AssignStmt", "Rhs", 3), all("part0", "part1", "part2")},
		{"a constant", func(s *scene) *Term { return s.node("Ident", "Name", "k", "Obj", s.object(objCon, nil)) }, bT},
		{"a variable", variable(func(s *scene) *Term { return part(s, "part0") }), all("part0")},
		{"a variable without declaration", variable(func(s *scene) *Term { return nil }), bF},
		{"a selector", func(s *scene) *Term { return s.node("SelectorExpr", "X", part(s, "part0"), "Sel", part(s, "part1")) }, bF},
		{"an element", func(s *scene) *Term { return s.node("IndexExpr", "X", part(s, "part0"), "Index", part(s, "part1")) }, bF},
		{"a function", func(s *scene) *Term { return s.node("FuncLit") }, bF},
		{"a parameter", variable(func(s *scene) *Term { return s.node("Field", "Type", part(s, "part0")) }), bF},
	} {
		k := k
		c.Guard("resolved", k.what, func() {
			g := NewGate(p)
			g.Concrete = true
			g.noInline(deciders...)
			var s *scene
			g.Hook = func(t *Term) *Term {
				if s == nil {
					return nil
				}
				switch {
				case t.Op == "call" && isDecider(t.Obj):
					fn := t.Obj.(*ssa.Function)
					i := 0
					if fn.Signature.Recv() != nil {
						i = 1
					}
					if b, ok := s.known[s.ptrOf(t.Args[i])]; ok {
						return bTerm(b)
					}
					if n := s.ptrOf(t.Args[i]); n.Op == "sym" && strings.HasPrefix(symName(n), "Field") {
						return mkBool(false)
					}
				case t.Op == "has":
					// the first time a variable is met
					return mkBool(false)
				}
				return notNil(t)
			}
			s = newScene(p, GMem{})
			node := k.build(s)
			var args []GV
			for i, q := range inner.Params {
				if strings.HasSuffix(q.Type().String(), "go/ast.Node") {
					args = append(args, gvT(node))
				} else {
					args = append(args, gvT(gparam(inner, i)))
				}
			}
			rets, retG, _ := g.frame(inner, nil, nil, args, nil, "resolve", s.mem, 0)
			got := bAnd(retG, boolOf(rets[0]))
			c.Check(got == k.want, "resolved", k.what, pos, "is resolved when "+bString(got)+"; has to be when "+bString(k.want))
			for _, e := range g.Events {
				if e.Kind == "mapstore" {
					b := bAnd(e.G, boolOf(e.Args[2]))
					ok, d := implies(b, k.want)
					c.Check(ok, "resolved", k.what+" is remembered", p.InstrPos(e.Ins), d)
				}
			}
		})
	}
}

func isBasicBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
