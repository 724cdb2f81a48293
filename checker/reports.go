package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// reportModel is the gated evaluation of one report generator over a symbolic list of findings.
type reportModel struct {
	P      *Program
	G      *Gate
	R      *GResult
	Fn     *ssa.Function
	Issues *Term // data.Issues
	El     *Term // a finding of the list
	Data   *Term
}

// reportModelWith leaves the named function of the package as an opaque call.
func (p *Program) reportModelWith(rel, fn, opaque string) *reportModel {
	return p.reportModelOpt(rel, fn, nil, func(f *ssa.Function) bool { return p.InModule(f) && f.Name() != opaque })
}

func (p *Program) reportModel(rel, fn string, keep func(*GEvent) bool) *reportModel {
	return p.reportModelOpt(rel, fn, keep, nil)
}

func (p *Program) reportModelOpt(rel, fn string, keep func(*GEvent) bool, inline func(*ssa.Function) bool) *reportModel {
	f := p.Func(rel, fn)
	if f == nil {
		panic(undecided{"no function " + fn + " in " + rel})
	}
	g := NewGate(p)
	g.KeepMem = keep
	g.PreInit = p.tablesOf(rel)
	if inline != nil {
		g.Inline = inline
	}
	m := &reportModel{P: p, G: g, Fn: f}
	for i, q := range f.Params {
		t := q.Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "ReportInfo" {
			m.Data = gparam(f, i)
		}
	}
	if m.Data == nil {
		panic(undecided{rel + "." + fn + " takes no report data"})
	}
	m.R = g.Run(f)
	m.Issues = g.ptrField(m.Data, "Issues")
	m.El = g.listElem(m.Issues, elemType(m.Issues.Typ))
	return m
}

// field of the finding.
func (m *reportModel) f(name string) *Term { return m.G.ptrField(m.El, name) }

// scoreText is the text of a score field of the finding.
func (m *reportModel) scoreText(name string) GV {
	return m.scoreTextOf(m.f(name))
}

func (m *reportModel) scoreTextOf(t *Term) GV {
	fn := m.P.Method("issue", "Score", "String")
	if fn == nil {
		panic(undecided{"issue.Score has no String method"})
	}
	g := NewGate(m.P)
	return g.Run(fn, gvT(t)).Rets[0]
}

// isScore: the value renders the score field (as text).
func (m *reportModel) isScoreText(v *Term, name string) bool {
	v = strip(v)
	return v == strip(m.scoreText(name).term())
}

// complete: the traversal of the findings never ends early unless an error is returned, and every
// finding is handled.
func (m *reportModel) complete(c *Ctx, rule, format string) {
	g := m.G
	errv := m.errResult()
	n := 0
	for _, e := range g.Events {
		if e.Kind != "earlystop" || stripRev(e.Args[0].term()) != m.Issues {
			continue
		}
		n++
		if errv == nil {
			c.Fail(rule, format+": traversal of the findings", m.P.InstrPos(e.Ins), "ends before the last finding when "+bString(e.G))
			continue
		}
		ok, d := implies(bAnd(e.G, m.R.RetG), bNot(g.eq(*errv, mkNil())))
		c.Check(ok, rule, format+": traversal of the findings", m.P.InstrPos(e.Ins), "ends early only with an error: "+d)
	}
	if n == 0 {
		c.OK(rule, format+": traversal of the findings", "no early end")
	}
}

func (m *reportModel) errResult() *GV {
	res := m.Fn.Signature.Results()
	if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
		return nil
	}
	v := m.R.Rets[res.Len()-1]
	return &v
}

// overIssues: the event happens inside exactly one traversal of the findings.
func (m *reportModel) overIssues(loops []*Term) bool {
	n := 0
	for _, l := range loops {
		l = stripRev(l)
		for l.Op == "comp" && isEmptyList(l.Args[0]) {
			l = stripRev(l.Args[1])
		}
		if l == m.Issues {
			n++
		}
	}
	return n == 1
}

// noErr: condition under which the generator completes for one finding: no failing step before.
func (m *reportModel) ownCond(e fwrite) BDD { return e.G }

func namedOf(p *Program, rel, name string) *types.Named {
	n := p.NamedType(rel, name)
	if n == nil {
		panic(undecided{"type " + rel + "." + name + " not found"})
	}
	return n
}

// reportData: the data of a report holds the findings, metrics and errors it was made from, and giving it a
// version changes nothing else.
func (p *Program) reportData(c *Ctx, rule string) {
	c.Guard(rule, "NewReportInfo", func() {
		fn := p.Func("", "NewReportInfo")
		g := NewGate(p)
		var args []GV
		byType := map[string]*Term{}
		for _, q := range fn.Params {
			s := mk("sym", "given "+q.Name(), "", q.Type())
			args = append(args, gvT(s))
			byType[q.Type().String()] = s
		}
		r := g.Run(fn, args...)
		t := r.Rets[0].single()
		if t == nil {
			c.Fail(rule, "NewReportInfo", p.Pos(fn.Pos()), "is not one report")
			return
		}
		check := func(what string, mem GMem, t *Term, pos token.Pos) {
			st := deref2(t.Typ).Underlying().(*types.Struct)
			n := 0
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				s, ok := byType[f.Type().String()]
				if !ok {
					continue
				}
				n++
				v := g.memField(mem, t, f.Name())
				c.Check(v.single() == s, rule, what+" "+f.Name(), p.Pos(pos), "is "+brief(v.String()))
			}
			c.Check(n == len(byType), rule, what, p.Pos(pos), fmt.Sprintf("%d of %d parts kept", n, len(byType)))
		}
		check("report data", r.Mem, t, fn.Pos())
		with := p.Method("", "ReportInfo", "WithVersion")
		v := mk("sym", "version", "", types.Typ[types.String])
		rets, _, mem := g.frame(with, nil, nil, []GV{gvT(t), gvT(v)}, nil, "version", r.Mem, 0)
		w := rets[0].single()
		if w == nil {
			c.Fail(rule, "report data with a version", p.Pos(with.Pos()), "is not one report")
			return
		}
		check("report data with a version", mem, w, with.Pos())
		got := g.memField(mem, w, "GosecVersion")
		c.Check(got.single() == v, rule, "version of the report", p.Pos(with.Pos()), "is "+brief(got.String()))
	})
}

// keptParts: every function that makes or completes a part of a report keeps all it is given.
func (p *Program) keptParts(c *Ctx, rule string, rels ...string) {
	for _, rel := range rels {
		c.Guard(rule, "constructors of "+rel, func() {
			n := 0
			for _, fn := range p.PkgFuncs(rel) {
				sg := fn.Signature
				if sg.Results().Len() != 1 || len(fn.Blocks) != 1 || fn.Parent() != nil || len(fn.Params) == 0 || FuncPkg(fn) == nil {
					continue
				}
				t := sg.Results().At(0).Type()
				nt, ok := deref2(t).(*types.Named)
				if !ok || nt.Obj().Pkg() != FuncPkg(fn) {
					continue
				}
				if _, ok := nt.Underlying().(*types.Struct); !ok {
					continue
				}
				g := NewGate(p)
				var args []GV
				var syms []*Term
				for _, q := range fn.Params {
					s := mk("sym", FuncName(fn)+" given "+q.Name(), "", q.Type())
					syms = append(syms, s)
					args = append(args, gvT(s))
				}
				r := g.Run(fn, args...)
				if len(r.Rets) != 1 {
					continue
				}
				n++
				for i, s := range syms {
					if i == 0 && sg.Recv() != nil {
						ok := true
						for _, a := range r.Rets[0].L {
							ok = ok && a.t == s
						}
						c.Check(ok, rule, FuncName(fn)+" returns what it completes", p.Pos(fn.Pos()), brief(r.Rets[0].String()))
						continue
					}
					kept := false
					seen := map[*Term]bool{}
					var has func(v GV)
					has = func(v GV) {
						for _, a := range v.L {
							if seen[a.t] || kept {
								continue
							}
							seen[a.t] = true
							kept = kept || deepContains(g.deComp(a.t), func(x *Term) bool { return x == s })
							if els, ok := g.sliceElems(r.Mem, a.t); ok && !kept {
								for _, e := range els {
									has(e)
								}
							}
							// and what it points to
							if a.t.Typ == nil {
								continue
							}
							if pt, isPtr := a.t.Typ.Underlying().(*types.Pointer); isPtr && structOf(pt) != nil {
								st := structOf(pt)
								for k := 0; k < st.NumFields() && !kept; k++ {
									has(g.memField(r.Mem, a.t, st.Field(k).Name()))
								}
							}
						}
					}
					has(r.Rets[0])
					c.Check(kept, rule, FuncName(fn)+" keeps "+fn.Params[i].Name(), p.Pos(fn.Pos()), "in its result")
				}
			}
			c.Stat("constructors of "+rel, n)
		})
	}
}
