package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C10", checkC10) }

// formatWriters maps each documented format name to the package of its writer.
var formatWriters = map[string]string{
	"json": "report/json", "yaml": "report/yaml", "csv": "report/csv", "junit-xml": "report/junit", "html": "report/html",
	"text": "report/text", "sonarqube": "report/sonar", "golint": "report/golint", "sarif": "report/sarif",
}

type createModel struct {
	P       *Program
	Fn      *ssa.Function
	G       *Gate
	R       *GResult
	Format  *Term
	Writer  *Term
	Data    *Term
	Roots   *Term
	Color   *Term
	Writers []*GEvent
}

func (p *Program) createReportModel() *createModel {
	fn := p.Func("report", "CreateReport")
	if fn == nil {
		panic(undecided{"report.CreateReport not found"})
	}
	m := &createModel{P: p, Fn: fn, G: NewGate(p)}
	isWriter := func(f *ssa.Function) bool {
		pk := FuncPkg(f)
		return f.Name() == "WriteReport" && pk != nil && strings.HasPrefix(pk.Path(), modPath+"/report/")
	}
	m.G.Inline = func(f *ssa.Function) bool { return p.InModule(f) && !isWriter(f) }
	m.G.KeepMem = func(e *GEvent) bool { return strings.HasSuffix(e.Name, ".WriteReport") }
	for i, q := range fn.Params {
		t := gparam(fn, i)
		switch {
		case types.TypeString(q.Type(), nil) == "string":
			m.Format = t
		case types.TypeString(q.Type(), nil) == "[]string":
			m.Roots = t
		case types.TypeString(q.Type(), nil) == "bool":
			m.Color = t
		case types.TypeString(q.Type(), nil) == "io.Writer":
			m.Writer = t
		case strings.HasSuffix(q.Type().String(), "ReportInfo"):
			m.Data = t
		}
	}
	if m.Format == nil || m.Roots == nil || m.Color == nil || m.Writer == nil || m.Data == nil {
		panic(undecided{"the parameters of report.CreateReport are not the expected ones"})
	}
	m.R = m.G.Run(fn)
	for _, e := range m.G.Events {
		if e.Kind == "call" && strings.HasSuffix(e.Name, ".WriteReport") {
			m.Writers = append(m.Writers, e)
		}
	}
	return m
}

func checkC10(c *Ctx) {
	p := c.P
	c.Rule("dispatch", "each format name is served by its own writer, and any other name by the text writer")
	c.Rule("suppressed", "JSON and SARIF writers get every finding, the others exactly the findings without suppressions")
	c.Rule("pure", "writing a report does not change the report data")
	c.Rule("print-save", "the printed and the saved report are chosen independently and made from the same data")
	c.Rule("colour", "a saved report has no colour codes")
	names := []string{}
	for n := range formatWriters {
		names = append(names, n)
	}
	sortStrings(names)
	p.reportData(c, "print-save")
	c.Guard("dispatch", "CreateReport", func() {
		m := p.createReportModel()
		g := m.G
		c.Check(len(m.Writers) >= 9, "dispatch", "format writers", p.Pos(m.Fn.Pos()), fmt.Sprintf("%d calls", len(m.Writers)))
		for _, n := range append(names, "?") {
			want := "report/text"
			lit := mkString("\x00no such format")
			if n != "?" {
				want = formatWriters[n]
				lit = mkString(n)
			}
			at := g.whenValue(m.Format, lit)
			tot := bF
			for _, e := range m.Writers {
				cond := at(e.G)
				if cond == bF {
					continue
				}
				got := strings.TrimSuffix(strings.TrimPrefix(e.Name, modPath+"/"), ".WriteReport")
				c.Check(got == want && sat(bAnd(tot, cond)) == bF && len(e.Loops) == 0, "dispatch", "writer for "+n, p.InstrPos(e.Ins), "is "+got)
				tot = bOr(tot, cond)
				// data
				keep := e.Mem
				var darg *Term
				for _, a := range e.Args {
					for _, x := range a.L {
						if x.t.Typ != nil && strings.HasSuffix(x.t.Typ.String(), "ReportInfo") {
							if at(x.g) != bF {
								darg = x.t
							}
						}
					}
				}
				if darg == nil {
					c.Fail("suppressed", "data given to the writer for "+n, p.InstrPos(e.Ins), "cannot be read off")
					continue
				}
				iss := g.fixValue(g.memField(keep, darg, "Issues"), m.Format, lit).possible(cond)
				all := g.ptrField(m.Data, "Issues")
				if want == "report/json" || want == "report/sarif" {
					c.Check(iss.single() == all, "suppressed", "findings given to the writer for "+n, p.InstrPos(e.Ins), brief(iss.String()))
				} else {
					t := iss.single()
					ok := t != nil && t.Op == "comp" && g.emptyAt(t.Args[0]) && t.Args[1] == all
					d := brief(iss.String())
					if ok {
						el := g.listElem(all, elemType(all.Typ))
						okc, dc := sameCond(condTerms[t], g.eq(g.lenOf(nil, g.ptrField(el, "Suppressions")), mkInt(0)))
						ok = okc && t.Args[2] == el
						d = dc
					}
					c.Check(ok, "suppressed", "findings given to the writer for "+n, p.InstrPos(e.Ins), d)
				}
				for _, f := range []string{"Errors", "Stats", "GosecVersion"} {
					v := g.fixValue(g.memField(keep, darg, f), m.Format, lit).possible(cond).single()
					c.Check(v == g.ptrField(m.Data, f), "pure", f+" given to the writer for "+n, p.InstrPos(e.Ins), "unchanged")
				}
				// writer, roots, colour
				hasArg := func(w *Term) bool {
					for _, a := range e.Args {
						if a.single() == w {
							return true
						}
					}
					return false
				}
				c.Check(hasArg(m.Writer), "dispatch", "output of the writer for "+n, p.InstrPos(e.Ins), "")
				if want == "report/sonar" || want == "report/sarif" {
					c.Check(hasArg(m.Roots), "dispatch", "roots given to the writer for "+n, p.InstrPos(e.Ins), "")
				}
				if want == "report/text" {
					c.Check(hasArg(m.Color), "colour", "colour setting given to the writer for "+n, p.InstrPos(e.Ins), "")
				}
			}
			c.Check(tot == bT, "dispatch", "a report is written for "+n, p.Pos(m.Fn.Pos()), bString(tot))
		}
		for _, e := range g.Events {
			if e.Kind == "store" || e.Kind == "mapstore" {
				for _, a := range e.Args[0].L {
					if contains(a.t, func(x *Term) bool { return x == m.Data }) {
						c.Fail("pure", "CreateReport changes the report data", p.InstrPos(e.Ins), brief(a.t.String()))
					}
				}
			}
		}
	})
	// no report writer changes the data or a finding
	for _, n := range names {
		rel := formatWriters[n]
		c.Guard("pure", rel, func() {
			bad := 0
			for _, fn := range p.PkgFuncs(rel) {
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						st, ok := ins.(*ssa.Store)
						if !ok {
							continue
						}
						fa, ok := st.Addr.(*ssa.FieldAddr)
						if !ok {
							if ia, ok := st.Addr.(*ssa.IndexAddr); ok && strings.Contains(ia.X.Type().String(), modPath+"/issue.Issue") {
								if _, isSlice := ia.X.Type().Underlying().(*types.Slice); isSlice {
									bad++
									c.Fail("pure", FuncName(fn)+" overwrites a list of findings", p.InstrPos(ins), ia.X.Type().String())
								}
							}
							continue
						}
						t := fa.X.Type().String()
						if (strings.HasSuffix(t, modPath+"/issue.Issue") || strings.HasSuffix(t, modPath+".ReportInfo") || strings.HasSuffix(t, modPath+".Metrics")) && !isLocalAlloc(fa.X) {
							bad++
							c.Fail("pure", FuncName(fn)+" changes "+t, p.InstrPos(ins), "")
						}
					}
				}
			}
			if bad == 0 {
				c.OK("pure", "package "+rel, fmt.Sprintf("%d functions", len(p.PkgFuncs(rel))))
			}
		})
	}
	c.Guard("colour", "text", func() {
		// without colour the functions given to the template return their text untouched
		fn := p.Func("report/text", "WriteReport")
		var colored []*ssa.Function
		for _, f := range p.PkgFuncs("report/text") {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if ci, ok := ins.(ssa.CallInstruction); ok {
						if cal := ci.Common().StaticCallee(); cal != nil && FuncPkg(cal) != nil && strings.Contains(FuncPkg(cal).Path(), "gookit/color") && f.Name() != "init" {
							colored = append(colored, f)
						}
					}
				}
			}
		}
		g := NewGate(p)
		g.Run(fn)
		color := gparam(fn, 2)
		for i, q := range fn.Params {
			if types.TypeString(q.Type(), nil) == "bool" {
				color = gparam(fn, i)
			}
		}
		n := 0
		for _, e := range g.Events {
			if e.Kind != "mapstore" {
				continue
			}
			n++
			for _, a := range e.Args[2].L {
				v := strip(a.t)
				isColor := contains(v, func(x *Term) bool {
					f, ok := x.Obj.(*ssa.Function)
					if !ok {
						return false
					}
					for _, cf := range colored {
						if cf == f {
							return true
						}
					}
					pk := FuncPkg(f)
					return pk != nil && strings.Contains(pk.Path(), "gookit/color")
				})
				if !isColor {
					c.OK("colour", "template function "+brief(e.Args[1].String()), "plain: "+brief(v.String()))
					continue
				}
				ok, d := implies(bAnd(e.G, a.g), bddOf(color))
				c.Check(ok, "colour", "template function "+brief(e.Args[1].String()), p.InstrPos(e.Ins), "coloured only when enabled: "+d)
			}
		}
		c.Check(n >= 4, "colour", "template functions", "-", fmt.Sprint(n))
	})
	c.Guard("print-save", "main", func() {
		m := p.mainModel()
		g := m.G
		rs := m.calls("report.CreateReport")
		var print, save []*GEvent
		created := map[*Term]bool{}
		for _, e := range m.calls("os.Create") {
			if e.Args[0].single() == m.flagTerm("out") {
				created[res(e, 0)] = true
			}
		}
		for _, e := range rs {
			w := strip(e.Args[0].term())
			if created[w] {
				save = append(save, e)
			} else if strings.Contains(w.String(), "Stdout") {
				print = append(print, e)
			} else {
				c.Fail("print-save", "report destination", p.InstrPos(e.Ins), brief(w.String()))
			}
		}
		c.Check(len(print) == 1 && len(save) == 1, "print-save", "one printed and one saved report", "-", fmt.Sprintf("%d printed, %d saved", len(print), len(save)))
		out, std := g.eq(gvT(m.flagTerm("out")), mkString("")), m.flagB("stdout")
		done := m.afterReport()
		// with -quiet nothing is written when there is nothing to say
		if len(print) == 1 {
			if ri := m.calls("gosec.NewReportInfo"); len(ri) == 1 {
				none := func(i int) BDD {
					return g.apply1(ri[0].Args[i], func(t *Term) GV { return gvBool(g.eq(g.lenOf(nil, t), mkInt(0))) }).bool()
				}
				ended := bNot(m.noQuietEnd())
				for _, x := range []struct {
					what string
					a, b BDD
				}{
					{"the command ends only with -quiet", ended, m.flagB("quiet")},
					{"the command ends only without findings", ended, none(0)},
					{"the command ends only without errors", ended, none(2)},
					{"the command ends with -quiet when there is nothing to report", bAnds(done, m.flagB("quiet"), none(0), none(2)), ended},
				} {
					ok, d := implies(x.a, x.b)
					c.Check(ok, "print-save", "before a report: "+x.what, p.InstrPos(ri[0].Ins), d)
				}
			}
		}
		for _, e := range print {
			cond, _ := m.normal(e)
			ok, d := sameCond(bAnd(cond, done), bAnds(done, bOr(out, std), m.noQuietEnd(), m.stepsBefore(e)))
			c.Check(ok, "print-save", "a report is printed", p.InstrPos(e.Ins), d)
			f := e.Args[1]
			verb := g.eq(gvT(m.flagTerm("verbose")), mkString(""))
			for _, a := range f.L {
				want := m.flagTerm("fmt")
				if sat(bAnd(a.g, verb)) == bF {
					want = m.flagTerm("verbose")
				}
				c.Check(a.t == want && (sat(bAnd(a.g, verb)) == bF || sat(bAnd(a.g, bNot(verb))) == bF), "print-save", "format of the printed report", p.InstrPos(e.Ins), brief(a.t.String())+" when "+bString(a.g))
			}
			c.Check(bOrGV(e.Args[2]) == m.flagB("color"), "colour", "colour of the printed report", p.InstrPos(e.Ins), brief(e.Args[2].String()))
		}
		for _, e := range save {
			cond, _ := m.normal(e)
			ok, d := sameCond(bAnd(cond, done), bAnds(done, bNot(out), m.noQuietEnd(), m.stepsBefore(e)))
			c.Check(ok, "print-save", "a report is saved", p.InstrPos(e.Ins), d)
			c.Check(e.Args[1].single() == m.flagTerm("fmt"), "print-save", "format of the saved report", p.InstrPos(e.Ins), brief(e.Args[1].String()))
			c.Check(bOrGV(e.Args[2]) == bF, "colour", "colour of the saved report", p.InstrPos(e.Ins), brief(e.Args[2].String()))
		}
		if len(print) == 1 && len(save) == 1 {
			a, b := print[0].Args[4].single(), save[0].Args[4].single()
			c.Check(a != nil && a == b, "print-save", "data of the two reports", p.InstrPos(save[0].Ins), "the same")
			c.Check(gvEq(print[0].Args[3], save[0].Args[3]), "print-save", "roots of the two reports", p.InstrPos(save[0].Ins), "the same")
		}
	})
	c.Min("dispatch", 20)
	c.Min("suppressed", 10)
}

func bOrGV(v GV) BDD { return v.bool() }

// afterReport: the scan was processed without error.
func (m *mainModel) afterReport() BDD {
	proc := m.one("(*gosec.Analyzer).Process")
	return bAnd(proc.G, m.G.eq(gvT(errOf(proc)), mkNil()))
}

func (m *mainModel) normal(e *GEvent) (BDD, bool) { return m.G.loopExists(e, e.G), true }

// noQuietEnd: the quiet option does not end the command before reports are written.
func (m *mainModel) noQuietEnd() BDD {
	done := m.afterReport()
	q := bF
	for _, e := range m.G.Events {
		if e.Kind == "exit" && e.Name == "os.Exit" && len(e.Args) > 0 && e.Args[0].single() == mkInt(0) && sat(bAnd(bAnd(e.G, done), m.flagB("quiet"))) != bF {
			first := true
			for _, r := range m.calls("report.CreateReport") {
				if sat(bAnd(e.G, r.G)) != bF {
					first = false
				}
			}
			if first {
				q = bOr(q, bAnd(e.G, done))
			}
		}
	}
	return bNot(q)
}

// stepsBefore: no earlier step after the scan failed.
func (m *mainModel) stepsBefore(e *GEvent) BDD {
	done := m.afterReport()
	fail := bF
	for _, x := range m.G.Events {
		if x == e {
			break
		}
		if x.Kind == "call" && errOf(x) != nil && bAnd(x.G, done) != bF && bAnd(x.G, bNot(done)) == bF && !strings.HasPrefix(shortName(x.Name), "autofix.") {
			fail = bOr(fail, m.G.loopExists(x, bAnd(x.G, m.G.notNil(errOf(x)))))
		}
	}
	return bNot(fail)
}

// isLocalAlloc: the value is a fresh object of this function.
func isLocalAlloc(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return isLocalAlloc(x.X)
	}
	return false
}
