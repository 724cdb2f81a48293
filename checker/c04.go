package main

import (
	"fmt"
	"strings"
)

func init() { register("C04", checkC04) }

// verdict of one way the command can end
type ending struct {
	e    *GEvent
	zero BDD
	non  BDD
}

func (m *mainModel) endings(c *Ctx, rule string) (zero, non BDD, all []ending) {
	zero, non = bF, bF
	for _, e := range m.G.Events {
		switch e.Kind {
		case "exit":
			x := ending{e: e, zero: bF, non: bF}
			cond := m.G.loopExists(e, e.G)
			if e.Name == "os.Exit" {
				for _, a := range e.Args[0].L {
					v, ok := constInt(a.t)
					if !ok {
						c.Fail(rule, "exit call", m.P.InstrPos(e.Ins), "exit status is not a constant: "+a.t.String())
						continue
					}
					if v == 0 {
						x.zero = bOr(x.zero, bAnd(cond, a.g))
					} else if v > 0 && v < 256 {
						x.non = bOr(x.non, bAnd(cond, a.g))
					} else {
						c.Fail(rule, "exit call", m.P.InstrPos(e.Ins), fmt.Sprintf("exit status %d", v))
					}
				}
			} else {
				x.non = cond
			}
			zero, non = bOr(zero, x.zero), bOr(non, x.non)
			all = append(all, x)
		case "panic":
			non = bOr(non, m.G.loopExists(e, e.G))
		}
	}
	return zero, non, all
}

func checkC04(c *Ctx) {
	c.Rule("verdict", "after a completed scan the exit status is non-zero exactly when no-fail is off and a kept finding is unsuppressed or a Go error was recorded")
	c.Rule("fatal", "when a required step fails, no path ends with status zero")
	c.Rule("zero", "status zero is only reached by the version option or after the scan was processed")
	c.Rule("only-fatal", "before the scan the command ends with a non-zero status only when a step failed, an option is invalid, or there are no arguments, no rules or no packages")
	c.Rule("reject", "no rules, no packages and no arguments end with a non-zero status")
	p := c.P
	c.Guard("verdict", "main", func() {
		m := p.mainModel()
		g := m.G
		zero, non, all := m.endings(c, "verdict")
		c.Stat("ways to end", len(all))
		// return of main is status zero
		proc := m.one("(*gosec.Analyzer).Process")
		report := m.one("(*gosec.Analyzer).Report")
		issues, errs := res(report, 0), res(report, 2)
		el := g.listElem(issues, elemType(callSig(report).Results().At(0).Type()))
		keep := m.keepCond(el)
		unsup := bAnd(g.eq(g.lenOf(nil, g.ptrField(el, "Suppressions")), mkInt(0)), bNot(bddOf(g.ptrField(el, "NoSec"))))
		bad := bOr(g.existsB(issues, bAnd(keep, unsup)), bNot(g.eq(g.lenOf(nil, errs), mkInt(0))))
		verdict := bAnd(bad, bNot(m.flagB("no-fail")))
		done := bAnd(proc.G, g.eq(gvT(errOf(proc)), mkNil()))
		if !c.Check(done != bF, "verdict", "scan reaches the report", p.InstrPos(proc.Ins), "processing can complete") {
			return
		}
		// atoms telling that a later required step failed
		var failing []*GEvent
		for _, e := range g.Events {
			// every later step that can fail, except asking for suggestions
			if e.Kind == "call" && errOf(e) != nil && bAnd(e.G, done) != bF && bAnd(e.G, bNot(done)) == bF && !strings.HasPrefix(shortName(e.Name), "autofix.") {
				failing = append(failing, e)
			}
		}
		anyFail := bF
		for _, e := range failing {
			anyFail = bOr(anyFail, g.loopExists(e, bAnd(e.G, g.notNil(errOf(e)))))
		}
		for _, x := range all {
			pos := p.InstrPos(x.e.Ins)
			z := bAnd(x.zero, done)
			if z != bF {
				ok, d := implies(z, bNot(verdict))
				c.Check(ok, "verdict", "status zero at exit #"+x.e.Name, pos, d)
			}
			n := bAnds(x.non, done, bNot(anyFail))
			if n != bF {
				ok, d := implies(n, verdict)
				c.Check(ok, "verdict", "status non-zero at exit #"+x.e.Name, pos, d)
			}
		}
		ok, d := implies(done, bOr(zero, non))
		if !ok {
			// main returned: status zero
			ok, d = implies(bAnd(done, bNot(bOr(zero, non))), bNot(verdict))
		}
		c.Check(ok, "verdict", "return from main", p.Pos(p.SPkg[modPath+"/"+cmdRel].Func("main").Pos()), d)
		ok, d = implies(bAnds(done, verdict, bNot(anyFail)), non)
		c.Check(ok, "verdict", "failing verdict is reported", p.InstrPos(proc.Ins), d)

		// fatal steps
		ret := bNot(bOr(zero, non))
		end0 := bOr(zero, ret)
		steps := []struct {
			name string
			min  int
		}{
			{"os.Create", 2}, {"os.Open", 1}, {"(*gosec.Config).ReadFrom|(gosec.Config).ReadFrom", 1}, {"(gosec.Config).GetGlobal", 2}, {"gosec.PackagePaths", 1},
			{"(*gosec.Analyzer).Process", 1}, {"gosec.RootPath", 1}, {"report.CreateReport", 2}, {"fmt.Errorf", 2},
		}
		for _, s := range steps {
			n := 0
			for _, e := range m.G.Events {
				if e.Kind != "call" || !nameIn(e.Name, s.name) {
					continue
				}
				er := errOf(e)
				if er == nil {
					continue
				}
				if s.name == "(gosec.Config).GetGlobal" && !m.errChecked(er) {
					continue // the configuration's option is only consulted for being empty
				}
				n++
				bad := g.loopExists(e, bAnd(e.G, g.notNil(er)))
				if s.name == "fmt.Errorf" {
					bad = g.loopExists(e, e.G)
				}
				ok, d := implies(bad, bNot(end0))
				c.Check(ok, "fatal", s.name+" failing", p.InstrPos(e.Ins), d)
			}
			if s.name == "(gosec.Config).GetGlobal" || s.name == "fmt.Errorf" {
				continue
			}
			c.Check(n >= 1, "fatal", s.name+" is called", "-", fmt.Sprintf("%d call sites", n))
		}
		// threshold names
		for _, n := range []string{"severity", "confidence"} {
			lower := m.lowerOf(n)
			if lower == nil {
				c.Fail("reject", "-"+n, "-", "the option's value is never normalised to lower case")
				continue
			}
			valid := bF
			for _, s := range []string{"low", "medium", "high"} {
				valid = bOr(valid, g.eq(gvT(lower), mkString(s)))
			}
			ok, d := implies(bAnd(end0, bNot(m.flagB("version"))), valid)
			c.Check(ok, "reject", "invalid -"+n, "-", d)
		}
		ok, d = implies(end0, bOr(m.flagB("version"), done))
		c.Check(ok, "zero", "status zero", "-", d)

		// nothing to do
		nargs := bNot(g.eq(g.lenOf(nil, mk("call", flagArgs(p), "", nil)), mkInt(0)))
		ok, d = implies(bAnds(bNot(nargs), bNot(m.flagB("r")), bNot(m.flagB("version"))), non)
		c.Check(ok, "reject", "no arguments without -r", "-", d)
		ok, d = implies(proc.G, bOr(m.nonEmptyRules("rules.Generate", "Rules"), m.nonEmptyRules("analyzers.Generate", "Analyzers")))
		c.Check(ok, "reject", "no rules and no analyzers", p.InstrPos(proc.Ins), d)
		pk := proc.Args[len(proc.Args)-1]
		empty := bF
		for _, a := range pk.L {
			empty = bOr(empty, bAnd(a.g, g.eq(g.lenOf(nil, a.t), mkInt(0))))
		}
		// nothing else ends the command before the scan
		valid := bT
		for _, n := range []string{"severity", "confidence"} {
			lower := m.lowerOf(n)
			if lower == nil {
				continue
			}
			one := bF
			for _, s := range []string{"low", "medium", "high"} {
				one = bOr(one, g.eq(gvT(lower), mkString(s)))
			}
			valid = bAnd(valid, one)
		}
		fine := bAnds(valid, bOr(nargs, m.flagB("r")), bOr(m.nonEmptyRules("rules.Generate", "Rules"), m.nonEmptyRules("analyzers.Generate", "Analyzers")), bNot(empty))
		for _, x := range all {
			n := sat(bAnds(noErrors(bAnd(x.non, bNot(done))), fine))
			c.Check(n == bF, "only-fatal", "non-zero status before the scan at exit #"+x.e.Name, p.InstrPos(x.e.Ins), "when no step failed, and there are rules, packages and valid options: "+bString(n))
		}
		c.Check(bAnd(proc.G, empty) == bF, "reject", "no packages", p.InstrPos(proc.Ins), "processing is never started with an empty package list: "+bString(bAnd(proc.G, empty)))
	})
	c.Min("verdict", 4)
	c.Min("fatal", 8)
}

// errChecked: some condition of the run depends on the error value.
func (m *mainModel) errChecked(er *Term) bool {
	for _, e := range m.G.Events {
		if bHas(e.G, func(t *Term) bool { return t == er }) {
			return true
		}
	}
	return false
}

func nameIn(name, alts string) bool {
	n := shortName(name)
	for _, a := range splitBar(alts) {
		if a == n {
			return true
		}
	}
	return false
}

func splitBar(s string) []string {
	var out []string
	cur := ""
	for _, r := range s {
		if r == '|' {
			out = append(out, cur)
			cur = ""
			continue
		}
		cur += string(r)
	}
	return append(out, cur)
}

// keepCond: severity and confidence of a finding are at or above the requested ones.
func (m *mainModel) keepCond(el *Term) BDD {
	return bAnd(m.atLeast(el, "Severity", "severity"), m.atLeast(el, "Confidence", "confidence"))
}

// lowerOf: the lower-cased value of a string option.
func (m *mainModel) lowerOf(flag string) *Term {
	for _, e := range m.calls("strings.ToLower") {
		if a := e.Args[0].single(); a != nil && a == m.flagTerm(flag) {
			return e.Result
		}
	}
	return nil
}

// atLeast expresses "field >= requested level" by cases on the option's value.
func (m *mainModel) atLeast(el *Term, field, flag string) BDD {
	g := m.G
	lower := m.lowerOf(flag)
	if lower == nil {
		panic(undecided{"option -" + flag + " is never normalised to lower case"})
	}
	v := g.ptrField(el, field)
	r := bT
	for i, s := range []string{"low", "medium", "high"} {
		r = bIte(g.eq(gvT(lower), mkString(s)), g.geT(v, mkInt(m.scores()[i]), v.Typ), r)
	}
	return r
}

func (m *mainModel) nonEmptyRules(fn, field string) BDD {
	var e *GEvent
	proc := m.one("(*gosec.Analyzer).Process")
	for _, x := range m.calls(fn) {
		if bAnd(proc.G, bNot(x.G)) == bF {
			e = x
		}
	}
	if e == nil {
		panic(undecided{fn + " is not called on every path to the scan"})
	}
	r := res(e, 0)
	g := m.G
	l := g.anyField(r, field)
	return bNot(g.eq(g.lenOf(nil, l), mkInt(0)))
}
