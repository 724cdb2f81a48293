package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() { register("C27", checkC27) }

func checkC27(c *Ctx) {
	p := c.P
	c.Rule("names", "scores are ordered Low < Medium < High and print as LOW, MEDIUM, HIGH")
	c.Rule("json", "scores are encoded in JSON by their name")
	c.Rule("sarif-level", "SARIF levels: warning for low, error for medium and high")
	c.Rule("sonar", "SonarQube severities: MINOR, MAJOR, BLOCKER")
	c.Rule("no-swap", "severity and confidence are each shown as themselves")
	names := []string{"LOW", "MEDIUM", "HIGH"}
	var vals [3]int64
	c.Guard("names", "constants", func() {
		m := &mainModel{P: p}
		vals = m.scores()
		c.Check(vals[0] < vals[1] && vals[1] < vals[2], "names", "order of the score constants", "-", fmt.Sprintf("Low=%d Medium=%d High=%d", vals[0], vals[1], vals[2]))
	})
	st := namedOf(p, "issue", "Score")
	text := func(i int) string {
		g := NewGate(p)
		g.PreInit = p.tablesOf("issue")
		v := g.Run(p.Method("issue", "Score", "String"), gvT(mkConst(mkInt(vals[i]).C, st))).Rets[0].single()
		if v == nil {
			return "?"
		}
		s, _ := constStr(v)
		return s
	}
	c.Guard("names", "Score.String", func() {
		for i, n := range names {
			c.Check(text(i) == n, "names", "text of score "+n, p.Pos(p.Method("issue", "Score", "String").Pos()), "prints "+text(i))
		}
	})
	c.Guard("json", "Score.MarshalJSON", func() {
		fn := p.Method("issue", "Score", "MarshalJSON")
		if fn == nil {
			if mt := p.Method("issue", "Score", "MarshalText"); mt != nil {
				fn = mt
			} else {
				c.Fail("json", "Score encoding", "-", "scores have no JSON encoding of their own")
				return
			}
		}
		for i, n := range names {
			g := NewGate(p)
			g.PreInit = p.tablesOf("issue")
			r := g.Run(fn, gvT(mkConst(mkInt(vals[i]).C, st)))
			ok := false
			got := ""
			for _, e := range g.Events {
				if e.Kind == "call" && e.Name == "encoding/json.Marshal" {
					if s, isS := constStr(strip(e.Args[0].term())); isS {
						got = s
						ok = s == n && e.G == bT && res(e, 0) == r.Rets[0].single()
					}
				}
			}
			if v := r.Rets[0].single(); v != nil && !ok {
				if s, isS := constStr(strip(v)); isS {
					got = s
					ok = s == n || s == `"`+n+`"`
				}
			}
			c.Check(ok, "json", "JSON text of score "+n, p.Pos(fn.Pos()), "encodes "+got)
		}
	})
	type tab struct {
		rule, rel, fn string
		typ, field    string
		want          [3]string
	}
	for _, t := range []tab{
		{"sarif-level", "report/sarif", "GenerateReport", "Result", "Level", [3]string{"warning", "error", "error"}},
		{"sarif-level", "report/sarif", "GenerateReport", "ReportingConfiguration", "Level", [3]string{"warning", "error", "error"}},
		{"sonar", "report/sonar", "GenerateReport", "Issue", "Severity", [3]string{"MINOR", "MAJOR", "BLOCKER"}},
	} {
		c.Guard(t.rule, t.typ+"."+t.field, func() {
			m := p.reportModel(t.rel, t.fn, nil)
			ws := m.G.fieldWrites(namedOf(p, t.rel, t.typ), t.field)
			if len(ws) == 0 {
				c.Fail(t.rule, t.typ+"."+t.field, "-", "never set")
			}
			for _, w := range ws {
				for i, n := range names {
					v := m.G.fixValue(m.G.deCompGV(w.Val), m.f("Severity"), mkConst(mkInt(vals[i]).C, st))
					s := ""
					if x := v.single(); x != nil {
						s, _ = constStr(strip(x))
					}
					c.Check(s == t.want[i], t.rule, t.typ+"."+t.field+" for "+n, p.InstrPos(w.Ev.Ins), "becomes "+v.String())
				}
			}
		})
	}
	// nothing that is named after the severity shows the confidence and vice versa
	mentions := func(m *reportModel, t *Term, name string) bool {
		return m.mentions(t, name)
	}
	label := func(m *reportModel, what string, pos string, ps []piece) {
		for i := 1; i < len(ps); i++ {
			if ps[i].val == nil || ps[i-1].val != nil {
				continue
			}
			l := strings.ToLower(strings.TrimRight(ps[i-1].lit, ": ="))
			for _, pair := range [][2]string{{"severity", "Severity"}, {"confidence", "Confidence"}} {
				if strings.HasSuffix(l, pair[0]) {
					c.Check(mentions(m, ps[i].val, pair[1]), "no-swap", what+" after label "+pair[0], pos, "shows "+ps[i].val.String())
				}
			}
		}
	}
	c.Guard("no-swap", "sarif", func() {
		m := p.reportModel("report/sarif", "GenerateReport", nil)
		n := 0
		for _, e := range m.G.Events {
			if e.Kind == "mapstore" {
				if k, ok := constStr(strip(e.Args[1].term())); ok && k == "precision" {
					n++
					c.Check(mentions(m, e.Args[2].term(), "Confidence") && !mentions(m, e.Args[2].term(), "Severity"), "no-swap", "SARIF precision", p.InstrPos(e.Ins), "shows "+brief(e.Args[2].String()))
				}
			}
			if e.Kind == "call" && e.Name == "fmt.Sprintf" && e.VarOK {
				var as []*Term
				for _, v := range e.Var {
					as = append(as, v.term())
				}
				if ps, ok := flatPieces(e.Args[0].term(), as); ok {
					label(m, "SARIF help text", p.InstrPos(e.Ins), ps)
				}
			}
		}
		c.Check(n > 0, "no-swap", "SARIF precision is set", "-", fmt.Sprint(n))
	})
	c.Guard("no-swap", "golint", func() {
		m := p.reportModel("report/golint", "WriteReport", nil)
		for _, e := range m.G.Events {
			if e.Kind == "call" && (e.Name == "fmt.Fprintf" || e.Name == "fmt.Sprintf") && e.VarOK {
				var as []*Term
				for _, v := range e.Var {
					as = append(as, v.term())
				}
				f := e.Args[len(e.Args)-2].term()
				if ps, ok := flatPieces(f, as); ok {
					label(m, "golint line", p.InstrPos(e.Ins), ps)
				}
			}
		}
	})
	c.Guard("no-swap", "junit", func() {
		m := p.reportModel("report/junit", "GenerateReport", nil)
		for _, w := range m.G.fieldWrites(namedOf(p, "report/junit", "Failure"), "Text") {
			for _, a := range caseSplit(w.Val) {
				label(m, "JUnit text", p.InstrPos(w.Ev.Ins), pieces(a.t))
			}
		}
	})
	c.Guard("no-swap", "csv", func() {
		m := p.reportModel("report/csv", "WriteReport", func(e *GEvent) bool { return e.Name == "(*encoding/csv.Writer).Write" })
		for _, e := range gateCalls(m.G, "(*encoding/csv.Writer).Write") {
			es, ok := m.G.sliceElems(e.Mem, e.Args[1].term())
			if !ok || len(es) < 5 {
				c.Fail("no-swap", "CSV record", p.InstrPos(e.Ins), "the record's columns cannot be read off")
				continue
			}
			for i, f := range map[int]string{3: "Severity", 4: "Confidence"} {
				c.Check(m.isScore(es[i].term(), f), "no-swap", fmt.Sprintf("CSV column %d", i+1), p.InstrPos(e.Ins), "shows "+brief(es[i].String()))
			}
		}
	})
	c.Guard("no-swap", "struct tags", func() {
		st := structOf(namedOf(p, "issue", "Issue"))
		for f, want := range map[string]string{"Severity": "severity", "Confidence": "confidence"} {
			i := fieldIndex(st, f)
			if i < 0 {
				c.Fail("no-swap", "issue field "+f, "-", "missing")
				continue
			}
			tag := jsonName(st, i)
			c.Check(tag == want, "no-swap", "JSON key of "+f, p.Pos(st.Field(i).Pos()), "is "+tag)
		}
	})
	c.Guard("no-swap", "text template", func() {
		tp := p.embedded("report/text", ".txt")
		for _, pr := range templateLabels(tp) {
			for _, w := range []string{"Severity", "Confidence"} {
				if strings.HasSuffix(strings.ToLower(strings.TrimRight(pr[0], ": ")), strings.ToLower(w)) {
					c.Check(strings.Contains(pr[1], "."+w), "no-swap", "text template after label "+w, tp.path, "shows "+pr[1])
				}
			}
		}
	})
	c.Min("no-swap", 9)
}

// jsonName is the name a struct field has in JSON ("-" when omitted).
func jsonName(st *types.Struct, i int) string {
	tag := structTag(st.Tag(i), "json")
	n := strings.Split(tag, ",")[0]
	if n == "" {
		n = st.Field(i).Name()
	}
	return n
}
