package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C11", checkC11) }

// neverFails: the error result of these calls is documented to be always nil, or the destination is
// the diagnostic stream.
func neverFails(g *Gate, e *GEvent) bool {
	n := e.Name
	switch {
	case strings.HasPrefix(n, "(*strings.Builder)."), strings.HasPrefix(n, "(*bytes.Buffer).Write"), strings.HasPrefix(n, "fmt.Print"), n == "flag.Set",
		strings.HasPrefix(n, "(hash.Hash)."),
		n == "(*encoding/csv.Writer).Write": // remembered and returned by Error, which rule flush asks for
		return true
	case strings.HasPrefix(n, "fmt.Fprint"):
		for _, a := range e.Args[0].L {
			w := strip(a.t)
			ts := ""
			if w.Typ != nil {
				ts = types.TypeString(w.Typ, nil)
			}
			if ts == "*strings.Builder" || ts == "*bytes.Buffer" || isStderr(w) {
				continue
			}
			return false
		}
		return true
	}
	return false
}

// readOnlyFile: the receiver of a Close is a file that was only opened for reading.
func readOnlyFile(g *Gate, e *GEvent) bool {
	if e.Name != "(*os.File).Close" && e.Name != "(io.Closer).Close" {
		return false
	}
	ok := len(e.Args) > 0
	for _, a := range append(append([]gl{}, e.Recv.L...), firstArg(e).L...) {
		t := strip(a.t)
		found := false
		for _, o := range g.Events {
			if o.Kind == "call" && o.Name == "os.Open" && res(o, 0) == t {
				found = true
			}
		}
		ok = ok && (found || t.Op == "nil")
	}
	return ok
}

func firstArg(e *GEvent) GV {
	if len(e.Args) == 0 {
		return GV{}
	}
	return e.Args[0]
}

// errorFlow checks that the failure of every step makes the function fail. ctx is the condition
// under which the function comes to its end, failed the condition that it reported a failure.
func errorFlow(c *Ctx, rule, label string, g *Gate, failed BDD, skip func(*GEvent) bool) int {
	n := 0
	for _, e := range g.Events {
		if (e.Kind != "call" && e.Kind != "defer") || e.G == bF || callSig(e) == nil {
			continue
		}
		sig := callSig(e)
		k := sig.Results().Len()
		if k == 0 || !isErrorType(sig.Results().At(k-1).Type()) {
			continue
		}
		if neverFails(g, e) || readOnlyFile(g, e) || skip != nil && skip(e) {
			continue
		}
		n++
		pos := c.P.InstrPos(e.Ins)
		if e.Kind == "defer" {
			c.Fail(rule, label+": "+shortName(e.Name), pos, "its error is dropped by defer")
			continue
		}
		bad := bF
		for _, a := range splitTerm(errOf(e), e.G) {
			bad = bOr(bad, bAnd(a.g, g.notNil(a.t)))
		}
		ok, d := implies(g.loopExists(e, bAnd(e.G, g.notNil(errOf(e)))), failed)
		if !ok {
			ok, d = implies(g.loopExists(e, bad), failed)
		}
		c.Check(ok, rule, label+": "+shortName(e.Name), pos, d)
	}
	return n
}

// buffered writers and what must follow to learn about their errors
var buffered = map[string][2]string{
	"encoding/csv.NewWriter":      {"(*encoding/csv.Writer).Flush", "(*encoding/csv.Writer).Error"},
	"bufio.NewWriter":             {"(*bufio.Writer).Flush", ""},
	"bufio.NewWriterSize":         {"(*bufio.Writer).Flush", ""},
	"text/tabwriter.NewWriter":    {"(*text/tabwriter.Writer).Flush", ""},
	"compress/gzip.NewWriter":     {"(*compress/gzip.Writer).Close", ""},
	"encoding/base64.NewEncoder":  {"(io.WriteCloser).Close", ""},
	"gopkg.in/yaml.v3.NewEncoder": {"(*gopkg.in/yaml.v3.Encoder).Close", ""},
	"encoding/xml.NewEncoder":     {"", ""},
	"io.Pipe":                     {"", ""},
	"encoding/json.NewEncoder":    {"", ""},
}

func bufferedDone(c *Ctx, label string, g *Gate, r *GResult, failed BDD) {
	for _, e := range g.Events {
		need, ok := buffered[e.Name]
		if !ok || e.Kind != "call" || need[0] == "" {
			continue
		}
		w := res(e, 0)
		flush, last := bF, -1
		errIdx, errG := -1, bF
		lastWrite := -1
		for i, x := range g.Events {
			if x.Kind != "call" && x.Kind != "defer" {
				continue
			}
			mine := false
			for _, a := range append(append([]gl{}, x.Recv.L...), firstArg(x).L...) {
				mine = mine || strip(a.t) == w
			}
			if !mine {
				continue
			}
			switch {
			case x.Name == "(*encoding/csv.Writer).WriteAll" && x.Kind == "call":
				// flushes and returns the error
				flush, last = bOr(flush, g.loopExists(x, x.G)), i
				errIdx, errG = i+1, bOr(errG, g.loopExists(x, x.G))
			case x.Name == need[0]:
				if x.Kind == "call" {
					flush = bOr(flush, g.loopExists(x, x.G))
					last = i
				}
			case need[1] != "" && x.Name == need[1]:
				errIdx, errG = i, bOr(errG, g.loopExists(x, x.G))
			default:
				lastWrite = i
			}
		}
		pos := c.P.InstrPos(e.Ins)
		ok1, d := implies(bAnd(r.RetG, e.G), bOr(flush, failed))
		c.Check(ok1 && last > lastWrite, "flush", label+": "+e.Name+" is flushed after the last write", pos, d)
		if need[1] != "" {
			ok1, d = implies(bAnd(r.RetG, e.G), bOr(errG, failed))
			c.Check(ok1 && errIdx > last, "flush", label+": "+e.Name+" is asked for its error after flushing", pos, d)
		}
	}
}

// isStderr: the diagnostic stream.
func isStderr(t *Term) bool {
	return contains(t, func(x *Term) bool {
		gl, ok := x.Obj.(*ssa.Global)
		return ok && gl.Pkg != nil && gl.Pkg.Pkg.Path() == "os" && gl.Name() == "Stderr"
	})
}

// scanErr: a function that reads with a line scanner asks it for its error and returns it.
func scanErr(c *Ctx, fn *ssa.Function) {
	scan := false
	pos := ""
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(*ssa.Call); ok {
				if f := ci.Call.StaticCallee(); f != nil && funcQual(f) == "(*bufio.Scanner).Scan" {
					scan = true
					pos = c.P.InstrPos(ins)
				}
			}
		}
	}
	if !scan {
		return
	}
	c.Guard("scanner", FuncName(fn), func() {
		k := fn.Signature.Results().Len()
		if k == 0 || !isErrorType(fn.Signature.Results().At(k-1).Type()) {
			c.Fail("scanner", FuncName(fn), pos, "reads with a line scanner, which gives up on long lines, and cannot report it")
			return
		}
		g := NewGate(c.P)
		r := g.Run(fn)
		failed := bNot(g.eq(r.Rets[k-1], mkNil()))
		asked, bad := bF, bF
		for _, e := range g.Events {
			if e.Kind == "call" && e.Name == "(*bufio.Scanner).Err" {
				asked = bOr(asked, e.G)
				bad = bOr(bad, bAnd(e.G, g.notNil(errOf(e))))
			}
		}
		ok, d := implies(bAnd(r.RetG, bNot(failed)), asked)
		c.Check(ok, "scanner", FuncName(fn)+" asks the scanner for its error", pos, d)
		ok, d = implies(bad, failed)
		c.Check(ok, "scanner", FuncName(fn)+" returns the scanner's error", pos, d)
	})
}

func checkC11(c *Ctx) {
	p := c.P
	c.Rule("writer", "the failure of every step of a report writer is returned by it")
	c.Rule("flush", "buffered writers are flushed after the last write and asked for their error")
	c.Rule("dispatch", "CreateReport returns the error of the writer it chose")
	c.Rule("main", "the failure of every step of the command ends it with a non-zero status")
	c.Rule("config", "errors while reading and decoding the configuration are returned")
	c.Rule("scanner", "report text is not read through a line scanner that gives up on long lines")

	pkgs := []string{"report/json", "report/yaml", "report/csv", "report/junit", "report/html", "report/text", "report/golint", "report/sonar", "report/sarif"}
	for _, rel := range pkgs {
		c.Guard("writer", rel, func() {
			m := p.reportModel(rel, "WriteReport", nil)
			ev := m.errResult()
			if ev == nil {
				c.Fail("writer", rel, p.Pos(m.Fn.Pos()), "has no error result")
				return
			}
			g := m.G
			failed := bAnd(m.R.RetG, bNot(g.eq(*ev, mkNil())))
			n := errorFlow(c, "writer", rel, g, bOr(failed, bNot(m.R.RetG)), nil)
			c.Check(n > 0, "writer", rel+" steps that can fail", p.Pos(m.Fn.Pos()), fmt.Sprint(n))
			bufferedDone(c, rel, g, m.R, failed)
			// something is written whenever success is reported
			w := bF
			for _, e := range g.Events {
				if e.Kind != "call" {
					continue
				}
				u := false
				for _, a := range append(append([]GV{}, e.Args...), e.Recv) {
					for i, q := range m.Fn.Params {
						if types.TypeString(q.Type(), nil) == "io.Writer" {
							t := gparam(m.Fn, i)
							u = u || gvHas(a, func(x *Term) bool { return x == t })
						}
					}
				}
				if u {
					w = bOr(w, g.loopExists(e, e.G))
				}
			}
			ok, d := implies(bAnd(m.R.RetG, bNot(failed)), bOr(w, g.eq(g.lenOf(nil, m.Issues), mkInt(0))))
			c.Check(ok, "writer", rel+" reports success only after writing", p.Pos(m.Fn.Pos()), d)
		})
	}
	c.Guard("dispatch", "CreateReport", func() {
		m := p.createReportModel()
		g := m.G
		fn := p.Func("report", "CreateReport")
		ev := m.R.Rets[fn.Signature.Results().Len()-1]
		failed := bOr(bNot(m.R.RetG), bNot(g.eq(ev, mkNil())))
		n := errorFlow(c, "dispatch", "CreateReport", g, failed, nil)
		c.Check(n >= 9, "dispatch", "writers called", p.Pos(fn.Pos()), fmt.Sprint(n))
	})
	c.Guard("main", "main", func() {
		m := p.mainModel()
		g := m.G
		_, non, _ := m.endings(c, "main")
		out := map[*Term]bool{}
		for _, e := range m.calls("report.CreateReport") {
			for _, a := range e.Args[0].L {
				out[strip(a.t)] = true
			}
		}
		n := errorFlow(c, "main", "command", g, non, func(e *GEvent) bool {
			switch s := shortName(e.Name); {
			case strings.HasPrefix(s, "autofix."):
				return true // asking for suggestions never decides the outcome
			case s == "(gosec.Config).GetGlobal":
				// absence of an option is an answer; the mandatory ones are covered by C04
				return true
			case e.Name == "(*os.File).Close":
				for _, a := range append(append([]gl{}, e.Recv.L...), firstArg(e).L...) {
					if out[strip(a.t)] {
						return false
					}
				}
				return true
			}
			return false
		})
		c.Check(n >= 6, "main", "steps of the command that can fail", "-", fmt.Sprint(n))
		// the files named by options are opened by calls whose error is checked
		for _, fl := range []string{"out", "log", "conf"} {
			t := m.flagTerm(fl)
			found := false
			for _, e := range g.Events {
				if e.Kind == "call" && (e.Name == "os.Create" || e.Name == "os.Open" || e.Name == "os.OpenFile" || e.Name == "os.ReadFile") && len(e.Args) > 0 && e.Args[0].single() == t {
					found = true
					ok, d := implies(bAnd(e.G, g.notNil(errOf(e))), non)
					c.Check(ok, "main", "file of option -"+fl, p.InstrPos(e.Ins), d)
				}
			}
			c.Check(found, "main", "file of option -"+fl+" is opened", "-", "")
		}
		// the report file is closed, and the error of closing seen, whenever a report was saved
		for _, e := range m.calls("report.CreateReport") {
			w := strip(e.Args[0].term())
			if strings.Contains(w.String(), "Stdout") {
				continue
			}
			cl := bF
			for _, x := range m.calls("(*os.File).Close") {
				if x.Kind == "call" && strip(firstArg(x).term()) == w {
					cl = bOr(cl, x.G)
				}
			}
			ok, d := implies(e.G, bOr(cl, non))
			c.Check(ok, "main", "the report file is closed before the command ends", p.InstrPos(e.Ins), d)
		}
	})
	for _, fn := range []string{"ReadFrom", "WriteTo"} {
		c.Guard("config", "Config."+fn, func() {
			f := p.Method("", "Config", fn)
			if f == nil {
				panic(undecided{"Config." + fn + " not found"})
			}
			g := NewGate(p)
			r := g.Run(f)
			ev := r.Rets[f.Signature.Results().Len()-1]
			failed := bOr(bNot(r.RetG), bNot(g.eq(ev, mkNil())))
			n := errorFlow(c, "config", "Config."+fn, g, failed, nil)
			c.Check(n >= 2, "config", "Config."+fn+" steps that can fail", p.Pos(f.Pos()), fmt.Sprint(n))
		})
	}
	n := 0
	for _, pk := range append(pkgs, "report", "issue") {
		for _, fn := range p.PkgFuncs(pk) {
			n++
			scanErr(c, fn)
		}
	}
	c.OK("scanner", "functions searched", fmt.Sprint(n))
}
