package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C39", checkC39) }

// The same obligations as in the rules, for everything that happens around them: finding and loading packages,
// keeping findings and errors, and writing reports.
func checkC39(c *Ctx) {
	p := c.P
	c.Rule("nil", "what is dereferenced or called is there")
	c.Rule("index", "an index or a slice bound is within the list")
	c.Rule("kind", "an unchecked type assertion holds")
	c.Rule("recovered", "the library's construction of the SSA form, which gives up on some programs, is recovered from")
	c.Rule("other", "nothing is divided by zero or stored in a map which is not there")
	x := newPanics(c)
	around := map[string]bool{"": true, "issue": true, "cwe": true, "cmd/gosec": true}
	for _, pk := range p.Pkgs {
		if r := relPath(pk.Types); r == "report" || strings.HasPrefix(r, "report/") {
			around[r] = true
		}
	}
	here := func(f *ssa.Function) bool { return p.InModule(f) && around[relPath(FuncPkg(f))] }
	x.inline = func(root, h *ssa.Function) bool {
		if relPath(FuncPkg(h)) == "rules" && FuncPkg(h) == FuncPkg(root) {
			return true
		}
		if !here(h) || makesFinding(h) || h.Recover != nil {
			return false
		}
		if relPath(FuncPkg(root)) == "cmd/gosec" || relPath(FuncPkg(root)) == "report" {
			return FuncPkg(h) == FuncPkg(root) && len(h.Blocks) <= 6
		}
		return !x.sep[h] && FuncPkg(h) == FuncPkg(root)
	}
	for _, s := range separately {
		if fn := p.Func("", s); fn != nil {
			x.sep[fn] = true
		}
	}
	cweF, idF := p.FieldVar("issue", "Issue", "Cwe"), p.FieldVar("cwe", "Weakness", "ID")
	x.unset[cweF] = "a finding of a rule without a weakness"
	x.known = func(t *Term) bool {
		t = strip(t)
		switch {
		case t.Op == "call" && callName(t) == sub("cwe")+".Get":
			// the weakness of a finding is one of the catalogue, under its own number: C08
			id := unref(strip(t.Args[0]))
			return readsField(id, idF) && readsField(unref(strip(id.Args[0])), cweF)
		}
		return false
	}
	nilFinding := false
	for _, f := range p.PkgFuncs("analyzers") {
		if makesFinding(f) && f.Signature.Results().Len() == 1 && !strings.HasPrefix(f.Signature.Results().At(0).Type().String(), "[]") && x.resultNil(f, 0) {
			nilFinding = true
		}
	}
	x.absent = func(t *Term) string {
		if namedName(deref2(t.Typ)) != sub("issue")+".Issue" {
			return ""
		}
		switch {
		case t.Op == "elem" && strip(t.Args[0]).Op == "tassert" && nilFinding:
			return "a finding which cannot be located"
		case t.Op == "extract" && strip(t.Args[0]).Op == "call":
			if m, ok := strip(t.Args[0]).Obj.(*types.Func); ok && m.Name() == "Match" {
				return "a rule may find nothing"
			}
		}
		return ""
	}
	// what the library's analyzer makes is of the type it promises
	var promised func(v *Term, want string) bool
	promised = func(v *Term, want string) bool {
		v = strip(v)
		if isNilT(v) {
			return true
		}
		if v.Op == "gv" {
			for _, l := range gvTerms[v].L {
				if !promised(l.t, want) {
					return false
				}
			}
			return true
		}
		if v.Op != "extract" || strip(v.Args[0]).Op != "call" {
			return false
		}
		if fn, ok := strip(v.Args[0]).Obj.(*ssa.Function); ok && p.InModule(fn) {
			h, idx := x.done[fn], 0
			fmt.Sscan(fmt.Sprint(v.Obj), &idx)
			if h == nil || h.res == nil || idx >= len(h.res.Rets) {
				return false
			}
			for _, l := range h.res.Rets[idx].L {
				if !promised(l.t, want) {
					return false
				}
			}
			return true
		}
		return runsAnalyzer(v) == want
	}
	x.kindOf = func(x *panics, t *Term) bool {
		if ty, ok := t.Obj.(types.Type); ok && t.Op == "tassertok" {
			if n, ok := deref2(ty).(*types.Named); ok && n.Obj().Name() == "SSA" && n.Obj().Pkg() != nil {
				return promised(t.Args[0], n.Obj().Pkg().Path())
			}
		}
		return false
	}
	used := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok && h != f {
						used[h] = true
					}
				}
			}
		}
	}
	n := 0
	for rel := range around {
		for _, f := range p.PkgFuncs(rel) {
			if f.Parent() != nil || f.Synthetic != "" || !f.Object().Exported() && f.Name() != "main" {
				continue
			}
			if f.Name() != "main" && !used[f] && f.Signature.Recv() == nil {
				continue
			}
			n++
			x.want(f)
			for i := range f.Params {
				x.given[gparam(f, i)] = true
			}
		}
	}
	for _, d := range p.ruleTable("rules") {
		if d.Create != nil {
			x.want(d.Create)
		}
	}
	c.Check(n > 20, "nil", "functions", "-", "functions are judged")
	x.run()
	// the construction of the SSA form
	for _, f := range p.Funcs {
		h := x.done[f]
		if h == nil || h.g == nil {
			continue
		}
		for _, e := range h.g.Events {
			if e.Kind != "call" || e.Result == nil || !strings.HasSuffix(runsAnalyzer(e.Result), "/buildssa") {
				continue
			}
			c.Check(recovers(f, e.Ins), "recovered", FuncName(f), p.InstrPos(e.Ins), "a program which the library cannot handle ends the scan")
		}
	}
	c.Min("recovered", 1)
}

// runsAnalyzer is the package whose analyzer a call runs.
func runsAnalyzer(v *Term) string {
	own := ""
	contains(v, func(y *Term) bool {
		if g, ok := y.Obj.(*ssa.Global); ok && g.Pkg != nil && g.Name() == "Analyzer" {
			own = g.Pkg.Pkg.Path()
		}
		return false
	})
	return own
}

// recovers: a function which is deferred before the call recovers from panics.
func recovers(f *ssa.Function, at ssa.Instruction) bool {
	if f.Recover == nil || len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if d, ok := ins.(*ssa.Defer); ok && (at == nil || at.Parent() != f || b.Dominates(at.Block())) && recoversIn(d) {
				return true
			}
		}
	}
	return false
}

func recoversIn(d *ssa.Defer) bool {
	var h *ssa.Function
	switch v := d.Call.Value.(type) {
	case *ssa.Function:
		h = v
	case *ssa.MakeClosure:
		h, _ = v.Fn.(*ssa.Function)
	}
	if h == nil || len(h.Blocks) == 0 {
		return false
	}
	for _, b := range h.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Panic); ok {
				return false
			}
		}
	}
	for _, i := range h.Blocks[0].Instrs {
		if c, ok := i.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
				return true
			}
		}
	}
	return false
}

// readsField: the term reads the field, or is its address.
func readsField(t *Term, f *types.Var) bool {
	return (t.Op == "field" || t.Op == "fieldaddr") && t.Obj == any(f)
}
