package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Roles binds the private fields of the scanner to what they mean, by following the exported
// constructor and the exported report accessor instead of relying on their names.
type Roles struct {
	Analyzer                                                                                              *types.Named
	Recv                                                                                                  string
	IgnoreNosec, ShowIgnored, Track, Tests, ExclGen, Concurrency, Config, RuleSet, AnSet, Context, Logger *types.Var
	Issues, Stats, Errors                                                                                 *types.Var
}

func (p *Program) analyzerRoles() *Roles {
	r := &Roles{Analyzer: p.NamedType("", "Analyzer")}
	nf := p.Func("", "NewAnalyzer")
	rep := p.Method("", "Analyzer", "Report")
	if r.Analyzer == nil || nf == nil || rep == nil {
		panic(undecided{"exported scanner API (Analyzer, NewAnalyzer, Report) not found"})
	}
	e := NewEngine(p)
	isGE := p.Method("", "Config", "IsGlobalEnabled")
	e.Inline = func(fn *ssa.Function) bool { return p.InModule(fn) && fn != isGE && FuncPkg(fn).Path() == modPath }
	res := e.Run(nf)
	if res.Ret == nil {
		panic(undecided{"NewAnalyzer never returns"})
	}
	st := r.Analyzer.Underlying().(*types.Struct)
	params := nf.Params
	param := func(i int) *Term { return mk("param", params[i], "", params[i].Type()) }
	if len(params) < 6 {
		panic(undecided{"NewAnalyzer signature changed"})
	}
	for _, a := range alts(res.Ret) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			v := e.load(res.Mem, mk("fieldaddr", f, "", types.NewPointer(f.Type()), a))
			switch {
			case v == param(1):
				r.Tests = f
			case v == param(2):
				r.ExclGen = f
			case v == param(3):
				r.Track = f
			case v == param(0):
				r.Config = f
			default:
				has := func(s string) bool {
					return contains(v, func(t *Term) bool {
						if t.Op == "call" && t.Obj == any(isGE) {
							for _, a := range t.Args {
								if x, ok := constStr(strip(a)); ok && x == s {
									return true
								}
							}
						}
						return false
					})
				}
				hasP := func(i int) bool {
					return contains(v, func(t *Term) bool { return t == param(i) })
				}
				switch {
				case has("nosec"):
					r.IgnoreNosec = f
				case has("show-ignored"):
					r.ShowIgnored = f
				case hasP(4):
					r.Concurrency = f
				case hasP(5):
					r.Logger = f
				}
			}
			switch namedName(f.Type()) {
			case modPath + ".RuleSet":
				r.RuleSet = f
			case modPath + "/analyzers.AnalyzerSet":
				r.AnSet = f
			case modPath + ".Context":
				r.Context = f
			}
		}
	}
	res = NewEngine(p).Run(rep)
	if res.Ret == nil || res.Ret.Op != "tuple" || len(res.Ret.Args) != 3 {
		panic(undecided{"Report does not return three values"})
	}
	get := func(t *Term) *types.Var {
		if t.Op == "field" {
			return t.Obj.(*types.Var)
		}
		return nil
	}
	r.Issues, r.Stats, r.Errors = get(res.Ret.Args[0]), get(res.Ret.Args[1]), get(res.Ret.Args[2])
	return r
}

func namedName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, isNamed := types.Unalias(t).(*types.Named); !isNamed {
			t = p.Elem()
		}
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// isFieldOf reports whether t reads field f (of any object).
func isFieldOf(t *Term, f *types.Var) bool {
	return f != nil && t != nil && t.Op == "field" && t.Obj == any(f)
}

func isFieldAddrOf(t *Term, f *types.Var) bool {
	return f != nil && t != nil && t.Op == "fieldaddr" && t.Obj == any(f)
}
