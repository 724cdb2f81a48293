package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// debugGate prints what the gated evaluation derives for one function.
// usage: checker gate <pkg> <func | Type.Method> [noinline-substr...]
func debugGate(p *Program, args []string) {
	var fn *ssa.Function
	rel := args[0]
	if rel == "." {
		rel = ""
	}
	if i := strings.Index(args[1], "."); i >= 0 {
		fn = p.Method(rel, args[1][:i], args[1][i+1:])
	} else {
		fn = p.Func(rel, args[1])
	}
	if fn == nil {
		for _, f := range p.Funcs {
			if strings.HasSuffix(FuncName(f), args[1]) {
				fn = f
			}
		}
	}
	if fn == nil {
		fmt.Println("not found")
		return
	}
	g := NewGate(p)
	no := args[2:]
	g.Inline = func(f *ssa.Function) bool {
		if !p.InModule(f) {
			return false
		}
		for _, s := range no {
			if s == "-" || strings.Contains(FuncName(f), s) {
				return false
			}
		}
		return true
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				fmt.Println("UNDECIDED:", u.msg)
				return
			}
			panic(r)
		}
	}()
	res := g.Run(fn)
	for _, e := range g.Events {
		fmt.Printf("EVENT %s %s %s\n   when %s\n", e.Kind, e.Name, p.InstrPos(e.Ins), bString(e.G))
		if len(e.Recv.L) > 0 {
			fmt.Printf("   recv %s\n", e.Recv)
		}
		as := e.Args
		for i, a := range as {
			fmt.Printf("   arg%d %s\n", i, a)
		}
		if e.VarOK {
			for i, a := range e.Var {
				fmt.Printf("   var%d %s\n", i, a)
			}
		}
		for _, l := range e.Loops {
			fmt.Printf("   over %s\n", l)
		}
	}
	fmt.Printf("RETURNS when %s\n", bString(res.RetG))
	for i, r := range res.Rets {
		fmt.Printf("  %d: %s\n", i, r)
	}
}
func debugMain(p *Program, names []string) {
	m := p.mainModel()
	for _, n := range names {
		for _, e := range m.calls(n) {
			fmt.Println("EVENT", n, p.InstrPos(e.Ins), "when", bString(e.G))
			if len(e.Recv.L) > 0 {
				fmt.Println("  recv", e.Recv)
			}
			for i, a := range e.Args {
				fmt.Println("  arg", i, a)
			}
			if e.VarOK {
				for i, a := range e.Var {
					fmt.Println("  var", i, a)
				}
			}
			for _, l := range e.Loops {
				fmt.Println("  over", l)
			}
		}
	}
}
