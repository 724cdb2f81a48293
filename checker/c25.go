package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C25", checkC25) }

// devTools are commands for gosec's own development; no scan runs them.
var devTools = map[string]bool{"cmd/gosecutil": true, "cmd/tlsconfig": true, "testutils": true}

func relPath(pk *types.Package) string {
	if pk == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(pk.Path(), modPath), "/")
}

// extUse is one use of a function of another module or the standard library.
type extUse struct {
	Fn   *ssa.Function // nil: interface method
	Name string
	Pkg  string
	In   *ssa.Function
	Ins  ssa.Instruction
	Call *ssa.CallCommon // nil: used as a value
}

// externalUses lists every call and every mention of a function outside the module.
func (p *Program) externalUses(fs []*ssa.Function) []extUse {
	var out []extUse
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, _ := ins.(ssa.CallInstruction)
				if ci != nil && ci.Common().IsInvoke() {
					m := ci.Common().Method
					if m.Pkg() != nil && !strings.HasPrefix(m.Pkg().Path(), modPath) {
						out = append(out, extUse{nil, "(" + m.Pkg().Path() + ")." + m.Name(), m.Pkg().Path(), f, ins, ci.Common()})
					}
				}
				var ops []*ssa.Value
				for _, o := range ins.Operands(ops) {
					fn, ok := (*o).(*ssa.Function)
					if !ok || p.InModule(fn) || FuncPkg(fn) == nil {
						continue
					}
					u := extUse{fn, funcQual(fn), FuncPkg(fn).Path(), f, ins, nil}
					if ci != nil && ci.Common().Value == *o {
						u.Call = ci.Common()
					}
					out = append(out, u)
				}
			}
		}
	}
	return out
}

// harmlessPkgs: packages whose functions only compute, or read what they are given.
var harmlessPkgs = map[string]bool{
	"bufio": true, "bytes": true, "cmp": true, "container/heap": true, "container/list": true, "context": true,
	"embed": true, "encoding": true, "errors": true, "flag": true, "fmt": true, "go/ast": true, "go/constant": true,
	"go/parser": true, "go/scanner": true, "go/token": true, "go/types": true, "go/version": true, "go/printer": true, "go/format": true,
	"html": true, "html/template": true, "io": true, "io/fs": true, "iter": true, "maps": true, "math": true, "math/big": true, "math/bits": true,
	"os/user": true, "path": true, "path/filepath": true, "reflect": true, "regexp": true, "regexp/syntax": true,
	"runtime": true, "slices": true, "sort": true, "strconv": true, "strings": true, "sync": true, "sync/atomic": true,
	"text/tabwriter": true, "text/template": true, "time": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "log": true, "net/url": true,
	"hash": true, "hash/fnv": true, "crypto/sha256": true, "crypto/tls": true, "unsafe": true, "unique": true, "runtime/debug": true,
	"go/build":                                       true, // reads directories; may ask the go command about a package
	"github.com/ccojocar/zxcvbn-go":                  true,
	"github.com/google/uuid":                         true,
	"github.com/gookit/color":                        true,
	"gopkg.in/yaml.v3":                               true,
	"golang.org/x/mod/semver":                        true,
	"golang.org/x/text/cases":                        true,
	"golang.org/x/text/language":                     true,
	"golang.org/x/tools/go/packages":                 true, // package loading
	"golang.org/x/tools/go/ssa":                      true,
	"golang.org/x/tools/go/ssa/ssautil":              true,
	"golang.org/x/tools/go/analysis":                 true,
	"golang.org/x/tools/go/analysis/passes/buildssa": true,
	"golang.org/x/tools/go/types/typeutil":           true,
	"golang.org/x/tools/go/ast/astutil":              true,
	"golang.org/x/tools/go/ast/inspector":            true,
	"golang.org/x/tools/go/cfg":                      true,
}

// readOnly: functions of effectful packages which change nothing.
var readOnly = map[string]bool{
	"os.Open": true, "os.Stat": true, "os.Lstat": true, "os.ReadFile": true, "os.ReadDir": true, "os.Readlink": true, "os.Getenv": true, "os.LookupEnv": true, "os.Environ": true, "os.ExpandEnv": true,
	"os.Expand": true, "os.Getwd": true, "os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true, "os.Hostname": true, "os.UserHomeDir": true, "os.TempDir": true, "os.Executable": true, "os.DirFS": true, "os.Getpid": true, "os.IsPathSeparator": true, "os.SameFile": true, "os.Getuid": true,
	"(*os.File).Close": true, "(*os.File).Read": true, "(*os.File).ReadAt": true, "(*os.File).Stat": true, "(*os.File).Name": true, "(*os.File).Readdir": true, "(*os.File).ReadDir": true, "(*os.File).Readdirnames": true, "(*os.File).Seek": true, "(*os.File).Fd": true,
	"(*os.PathError).Error": true, "(os.FileMode).IsDir": true, "(os.FileMode).IsRegular": true, "(os.FileMode).Perm": true,
	"io/ioutil.ReadFile": true, "io/ioutil.ReadDir": true, "io/ioutil.ReadAll": true,
}

// ending: functions which end the process or the goroutine.
func endsProcess(u extUse) bool {
	switch u.Name {
	case "os.Exit", "syscall.Exit", "runtime.Goexit", "(*os.Process).Kill", "(*os.Process).Signal", "syscall.Kill":
		return true
	}
	if u.Pkg == "log" {
		i := strings.LastIndex(u.Name, ".")
		n := u.Name[i+1:]
		return strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic")
	}
	return false
}

func checkC25(c *Ctx) {
	p := c.P
	c.Rule("effects", "outside calls are to functions that only compute or read")
	c.Rule("files", "the only files opened for writing are the report and the log the user named")
	c.Rule("programs", "the only program started is the go command's module query, with fixed arguments")
	c.Rule("network", "network libraries are used by the suggestion feature only")
	c.Rule("ending", "only the command ends the process")
	c.Rule("globals", "no state of other packages is changed")
	var fs []*ssa.Function
	for _, f := range p.Funcs {
		if !devTools[relPath(FuncPkg(f))] && f.Name() != "init" {
			fs = append(fs, f)
		}
	}
	inCmd := func(f *ssa.Function) bool { return relPath(FuncPkg(f)) == cmdRel }
	outFiles := map[ssa.Instruction]bool{}
	c.Guard("files", "main", func() {
		m := p.mainModel()
		for _, e := range m.G.Events {
			if !opensForWriting(e.Name) {
				continue
			}
			outFiles[e.Ins] = true
			pos := p.InstrPos(e.Ins)
			ok := len(e.Args) > 0
			for _, x := range e.Args[0].L {
				if sat(bAnd(x.g, e.G)) == bF {
					continue
				}
				t := strip(x.t)
				if callName(t) == "path/filepath.Clean" {
					t = strip(t.Args[0])
				}
				ok = ok && (t == m.flagTerm("out") || t == m.flagTerm("log"))
			}
			c.Check(ok, "files", "main", pos, "the command writes the file "+e.Args[0].String())
			for _, x := range e.Args[0].L {
				if on := bAnd(x.g, e.G); sat(on) != bF {
					c.Check(sat(bAnd(on, m.G.eq1(strip(x.t), mkString("")))) == bF, "files", "named", pos, "a file may be written although none was named")
				}
			}
		}
	})
	for _, u := range p.externalUses(fs) {
		pos := p.InstrPos(u.Ins)
		who := FuncName(u.In)
		rel := relPath(FuncPkg(u.In))
		if endsProcess(u) {
			c.Check(inCmd(u.In), "ending", who, pos, who+" calls "+u.Name)
			continue
		}
		switch {
		case u.Name == "os/exec.Command" || u.Name == "os/exec.CommandContext":
			c.Check(u.Call != nil, "programs", who, pos, "the means to start programs is handed out")
			if u.Call != nil {
				c.Guard("programs", who, func() { checkProgram(c, u) })
			}
		case u.Pkg == "os/exec":
			n := u.Name[strings.LastIndex(u.Name, ".")+1:]
			ok := n == "Output" || n == "CombinedOutput" || n == "Run" || n == "Start" || n == "Wait" || n == "LookPath" || n == "Error" || n == "ExitCode" || n == "Unwrap" || n == "String" || n == "Environ"
			c.Check(ok, "programs", who, pos, who+" calls "+u.Name)
		case networkPkg(u.Pkg):
			c.Check(rel == "autofix", "network", who, pos, who+" uses "+u.Name)
		case opensForWriting(u.Name) && u.Call != nil && readOnlyOpen(u):
			c.OK("files", who, u.Name+" for reading")
		case opensForWriting(u.Name):
			c.Check(u.Call != nil && outFiles[u.Ins], "files", who, pos, who+" opens a file for writing: "+u.Name)
		case u.Pkg == "os" && strings.HasPrefix(u.Name, "(*os.File).") && inCmd(u.In):
			n := u.Name[len("(*os.File)."):]
			c.Check(readOnly[u.Name] || n == "Write" || n == "WriteString" || n == "Sync", "effects", who, pos, who+" calls "+u.Name)
		case readOnly[u.Name] || harmless(u):
			c.OK("effects", who, u.Name)
		default:
			c.Fail("effects", who, pos, who+" uses "+u.Name+", which is not known to be free of outside effects")
		}
	}
	// changes of other packages' state, explicit panics
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range ins.Operands(ops) {
					if k, ok := (*o).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						c.Check(!startsPrograms(constant.StringVal(k.Value)), "programs", FuncName(f), p.InstrPos(ins), "a flag that makes the go command run or change something: "+k.Value.String())
					}
				}
				switch x := ins.(type) {
				case *ssa.Store:
					if g := baseGlobal(x.Addr); g != nil {
						own := g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
						usage := inCmd(f) && g.RelString(nil) == "flag.Usage"
						if !own {
							c.Check(usage, "globals", FuncName(f), p.InstrPos(ins), FuncName(f)+" changes "+g.RelString(nil))
						}
					}
				case *ssa.MapUpdate:
					if g := baseGlobal(x.Map); g != nil && g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
						c.Fail("globals", FuncName(f), p.InstrPos(ins), FuncName(f)+" changes "+g.RelString(nil))
					}
				case *ssa.Panic:
					if k, ok := x.X.(*ssa.MakeInterface); ok {
						if s, ok := k.X.(*ssa.Const); ok && s.Value != nil && strings.Contains(s.Value.String(), "blocking select") {
							continue
						}
					}
					c.Check(inCmd(f), "ending", FuncName(f), p.InstrPos(ins), FuncName(f)+" panics")
				}
			}
		}
		c.Stat("functions", 1)
	}
	// packages imported for their effects
	for _, pk := range p.Pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")
		if devTools[rel] {
			continue
		}
		for path := range pk.Imports {
			if networkPkg(path) || path == "plugin" || path == "C" {
				c.Check(rel == "autofix", "network", rel, pk.PkgPath, "package "+pk.PkgPath+" imports "+path)
			}
		}
	}
	for _, r := range []string{"effects", "files", "programs", "network", "ending"} {
		c.Min(r, 1)
	}
	c.OK("globals", "module", "stores examined")
	c.Min("globals", 1)
}

// startsPrograms: build flags which make the go command start other programs or edit the module.
func startsPrograms(s string) bool {
	for _, x := range []string{"-toolexec", "-exec=", "-mod=mod", "-overlay"} {
		if strings.HasPrefix(s, x) || strings.HasPrefix(s, "-"+x) {
			return true
		}
	}
	return false
}

func networkPkg(path string) bool {
	if path == "net/url" {
		return false
	}
	return path == "net" || strings.HasPrefix(path, "net/") || strings.HasPrefix(path, "google.golang.org/") || strings.HasPrefix(path, "github.com/google/generative-ai-go") ||
		strings.HasPrefix(path, "cloud.google.com/") || strings.HasPrefix(path, "github.com/googleapis/") || strings.HasPrefix(path, "golang.org/x/net") || strings.HasPrefix(path, "golang.org/x/oauth2")
}

func opensForWriting(n string) bool {
	switch n {
	case "os.Create", "os.OpenFile", "os.WriteFile", "os.CreateTemp", "io/ioutil.WriteFile", "io/ioutil.TempFile":
		return true
	}
	return false
}

func readOnlyOpen(u extUse) bool {
	if u.Name != "os.OpenFile" {
		return false
	}
	k, ok := u.Call.Args[1].(*ssa.Const)
	return ok && k.Value != nil && k.Int64() == 0
}

func harmless(u extUse) bool {
	if strings.HasPrefix(u.Pkg, "encoding/") {
		return true
	}
	return harmlessPkgs[u.Pkg]
}

func baseGlobal(v ssa.Value) *ssa.Global {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// checkProgram: the command started is `go list -m -json`. If a helper gets it from its caller,
// the callers are looked at.
func checkProgram(c *Ctx, u extUse) {
	p := c.P
	todo := []*ssa.Function{u.In}
	seen := map[*ssa.Function]bool{u.In: true}
	for i := 0; i < len(todo) && i < 20; i++ {
		line, ok, known := programOf(p, todo[i], u)
		var callers []*ssa.Function
		if !known {
			callers = p.callersOf(todo[i])
			if todo[i].Parent() != nil {
				callers = append(callers, rootFunc(todo[i]))
			}
		}
		if len(callers) == 0 {
			c.Check(ok, "programs", FuncName(u.In), p.InstrPos(u.Ins), "the program started is "+line)
		}
		for _, f := range callers {
			if !seen[f] {
				seen[f] = true
				todo = append(todo, f)
			}
		}
	}
}

func programOf(p *Program, root *ssa.Function, u extUse) (line string, ok, known bool) {
	g := NewGate(p)
	if root != u.In {
		p.inlineTowards(g, u.Name)
	}
	g.Run(root)
	n := 0
	ok, known = true, true
	for _, e := range g.Events {
		if e.Ins != u.Ins {
			continue
		}
		n++
		k := 0
		if u.Name == "os/exec.CommandContext" {
			k = 1
		}
		var argv []string
		add := func(v GV) bool {
			t := v.single()
			if t == nil {
				return false
			}
			s, ok := constStr(strip(t))
			argv = append(argv, s)
			return ok
		}
		lit := add(e.Args[k]) && e.VarOK
		for _, v := range e.Var {
			lit = add(v) && lit
		}
		line = strings.Join(argv, " ")
		known = known && lit
		ok = ok && lit && len(e.Loops) == 0 && len(argv) >= 2 && argv[0] == "go" && (argv[1] == "list" && containsStr(argv, "-m") || argv[1] == "env" || argv[1] == "version")
		for _, a := range argv {
			if strings.HasPrefix(a, "-toolexec") || strings.HasPrefix(a, "-mod=mod") || a == "-w" || a == "-u" || a == "-exec" {
				ok = false
			}
		}
	}
	if n == 0 {
		return "not understood", false, false
	}
	return
}

func containsStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
