package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C23", checkC23) }

// A deny-list is decided by asking the rule: its Match is evaluated for a call of one function of one package,
// where only the answer to "which function of which package is called" is fixed. What the rule has to
// cover follows from the types of the library.

// probe is what a rule is told about the node it looks at.
type probe struct {
	path string // the package called into
	name string // the function, type or method called
	sel  string // for a method: the type of the receiver
	lit  string // the literal of an import
	typ  string // the type of the expression
}

type answer struct {
	reports   bool
	remembers bool         // it keeps an object to look for later
	reads     map[int]bool // arguments of the call that are looked at; -1 the last
	texts     []string     // descriptions of what is reported
	why       string
}

type lister struct {
	p     *Program
	infos *ssa.Function
	paths *ssa.Function
	names *ssa.Function
	pre   GMem
}

func newLister(p *Program) *lister {
	x := &lister{p: p, infos: p.Func("", "GetCallInfo"), paths: p.Func("", "GetImportPath"), names: p.Func("", "GetImportedNames")}
	if x.infos == nil || x.paths == nil || x.names == nil {
		panic(undecided{"GetCallInfo, GetImportPath or GetImportedNames not found"})
	}
	x.pre = p.tablesOf("rules")
	return x
}

// gate prepares an evaluation in which the node is what the probe says.
func (x *lister) gate(pr *probe) *Gate {
	p := x.p
	g := NewGate(p)
	g.noInline(x.infos, x.paths, x.names, p.Method("", "Context", "NewIssue"), p.Func("", "TryResolve"), p.Func("", "GetBinaryExprOperands"))
	g.UnrollMaps = true
	g.Unroll = 40
	g.PreInit = x.pre
	is := func(t *Term, fn *ssa.Function) bool { return t.Op == "call" && t.Obj == any(fn) }
	g.Hook = func(t *Term) *Term {
		switch t.Op {
		case "extract":
			if pr == nil {
				return nil
			}
			call := t.Args[0]
			i := fmt.Sprint(t.Obj)
			switch {
			case is(call, x.infos):
				// what is given to the call, or declared elsewhere, is another node
				if len(call.Args) > 0 && deepContains(call.Args[0], func(y *Term) bool {
					v, _ := y.Obj.(*types.Var)
					return v != nil && v.Pkg() != nil && v.Pkg().Path() == "go/ast" && (v.Name() == "Args" || v.Name() == "Obj" || v.Name() == "Decl")
				}) {
					return nil
				}
				switch i {
				case "0":
					if pr.sel != "" {
						return mkString(pr.sel)
					}
					return mkString("thepackage")
				case "1":
					return mkString(pr.name)
				case "2":
					return mkNil()
				}
			case is(call, x.paths) && len(call.Args) > 0:
				if s, ok := constStr(strip(call.Args[0])); ok && s == "thepackage" {
					if i == "0" {
						return mkString(pr.path)
					}
					return mkBool(pr.path != "")
				}
				if i == "1" {
					return mkBool(false)
				}
			case is(call, x.names) && len(call.Args) > 0:
				if s, ok := constStr(strip(call.Args[0])); ok && i == "1" && s != pr.path {
					return mkBool(false)
				}
			}
		case "field":
			v, _ := t.Obj.(*types.Var)
			if pr != nil && pr.lit != "" && v != nil && v.Name() == "Value" && v.Pkg() != nil && v.Pkg().Path() == "go/ast" {
				return mkString(pr.lit)
			}
		case "call":
			if pr != nil && pr.typ != "" && strings.HasSuffix(callName(t), ".String") && t.Typ != nil && types.Identical(t.Typ, types.Typ[types.String]) && len(t.Args) == 1 && x.isGoType(t.Args[0]) {
				return mkString(pr.typ)
			}
			for _, a := range t.Args {
				if !isConst(strip(a)) {
					return nil
				}
			}
			if len(t.Args) > 0 {
				if c, ok := newFolder(p, nil).fold(t).(constant.Value); ok {
					return mkConst(c, t.Typ)
				}
			}
		}
		return nil
	}
	return g
}

func (x *lister) isGoType(t *Term) bool {
	t = strip(t)
	if t.Typ == nil {
		return false
	}
	s := t.Typ.String()
	return strings.Contains(s, "go/types.")
}

// make evaluates the constructor of a rule.
func (x *lister) make(g *Gate, d ruleDef) (*Term, GMem) {
	r := g.Run(d.Create)
	rule := r.Rets[0].single()
	if rule == nil {
		panic(undecided{"the rule made is not one value"})
	}
	return strip(rule), r.Mem
}

// ask evaluates the rule for the node.
func (x *lister) ask(d ruleDef, pr probe) answer {
	p := x.p
	g := x.gate(&pr)
	g.KeepMem = nil
	rule, mem := x.make(g, d)
	fn := p.methodOf(rule.Typ, "Match")
	if fn == nil {
		panic(undecided{"the rule has no Match"})
	}
	g.Events = nil
	n, ctx := gparam(fn, 1), gparam(fn, 2)
	rets, retG, _ := g.frame(fn, nil, nil, []GV{gvT(rule), gvT(n), gvT(ctx)}, nil, "match", cloneMem(mem), 0)
	out := answer{reads: map[int]bool{}}
	flagged := bF
	for _, v := range rets[0].L {
		if isNilT(v.t) {
			continue
		}
		b := bAnd(v.g, retG)
		if b == bF {
			continue
		}
		flagged = bOr(flagged, b)
		contains(v.t, func(t *Term) bool {
			if s, ok := constStr(t); ok {
				out.texts = append(out.texts, s)
			}
			return false
		})
	}
	out.reports = flagged != bF
	conds := bSupport(flagged)
	for _, e := range g.Events {
		if e.G == bF {
			continue
		}
		if e.Kind == "mapstore" && len(e.Args) > 1 {
			k := e.Args[1].L
			if len(k) > 0 && k[0].t.Typ != nil && strings.HasSuffix(k[0].t.Typ.String(), "go/ast.Object") {
				out.remembers = true
			}
		}
		for _, a := range e.Args {
			for _, v := range a.L {
				conds = append(conds, v.t)
			}
		}
	}
	for _, t := range conds {
		deepContains(t, func(y *Term) bool {
			if i, ok := argIndex(y); ok {
				out.reads[i] = true
			}
			return false
		})
	}
	return out
}

// argIndex: the argument of a call expression that a term reads.
func argIndex(t *Term) (int, bool) {
	if t.Op != "index" && t.Op != "elem" && t.Op != "indexaddr" || len(t.Args) != 2 {
		return 0, false
	}
	l := unverT(strip(t.Args[0]))
	f, _ := l.Obj.(*types.Var)
	if l.Op != "field" || f == nil || f.Name() != "Args" || f.Pkg() == nil || f.Pkg().Path() != "go/ast" {
		return 0, false
	}
	if i, ok := constInt(strip(t.Args[1])); ok {
		return int(i), true
	}
	if lastArg(t) {
		return -1, true
	}
	return 0, false
}

// constants are the strings which a rule holds.
func (x *lister) constants(d ruleDef) []string {
	g := x.gate(nil)
	rule, mem := x.make(g, d)
	seen := map[string]bool{}
	in := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		deepContains(t, func(y *Term) bool {
			if y.Op == "alloc" {
				in[y] = true
			}
			if s, ok := constStr(y); ok {
				seen[s] = true
			}
			return false
		})
	}
	add(rule)
	done := map[*Term]bool{}
	for again := true; again; {
		again = false
		for a, v := range mem {
			if done[a] || !contains(a, func(y *Term) bool { return y.Op == "alloc" && in[y] }) {
				continue
			}
			done[a] = true
			again = true
			add(a)
			for _, w := range v.L {
				add(w.t)
			}
		}
	}
	// the constants which its Match compares with
	if fn := x.p.methodOf(rule.Typ, "Match"); fn != nil {
		for f := range x.p.reachableFrom(fn) {
			if FuncPkg(f) == nil || FuncPkg(f) != FuncPkg(fn) {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					for _, o := range ins.Operands(nil) {
						if c, ok := (*o).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
							if bo, is := ins.(*ssa.BinOp); is && bo.Op == token.EQL {
								seen[constant.StringVal(c.Value)] = true
							}
						}
					}
				}
			}
		}
	}
	var out []string
	for s := range seen {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// ---- the library ----

// listed is a function, type or method of the library.
type listed struct {
	path, name, sel string
	arg             int // the argument that decides; -2 none in particular
}

func (l listed) String() string {
	if l.sel != "" {
		return "(" + l.sel + ")." + l.name
	}
	return l.path + "." + l.name
}

func (l listed) probe() probe {
	if l.sel != "" {
		return probe{sel: l.sel, name: l.name}
	}
	return probe{path: l.path, name: l.name}
}

// functions lists the exported functions of a package that have a property.
func functions(pk *types.Package, want func(name string, sig *types.Signature) (int, bool)) []listed {
	var out []listed
	for _, n := range pk.Scope().Names() {
		f, ok := pk.Scope().Lookup(n).(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		if i, yes := want(n, f.Type().(*types.Signature)); yes {
			out = append(out, listed{pk.Path(), n, "", i})
		}
	}
	return out
}

func resultIs(sig *types.Signature, names ...string) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		s := sig.Results().At(i).Type().String()
		for _, n := range names {
			if s == n {
				return true
			}
		}
	}
	return false
}

func paramIs(sig *types.Signature, names ...string) bool { return paramAt(sig, names...) >= 0 }

func paramAt(sig *types.Signature, names ...string) int {
	for i := 0; i < sig.Params().Len(); i++ {
		s := sig.Params().At(i).Type().String()
		for _, n := range names {
			if s == n {
				return i
			}
		}
	}
	return -1
}

// paramNamed is the position of a string parameter of that name.
func paramNamed(sig *types.Signature, name string) int {
	for i := 0; i < sig.Params().Len(); i++ {
		if sig.Params().At(i).Name() == name {
			return i
		}
	}
	return -1
}

const (
	any2 = -2
)

type listSpec struct {
	rule string
	what string
	pkgs []string
	find func(pk *types.Package) []listed
	// keep: the rule does not report these but remembers what they make
	keep bool
}

func all(pk *types.Package, ok func(name string, sig *types.Signature) bool) []listed {
	return functions(pk, func(n string, s *types.Signature) (int, bool) { return any2, ok(n, s) })
}

func fixed(names ...string) func(pk *types.Package) []listed {
	return func(pk *types.Package) []listed {
		var out []listed
		for _, n := range names {
			i := strings.LastIndex(n, ".")
			if n[:i] == pk.Path() {
				out = append(out, listed{pk.Path(), n[i+1:], "", any2})
			}
		}
		return out
	}
}

var digest = regexp.MustCompile(`^\[\d+\](byte|uint8)$`)

var listSpecs = []listSpec{
	{rule: "G401", what: "makes or computes a hash", pkgs: []string{"crypto/md5", "crypto/sha1"}, find: hashes},
	{rule: "G406", what: "makes or computes a hash", pkgs: []string{"golang.org/x/crypto/md4", "golang.org/x/crypto/ripemd160"}, find: hashes},
	{rule: "G405", what: "makes a cipher", pkgs: []string{"crypto/des", "crypto/rc4"}, find: func(pk *types.Package) []listed {
		return all(pk, func(_ string, s *types.Signature) bool {
			return resultIs(s, "crypto/cipher.Block", "*"+pk.Path()+".Cipher")
		})
	}},
	{rule: "G404", what: "yields random values", pkgs: []string{"math/rand", "math/rand/v2"}, find: randoms},
	{rule: "G403", what: "makes a key", pkgs: []string{"crypto/rsa"}, find: func(pk *types.Package) []listed {
		return functions(pk, func(_ string, s *types.Signature) (int, bool) {
			i := paramNamed(s, "bits")
			return i, i >= 0 && resultIs(s, "*crypto/rsa.PrivateKey")
		})
	}},
	{rule: "G114", what: "serves without timeouts", pkgs: []string{"net/http"}, find: func(pk *types.Package) []listed {
		return all(pk, func(_ string, s *types.Signature) bool { return paramIs(s, "net/http.Handler") && resultIs(s, "error") })
	}},
	{rule: "G107", what: "makes a request to an URL", pkgs: []string{"net/http"}, find: func(pk *types.Package) []listed {
		return functions(pk, func(_ string, s *types.Signature) (int, bool) {
			i := paramNamed(s, "url")
			return i, i >= 0 && resultIs(s, "*net/http.Response")
		})
	}},
	{rule: "G102", what: "listens at an address", pkgs: []string{"net", "crypto/tls"}, find: func(pk *types.Package) []listed {
		return functions(pk, func(_ string, s *types.Signature) (int, bool) {
			i := paramAt(s, "string")
			return 1, i == 0 && s.Params().Len() > 1 && s.Params().At(1).Type().String() == "string" && resultIs(s, "net.Listener")
		})
	}},
	{rule: "G103", what: "works on raw memory", pkgs: []string{"unsafe"}, find: func(pk *types.Package) []listed {
		var out []listed
		for _, n := range pk.Scope().Names() {
			if token.IsExported(n) && n != "Sizeof" && n != "Alignof" && n != "Offsetof" {
				out = append(out, listed{"unsafe", n, "", any2})
			}
		}
		return out
	}},
	{rule: "G106", what: "accepts any host key", pkgs: []string{"golang.org/x/crypto/ssh"}, find: func(pk *types.Package) []listed {
		return all(pk, func(n string, s *types.Signature) bool {
			return strings.HasPrefix(n, "Insecure") && resultIs(s, "golang.org/x/crypto/ssh.HostKeyCallback")
		})
	}},
	{rule: "G203", what: "declares text as safe", pkgs: []string{"html/template"}, find: func(pk *types.Package) []listed {
		var out []listed
		for _, n := range pk.Scope().Names() {
			tn, ok := pk.Scope().Lookup(n).(*types.TypeName)
			if b, is := tn2(tn, ok); is && b.Info()&types.IsString != 0 {
				out = append(out, listed{pk.Path(), n, "", any2})
			}
		}
		return out
	}},
	{rule: "G204", what: "starts a program", pkgs: []string{"os/exec", "os", "syscall", "golang.org/x/sys/execabs"}, find: starters},
	{rule: "G304", what: "opens a file by name", pkgs: []string{"os", "io/ioutil"}, find: func(pk *types.Package) []listed {
		return all(pk, func(n string, s *types.Signature) bool {
			if s.Params().Len() == 0 {
				return false
			}
			first := s.Params().At(0)
			return (first.Name() == "name" || first.Name() == "filename") && first.Type().String() == "string" && resultIs(s, "*os.File", "[]byte")
		})
	}},
	{rule: "G303", what: "writes a file by name", pkgs: []string{"os", "io/ioutil"}, find: fixed("os.Create", "os.WriteFile", "io/ioutil.WriteFile")},
	{rule: "G305", what: "joins a path", pkgs: []string{"path", "path/filepath"}, find: fixed("path.Join", "path/filepath.Join")},
	{rule: "G109", what: "parses a number", pkgs: []string{"strconv"}, find: fixed("strconv.Atoi"), keep: true},
	{rule: "G110", what: "decompresses", pkgs: []string{"compress/gzip", "compress/zlib", "compress/bzip2", "compress/flate", "compress/lzw", "archive/tar", "archive/zip"}, keep: true, find: func(pk *types.Package) []listed {
		out := all(pk, func(n string, s *types.Signature) bool { return strings.HasPrefix(n, "NewReader") })
		if pk.Path() == "archive/zip" {
			out = append(out, listed{"", "Open", "*archive/zip.File", any2})
		}
		return out
	}},
	{rule: "G110", what: "copies without a limit", pkgs: []string{"io"}, find: func(pk *types.Package) []listed {
		return functions(pk, func(n string, s *types.Signature) (int, bool) {
			i := paramAt(s, "io.Reader")
			return i, i >= 0 && paramIs(s, "io.Writer") && resultIs(s, "int64") && !paramIs(s, "int64")
		})
	}},
	{rule: "G201", what: "takes a query", pkgs: []string{"database/sql"}, find: queries},
	{rule: "G202", what: "takes a query", pkgs: []string{"database/sql"}, find: queries},
}

func tn2(tn *types.TypeName, ok bool) (*types.Basic, bool) {
	if !ok || !tn.Exported() || tn.IsAlias() {
		return nil, false
	}
	b, is := tn.Type().Underlying().(*types.Basic)
	return b, is
}

func hashes(pk *types.Package) []listed {
	return all(pk, func(_ string, s *types.Signature) bool {
		if s.Results().Len() != 1 {
			return false
		}
		r := s.Results().At(0).Type().String()
		return r == "hash.Hash" || digest.MatchString(r)
	})
}

// randoms: functions which draw from the shared generator, or make one to draw from. A source and a
// distribution are only drawn from through a generator.
func randoms(pk *types.Package) []listed {
	rand := "*" + pk.Path() + ".Rand"
	source, _ := pk.Scope().Lookup("Source").(*types.TypeName)
	return all(pk, func(_ string, s *types.Signature) bool {
		if paramIs(s, rand) {
			return false
		}
		if s.Results().Len() == 0 {
			// Shuffle: the values come through the function given
			for i := 0; i < s.Params().Len(); i++ {
				if _, ok := s.Params().At(i).Type().Underlying().(*types.Signature); ok {
					return true
				}
			}
			return false
		}
		r := s.Results().At(0).Type()
		if source != nil {
			if it, ok := source.Type().Underlying().(*types.Interface); ok && types.Implements(r, it) && r.String() != rand {
				return false
			}
		}
		return true
	})
}

// starters: functions which start a program by its name.
func starters(pk *types.Package) []listed {
	return all(pk, func(_ string, s *types.Signature) bool {
		if paramAt(s, "string") < 0 {
			return false
		}
		if resultIs(s, "*os/exec.Cmd", "*os.Process", "*golang.org/x/sys/execabs.Cmd") {
			return true
		}
		// program, arguments, environment or attributes
		return pk.Path() == "syscall" && paramAt(s, "string") == 0 && paramAt(s, "[]string") == 1 && (paramIs(s, "*syscall.ProcAttr") || s.Params().Len() == 3)
	})
}

func queries(pk *types.Package) []listed {
	var out []listed
	for _, n := range pk.Scope().Names() {
		tn, ok := pk.Scope().Lookup(n).(*types.TypeName)
		if !ok || !tn.Exported() {
			continue
		}
		ptr := types.NewPointer(tn.Type())
		ms := types.NewMethodSet(ptr)
		for i := 0; i < ms.Len(); i++ {
			f, ok := ms.At(i).Obj().(*types.Func)
			if !ok || !f.Exported() {
				continue
			}
			if k := paramNamed(f.Type().(*types.Signature), "query"); k >= 0 {
				out = append(out, listed{"", f.Name(), ptr.String(), k})
			}
		}
	}
	return out
}

// ---- the check ----

var importDesc = regexp.MustCompile(`^Import blocklist: (\S+)$`)

func checkC23(c *Ctx) {
	p := c.P
	c.Rule("complete", "a rule acts on a call of every function of the package which belongs on its list")
	c.Rule("argument", "the argument looked at is the one which the function has for it")
	c.Rule("exists", "what a rule acts on exists in the package it is attributed to")
	c.Rule("import", "a blocked import is the package of the description, and no other")
	c.Rule("nonce", "the functions whose nonce is tracked are those of crypto/cipher, with the position of the nonce")
	defs := map[string]ruleDef{}
	var order []string
	for _, d := range p.ruleTable("rules") {
		defs[d.ID] = d
		order = append(order, d.ID)
	}
	x := newLister(p)
	var paths []string
	for _, s := range listSpecs {
		paths = append(paths, s.pkgs...)
	}
	consts := map[string][]string{}
	for _, id := range order {
		d := defs[id]
		if d.Create == nil {
			continue
		}
		c.Guard("exists", id, func() { consts[id] = x.constants(d) })
		for _, s := range consts[id] {
			if pathLike.MatchString(s) {
				paths = append(paths, packageOf(s))
			}
		}
		if m := importDesc.FindStringSubmatch(d.Desc); m != nil {
			paths = append(paths, m[1])
		}
	}
	paths = append(paths, "crypto/cipher", "net/http")
	lib := p.library(unique(paths)...)
	checkImports(c, x, defs, order, consts)
	covered := map[string]map[string]bool{}
	for _, s := range listSpecs {
		d, ok := defs[s.rule]
		if !c.Check(ok && d.Create != nil, "complete", s.rule, "-", "the rule is registered") {
			continue
		}
		if covered[s.rule] == nil {
			covered[s.rule] = map[string]bool{}
		}
		pos := p.Pos(d.Create.Pos())
		for _, path := range s.pkgs {
			pk := lib[path]
			if pk == nil {
				panic(undecided{"the package " + path + " could not be loaded"})
			}
			for _, l := range s.find(pk) {
				c.Guard("complete", s.rule+" "+l.String(), func() {
					a := x.ask(d, l.probe())
					covered[s.rule][l.String()] = true
					what := fmt.Sprintf("%s, which %s, is not acted on", l, s.what)
					acts := a.reports
					if s.keep {
						acts = a.remembers
					}
					if !c.Check(acts, "complete", s.rule+" "+l.String(), pos, what) || l.arg == any2 {
						return
					}
					n := argCount(lib, l)
					good := a.reads[l.arg] || a.reads[-1] && l.arg == n-1
					c.Check(good, "argument", s.rule+" "+l.String(), pos, fmt.Sprintf("argument %d decides, but those looked at are %v", l.arg, keysOfInt(a.reads)))
				})
			}
		}
	}
	c.Min("complete", 60)
	// what is acted on exists
	n := 0
	for _, id := range order {
		d := defs[id]
		if d.Create == nil || len(consts[id]) == 0 || importDesc.MatchString(d.Desc) {
			continue
		}
		c.Guard("exists", id, func() { n += checkExists(c, x, d, consts[id], lib) })
	}
	c.Stat("names found in the library", n)
	c.Guard("complete", "modes", func() { checkModes(c, x, defs, lib) })
	c.Guard("exists", "server", func() { checkServer(c, x, defs, lib) })
	c.Guard("nonce", "tracked functions", func() { checkNonces(c, lib) })
}

func unique(ss []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range ss {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func keysOfInt(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// packageOf is the package in the name of a type or function.
func packageOf(s string) string {
	s = strings.TrimSuffix(strings.TrimLeft(s, "(*"), ")")
	slash := strings.LastIndex(s, "/")
	if i := strings.Index(s[slash+1:], "."); i >= 0 && token.IsExported(s[slash+1+i+1:]) {
		return s[:slash+1+i]
	}
	return s
}

// typeNamed finds the type of a name like *path.Type.
func typeNamed(lib map[string]*types.Package, s string) types.Type {
	t := strings.TrimLeft(s, "*")
	pk := lib[packageOf(t)]
	if pk == nil || len(t) <= len(packageOf(t)) {
		return nil
	}
	tn, ok := pk.Scope().Lookup(t[len(packageOf(t))+1:]).(*types.TypeName)
	if !ok {
		return nil
	}
	return tn.Type()
}

func methodNamed(t types.Type, name string) *types.Func {
	if t == nil {
		return nil
	}
	if !types.IsInterface(t) {
		t = types.NewPointer(t)
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == name {
			return f
		}
	}
	return nil
}

func argCount(lib map[string]*types.Package, l listed) int {
	var sig *types.Signature
	if l.sel != "" {
		if m := methodNamed(typeNamed(lib, l.sel), l.name); m != nil {
			sig = m.Type().(*types.Signature)
		}
	} else if f, ok := lib[l.path].Scope().Lookup(l.name).(*types.Func); ok {
		sig = f.Type().(*types.Signature)
	}
	if sig == nil {
		return 0
	}
	return sig.Params().Len()
}

var pathLike = regexp.MustCompile(`^\*?[a-z][a-z0-9]*(\.[a-z]+)?(/[A-Za-z0-9_.-]+)*(\.[A-Z]\w*)?$`)

var ident = regexp.MustCompile(`^[A-Za-z_]\w*$`)

// checkExists asks a rule about the names that it holds but the library has not.
func checkExists(c *Ctx, x *lister, d ruleDef, consts []string, lib map[string]*types.Package) int {
	pos := x.p.Pos(d.Create.Pos())
	var pkgs, typs, names []string
	for _, s := range consts {
		switch {
		case ident.MatchString(s) && token.IsExported(s):
			names = append(names, s)
		case !pathLike.MatchString(s):
		case strings.HasPrefix(s, "*") || packageOf(s) != s:
			typs = append(typs, s)
		default:
			pkgs = append(pkgs, s)
		}
	}
	n := 0
	acts := func(pr probe) bool { a := x.ask(d, pr); return a.reports || a.remembers }
	if !hasSpec(d.ID) && acts(probe{path: "example.com/other", name: "Other"}) && acts(probe{sel: "*example.com/other.T", name: "Other"}) {
		// the list says what is not reported
		spares := func(pr probe) bool { return !acts(pr) }
		for _, path := range pkgs {
			for _, nm := range names {
				if pk := lib[path]; pk != nil && inPackage(pk, nm) {
					n++
					continue
				}
				c.Check(!spares(probe{sel: path, name: nm}), "exists", d.ID+" "+path+"."+nm, pos, "the package has no such function, type or method")
			}
		}
		for _, tn := range typs {
			t := typeNamed(lib, tn)
			for _, nm := range names {
				if methodNamed(t, nm) != nil {
					n++
					continue
				}
				c.Check(!spares(probe{sel: tn, name: nm}), "exists", d.ID+" ("+tn+")."+nm, pos, "there is no such method")
			}
		}
		return n
	}
	for _, path := range pkgs {
		pk := lib[path]
		if pk == nil && !acts(probe{path: path, name: "\x00"}) {
			any := false
			for _, nm := range names {
				any = any || acts(probe{path: path, name: nm})
			}
			if any {
				c.Fail("exists", d.ID+" package "+path, pos, "is not a package")
			}
			continue
		}
		for _, nm := range names {
			if pk != nil && inPackage(pk, nm) {
				n++
				continue
			}
			c.Check(!acts(probe{path: path, name: nm}), "exists", d.ID+" "+path+"."+nm, pos, "the package has no such function, type or method")
		}
	}
	for _, tn := range typs {
		t := typeNamed(lib, tn)
		for _, nm := range names {
			if methodNamed(t, nm) != nil {
				n++
				continue
			}
			c.Check(!acts(probe{sel: tn, name: nm}), "exists", d.ID+" ("+tn+")."+nm, pos, "there is no such method")
		}
		if t == nil {
			// compared with the type of an operand
			a := x.ask(d, probe{path: "path/filepath", name: "Join", typ: tn})
			c.Check(!a.reports, "exists", d.ID+" type "+tn, pos, "there is no such type")
			continue
		}
		n++
	}
	// a call of anything else
	for _, pr := range []probe{{path: "example.com/other", name: "Other"}, {sel: "*example.com/other.T", name: "Other"}} {
		if len(pkgs)+len(typs) == 0 {
			break
		}
		if a := x.ask(d, pr); a.reports && hasSpec(d.ID) {
			c.Fail("exists", d.ID+" other calls", pos, "a call of any function is reported")
		}
	}
	return n
}

func hasSpec(id string) bool {
	for _, s := range listSpecs {
		if s.rule == id && !s.keep {
			return true
		}
	}
	return false
}

func inPackage(pk *types.Package, name string) bool {
	if o := pk.Scope().Lookup(name); o != nil && o.Exported() {
		return true
	}
	for _, n := range pk.Scope().Names() {
		tn, ok := pk.Scope().Lookup(n).(*types.TypeName)
		if ok && tn.Exported() && methodNamed(tn.Type(), name) != nil {
			return true
		}
	}
	return false
}

// checkModes: the rules on permissions together cover every function that takes a mode.
func checkModes(c *Ctx, x *lister, defs map[string]ruleDef, lib map[string]*types.Package) {
	for _, path := range []string{"os", "io/ioutil"} {
		fs := functions(lib[path], func(_ string, s *types.Signature) (int, bool) {
			i := paramAt(s, "os.FileMode", "io/fs.FileMode")
			return i, i >= 0
		})
		for _, l := range fs {
			ok := false
			for _, id := range []string{"G301", "G302", "G306"} {
				ok = ok || x.ask(defs[id], l.probe()).reports
			}
			c.Check(ok, "complete", "a mode given to "+l.String(), "-", "none of G301, G302 and G306 looks at it")
		}
	}
	ok := x.ask(defs["G307"], probe{path: "os", name: "Create"}).reports
	c.Check(ok, "complete", "G307 os.Create", "-", "is not acted on")
}

// checkServer: the literal of a server is judged by fields it has.
func checkServer(c *Ctx, x *lister, defs map[string]ruleDef, lib map[string]*types.Package) {
	d := defs["G112"]
	if !c.Check(d.Create != nil, "complete", "G112", "-", "the rule is registered") {
		return
	}
	pos := x.p.Pos(d.Create.Pos())
	c.Check(x.ask(d, probe{typ: "net/http.Server"}).reports, "complete", "G112 net/http.Server", pos, "a literal of the server is not reported")
	c.Check(!x.ask(d, probe{typ: "net/http.Other"}).reports, "exists", "G112 other types", pos, "a literal of another type is reported")
	st := structOf(typeNamed(lib, "net/http.Server"))
	var found []string
	for _, s := range x.constants(d) {
		if !strings.HasSuffix(s, "Timeout") || strings.Contains(s, " ") {
			continue
		}
		found = append(found, s)
		c.Check(st != nil && fieldIndex(st, s) >= 0, "exists", "G112 field "+s, pos, "the server has no such field")
	}
	sort.Strings(found)
	c.Check(strings.Join(found, " ") == "ReadHeaderTimeout ReadTimeout", "complete", "G112 timeouts", pos, fmt.Sprint("the fields that limit reading the header are ReadHeaderTimeout and ReadTimeout, not ", found))
}

// checkImports: each blocked import.
func checkImports(c *Ctx, x *lister, defs map[string]ruleDef, order []string, consts map[string][]string) {
	var all []string
	for _, id := range order {
		if m := importDesc.FindStringSubmatch(defs[id].Desc); m != nil {
			all = append(all, m[1])
		}
	}
	lib := x.p.library(all...)
	n := 0
	for _, id := range order {
		d := defs[id]
		m := importDesc.FindStringSubmatch(d.Desc)
		if m == nil || d.Create == nil {
			continue
		}
		n++
		path := m[1]
		pos := x.p.Pos(d.Create.Pos())
		c.Check(lib[path] != nil, "import", id+" package", pos, path+" is not a package")
		c.Guard("import", id, func() {
			a := x.ask(d, probe{lit: `"` + path + `"`})
			c.Check(a.reports, "import", id+" "+path, pos, "the import is not reported")
			word := regexp.MustCompile(`(^|\s)` + regexp.QuoteMeta(path) + `([\s:,]|$)`)
			named := false
			for _, s := range a.texts {
				named = named || word.MatchString(s)
			}
			c.Check(named, "import", id+" description", pos, fmt.Sprintf("what is reported does not name %s: %q", path, a.texts))
			b := x.ask(d, probe{lit: "`" + path + "`"})
			c.Check(b.reports, "import", id+" "+path+" in back quotes", pos, "the import is not reported")
			others := append([]string{"example.com/other", path + "/sub", path + "x", "x" + path}, all...)
			for _, s := range consts[id] {
				if !strings.Contains(s, " ") {
					others = append(others, s)
				}
			}
			for _, o := range unique(others) {
				if o == path || o == "" {
					continue
				}
				c.Check(!x.ask(d, probe{lit: `"` + o + `"`}).reports, "import", id+" does not block "+o, pos, "it does")
			}
		})
	}
	c.Check(n >= 7, "import", "blocked imports", "-", fmt.Sprint(n, " rules"))
	// the exposed profiling endpoint
	if d := defs["G108"]; c.Check(d.Create != nil, "import", "G108", "-", "the rule is registered") {
		pos := x.p.Pos(d.Create.Pos())
		c.Check(x.ask(d, probe{lit: `"net/http/pprof"`}).reports, "import", "G108 net/http/pprof", pos, "the import is not reported")
		c.Check(x.ask(d, probe{lit: "`net/http/pprof`"}).reports, "import", "G108 net/http/pprof in back quotes", pos, "the import is not reported")
		c.Check(!x.ask(d, probe{lit: `"net/http"`}).reports, "import", "G108 does not block net/http", pos, "it does")
	}
}

// checkNonces: the table of functions whose nonce is tracked.
func checkNonces(c *Ctx, lib map[string]*types.Package) {
	p := c.P
	pk := lib["crypto/cipher"]
	if pk == nil {
		panic(undecided{"crypto/cipher could not be loaded"})
	}
	want := map[string][2]int64{}
	for _, l := range functions(pk, func(n string, s *types.Signature) (int, bool) {
		i := paramNamed(s, "iv")
		return i, i >= 0 && !strings.Contains(n, "Decrypt")
	}) {
		f := pk.Scope().Lookup(l.name).(*types.Func)
		want[pk.Path()+"."+l.name] = [2]int64{int64(f.Type().(*types.Signature).Params().Len()), int64(l.arg)}
	}
	for _, n := range pk.Scope().Names() {
		tn, ok := pk.Scope().Lookup(n).(*types.TypeName)
		if !ok || !types.IsInterface(tn.Type()) {
			continue
		}
		it := tn.Type().Underlying().(*types.Interface)
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			s := m.Type().(*types.Signature)
			if k := paramNamed(s, "nonce"); k >= 0 && m.Name() != "Open" {
				want["("+pk.Path()+"."+n+")."+m.Name()] = [2]int64{int64(s.Params().Len()), int64(k)}
			}
		}
	}
	var run *ssa.Function
	for _, d := range p.ruleTable("analyzers") {
		if d.ID == "G407" {
			run = p.analyzerRun(d)
		}
	}
	if !c.Check(run != nil, "nonce", "G407", "-", "the analyzer is registered") {
		return
	}
	g := NewGate(p)
	g.KeepMem = func(e *GEvent) bool { return e.Kind == "call" }
	g.Inline = func(f *ssa.Function) bool {
		return p.InModule(f) && len(f.Params) <= 1 && !takesTable(f)
	}
	if sp := p.SPkg[sub("analyzers")]; sp != nil {
		_, m := p.gateInit(sp)
		g.PreInit = m
	}
	g.Run(run)
	tables := 0
	known := map[*Term]bool{}
	for _, e := range g.Events {
		if e.Kind != "call" {
			continue
		}
		for _, a := range e.Args {
			t := a.single()
			if t == nil || t.Typ == nil || !isTable(t.Typ) {
				continue
			}
			t = strip(t)
			got := map[string][2]int64{}
			pos := p.InstrPos(e.Ins)
			if known[t] {
				continue
			}
			es, ok := g.mapEntries(e.Mem, t)
			if !ok {
				panic(undecided{"the table of tracked functions is not known: " + t.String()})
			}
			tables++
			known[t] = true
			for _, x := range es {
				name, _ := constStr(x.Args[1])
				v := e.Mem[x].single()
				var nums []int64
				if v != nil {
					if els, ok := g.sliceElems(e.Mem, strip(v)); ok {
						for _, el := range els {
							if i, ok := constInt(strip(el.term())); ok {
								nums = append(nums, i)
							}
						}
					}
				}
				if len(nums) != 2 {
					panic(undecided{"the entry of " + name + " is not known"})
				}
				got[name] = [2]int64{nums[0], nums[1]}
			}
			for n, w := range want {
				c.Check(got[n] == w, "nonce", n, pos, fmt.Sprintf("has %d arguments with the nonce at %d; tracked as %v", w[0], w[1], got[n]))
			}
			for n := range got {
				_, ok := want[n]
				c.Check(ok, "nonce", "tracked "+n, pos, "is not a function that takes a nonce to encrypt with")
			}
		}
	}
	c.Check(tables > 0, "nonce", "table", p.Pos(run.Pos()), "no table of tracked functions is used")
}

func isTable(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && types.Identical(m.Key().Underlying(), types.Typ[types.String])
}

func takesTable(f *ssa.Function) bool {
	for _, q := range f.Params {
		if isTable(q.Type()) {
			return true
		}
	}
	return false
}

// tablesOf is what the tables of a package hold which are only set when the program starts.
func (p *Program) tablesOf(rel string) GMem {
	if m, ok := p.tables[rel]; ok {
		return m
	}
	if p.tables == nil {
		p.tables = map[string]GMem{}
	}
	// tables of the package which are only set when the program starts
	pre := GMem{}
	if sp := p.SPkg[sub(rel)]; sp != nil {
		_, m := p.gateInit(sp)
		for a, v := range m {
			gl := termGlobal(a)
			if a.Op == "global" {
				gl, _ = a.Obj.(*ssa.Global)
			}
			if gl != nil && !p.immutableGlobal(gl) {
				continue
			}
			pre[a] = v
		}
	}
	p.tables[rel] = pre
	return pre
}
