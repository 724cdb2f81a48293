package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C31", checkC31) }

// The check of the TLS settings is evaluated on the shape of a literal or an assignment: the syntax is laid out
// in the abstract memory with symbols for the numbers and names in it, and what comes out is the
// condition under which it is flagged.

// shapes builds syntax.
type shapes struct {
	p     *Program
	ast   *types.Package
	exprT types.Type
	mem   GMem
	n     int
	made  map[*Term]bool
}

func newShapes(p *Program, mem GMem) *shapes {
	var pk *types.Package
	for _, im := range p.Func("", "GetInt").Pkg.Pkg.Imports() {
		if im.Path() == "go/ast" {
			pk = im
		}
	}
	if pk == nil {
		panic(undecided{"go/ast is not imported"})
	}
	return &shapes{p: p, ast: pk, exprT: pk.Scope().Lookup("Expr").Type(), mem: mem, made: map[*Term]bool{}}
}

// node is a node of a kind; its fields are given as name, value pairs.
func (s *shapes) node(kind string, fields ...any) *Term {
	s.n++
	ptr := s.ptr(kind, fmt.Sprintf("%s%d", kind, s.n), fields...)
	return mk("iface", ptr.Typ, "", s.exprT, ptr)
}

// set gives a field of a node another value.
func (s *shapes) set(ptr *Term, kind, field string, v any) {
	st := s.ast.Scope().Lookup(kind).Type().Underlying().(*types.Struct)
	f := st.Field(fieldIndex(st, field))
	s.mem[mk("fieldaddr", f, "", types.NewPointer(f.Type()), ptr)] = gvT(s.value(f.Type(), v))
}

func (s *shapes) ptr(kind, name string, fields ...any) *Term {
	t := s.ast.Scope().Lookup(kind).Type()
	ptr := mk("sym", name, "", types.NewPointer(t))
	s.made[ptr] = true
	st := t.Underlying().(*types.Struct)
	for i := 0; i+1 < len(fields); i += 2 {
		j := fieldIndex(st, fields[i].(string))
		if j < 0 {
			panic(undecided{"no field " + fields[i].(string)})
		}
		f := st.Field(j)
		s.mem[mk("fieldaddr", f, "", types.NewPointer(f.Type()), ptr)] = gvT(s.value(f.Type(), fields[i+1]))
	}
	return ptr
}

func (s *shapes) value(t types.Type, v any) *Term {
	switch v := v.(type) {
	case string:
		return mkString(v)
	case []*Term:
		return s.list(t, v)
	case *Term:
		// a node held by a pointer of its kind
		if v.Op == "iface" {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				return v.Args[0]
			}
		}
		return v
	case nil:
		return mkNil()
	}
	panic(fmt.Sprintf("%T", v))
}

func (s *shapes) list(t types.Type, els []*Term) *Term {
	s.n++
	el := t.Underlying().(*types.Slice).Elem()
	a := mk("alloc", fmt.Sprintf("list%d of %d", s.n, len(els)), "", types.NewPointer(types.NewArray(el, int64(len(els)))))
	for i, e := range els {
		s.mem[mk("indexaddr", nil, "", types.NewPointer(el), a, mkInt(int64(i)))] = gvT(e)
	}
	s.mem[mk("lenof", nil, "", nil, a)] = gvT(mkInt(int64(len(els))))
	return a
}

func (s *shapes) ident(name any) *Term { return s.node("Ident", "Name", name, "Obj", nil) }

func (s *shapes) sel(x, name any) *Term {
	return s.node("SelectorExpr", "X", x, "Sel", s.ident(name))
}

func (s *shapes) kv(key string, v *Term) *Term {
	return s.node("KeyValueExpr", "Key", s.ident(key), "Value", v)
}

// tlsCase is a construct, and when it has to be flagged.
type tlsCase struct {
	what  string
	build func(s *shapes) *Term
	want  func(x *tlsRule) BDD
}

type tlsRule struct {
	p    *Program
	def  ruleDef
	base tlsBaseline
	good map[string]bool
}

type tlsBaseline struct{ min, max int64 }

// asked evaluates the rule for a construct. ptr: what is configured is known by a pointer.
func (x *tlsRule) asked(build func(s *shapes) *Term, typ string, ptr bool) (BDD, *Term) {
	p := x.p
	g := NewGate(p)
	g.PreInit = p.tablesOf("rules")
	g.Concrete = true
	newIssue, getInt, getPath := p.Method("", "Context", "NewIssue"), p.Func("", "GetInt"), p.Func("", "GetImportPath")
	if newIssue == nil || getInt == nil || getPath == nil {
		panic(undecided{"NewIssue, GetInt or GetImportPath not found"})
	}
	g.noInline(newIssue, getInt, getPath)
	g.Unroll = 80
	is := func(t *Term, fn *ssa.Function) bool { return t.Op == "call" && t.Obj == any(fn) }
	numbers := map[*Term]*Term{} // literal -> its number
	typeOf := func(t *Term) bool {
		return t.Op == "call" && strings.HasSuffix(callName(t), "types.Info).TypeOf")
	}
	goType := func(t *Term) bool {
		return t.Typ != nil && strings.Contains(t.Typ.String(), "go/types.")
	}
	g.Hook = func(t *Term) *Term {
		switch t.Op {
		case "extract":
			call := t.Args[0]
			i := fmt.Sprint(t.Obj)
			switch {
			case is(call, getInt):
				lit := strip(call.Args[0])
				v := lit
				if lit.Op == "iface" {
					v = lit.Args[0]
				}
				if n := numbers[v]; n != nil {
					if i == "0" {
						return n
					}
					return mkNil()
				}
				if i == "0" {
					return mkInt(0)
				}
				return mk("sym", "notANumber", "", t.Typ)
			case is(call, getPath):
				if s, ok := constStr(strip(call.Args[0])); ok {
					if i == "1" {
						return mkBool(s == "tls" || s == "other")
					}
					if s == "tls" {
						return mkString("crypto/tls")
					}
					return mkString("example.com/" + s)
				}
			}
		case "bin":
			if isEq(t) && (isNilT(strip(t.Args[0])) || isNilT(strip(t.Args[1]))) {
				o := strip(t.Args[0])
				if isNilT(o) {
					o = strip(t.Args[1])
				}
				if is(o, newIssue) || typeOf(o) || o.Op == "sym" || goType(o) && (o.Op == "call" || o.Op == "tassert" || o.Op == "extract") {
					return mkBool(false)
				}
			}
		case "tassertok":
			if typeOf(strip(t.Args[0])) {
				if at, ok := t.Obj.(types.Type); ok {
					return mkBool(ptr && strings.HasSuffix(at.String(), "types.Pointer"))
				}
			}
		case "call":
			n := callName(t)
			switch {
			case typeOf(t):
				if len(t.Args) == 2 && isNilT(strip(t.Args[1])) {
					return mkNil()
				}
			case strings.HasSuffix(n, "types.Unalias") && len(t.Args) == 1:
				return t.Args[0]
			case strings.HasSuffix(n, ".String") && len(t.Args) == 1 && goType(strip(t.Args[0])):
				o := strip(t.Args[0])
				if ptr && !contains(o, func(y *Term) bool { return y.Op == "call" && strings.HasSuffix(callName(y), ".Elem") }) {
					return mkString("*" + typ)
				}
				return mkString(typ)
			}
		}
		return nil
	}
	r := g.Run(x.def.Create)
	rule := r.Rets[0].single()
	if rule == nil {
		panic(undecided{"the rule made is not one value"})
	}
	rule = strip(rule)
	fn := p.methodOf(rule.Typ, "Match")
	if fn == nil {
		panic(undecided{"the rule has no Match"})
	}
	mem := cloneMem(r.Mem)
	s := newShapes(p, mem)
	// what the rule was left with by other nodes
	for _, f := range fieldsWrittenBy(p, fn, structOf(rule.Typ)) {
		mem[mk("fieldaddr", f, "", types.NewPointer(f.Type()), rule)] = gvT(mk("sym", "left over: "+f.Name(), "", f.Type()))
	}
	node := build(s)
	for a, v := range mem {
		if a.Op == "fieldaddr" && strings.HasPrefix(symName(a.Args[0]), "BasicLit") {
			if f, _ := a.Obj.(*types.Var); f != nil && f.Name() == "Value" {
				numbers[a.Args[0]] = v.single()
			}
		}
	}
	g.Events = nil
	rets, retG, _ := g.frame(fn, nil, nil, []GV{gvT(rule), gvT(node), gvT(gparam(fn, 2))}, nil, "match", mem, 0)
	flagged := bF
	var odd *Term
	for _, v := range rets[0].L {
		if isNilT(v.t) {
			continue
		}
		flagged = bOr(flagged, v.g)
		if !is(strip(v.t), newIssue) {
			odd = v.t
		}
	}
	return bAnd(flagged, retG), odd
}

func symName(t *Term) string {
	if t.Op != "sym" {
		return ""
	}
	s, _ := t.Obj.(string)
	return s
}

// fieldsWrittenBy: the fields of the struct which are stored to from here.
func fieldsWrittenBy(p *Program, fn *ssa.Function, st *types.Struct) []*types.Var {
	if st == nil {
		return nil
	}
	own := map[*types.Var]bool{}
	for i := 0; i < st.NumFields(); i++ {
		own[st.Field(i)] = true
	}
	seen := map[*types.Var]bool{}
	for f := range p.reachableFrom(fn) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				stt, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := stt.Addr.(*ssa.FieldAddr); ok {
					if v := addrField(fa); own[v] {
						seen[v] = true
					}
				}
			}
		}
	}
	var out []*types.Var
	for v := range seen {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// tlsConstants are the constants of crypto/tls with a prefix.
func tlsConstants(pk *types.Package, prefix string) map[string]int64 {
	out := map[string]int64{}
	for _, n := range pk.Scope().Names() {
		if k, ok := pk.Scope().Lookup(n).(*types.Const); ok && strings.HasPrefix(n, prefix) && k.Exported() {
			if v, ok := constantInt(k); ok {
				out[n] = v
			}
		}
	}
	return out
}

// recommended: whether a suite belongs to a baseline: the suites of TLS 1.3, and below it those with forward
// secrecy and authenticated encryption.
func recommended(name string, b tlsBaseline) bool {
	if !strings.Contains(name, "_WITH_") {
		return strings.HasPrefix(name, "TLS_AES_") || strings.HasPrefix(name, "TLS_CHACHA20_")
	}
	if b.min >= 0x0304 {
		return false
	}
	return strings.HasPrefix(name, "TLS_ECDHE_") && (strings.Contains(name, "_GCM_") || strings.Contains(name, "CHACHA20_POLY1305"))
}

// neverRecommended: suites no baseline may contain.
func neverRecommended(name string) bool {
	return strings.Contains(name, "RC4") || strings.Contains(name, "NULL") || strings.Contains(name, "EXPORT") || strings.Contains(name, "anon") || strings.Contains(name, "_MD5")
}

func checkC31(c *Ctx) {
	p := c.P
	c.Rule("settings", "a literal or assignment is flagged exactly when one of its settings is below the baseline, whatever the others and their order")
	c.Rule("versions", "the versions named are those of the protocol, and the bounds apply to the lowest and the highest version")
	c.Rule("suites", "a suite is accepted exactly when the baseline recommends it")
	c.Rule("scope", "only settings of the TLS configuration count, in literals and assignments, given by value or by pointer")
	c.Rule("history", "what is flagged depends on the construct alone")
	lib := p.library("crypto/tls")["crypto/tls"]
	if lib == nil {
		panic(undecided{"crypto/tls not found"})
	}
	found := false
	for _, d := range p.ruleTable("rules") {
		if d.ID == "G402" && d.Create != nil {
			found = true
			c.Guard("settings", "G402", func() { checkTLS(c, d, tlsBaseline{0x0303, 0x0304}, lib, "intermediate") })
		}
	}
	c.Check(found, "scope", "G402", "-", "the rule is registered")
	for _, o := range []struct {
		name string
		b    tlsBaseline
	}{{"NewModernTLSCheck", tlsBaseline{0x0304, 0x0304}}, {"NewOldTLSCheck", tlsBaseline{0x0301, 0x0304}}} {
		fn := p.Func("rules", o.name)
		if fn == nil {
			continue
		}
		c.Guard("settings", o.name, func() { checkTLS(c, ruleDef{ID: "G402", Create: fn}, o.b, lib, o.name) })
	}
}

func checkTLS(c *Ctx, d ruleDef, base tlsBaseline, lib *types.Package, label string) {
	p := c.P
	x := &tlsRule{p: p, def: d, base: base}
	pos := p.Pos(d.Create.Pos())
	const T = "crypto/tls.Config"
	u16 := types.Typ[types.Int64]
	m, M := mk("sym", "min", "", u16), mk("sym", "max", "", u16)
	name := mk("sym", "name", "", types.Typ[types.String])
	gg := NewGate(p)
	gg.PreInit = p.tablesOf("rules")
	eqInt := func(t *Term, v int64) BDD { return gg.eq1(t, mkConstOf(v, u16)) }
	below := func(t *Term, v int64) BDD { return gg.lt(t, mkConstOf(v, u16), u16) }
	eqStr := func(s string) BDD { return gg.eq1(name, mkString(s)) }
	number := func(s *shapes, n *Term) *Term { return s.node("BasicLit", "Value", n) }
	lit := func(els ...func(s *shapes) *Term) func(s *shapes) *Term {
		return func(s *shapes) *Term {
			var l []*Term
			for _, e := range els {
				l = append(l, e(s))
			}
			return s.node("CompositeLit", "Elts", l, "Type", s.sel(s.ident("tls"), "Config"))
		}
	}
	assign := func(key string, v func(s *shapes) *Term) func(s *shapes) *Term {
		return func(s *shapes) *Term {
			l := s.node("SelectorExpr", "X", s.ident("cfg"), "Sel", s.ident(key))
			return s.node("AssignStmt", "Lhs", []*Term{l}, "Rhs", []*Term{v(s)})
		}
	}
	kv := func(key string, v func(s *shapes) *Term) func(s *shapes) *Term {
		return func(s *shapes) *Term { return s.kv(key, v(s)) }
	}
	num := func(n *Term) func(s *shapes) *Term { return func(s *shapes) *Term { return number(s, n) } }
	id := func(n any) func(s *shapes) *Term { return func(s *shapes) *Term { return s.ident(n) } }
	call := func(s *shapes) *Term { return s.node("CallExpr", "Args", []*Term{}) }
	tlsName := func(n string) func(s *shapes) *Term {
		return func(s *shapes) *Term { return s.sel(s.ident("tls"), n) }
	}
	suites := func(names ...any) func(s *shapes) *Term {
		return func(s *shapes) *Term {
			var l []*Term
			for _, n := range names {
				l = append(l, s.sel(s.ident("tls"), n))
			}
			return s.node("CompositeLit", "Elts", l)
		}
	}
	left := func(b BDD) []string {
		var out []string
		for _, a := range bSupport(b) {
			deepContains(a, func(y *Term) bool {
				if strings.HasPrefix(symName(y), "left over: ") {
					out = append(out, strings.TrimPrefix(symName(y), "left over: "))
				}
				return false
			})
		}
		sort.Strings(out)
		return unique(out)
	}
	one := func(rule, what string, build func(s *shapes) *Term, want BDD, typ string, ptr bool) {
		c.Guard(rule, label+": "+what, func() {
			got, odd := x.asked(build, typ, ptr)
			if l := left(got); len(l) > 0 {
				c.Fail("history", label+": "+what, pos, "it depends on what an earlier construct left in "+strings.Join(l, ", "))
				return
			}
			c.Check(true, "history", label+": "+what, pos, "")
			if odd != nil {
				c.Fail(rule, label+": "+what, pos, "reports "+brief(odd.String()))
			}
			same, _ := sameCond(got, want)
			c.Check(same, rule, label+": "+what, pos, "flagged when "+brief(bString(got))+"; has to be when "+brief(bString(want)))
		})
	}
	// every case in a literal together with a lowest version, before and after it
	low := below(m, base.min)
	min := kv("MinVersion", num(m))
	settings := []struct {
		what  string
		key   string
		v     func(s *shapes) *Term
		bad   BDD
		alone BDD // when assigned
		rule  string
	}{
		{"InsecureSkipVerify is a name", "InsecureSkipVerify", id(name), bNot(eqStr("false")), bNot(eqStr("false")), "settings"},
		{"InsecureSkipVerify is computed", "InsecureSkipVerify", call, bT, bT, "settings"},
		{"PreferServerCipherSuites is a name", "PreferServerCipherSuites", id(name), eqStr("false"), eqStr("false"), "settings"},
		{"PreferServerCipherSuites is computed", "PreferServerCipherSuites", call, bT, bT, "settings"},
		{"MaxVersion is a number", "MaxVersion", num(M), bAnd(bNot(eqInt(M, 0)), below(M, base.max)), bAnd(bNot(eqInt(M, 0)), below(M, base.max)), "versions"},
		{"another setting", "ServerName", id(name), bF, bF, "settings"},
		{"a list of good suites", "CipherSuites", suites("TLS_AES_128_GCM_SHA256", "TLS_CHACHA20_POLY1305_SHA256"), bF, bF, "suites"},
		{"no suites", "CipherSuites", suites(), bF, bF, "suites"},
		{"suites held by a variable", "CipherSuites", id("suites"), bF, bF, "suites"},
	}
	for _, s := range settings {
		one(s.rule, s.what+", then the lowest version", lit(kv(s.key, s.v), min), bOr(s.bad, low), T, false)
		one(s.rule, "the lowest version, then "+s.what, lit(min, kv(s.key, s.v)), bOr(s.bad, low), T, false)
		one(s.rule, s.what+", assigned", assign(s.key, s.v), s.alone, T, false)
		one("scope", s.what+", behind a pointer", assign(s.key, s.v), s.alone, T, true)
		one("scope", s.what+", of another type", lit(kv(s.key, s.v)), bF, "example.com/tls.Config", false)
		one("scope", s.what+", assigned to another type", assign(s.key, s.v), bF, "example.com/tls.Config", false)
	}
	// two settings at once
	one("settings", "two settings", lit(kv("InsecureSkipVerify", id("false")), kv("PreferServerCipherSuites", id(name)), min), bOr(eqStr("false"), low), T, false)
	one("settings", "two settings in the other order", lit(min, kv("PreferServerCipherSuites", id("true")), kv("InsecureSkipVerify", id(name))), bOr(bNot(eqStr("false")), low), T, false)
	one("settings", "a suite after another setting", lit(kv("PreferServerCipherSuites", id("true")), kv("CipherSuites", suites("TLS_RSA_WITH_RC4_128_SHA")), min), bT, T, false)
	one("versions", "the lowest version alone", lit(min), low, T, false)
	one("versions", "no version", lit(), bT, T, false)
	one("versions", "the lowest version, assigned", assign("MinVersion", num(m)), bAnd(bNot(eqInt(m, 0)), low), T, false)
	one("versions", "the lowest version, assigned behind a pointer", assign("MinVersion", num(m)), bAnd(bNot(eqInt(m, 0)), low), T, true)
	one("scope", "a literal without a type", func(s *shapes) *Term {
		return s.node("CompositeLit", "Elts", []*Term{s.kv("InsecureSkipVerify", s.ident(name)), min(s)}, "Type", nil)
	}, bOr(bNot(eqStr("false")), low), T, false)
	one("scope", "a literal without a type, of a pointer", func(s *shapes) *Term {
		return s.node("CompositeLit", "Elts", []*Term{s.kv("InsecureSkipVerify", s.ident(name)), min(s)}, "Type", nil)
	}, bOr(bNot(eqStr("false")), low), T, true)
	// a version held by a declared name
	one("versions", "the lowest version is declared as a number", lit(kv("MinVersion", func(s *shapes) *Term {
		spec := s.node("ValueSpec", "Values", []*Term{number(s, m)})
		spec = mk("iface", spec.Obj.(types.Type), "", types.NewInterfaceType(nil, nil), spec.Args[0])
		obj := s.ptr("Object", "obj", "Decl", spec)
		return s.node("Ident", "Name", "lowest", "Obj", obj)
	})), low, T, false)
	// named versions
	versions := tlsConstants(lib, "VersionTLS")
	for n, v := range tlsConstants(lib, "VersionSSL") {
		versions[n] = v
	}
	c.Check(len(versions) >= 4, "versions", label+": names", pos, fmt.Sprint("crypto/tls names ", len(versions), " versions"))
	var names []string
	for n := range versions {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		v := versions[n]
		one("versions", "MinVersion: tls."+n, lit(kv("MinVersion", tlsName(n))), bOf(v < base.min), T, false)
		one("versions", "MinVersion = tls."+n, assign("MinVersion", tlsName(n)), bOf(v < base.min), T, false)
		one("versions", "MaxVersion: tls."+n, lit(min, kv("MaxVersion", tlsName(n))), bOr(low, bOf(v < base.max)), T, false)
		one("versions", "MaxVersion = tls."+n, assign("MaxVersion", tlsName(n)), bOf(v < base.max), T, false)
		one("versions", "MaxVersion: tls."+n+", then the lowest", lit(kv("MaxVersion", tlsName(n)), min), bOr(low, bOf(v < base.max)), T, false)
	}
	// suites
	ciphers := tlsConstants(lib, "TLS_")
	names = nil
	for n := range ciphers {
		names = append(names, n)
	}
	sort.Strings(names)
	ok := "TLS_AES_256_GCM_SHA384"
	okv := "VersionTLS13"
	for _, n := range names {
		bad := !recommended(n, base)
		if base.min < 0x0303 && bad {
			// the old baseline also allows suites for old clients
			if !neverRecommended(n) {
				continue
			}
		}
		one("suites", n, lit(kv("MinVersion", tlsName(okv)), kv("CipherSuites", suites(n))), bOf(bad), T, false)
		one("suites", n+" after another", lit(kv("MinVersion", tlsName(okv)), kv("CipherSuites", suites(ok, n))), bOf(bad), T, false)
		one("suites", n+" before another", lit(kv("CipherSuites", suites(n, ok)), kv("MinVersion", tlsName(okv))), bOf(bad), T, false)
		one("suites", n+" assigned", assign("CipherSuites", suites(ok, n)), bOf(bad), T, false)
	}
	one("suites", "an unknown suite", lit(kv("MinVersion", tlsName(okv)), kv("CipherSuites", suites("TLS_MADE_UP"))), bT, T, false)
	// nodes asked for
	g := NewGate(p)
	g.PreInit = p.tablesOf("rules")
	r := g.Run(d.Create)
	kinds := map[string]bool{}
	if len(r.Rets) > 1 {
		if els, ok := g.sliceElems(r.Mem, strip(r.Rets[1].single())); ok {
			for _, e := range els {
				if t := e.single(); t != nil && t.Op == "iface" {
					kinds[typeShort(t.Obj.(types.Type))] = true
				}
			}
		}
	}
	for _, k := range []string{"CompositeLit", "AssignStmt"} {
		has := false
		for n := range kinds {
			has = has || strings.HasSuffix(n, k)
		}
		c.Check(has, "scope", label+": node "+k, pos, fmt.Sprint("the rule is not asked about it but about ", kinds))
	}
}

func bOf(b bool) BDD {
	if b {
		return bT
	}
	return bF
}

func mkConstOf(v int64, t types.Type) *Term { return mkConst(constant.MakeInt64(v), t) }

func constantInt(k *types.Const) (int64, bool) {
	return constant.Int64Val(constant.ToInt(k.Val()))
}
