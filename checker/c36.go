package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

func init() { register("C36", checkC36) }

// The credentials rule is evaluated on constructs laid out in memory. Names and texts are symbols, and so are
// the settings of the rule; what the rule decides is compared with the documented decision as a boolean function
// of: the name matches the pattern, entropy is ignored, the entropy of the text is high, the text looks like a
// secret.

type credRule struct {
	p       *Program
	def     ruleDef
	pattern *types.Var // the pattern names are matched with
	ignore  *types.Var // whether entropy is ignored
	cut     *types.Var // how much of a text is judged
	total   *types.Var // threshold of the entropy
	perChar *types.Var // threshold of the entropy by character
}

func checkC36(c *Ctx) {
	p := c.P
	c.Rule("settings", "each setting of the rule is taken from its key of the rule's configuration when it has the right kind, and is the default otherwise")
	c.Rule("decision", "a construct is flagged exactly when its text is complex enough (the entropy of its beginning reaches the threshold, or half of it and the threshold by character), or this is not asked, and the name it belongs to or the text itself gives a secret away")
	c.Rule("text", "the text of a construct is what its string literal denotes, and nothing else has one")
	c.Rule("constructs", "assignments, declarations and comparisons are looked at")
	c.Guard("text", "GetString", func() { checkGetString(c) })
	for _, d := range p.ruleTable("rules") {
		if d.ID == "G101" && d.Create != nil {
			x := &credRule{p: p, def: d}
			c.Guard("settings", "G101", func() { x.settings(c) })
			if x.pattern != nil && x.ignore != nil && x.cut != nil && x.total != nil && x.perChar != nil {
				c.Guard("decision", "G101", func() { x.decisions(c) })
			}
			return
		}
	}
	c.Fail("constructs", "G101", "-", "the rule is not registered")
}

func (x *credRule) make(g *Gate) (*GResult, *Term) {
	r := g.Run(x.def.Create)
	rule := r.Rets[0].single()
	if rule == nil || structOf(strip(rule).Typ) == nil {
		panic(undecided{"the rule made is not one struct"})
	}
	return r, strip(rule)
}

// settings finds the fields of the rule by the settings they are given.
func (x *credRule) settings(c *Ctx) {
	p := x.p
	g := NewGate(p)
	g.PreInit = p.tablesOf("rules")
	r, rule := x.make(g)
	pos := p.Pos(x.def.Create.Pos())
	conf, id := gparam(x.def.Create, 1), gparam(x.def.Create, 0)
	st := structOf(rule.Typ)
	type setting struct {
		key  string
		typ  string // what it has to be
		conv string // what it is converted by
		def  func(*Term) bool
		into **types.Var
		kind func(types.Type) bool
	}
	basic := func(info types.BasicInfo) func(types.Type) bool {
		return func(t types.Type) bool {
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Info()&info != 0
		}
	}
	isF := func(s string) func(*Term) bool {
		return func(t *Term) bool { return t.Op == "const" && strings.Contains(t.String(), s) }
	}
	for _, s := range []setting{
		{"pattern", "string", "regexp.MustCompile", func(t *Term) bool {
			v, ok := constStr(t)
			return ok && strings.HasPrefix(v, "(?i)") && strings.Contains(v, "pass") && strings.Contains(v, "secret") && strings.Contains(v, "token") && strings.Contains(v, "cred")
		}, &x.pattern, func(t types.Type) bool { return strings.HasSuffix(t.String(), "regexp.Regexp") }},
		{"ignore_entropy", "bool", "", func(t *Term) bool { return isFalseT(t) }, &x.ignore, basic(types.IsBoolean)},
		{"entropy_threshold", "string", "strconv.ParseFloat", isF("80"), &x.total, basic(types.IsFloat)},
		{"per_char_threshold", "string", "strconv.ParseFloat", isF("3"), &x.perChar, basic(types.IsFloat)},
		{"truncate", "string", "strconv.Atoi", func(t *Term) bool { n, ok := constInt(t); return ok && n == 16 }, &x.cut, basic(types.IsInteger)},
	} {
		s := s
		var in []*types.Var
		mentions := func(t *Term) bool {
			return deepContains(t, func(y *Term) bool { v, ok := constStr(y); return ok && v == s.key })
		}
		var val GV
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !s.kind(f.Type()) {
				continue
			}
			v := g.memField(r.Mem, rule, f.Name())
			hit := false
			for _, l := range v.L {
				hit = hit || mentions(l.t)
				for _, a := range bSupport(l.g) {
					hit = hit || mentions(a)
				}
			}
			if hit {
				in = append(in, f)
				val = v
			}
		}
		if !c.Check(len(in) == 1, "settings", s.key+" is used", pos, fmt.Sprint("it goes to ", len(in), " fields of the rule")) {
			continue
		}
		*s.into = in[0]
		x.setting(c, g, val, conf, id, s.key, s.typ, s.conv, s.def, pos)
	}
}

func isFalseT(t *Term) bool { b := bddOfConst(t); return b == "false" }

func bddOfConst(t *Term) string {
	t = strip(t)
	if t.Op != "const" && t.Op != "bdd" {
		return ""
	}
	switch bddOf(t) {
	case bT:
		return "true"
	case bF:
		return "false"
	}
	return ""
}

// setting decides a setting for every kind of configuration.
func (x *credRule) setting(c *Ctx, g *Gate, v GV, conf, id *Term, key, typ, conv string, isDef func(*Term) bool, pos string) {
	isKey := func(t *Term) bool { s, ok := constStr(strip(t)); return ok && s == key }
	entryOf := func(t *Term) bool { // the value under the key
		return t.Op == "mapget" && len(t.Args) >= 2 && isKey(t.Args[1])
	}
	given := func(t *Term) bool { return deepContains(t, entryOf) }
	// the rule's entry in the configuration is there, or is an object
	ofRule := func(t *Term) bool {
		if t.Op == "tassertok" && len(t.Args) > 0 {
			if t = strip(t.Args[0]); t.Op != "mapget" {
				return false
			}
			return unverT(t.Args[0]) == conf && strip(t.Args[1]) == id
		}
		return t.Op == "has" && unverT(t.Args[0]) == conf && strip(t.Args[1]) == id
	}
	kind := func(rule, present, right, valid bool) (BDD, BDD) {
		fixed := func(a *Term) (bool, bool) {
			switch {
			case ofRule(a):
				return rule, true
			case a.Op == "has" && len(a.Args) >= 2 && isKey(a.Args[1]):
				return present, true
			case a.Op == "has":
				// another setting
				return false, true
			case a.Op == "tassertok" && entryOf(strip(a.Args[0])):
				return right && assertedType(a) == typ, true
			case isEq(a) && (isNilT(strip(a.Args[0])) || isNilT(strip(a.Args[1]))) && given(a):
				return valid, true
			}
			return false, false
		}
		dflt, set := bF, bF
		var add func(t *Term, G BDD)
		add = func(t *Term, G BDD) {
			t = strip(t)
			G = bRestrict(G, fixed)
			if G == bF {
				return
			}
			switch {
			case t.Op == "gv":
				for _, l := range gvTerms[t].L {
					add(l.t, bAnd(G, l.g))
				}
			case t.Op == "call" && callName(t) == "regexp.MustCompile" && len(t.Args) == 1:
				add(t.Args[0], G)
			case t.Op == "bdd":
				b := bRestrict(bddTerms[t], fixed)
				if b == bF {
					dflt = bOr(dflt, G)
					return
				}
				for _, a := range bSupport(b) {
					if !given(a) || b != bm.atom(a) {
						return
					}
				}
				set = bOr(set, G)
			case isDef(t):
				dflt = bOr(dflt, G)
			case given(t):
				ok := true
				switch conv {
				case "strconv.ParseFloat", "strconv.Atoi":
					ok = t.Op == "extract" && fmt.Sprint(t.Obj) == "0" && t.Args[0].Op == "call"
					if ok {
						n := callName(t.Args[0])
						a := t.Args[0].Args
						ok = n == conv || conv == "strconv.Atoi" && n == "strconv.ParseInt" && len(a) == 3 && constI(a[1]) == 10
						if n == "strconv.ParseFloat" {
							ok = ok && constI(a[1]) == 64
						}
						arg := strip(a[0])
						ok = ok && arg.Op == "tassert" && entryOf(strip(arg.Args[0]))
					}
				default:
					ok = t.Op == "tassert" && entryOf(strip(t.Args[0]))
				}
				if ok {
					set = bOr(set, G)
				}
			}
		}
		for _, l := range v.L {
			add(l.t, l.g)
		}
		return dflt, set
	}
	for _, k := range []struct {
		what                        string
		rule, present, right, valid bool
		set                         bool
	}{
		{"without configuration of the rule", false, false, false, false, false},
		{"not configured", true, false, false, false, false},
		{"of another kind", true, true, false, true, false},
		{"configured", true, true, true, true, true},
		{"not a number", true, true, true, false, false},
	} {
		if k.what == "not a number" && !strings.HasPrefix(conv, "strconv.") {
			continue
		}
		d, s := kind(k.rule, k.present, k.right, k.valid)
		got, other := d, s
		if k.set {
			got, other = s, d
		}
		c.Check(got == bT && other == bF, "settings", key+" "+k.what, pos, "default when "+brief(bString(d))+", the setting when "+brief(bString(s)))
	}
}

// ask evaluates the rule for a construct.
func (x *credRule) ask(build func(s *shapes) *Term) (flagged BDD, odd *Term) {
	p := x.p
	g := NewGate(p)
	g.PreInit = p.tablesOf("rules")
	g.Concrete = true
	newIssue, getString := p.Method("", "Context", "NewIssue"), p.Func("", "GetString")
	if newIssue == nil || getString == nil {
		panic(undecided{"NewIssue or GetString not found"})
	}
	g.noInline(newIssue, getString)
	g.Pure = func(n string) bool { return strings.Contains(n, "regexp.") }
	texts := map[*Term]*Term{}
	text := func(t *Term) *Term {
		t = strip(t)
		if t.Op == "iface" {
			t = t.Args[0]
		}
		return texts[t]
	}
	f64 := types.Typ[types.Float64]
	g.Hook = func(t *Term) *Term {
		switch t.Op {
		case "extract":
			if call := t.Args[0]; call.Op == "call" && call.Obj == any(getString) {
				v := text(call.Args[0])
				switch {
				case fmt.Sprint(t.Obj) == "0" && v != nil:
					return v
				case fmt.Sprint(t.Obj) == "0":
					return mkString("")
				case v != nil:
					return mkNil()
				}
				return mk("sym", "notAString", "", t.Typ)
			}
		case "bin":
			if isEq(t) && (isNilT(strip(t.Args[0])) || isNilT(strip(t.Args[1]))) {
				o := strip(t.Args[0])
				if isNilT(o) {
					o = strip(t.Args[1])
				}
				if o.Op == "sym" || o.Op == "call" && o.Obj == any(newIssue) {
					return mkBool(false)
				}
			}
		case "field":
			if f, _ := t.Obj.(*types.Var); f != nil && f.Name() == "Entropy" {
				call := strip(t.Args[0])
				if call.Op == "deref" {
					call = strip(call.Args[0])
				}
				if call.Op == "call" && strings.HasSuffix(callName(call), ".PasswordStrength") {
					if v := x.beginning(g, call.Args[0]); v != nil {
						return mk("entropy", nil, "", f64, v)
					}
				}
			}
		}
		return nil
	}
	r, rule := x.make(g)
	fn := p.methodOf(rule.Typ, "Match")
	if fn == nil {
		panic(undecided{"the rule has no Match"})
	}
	mem := cloneMem(r.Mem)
	for _, f := range []*types.Var{x.pattern, x.ignore, x.cut, x.total, x.perChar} {
		mem[mk("fieldaddr", f, "", types.NewPointer(f.Type()), rule)] = gvT(x.setTo(f))
	}
	s := newShapes(p, mem)
	node := build(s)
	for a, v := range mem {
		if a.Op == "fieldaddr" && strings.HasPrefix(symName(a.Args[0]), "BasicLit") {
			if f, _ := a.Obj.(*types.Var); f != nil && f.Name() == "Value" {
				if t := v.single(); t != nil && t.Op == "sym" {
					texts[a.Args[0]] = t
				}
			}
		}
	}
	g.Events = nil
	rets, retG, _ := g.frame(fn, nil, nil, []GV{gvT(rule), gvT(node), gvT(gparam(fn, 2))}, nil, "match", mem, 0)
	for _, v := range rets[0].L {
		if isNilT(v.t) {
			continue
		}
		flagged = bOr(flagged, v.g)
		if t := strip(v.t); t.Op != "call" || t.Obj != any(newIssue) {
			odd = v.t
		}
	}
	return x.plain(g, bAnd(flagged, retG)), odd
}

func (x *credRule) setTo(f *types.Var) *Term {
	n := map[*types.Var]string{x.pattern: "pattern", x.ignore: "ignore entropy", x.cut: "truncate", x.total: "entropy threshold", x.perChar: "per char threshold"}[f]
	return mk("sym", n, "", f.Type())
}

// beginning: the term is a text, cut after the configured number of characters; the text is returned.
func (x *credRule) beginning(g *Gate, t *Term) *Term {
	t = strip(t)
	n := x.setTo(x.cut)
	var of *Term
	cut, whole := bF, bF
	ls := []gl{{g: bT, t: t}}
	if t.Op == "gv" {
		ls = gvTerms[t].L
	}
	for _, l := range ls {
		y := strip(l.t)
		base := y
		if y.Op == "slice" {
			base = strip(y.Args[0])
			if len(y.Args) < 3 || strip(y.Args[2]) != n || strip(y.Args[1]).Op != "nil" && !isZeroT(y.Args[1]) {
				return nil
			}
			cut = bOr(cut, l.g)
		} else {
			whole = bOr(whole, l.g)
		}
		if base.Op != "sym" || (of != nil && of != base) {
			return nil
		}
		of = base
	}
	if of == nil {
		return nil
	}
	if sat(bAnd(x.differ(g, of), bXor(cut, x.isCut(g, of)))) != bF {
		return nil
	}
	return of
}

func isZeroT(t *Term) bool { v, ok := constInt(strip(t)); return ok && v == 0 }

// isCut: a text is longer than what is judged of it.
func (x *credRule) isCut(g *Gate, text *Term) BDD {
	n, l := x.setTo(x.cut), g.lenOf(nil, text).term()
	return bAnd(bNot(g.lt(n, mkInt(0), types.Typ[types.Int])), g.lt(n, l, types.Typ[types.Int]))
}

// differ: a text is not exactly as long as what is judged of a text, in which case it makes no difference.
func (x *credRule) differ(g *Gate, text *Term) BDD {
	n, l := x.setTo(x.cut), g.lenOf(nil, text).term()
	a, b := g.lt(n, l, types.Typ[types.Int]), g.lt(l, n, types.Typ[types.Int])
	return bAnd(bXor(a, b), bNot(g.eq1(n, l)))
}

// plain replaces what is asked of a text by atoms: named, ignore, high entropy and secret.
func (x *credRule) plain(g *Gate, b BDD) BDD {
	return bMap(b, func(a *Term) BDD {
		if a.Op == "exists" {
			if t := x.secretAsked(a); t != nil {
				return bm.atom(mk("secret", nil, "", types.Typ[types.Bool], t))
			}
		}
		if a.Op == "bin" && a.Obj == any("<") {
			if y := x.compared(a); y != nil {
				return bm.atom(y)
			}
		}
		if a.Op == "call" && strings.HasSuffix(callName(a), "Regexp).MatchString") && len(a.Args) == 2 {
			if strip(a.Args[0]) == x.setTo(x.pattern) {
				return bm.atom(mk("named", nil, "", types.Typ[types.Bool], strip(a.Args[1])))
			}
		}
		return bm.atom(a)
	})
}

// belowHalf: the entropy of a text is below half of the threshold.
func belowHalf(text *Term) *Term { return mk("belowHalf", nil, "", types.Typ[types.Bool], text) }

// lowByChar: the entropy of a text, divided by the length of what is judged, is below the threshold by character.
func lowByChar(text *Term, of string) *Term {
	return mk("lowByChar", of, "", types.Typ[types.Bool], text)
}

// compared recognises comparisons with half of the threshold and with the threshold by character.
func (x *credRule) compared(a *Term) *Term {
	l, r := strip(a.Args[0]), strip(a.Args[1])
	number := func(t *Term, f float64) bool {
		t = strip(t)
		if t.Op != "const" {
			return false
		}
		v, err := strconv.ParseFloat(t.String(), 64)
		return err == nil && v == f
	}
	total := x.setTo(x.total)
	if l.Op == "entropy" && r.Op == "bin" {
		y, z := strip(r.Args[0]), strip(r.Args[1])
		switch {
		case r.Obj == any("/") && y == total && number(z, 2),
			r.Obj == any("*") && (y == total && number(z, 0.5) || z == total && number(y, 0.5)):
			return belowHalf(l.Args[0])
		}
	}
	if l.Op != "bin" {
		return nil
	}
	y, z := strip(l.Args[0]), strip(l.Args[1])
	if l.Obj == any("*") && r == total {
		if y.Op == "entropy" && number(z, 2) {
			return belowHalf(y.Args[0])
		}
		if z.Op == "entropy" && number(y, 2) {
			return belowHalf(z.Args[0])
		}
	}
	if l.Obj == any("/") && y.Op == "entropy" && r == x.setTo(x.perChar) {
		if z == x.setTo(x.cut) {
			return lowByChar(y.Args[0], "cut")
		}
		if z.Op == "len" {
			switch of := strip(z.Args[0]); {
			case of == y.Args[0]:
				return lowByChar(y.Args[0], "whole")
			case of.Op == "slice" && strip(of.Args[0]) == y.Args[0] && len(of.Args) > 2 && strip(of.Args[2]) == x.setTo(x.cut):
				return lowByChar(y.Args[0], "cut")
			}
		}
	}
	return nil
}

// secretAsked: one of the patterns of secrets matches a text.
func (x *credRule) secretAsked(a *Term) *Term {
	cond, ok := condTerms[a]
	if !ok {
		return nil
	}
	sup := bSupport(cond)
	if len(sup) != 1 || cond != bm.atom(sup[0]) {
		return nil
	}
	m := sup[0]
	if m.Op != "call" || !strings.HasSuffix(callName(m), "Regexp).MatchString") || len(m.Args) != 2 {
		return nil
	}
	// of all patterns of a table of the package
	all := false
	deepContains(m.Args[0], func(y *Term) bool {
		switch y.Op {
		case "index":
			at, isArray := arrayOf(y.Args[0])
			i := strip(y.Args[1])
			if !isArray && y.Args[0].Typ != nil {
				return false
			}
			if i.Op == "idx" && i.Args[0] == a.Args[0] && i.Args[0].Op == "upto" {
				if n, ok := constInt(strip(i.Args[0].Args[0])); ok && n == at.Len() {
					all = true
				}
			}
		case "elem":
			all = all || stripRev(y.Args[0]) == stripRev(a.Args[0]) && !deepContains(a.Args[0], func(z *Term) bool { return z.Op == "slice" })
		}
		return false
	})
	if !all || !deepContains(m.Args[0], func(y *Term) bool { return y.Op == "global" }) {
		return nil
	}
	return strip(m.Args[1])
}

func (x *credRule) decisions(c *Ctx) {
	p := x.p
	pos := p.Pos(x.def.Create.Pos())
	gg := NewGate(p)
	gg.PreInit = p.tablesOf("rules")
	str := types.Typ[types.String]
	f64 := types.Typ[types.Float64]
	sym := func(n string) *Term { return mk("sym", n, "", str) }
	name, name2, text, text2 := sym("name"), sym("second name"), sym("text"), sym("second text")
	named := func(n *Term) BDD { return bm.atom(mk("named", nil, "", types.Typ[types.Bool], n)) }
	secret := func(t *Term) BDD { return bm.atom(mk("secret", nil, "", types.Typ[types.Bool], t)) }
	ignore := bddOf(x.setTo(x.ignore))
	high := func(t *Term) BDD {
		e := mk("entropy", nil, "", f64, t)
		low := bOr(bAnd(x.isCut(gg, t), bm.atom(lowByChar(t, "cut"))), bAnd(bNot(x.isCut(gg, t)), bm.atom(lowByChar(t, "whole"))))
		return bOr(bNot(gg.lt(e, x.setTo(x.total), f64)), bAnd(bNot(bm.atom(belowHalf(t))), bNot(low)))
	}
	gate := func(t *Term) BDD { return bOr(ignore, high(t)) }
	N := func(n, t *Term) BDD { return bAnd(gate(t), named(n)) }
	S := func(t *Term) BDD { return bAnd(gate(t), secret(t)) }
	lit := func(s *shapes, t any) *Term {
		return s.node("BasicLit", "Value", t, "Kind", mkConstOf(int64(token.STRING), types.Typ[types.Int]))
	}
	number := func(s *shapes) *Term {
		return s.node("BasicLit", "Value", "1", "Kind", mkConstOf(int64(token.INT), types.Typ[types.Int]))
	}
	call := func(s *shapes) *Term { return s.node("CallExpr", "Args", []*Term{}) }
	field := func(s *shapes) *Term { return s.sel(s.ident("cfg"), "field") }
	assign := func(l, r func(s *shapes) []*Term) func(s *shapes) *Term {
		return func(s *shapes) *Term { return s.node("AssignStmt", "Lhs", l(s), "Rhs", r(s)) }
	}
	declare := func(r func(s *shapes) []*Term, names ...any) func(s *shapes) *Term {
		return func(s *shapes) *Term {
			var l []*Term
			for _, n := range names {
				l = append(l, s.ident(n).Args[0])
			}
			return s.node("ValueSpec", "Names", l, "Values", r(s))
		}
	}
	compare := func(op token.Token, l, r func(s *shapes) *Term) func(s *shapes) *Term {
		return func(s *shapes) *Term {
			return s.node("BinaryExpr", "X", l(s), "Y", r(s), "Op", mkConstOf(int64(op), types.Typ[types.Int]))
		}
	}
	ident := func(n *Term) func(s *shapes) *Term { return func(s *shapes) *Term { return s.ident(n) } }
	textOf := func(t *Term) func(s *shapes) *Term { return func(s *shapes) *Term { return lit(s, t) } }
	list := func(fs ...func(s *shapes) *Term) func(s *shapes) []*Term {
		return func(s *shapes) []*Term {
			var l []*Term
			for _, f := range fs {
				l = append(l, f(s))
			}
			return l
		}
	}
	n1, n2, t1, t2 := ident(name), ident(name2), textOf(text), textOf(text2)
	both := bOr(bOr(N(name, text), N(name2, text2)), bOr(S(text), S(text2)))
	cross := bOr(both, bOr(N(name, text2), N(name2, text)))
	one := bOr(N(name, text), S(text))
	differ := bAnd(x.differ(gg, text), x.differ(gg, text2))
	for _, k := range []struct {
		what      string
		build     func(s *shapes) *Term
		must, may BDD
	}{
		{"a text assigned to a variable", assign(list(n1), list(t1)), one, one},
		{"a result assigned to a variable", assign(list(n1), list(call)), bF, bF},
		{"a number assigned to a variable", assign(list(n1), list(number)), bF, bF},
		{"two texts assigned to two variables", assign(list(n1, n2), list(t1, t2)), both, cross},
		{"a result and a text assigned", assign(list(n1, n2), list(call, t2)), bOr(N(name2, text2), S(text2)), bOr(N(name, text2), bOr(N(name2, text2), S(text2)))},
		{"a text and a result assigned", assign(list(n1, n2), list(t1, call)), one, bOr(one, N(name2, text))},
		{"texts assigned to a field and a variable", assign(list(field, n2), list(t1, t2)), bOr(N(name2, text2), bOr(S(text), S(text2))), bOr(N(name2, text), bOr(N(name2, text2), bOr(S(text), S(text2))))},
		{"results assigned to two variables", assign(list(n1, n2), list(call)), bF, bF},
		{"a variable declared with a text", declare(list(t1), name), one, one},
		{"a variable declared without value", declare(list(), name), bF, bF},
		{"a variable declared with a result", declare(list(call), name), bF, bF},
		{"two variables declared with texts", declare(list(t1, t2), name, name2), both, cross},
		{"two variables declared with a result and a text", declare(list(call, t2), name, name2), bOr(N(name2, text2), S(text2)), bOr(N(name, text2), bOr(N(name2, text2), S(text2)))},
		{"two variables declared with results", declare(list(call), name, name2), bF, bF},
		{"a variable equal to a text", compare(token.EQL, n1, t1), one, one},
		{"a text equal to a variable", compare(token.EQL, t1, n1), one, one},
		{"a variable other than a text", compare(token.NEQ, n1, t1), one, one},
		{"a text other than a variable", compare(token.NEQ, t1, n1), one, one},
		{"a variable less than a text", compare(token.LSS, n1, t1), bF, bF},
		{"a variable and a text added", compare(token.ADD, n1, t1), bF, bF},
		{"a variable equal to a result", compare(token.EQL, n1, call), bF, bF},
		{"a variable equal to a variable", compare(token.EQL, n1, n2), bF, bF},
		{"a variable equal to a number", compare(token.EQL, n1, number), bF, bF},
		{"a result equal to a text", compare(token.EQL, call, t1), S(text), S(text)},
		{"a text equal to a field", compare(token.EQL, t1, field), S(text), S(text)},
		{"a text equal to a text", compare(token.EQL, t1, t2), bF, bOr(S(text), S(text2))},
		{"a text that is returned", func(s *shapes) *Term { return s.node("ReturnStmt", "Results", []*Term{lit(s, text)}) }, bF, bF},
	} {
		k := k
		c.Guard("decision", k.what, func() {
			b, odd := x.ask(k.build)
			if odd != nil {
				c.Fail("decision", k.what, pos, "reports "+brief(odd.String()))
			}
			missed := sat(bAnds(differ, k.must, bNot(b)))
			c.Check(missed == bF, "decision", k.what+" is flagged", pos, "is not flagged when "+brief(bString(missed)))
			more := sat(bAnds(differ, b, bNot(k.may)))
			c.Check(more == bF, "decision", k.what+" is flagged only then", pos, "is flagged when "+brief(bString(more)))
		})
	}
	x.nodes(c, pos)
}

// nodes: what the rule is registered for.
func (x *credRule) nodes(c *Ctx, pos string) {
	g := NewGate(x.p)
	r, _ := x.make(g)
	t := r.Rets[1].single()
	els, ok := []GV(nil), false
	if t != nil {
		els, ok = g.sliceElems(r.Mem, strip(t))
	}
	if !ok {
		panic(undecided{"the kinds of nodes are not known"})
	}
	have := map[string]bool{}
	for _, e := range els {
		if y := e.single(); y != nil && y.Op == "iface" {
			if k, ok := y.Obj.(types.Type); ok {
				have[namedName(deref2(k))] = true
			}
		}
	}
	for _, k := range []string{"AssignStmt", "ValueSpec", "BinaryExpr"} {
		c.Check(have["go/ast."+k], "constructs", k, pos, fmt.Sprint("the rule is registered for ", have))
	}
}

// checkGetString: the text of a string literal.
func checkGetString(c *Ctx) {
	p := c.P
	fn := p.Func("", "GetString")
	if fn == nil {
		panic(undecided{"GetString not found"})
	}
	pos := p.Pos(fn.Pos())
	value := mk("sym", "value", "", types.Typ[types.String])
	for _, k := range []struct {
		what string
		kind token.Token
		node string
	}{{"a string", token.STRING, "BasicLit"}, {"a number", token.INT, "BasicLit"}, {"a character", token.CHAR, "BasicLit"}, {"a call", token.ILLEGAL, "CallExpr"}, {"a name", token.ILLEGAL, "Ident"}} {
		g := NewGate(p)
		g.PreInit = p.tablesOf("rules")
		g.Concrete = true
		mem := GMem{}
		s := newShapes(p, mem)
		var n *Term
		switch k.node {
		case "BasicLit":
			n = s.node("BasicLit", "Value", value, "Kind", mkConstOf(int64(k.kind), types.Typ[types.Int]))
		case "Ident":
			n = s.ident(value)
		default:
			n = s.node("CallExpr", "Args", []*Term{})
		}
		rets, retG, _ := g.frame(fn, nil, nil, []GV{gvT(n)}, nil, "text", mem, 0)
		bad := ""
		for _, l := range rets[1].L {
			if sat(bAnd(retG, l.g)) == bF {
				continue
			}
			t := strip(l.t)
			unq := t.Op == "extract" && callName(t.Args[0]) == "strconv.Unquote" && strip(t.Args[0].Args[0]) == value && fmt.Sprint(t.Obj) == "1"
			if k.kind == token.STRING && !unq && !isNilT(t) || k.kind != token.STRING && (isNilT(t) || unq) {
				bad = "the error is " + brief(t.String())
			}
		}
		if k.kind == token.STRING {
			for _, l := range rets[0].L {
				t := strip(l.t)
				if !(t.Op == "extract" && callName(t.Args[0]) == "strconv.Unquote" && strip(t.Args[0].Args[0]) == value && fmt.Sprint(t.Obj) == "0") && sat(bAnd(retG, bAnd(l.g, g.eq(rets[1], mkNil())))) != bF {
					bad = "the text is " + brief(t.String())
				}
			}
		}
		c.Check(bad == "", "text", k.what, pos, bad)
	}
}
