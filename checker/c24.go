package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() { register("C24", checkC24) }

// permRules are the permission rules: the functions each covers, its default maximum and, where the function
// takes no mode, the mode it uses.
var permRules = map[string]struct {
	funcs []string
	max   int64
	fixed int64
}{
	"G301": {[]string{"os.Mkdir", "os.MkdirAll"}, 0o750, -1},
	"G302": {[]string{"os.OpenFile", "os.Chmod"}, 0o600, -1},
	"G306": {[]string{"os.WriteFile", "io/ioutil.WriteFile"}, 0o600, -1},
	"G307": {[]string{"os.Create"}, 0o666, 0o666},
}

func checkC24(c *Ctx) {
	p := c.P
	c.Rule("maximum", "the allowed maximum is the configured one, or else the default")
	c.Rule("functions", "the rule is asked about each function it covers")
	c.Rule("argument", "the mode looked at is the argument which the function takes as mode")
	c.Rule("decision", "a call is flagged exactly when its mode has a bit which the maximum lacks")
	c.Rule("number", "a mode is read with its value")
	defs := map[string]ruleDef{}
	for _, d := range p.ruleTable("rules") {
		defs[d.ID] = d
	}
	for id := range permRules {
		d, ok := defs[id]
		if !c.Check(ok && d.Create != nil, "functions", id, "-", "the rule is registered") {
			continue
		}
		c.Guard("decision", id, func() { checkPermRule(c, id, d) })
	}
	c.Guard("number", "GetInt", func() { checkGetInt(c) })
}

func checkPermRule(c *Ctx, id string, d ruleDef) {
	p := c.P
	spec := permRules[id]
	pos := p.Pos(d.Create.Pos())
	match := p.Func("", "MatchCallByPackage")
	getInt := p.Func("", "GetInt")
	newIssue := p.Method("", "Context", "NewIssue")
	if match == nil || getInt == nil || newIssue == nil {
		panic(undecided{"MatchCallByPackage, GetInt or NewIssue not found"})
	}
	g := NewGate(p)
	g.noInline(match, getInt, newIssue)
	g.KeepMem = func(e *GEvent) bool { return e.Fn == match }
	r := g.Run(d.Create)
	conf := gparam(d.Create, 1)
	rule := r.Rets[0].single()
	if rule == nil {
		panic(undecided{"the rule made is not one value"})
	}
	rule = strip(rule)
	pt, ok := rule.Typ.Underlying().(*types.Pointer)
	st := (*types.Struct)(nil)
	if ok {
		st = structOf(pt)
	}
	if st == nil {
		panic(undecided{"the rule is not a struct"})
	}
	// the number among its fields
	var mode *types.Var
	for i := 0; i < st.NumFields(); i++ {
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if mode != nil {
				panic(undecided{"the rule holds several numbers"})
			}
			mode = st.Field(i)
		}
	}
	if mode == nil {
		panic(undecided{"the rule holds no number"})
	}
	checkMaximum(c, id, g, g.memField(r.Mem, rule, mode.Name()), conf, gparam(d.Create, 0), spec.max, pos)

	// what it decides
	fn := p.methodOf(rule.Typ, "Match")
	if fn == nil {
		panic(undecided{"the rule has no Match"})
	}
	mem := cloneMem(r.Mem)
	M := mk("sym", "maximum", "", mode.Type())
	g.store1(mem, mk("fieldaddr", mode, "", types.NewPointer(mode.Type()), rule), gvT(M))
	g.Events = nil
	n, ctx := gparam(fn, 1), gparam(fn, 2)
	rets, retG, _ := g.frame(fn, nil, nil, []GV{gvT(rule), gvT(n), gvT(ctx)}, nil, "match", mem, 0)
	flagged := bF
	for _, x := range rets[0].L {
		if isNilT(x.t) {
			continue
		}
		flagged = bOr(flagged, x.g)
		isNew := x.t.Op == "call" && x.t.Obj == any(newIssue)
		c.Check(isNew, "decision", id+" reports", p.Pos(fn.Pos()), "what is reported is "+brief(x.t.String()))
	}
	flagged = bAnd(flagged, retG)
	// the functions asked about
	covered := map[string]bool{}
	matched := bF
	matchTerms := map[*Term]bool{}
	for _, e := range g.Events {
		if e.Fn != match {
			continue
		}
		if len(e.Loops) > 0 {
			panic(undecided{"the packages are not known"})
		}
		pk := e.Args[2].single()
		name, ok := "", false
		if pk != nil {
			name, ok = constStr(strip(pk))
		}
		if !ok || e.Args[0].single() != n || e.Args[1].single() != ctx {
			c.Fail("functions", id, p.InstrPos(e.Ins), "asks about "+e.Args[2].String())
			continue
		}
		var fs []GV
		if e.VarOK {
			fs = e.Var
		} else if t := e.Args[3].single(); t != nil {
			if els, ok := g.sliceElems(e.Mem, strip(t)); ok {
				fs = els
			} else {
				panic(undecided{"the names of the functions are not known: " + t.String()})
			}
		}
		for _, f := range fs {
			t := f.single()
			s := ""
			if t != nil {
				s, _ = constStr(strip(t))
			}
			covered[name+"."+s] = true
		}
		matchTerms[e.Result] = true
		matched = bOr(matched, bddOf(res(e, 1)))
	}
	for _, f := range spec.funcs {
		c.Check(covered[f], "functions", id+" covers "+f, pos, fmt.Sprint("covers ", covered))
	}
	for f := range covered {
		i := strings.LastIndex(f, ".")
		pk := p.library(f[:i])[f[:i]]
		var o types.Object
		if pk != nil {
			o = pk.Scope().Lookup(f[i+1:])
		}
		sig := (*types.Signature)(nil)
		if o != nil {
			sig, _ = o.Type().(*types.Signature)
		}
		if !c.Check(sig != nil, "functions", id+" function "+f, pos, "is not a function of the package") {
			continue
		}
		if spec.fixed >= 0 {
			continue
		}
		k := sig.Params().Len() - 1
		c.Check(k >= 0 && strings.HasSuffix(sig.Params().At(k).Type().String(), "FileMode"), "argument", id+" mode of "+f, pos, "the mode is the last parameter")
	}
	if len(matchTerms) == 0 {
		return
	}
	// nothing is flagged that is not a call of one of them
	ok, det := implies(noExists(noLoopVars(flagged)), matched)
	c.Check(ok, "decision", id+" flags only the functions", p.Pos(fn.Pos()), det)
	if spec.fixed >= 0 {
		b := bitwise(flagged, nil, M)
		want := bAnd(matched, bNot(subsetOf(mkInt(spec.fixed), M)))
		same, d := sameCond(b, want)
		c.Check(same, "decision", id+" compares the modes", p.Pos(fn.Pos()), d)
		return
	}
	// the argument, and what it is read as
	var reads []*Term
	wrong := ""
	for _, t := range bSupport(flagged) {
		contains(t, func(x *Term) bool {
			if x.Op == "call" && x.Obj == any(getInt) {
				arg := strip(x.Args[0])
				base := (*Term)(nil)
				contains(arg, func(y *Term) bool {
					if matchTerms[y] {
						base = y
					}
					return false
				})
				if base == nil || !lastArg(arg) {
					wrong = arg.String()
				}
				known := false
				for _, r := range reads {
					known = known || r == x
				}
				if !known {
					reads = append(reads, x)
				}
			}
			return false
		})
	}
	if !c.Check(wrong == "" && len(reads) > 0, "argument", id+" reads the last argument", p.Pos(fn.Pos()), "reads "+brief(wrong)) {
		return
	}
	resultOf := func(x *Term, i int) *Term {
		for _, e := range g.Events {
			if e.Fn == getInt && e.Result == x {
				return res(e, i)
			}
		}
		panic(undecided{"no result of " + x.String()})
	}
	matchOf := func(x *Term) BDD {
		for _, e := range g.Events {
			if e.Fn == match && contains(x, func(y *Term) bool { return y == e.Result }) {
				return bddOf(res(e, 1))
			}
		}
		return bF
	}
	numbers, others := bT, bT
	want := bF
	// a call without arguments does not compile, or has the arguments of a call as its own
	flagged = bRestrict(flagged, func(a *Term) (bool, bool) { return withElements(a) })
	b := flagged
	for _, x := range reads {
		isNum := g.eq(gvT(resultOf(x, 1)), mkNil())
		numbers = bAnd(numbers, isNum)
		others = bAnd(others, bNot(isNum))
		m := resultOf(x, 0)
		want = bOr(want, bAnd(matchOf(x), bNot(subsetOf(m, M))))
		b = bitwise(b, m, M)
	}
	perm := mkInt(0o777)
	b = bitwise(b, perm, M)
	isPerm := func(t *Term) bool {
		return contains(t, func(x *Term) bool { s, ok := constStr(x); return ok && s == "ModePerm" })
	}
	// a number is not the name of a mode
	plain := bRestrict(b, func(t *Term) (bool, bool) { return false, isPerm(t) })
	same, dd := sameCond(bConstrain(plain, numbers), bConstrain(want, numbers))
	if b == bF || numbers == bF {
		same = false
	}
	c.Check(same, "decision", id+" compares all bits of the mode", p.Pos(fn.Pos()), dd)
	// a mode that is not a number: only os.ModePerm is known, and it has all permission bits
	rest := bConstrain(b, others)
	none := bRestrict(rest, func(t *Term) (bool, bool) { return false, isPerm(t) })
	c.Check(none == bF, "decision", id+" flags no unknown mode", p.Pos(fn.Pos()), "flags when "+bString(none))
	ok, det = implies(noExists(rest), bNot(subsetOf(perm, M)))
	c.Check(ok, "decision", id+" judges os.ModePerm by the maximum", p.Pos(fn.Pos()), det)
}

// withElements decides a comparison of the number of arguments of a call, of which there is at least one.
func withElements(a *Term) (bool, bool) {
	if a.Op != "bin" || len(a.Args) != 2 {
		return false, false
	}
	// a difference from the number of arguments
	isArgs := func(t *Term) (int64, bool) {
		t = strip(t)
		off := int64(0)
		if t.Op == "bin" && len(t.Args) == 2 && (t.Obj == any("-") || t.Obj == any("+")) {
			k, ok := constInt(strip(t.Args[1]))
			if !ok {
				return 0, false
			}
			if t.Obj == any("-") {
				k = -k
			}
			off, t = k, strip(t.Args[0])
		}
		return off, t.Op == "len" && ownOf(strip(t.Args[0])) == "go/ast.CallExpr.Args"
	}
	l, r := strip(a.Args[0]), strip(a.Args[1])
	k, isK := constInt(l)
	switch {
	case isEq(a):
		if !isK {
			l, r = r, l
			k, isK = constInt(l)
		}
		off, ok := isArgs(r)
		return false, isK && ok && k-off < 1
	case a.Obj == any("<"):
		if off, ok := isArgs(r); ok && isK {
			return true, k-off < 1
		}
		if k, ok := constInt(r); ok {
			if off, ok := isArgs(l); ok {
				return false, k-off <= 1
			}
		}
	}
	return false, false
}

// lastArg: the last element of the arguments of a call.
func lastArg(t *Term) bool {
	t = strip(t)
	switch t.Op {
	case "index", "elem":
		if len(t.Args) == 2 {
			l := strip(t.Args[1])
			return strings.Contains(t.Args[0].String(), "Args") && l.Op == "bin" && l.Obj == any("-") && l.Args[0].Op == "len" && strip(l.Args[0].Args[0]) == strip(t.Args[0]) && l.Args[1] == mkInt(1)
		}
	case "gv":
		for _, x := range gvTerms[t].L {
			if !lastArg(x.t) {
				return false
			}
		}
		return true
	}
	return false
}

// subsetOf is the condition that all bits of one mode are in the other.
func subsetOf(m, M *Term) BDD {
	return bddOf(mk("subset", nil, "", types.Typ[types.Bool], m, M))
}

// bitwise replaces comparisons of bitwise expressions of the two numbers, which amount to a comparison of
// their bits, by the condition that the bits of the first are among those of the second.
func bitwise(b BDD, m, M *Term) BDD {
	return bMap(b, func(a *Term) BDD {
		if !isEq(a) {
			return bddOf(a)
		}
		num := m
		if num == nil {
			// a fixed number
			num = onlyConst(a, M)
			if num == nil {
				return bddOf(a)
			}
		}
		always, subset := true, true
		for bit := 0; bit < 63; bit++ {
			for k := 0; k < 4; k++ {
				mb, Mb := k&1 == 1, k&2 == 2
				if v, ok := constInt(num); ok && mb != (v>>bit&1 == 1) {
					continue
				}
				x, ok1 := bitOf(a.Args[0], num, M, mb, Mb, bit)
				y, ok2 := bitOf(a.Args[1], num, M, mb, Mb, bit)
				if !ok1 || !ok2 {
					return bddOf(a)
				}
				if x != y {
					always = false
				}
				if (x == y) == (mb && !Mb) {
					subset = false
				}
			}
		}
		switch {
		case always:
			return bT
		case subset:
			return subsetOf(num, M)
		}
		return bddOf(a)
	})
}

// onlyConst is the one number in a comparison, besides zero and the mask.
func onlyConst(a, M *Term) *Term {
	var out *Term
	n := 0
	contains(a, func(x *Term) bool {
		if v, ok := constInt(x); ok && v != 0 && x != out {
			out = x
			n++
		}
		return false
	})
	if n != 1 || !contains(a, func(x *Term) bool { return x == M }) {
		return nil
	}
	return mkInt(constI(out))
}

func constI(t *Term) int64 { v, _ := constInt(t); return v }

func bitOf(t, m, M *Term, mb, Mb bool, bit int) (bool, bool) {
	t = strip(t)
	if t == M {
		return Mb, true
	}
	if t == m {
		return mb, true
	}
	if v, ok := constInt(t); ok {
		return v>>bit&1 == 1, true
	}
	switch t.Op {
	case "conv", "convert":
		return bitOf(t.Args[0], m, M, mb, Mb, bit)
	case "bin":
		op, _ := t.Obj.(string)
		x, ok1 := bitOf(t.Args[0], m, M, mb, Mb, bit)
		y, ok2 := bitOf(t.Args[1], m, M, mb, Mb, bit)
		if !ok1 || !ok2 {
			return false, false
		}
		switch op {
		case "&":
			return x && y, true
		case "|":
			return x || y, true
		case "^":
			return x != y, true
		case "&^":
			return x && !y, true
		}
	case "un", "unop":
		if t.Obj == any("^") {
			x, ok := bitOf(t.Args[0], m, M, mb, Mb, bit)
			return !x, ok
		}
	}
	return false, false
}

// checkMaximum decides where the maximum comes from.
func checkMaximum(c *Ctx, id string, g *Gate, v GV, conf, key *Term, def int64, pos string) {
	var entry *Term
	find := func(t *Term) {
		contains(t, func(x *Term) bool {
			if x.Op == "mapget" && len(x.Args) >= 2 && unverT(x.Args[0]) == conf && strip(x.Args[1]) == key {
				entry = x
			}
			return false
		})
	}
	for _, x := range v.L {
		find(x.t)
		for _, a := range bSupport(x.g) {
			find(a)
		}
	}
	if !c.Check(entry != nil, "maximum", id+" is configured by its own name", pos, "the configuration of the rule is not looked at") {
		return
	}
	kind := func(present bool, typ string, valid bool) (*Term, bool) {
		var out *Term
		for _, x := range v.L {
			b := bRestrict(x.g, func(a *Term) (bool, bool) {
				switch {
				case a.Op == "has" && unverT(a.Args[0]) == conf && strip(a.Args[1]) == key:
					return present, true
				case a.Op == "tassertok" && strip(a.Args[0]) == entry:
					return assertedType(a) == typ, true
				case isEq(a) && (isNilT(a.Args[0]) || isNilT(a.Args[1])) && contains(a, func(y *Term) bool { return y.Op == "call" }):
					return valid, true
				}
				return false, false
			})
			if b == bF {
				continue
			}
			if b != bT || out != nil && out != x.t {
				return nil, false
			}
			out = x.t
		}
		return out, out != nil
	}
	is := func(what string, t *Term, ok bool, good func(*Term) bool) {
		s := "not decided"
		if ok {
			s = brief(t.String())
		}
		c.Check(ok && good(strip(t)), "maximum", id+" "+what, pos, "the maximum is "+s)
	}
	isDef := func(t *Term) bool { x, ok := constInt(t); return ok && x == def }
	t, ok := kind(false, "", false)
	is("not configured", t, ok, isDef)
	t, ok = kind(true, "string", true)
	is("configured as text", t, ok, func(t *Term) bool {
		if t.Op != "res" && t.Op != "extract" && t.Op != "call" {
			t = strip(t)
		}
		var call *Term
		contains(t, func(x *Term) bool {
			if x.Op == "call" && call == nil {
				call = x
			}
			return false
		})
		if call == nil || !strings.HasPrefix(callName(call), "strconv.Parse") || len(call.Args) != 3 {
			return false
		}
		base, bits := constI(call.Args[1]), constI(call.Args[2])
		return contains(call.Args[0], func(x *Term) bool { return x == entry }) && call.Args[1] == mkInt(0) && base == 0 && (bits == 64 || bits == 32)
	})
	t, ok = kind(true, "string", false)
	is("configured as text that is no number", t, ok, isDef)
	for _, n := range []string{"int64", "float64"} {
		t, ok = kind(true, n, false)
		is("configured as "+n, t, ok, func(t *Term) bool {
			return t.Op == "tassert" && strip(t.Args[0]) == entry || contains(t, func(x *Term) bool { return x.Op == "tassert" && strip(x.Args[0]) == entry }) && !contains(t, func(x *Term) bool { return x.Op == "bin" })
		})
	}
	t, ok = kind(true, "bool", false)
	is("configured as something else", t, ok, isDef)
}

func assertedType(a *Term) string {
	if t, ok := a.Obj.(types.Type); ok {
		return types.TypeString(t, nil)
	}
	return ""
}

// checkGetInt: an integer literal is read with its value.
func checkGetInt(c *Ctx) {
	p := c.P
	fn := p.Func("", "GetInt")
	g := NewGate(p)
	r := g.Run(fn)
	n := gparam(fn, 0)
	pos := p.Pos(fn.Pos())
	if len(r.Rets) != 2 {
		panic(undecided{"GetInt does not give a number and an error"})
	}
	lit, kind := bF, bF
	var parse *GEvent
	for _, e := range g.Events {
		if e.Kind == "call" && e.Name == "strconv.ParseInt" {
			parse = e
		}
	}
	if !c.Check(parse != nil, "number", "GetInt reads the literal", pos, "the literal is not parsed") {
		return
	}
	for _, a := range bSupport(parse.G) {
		switch {
		case a.Op == "tassertok" && strip(a.Args[0]) == n && assertedType(a) == "*go/ast.BasicLit":
			lit = bddOf(a)
		case isEq(a) && (constI(a.Args[0]) == 5 || constI(a.Args[1]) == 5):
			kind = bddOf(a)
		}
	}
	same, d := sameCond(parse.G, bAnd(lit, kind))
	c.Check(same && lit != bF && kind != bF, "number", "GetInt reads every integer literal and nothing else", pos, d)
	a0 := parse.Args[0].single()
	c.Check(a0 != nil && a0.Op == "load" || a0 != nil && strings.HasSuffix(a0.String(), ".Value"), "number", "GetInt reads the text of the literal", pos, parse.Args[0].String())
	base, bits := parse.Args[1].single(), parse.Args[2].single()
	c.Check(base == mkInt(0) && bits == mkInt(64), "number", "GetInt reads every notation", pos, "")
	for _, x := range r.Rets[0].L {
		in := bAnd(x.g, parse.G)
		if in == bF {
			continue
		}
		same := contains(x.t, func(y *Term) bool { return y == parse.Result })
		c.Check(same, "number", "GetInt gives the value", pos, brief(x.t.String()))
	}
	// without a literal there is an error
	for _, x := range r.Rets[1].L {
		if isNilT(x.t) {
			ok, d := implies(x.g, parse.G)
			c.Check(ok, "number", "GetInt says when there is no number", pos, d)
		}
	}
}

func isEq(t *Term) bool { return t.Op == "bin" && t.Obj == any("==") }
