package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C08", checkC08) }

// catalogue evaluates the initialisers of the packages that hold the rule table and the weaknesses.
type catalogue struct {
	p   *Program
	g   *Gate
	mem GMem
}

func (p *Program) catalogue() *catalogue {
	isPkg, cwPkg := p.SPkg[sub("issue")], p.SPkg[sub("cwe")]
	if isPkg == nil || cwPkg == nil {
		panic(undecided{"packages issue and cwe not found"})
	}
	g := NewGate(p)
	guards := map[any]bool{isPkg.Members["init$guard"]: true, cwPkg.Members["init$guard"]: true}
	g.Inline = func(fn *ssa.Function) bool {
		pk := FuncPkg(fn)
		if pk == nil || (pk != isPkg.Pkg && pk != cwPkg.Pkg) {
			return false
		}
		return fn.Synthetic == "" || fn.Name() == "init"
	}
	g.Hook = func(t *Term) *Term {
		if t.Op == "deref" && t.Args[0].Op == "global" && guards[t.Args[0].Obj] {
			return mkBool(false)
		}
		return nil
	}
	// the catalogue first: importing it is what the importing package does before anything else
	r := g.Run(cwPkg.Func("init"))
	_, _, mem := g.frame(isPkg.Func("init"), nil, nil, nil, nil, "", r.Mem, 0)
	return &catalogue{p, g, mem}
}

// byRule is the weakness of a rule.
func (k *catalogue) byRule(id string) GV {
	fn := k.p.Func("issue", "GetCweByRule")
	if fn == nil {
		panic(undecided{"GetCweByRule not found"})
	}
	vs, _, _ := k.g.frame(fn, nil, nil, []GV{gvT(mkString(id))}, nil, "cwe:"+id, cloneMem(k.mem), 0)
	return vs[0]
}

func (k *catalogue) text(t *Term, field string) string {
	v := k.g.memField(k.mem, t, field).single()
	if v == nil {
		return ""
	}
	s, _ := constStr(strip(v))
	return s
}

func checkC08(c *Ctx) {
	p := c.P
	c.Rule("mapped", "every registered rule and analyzer has a weakness of the catalogue")
	c.Rule("entry", "the entry carries the number it is listed under, a name and a description")
	c.Rule("fixed", "the rule table and the catalogue never change after initialisation")
	c.Rule("attached", "every finding carries the weakness of its own rule")
	c.Rule("rendered", "a weakness is shown as CWE-<number> with the address of that number")
	var k *catalogue
	c.Guard("mapped", "catalogue", func() { k = p.catalogue() })
	if k == nil {
		return
	}
	shown := map[*Term]string{}
	for _, rel := range []string{"rules", "analyzers"} {
		c.Guard("mapped", rel, func() {
			for _, d := range p.ruleTable(rel) {
				v := k.byRule(d.ID)
				t := v.single()
				ok := t != nil && strip(t).Op == "alloc"
				if !c.Check(ok, "mapped", "rule "+d.ID, d.Pos, "weakness: "+brief(v.String())) {
					continue
				}
				t = strip(t)
				id := k.text(t, "ID")
				shown[t] = id
				c.Check(isNumber(id), "mapped", "number for rule "+d.ID, d.Pos, "weakness number "+fmt.Sprintf("%q", id))
			}
			c.Min("mapped", 2)
		})
	}
	// every entry of the catalogue
	c.Guard("entry", "catalogue", func() {
		get := p.Func("cwe", "Get")
		if get == nil {
			panic(undecided{"cwe.Get not found"})
		}
		keys := k.keys()
		for _, key := range keys {
			vs, _, _ := k.g.frame(get, nil, nil, []GV{gvT(mkString(key))}, nil, "get:"+key, cloneMem(k.mem), 0)
			t := vs[0].single()
			if t == nil || strip(t).Op != "alloc" {
				c.Fail("entry", "entry "+key, p.Pos(get.Pos()), "looking it up gives "+brief(vs[0].String()))
				continue
			}
			t = strip(t)
			id, name, desc := k.text(t, "ID"), k.text(t, "Name"), k.text(t, "Description")
			c.Check(id == key, "entry", "number of entry "+key, p.Pos(get.Pos()), "is "+fmt.Sprintf("%q", id))
			c.Check(strings.TrimSpace(name) != "" && strings.TrimSpace(desc) != "", "entry", "text of entry "+key, p.Pos(get.Pos()), fmt.Sprintf("name %q description of %d bytes", name, len(desc)))
			delete(shown, t)
		}
		c.Check(len(shown) == 0, "entry", "weaknesses of the rules are entries of the catalogue", p.Pos(get.Pos()), fmt.Sprint(len(shown), " are not"))
		// an unknown number has no weakness
		vs, _, _ := k.g.frame(get, nil, nil, []GV{gvT(mkString("no such number"))}, nil, "get:?", cloneMem(k.mem), 0)
		t := vs[0].single()
		c.Check(t != nil && isNilT(strip(t)), "entry", "an unknown number", p.Pos(get.Pos()), "gives "+brief(vs[0].String()))
		c.Min("entry", 20)
	})
	c.Guard("fixed", "tables", func() { checkCatalogueFixed(c) })
	c.Guard("attached", "constructions", func() { checkAttached(c) })
	c.Guard("rendered", "texts", func() { checkRendered(c, k) })
	c.Guard("rendered", "SARIF", func() { checkSarifTaxa(c) })
}

func isNumber(s string) bool {
	for _, r := range s {
		if r < '0' || r > '9' {
			return false
		}
	}
	return s != "" && s[0] != '0'
}

// keys lists the numbers the catalogue is filled with.
func (k *catalogue) keys() []string {
	seen := map[string]bool{}
	st := namedOf(k.p, "cwe", "Weakness")
	for _, e := range k.g.Events {
		if e.Kind != "mapstore" {
			continue
		}
		m, ok := e.Args[0].term().Typ.Underlying().(*types.Map)
		if !ok || !types.Identical(m.Elem(), types.NewPointer(st)) {
			continue
		}
		s, isC := constStr(strip(e.Args[1].term()))
		if !isC {
			panic(undecided{"the catalogue is filled under a computed number"})
		}
		seen[s] = true
	}
	var out []string
	for s := range seen {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// checkCatalogueFixed: nothing changes the tables or an entry after initialisation.
func checkCatalogueFixed(c *Ctx) {
	p := c.P
	weak := namedOf(p, "cwe", "Weakness")
	n := 0
	for _, rel := range []string{"issue", "cwe"} {
		for name, m := range p.SPkg[sub(rel)].Members {
			gl, ok := m.(*ssa.Global)
			if !ok || strings.HasPrefix(name, "init$") {
				continue
			}
			if mt, isM := gl.Type().(*types.Pointer).Elem().Underlying().(*types.Map); isM {
				n++
				_ = mt
				c.Check(p.immutableGlobal(gl), "fixed", "table "+rel+"."+name, p.Pos(gl.Pos()), "is only written at initialisation")
			}
		}
	}
	c.Check(n >= 2, "fixed", "tables found", "-", fmt.Sprint(n))
	st := structOf(weak)
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				var base ssa.Value
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && types.Identical(deref2(fa.X.Type()), weak) {
					base = fa.X
				} else if types.Identical(deref2(s.Addr.Type()), weak) {
					base = s.Addr
				}
				if base == nil {
					continue
				}
				_, local := base.(*ssa.Alloc)
				c.Check(local, "fixed", "write to a weakness in "+FuncName(f), p.InstrPos(ins), "only a new weakness is written")
			}
		}
	}
	_ = st
}

// checkAttached: wherever scan code makes a finding, its weakness is the one of its rule.
func checkAttached(c *Ctx) {
	p := c.P
	n := 0
	for _, f := range p.findingMakers() {
		n++
		bad := p.attachment(f)
		// a helper that is handed the weakness: judge its callers
		for depth := 0; bad != "" && depth < 3 && takesWeakness(f); depth++ {
			callers := p.callersOf(f)
			if len(callers) == 0 || f.Object() == nil || f.Object().Exported() {
				break
			}
			bad2 := ""
			for _, cl := range callers {
				if s := p.attachment(cl); s != "" {
					bad2 = s
				}
			}
			bad = bad2
			if len(callers) > 0 {
				f = callers[0]
			}
		}
		c.Check(bad == "", "attached", "finding made in "+FuncName(f), p.Pos(f.Pos()), "weakness is that of the finding's rule"+bad)
	}
	c.Check(n >= 2, "attached", "constructions found", "-", fmt.Sprint(n))
	// nothing else changes the weakness or the rule of a finding
	p.onlyWhileMade(c, "attached", "Cwe", "RuleID")
}

// takesWeakness: the function is handed a weakness by its callers.
func takesWeakness(f *ssa.Function) bool {
	for _, p := range f.Params {
		if n, ok := deref2(p.Type()).(*types.Named); ok && n.Obj().Name() == "Weakness" {
			return true
		}
	}
	return false
}

// onlyCalledBy: every call of f comes from one of the functions.
func (p *Program) onlyCalledBy(f *ssa.Function, in map[*ssa.Function]bool, depth int) bool {
	cs := p.callersOf(f)
	if len(cs) == 0 || depth == 0 {
		return false
	}
	for _, x := range cs {
		if !in[x] && !p.onlyCalledBy(x, in, depth-1) {
			return false
		}
	}
	return true
}

func strip2(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// findingMakers lists the functions of the module that allocate a finding.
func (p *Program) findingMakers() []*ssa.Function {
	it := namedOf(p, "issue", "Issue")
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if !p.InModule(f) || devTools[relPath(FuncPkg(f))] {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if a, ok := ins.(*ssa.Alloc); ok && types.Identical(deref2(a.Type()), it) {
					has = true
				}
			}
		}
		if has {
			out = append(out, f)
		}
	}
	return out
}

// attachment evaluates a function that makes findings; the answer is empty when every finding it
// makes has the weakness of its rule.
func (p *Program) attachment(f *ssa.Function) (bad string) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(undecided)
			if !ok {
				panic(r)
			}
			bad = ": undecided: " + u.msg
		}
	}()
	it := namedOf(p, "issue", "Issue")
	g := NewGate(p)
	lookup := p.Func("issue", "GetCweByRule")
	g.noInline(lookup)
	r := g.Run(f)
	_ = r
	n := 0
	seen := map[*Term]BDD{}
	for _, v := range r.Rets {
		for _, x := range v.L {
			if t := strip(x.t); t.Op == "alloc" && types.Identical(deref2(t.Typ), it) {
				seen[t] = bOr(seen[t], x.g)
			}
		}
	}
	returned := map[*Term]bool{}
	for t := range seen {
		returned[t] = true
	}
	for _, e := range g.Events {
		if e.Kind != "store" {
			continue
		}
		for _, a := range e.Args[0].L {
			t := a.t
			if t.Op == "fieldaddr" {
				t = t.Args[0]
			}
			if t.Op != "alloc" || returned[t] || t.Typ == nil || !types.Identical(deref2(t.Typ), it) {
				continue
			}
			seen[t] = bOr(seen[t], bAnd(e.G, a.g))
		}
	}
	mem := r.Mem
	for t, when := range seen {
		n++
		id := g.memField(mem, t, "RuleID").constrain(when)
		w := g.memField(mem, t, "Cwe").constrain(when)
		ok := len(w.L) > 0
		for _, x := range w.L {
			v := strip(x.t)
			fn, isF := v.Obj.(*ssa.Function)
			if v.Op != "call" || !isF || fn != lookup || bImp(bAnd(when, x.g), g.gvEqB(gvT(v.Args[0]), id)) != bT {
				ok = false
			}
		}
		if !ok {
			return fmt.Sprintf(": rule %s weakness %s", brief(id.String()), brief(w.String()))
		}
	}
	if n == 0 {
		return ": no field of the finding is set"
	}
	return ""
}

// checkRendered: the texts a weakness is shown with.
func checkRendered(c *Ctx, k *catalogue) {
	p := c.P
	num := func(t *Term) bool { return named08(t, "ID") }
	one := func(name, method, before, after string) {
		fn := p.Method("cwe", "Weakness", method)
		if fn == nil {
			c.Fail("rendered", name, "-", method+" not found")
			return
		}
		// for a weakness that exists
		g := NewGate(p)
		r := g.Run(fn)
		self := gparam(fn, 0)
		v := r.Rets[0].constrain(g.notNil(self))
		bad := ""
		for _, x := range v.L {
			ps := pieces(x.t)
			ok := len(ps) >= 1
			var lit []string
			vals := 0
			for _, q := range ps {
				if q.val != nil {
					vals++
					if !num(q.val) || !plainVerb(q.verb) {
						ok = false
					}
					lit = append(lit, "\x00")
				} else {
					lit = append(lit, q.lit)
				}
			}
			if !ok || vals != 1 || strings.Join(lit, "") != before+"\x00"+after {
				bad = showPieces(ps)
			}
		}
		c.Check(len(v.L) > 0 && bad == "", "rendered", name, p.Pos(fn.Pos()), "shown as "+before+"<number>"+after+" "+bad)
	}
	one("identifier", "SprintID", "CWE-", "")
	one("address", "SprintURL", "https://cwe.mitre.org/data/definitions/", ".html")
	// the JSON form: number and address of the same weakness
	c.Guard("rendered", "JSON", func() {
		fn := p.Method("cwe", "Weakness", "MarshalJSON")
		if fn == nil {
			panic(undecided{"MarshalJSON not found"})
		}
		g := NewGate(p)
		url := p.Method("cwe", "Weakness", "SprintURL")
		g.noInline(url)
		g.KeepMem = func(e *GEvent) bool { return e.Name == "encoding/json.Marshal" }
		r := g.Run(fn)
		self := gparam(fn, 0)
		var st *Term
		var mem GMem
		for _, e := range g.Events {
			if e.Kind == "call" && e.Name == "encoding/json.Marshal" {
				st, mem = strip(e.Args[0].term()), e.Mem
			}
		}
		ok := false
		detail := ""
		if st != nil && r.Rets[0].single() != nil {
			fields := jsonFields(g, mem, st)
			detail = fmt.Sprint(len(fields), " fields")
			ok = len(fields) == 2
			if v := fields["id"].single(); v == nil || !named08(v, "ID") || !contains(v, func(x *Term) bool { return x == self }) {
				ok = false
				detail += " id " + brief(fields["id"].String())
			}
			if v := fields["url"].single(); v == nil || strip(v).Op != "call" || strip(v).Obj != any(url) || strip(v).Args[0] != self {
				ok = false
				detail += " url " + brief(fields["url"].String())
			}
		}
		c.Check(ok, "rendered", "JSON form", p.Pos(fn.Pos()), "number and address of the weakness "+detail)
	})
}

// checkSarifTaxa: the entry of a weakness in a SARIF report shows its number and the address of that number.
func checkSarifTaxa(c *Ctx) {
	p := c.P
	m := p.reportModel("report/sarif", "GenerateReport", nil)
	desc := namedOf(p, "report/sarif", "ReportingDescriptor")
	ids := map[*Term]GV{}
	for _, w := range m.G.fieldWrites(desc, "ID") {
		ids[w.Base] = w.Val
	}
	n := 0
	for _, w := range m.G.fieldWrites(desc, "HelpURI") {
		if v := w.Val.single(); v != nil {
			if s, ok := constStr(strip(v)); ok && s == "" {
				continue
			}
		}
		n++
		ok := len(w.Val.L) > 0
		for _, x := range w.Val.L {
			ps := pieces(x.t)
			if len(ps) != 3 || ps[0].lit != "https://cwe.mitre.org/data/definitions/" || ps[2].lit != ".html" || ps[1].val == nil || !plainVerb(ps[1].verb) ||
				bImp(bAnd(w.G, x.g), m.G.eq(ids[w.Base], strip(ps[1].val))) != bT {
				ok = false
			}
		}
		c.Check(ok, "rendered", "address of a SARIF taxonomy entry", p.InstrPos(w.Ev.Ins), "is "+brief(w.Val.String())+" for number "+brief(ids[w.Base].String()))
	}
	c.Check(n > 0, "rendered", "SARIF taxonomy entries have an address", "-", fmt.Sprint(n))
}

// plainVerb: the text is shown as it is.
func plainVerb(v string) bool { return v == "s" || v == "v" || v == "%s" || v == "%v" }

func named08(t *Term, name string) bool {
	t = strip(t)
	return fieldName(t) == name
}

// jsonFields reads the fields of a value by the names they are encoded under.
func jsonFields(g *Gate, mem GMem, t *Term) map[string]GV {
	out := map[string]GV{}
	st := structOf(t.Typ)
	if st == nil {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		name := st.Field(i).Name()
		tag := structTag(st.Tag(i), "json")
		if tag == "-" {
			continue
		}
		if j := strings.IndexByte(tag, ','); j >= 0 {
			tag = tag[:j]
		}
		if tag == "" {
			tag = name
		}
		if _, isP := t.Typ.Underlying().(*types.Pointer); isP {
			out[tag] = g.memField(mem, t, name)
		} else {
			out[tag] = g.field(t, st.Field(i))
		}
	}
	return out
}
