package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C26", checkC26) }

const aiPkg = "google/generative-ai-go/genai"

func checkC26(c *Ctx) {
	c.Rule("optin", "the provider is contacted only with a provider and a key, the environment's key first")
	c.Rule("callers", "nothing else contacts the provider")
	c.Rule("verdict", "nothing the command does afterwards depends on the outcome")
	c.Rule("prompt", "only fixed text and the description of a finding are sent")
	c.Rule("once", "each distinct description is sent at most once")
	c.Rule("fills", "only the suggestion of a finding changes, to the answer for its own description")
	c.Rule("bounded", "every request is bounded in time by one limit of the run")
	c.Rule("released", "the client and the time limit are released on every path")
	c.Rule("asked", "the provider is asked with the configured key and, when there is one, at the configured endpoint")
	c.Rule("answered", "every answer becomes the suggestion of the finding that was asked about, and a failed or an empty one is reported")
	c.Rule("survives", "no answer of the provider ends the process")
	c.Guard("optin", "main", func() { checkAIMain(c) })
	c.Guard("fills", "GenerateSolution", func() { checkAISolution(c) })
	c.Guard("survives", "autofix", func() { checkAISurvives(c) })
	for _, r := range []string{"optin", "callers", "verdict", "prompt", "once", "fills", "bounded", "released", "asked", "answered", "survives"} {
		c.Min(r, 1)
	}
}

func aiEntry(p *Program) *ssa.Function { return p.Func("autofix", "GenerateSolution") }

func checkAIMain(c *Ctx) {
	p := c.P
	m := p.mainModel()
	g := m.G
	fn := aiEntry(p)
	if !c.Check(fn != nil, "callers", "GenerateSolution", "-", "no such function") {
		return
	}
	var calls []*GEvent
	for _, e := range g.Events {
		if e.Fn == fn {
			calls = append(calls, e)
		}
	}
	if !c.Check(len(calls) == 1, "callers", "main", "-", fmt.Sprintf("the command asks for suggestions at %d places", len(calls))) {
		return
	}
	e := calls[0]
	pos := p.InstrPos(e.Ins)
	prov := m.flagTerm("ai-api-provider")
	keyF := m.flagTerm("ai-api-key")
	var env *Term
	for _, x := range e.Args[1].L {
		if callName(strip(x.t)) == "os.Getenv" {
			env = strip(x.t)
		}
	}
	if c.Check(env != nil, "optin", "environment", pos, "the key is "+e.Args[1].String()) {
		s, ok := constStr(env.Args[0])
		c.Check(ok && s == "GOSEC_AI_API_KEY", "optin", "environment", pos, "the key is taken from "+env.String())
		empty := func(t *Term) BDD { return g.eq1(t, mkString("")) }
		c.Check(sat(bAnd(e.G, empty(prov))) == bF, "optin", "provider", pos, "the provider may be contacted although none was chosen")
		c.Check(sat(bAnd(e.G, bAnd(empty(env), empty(keyF)))) == bF, "optin", "key", pos, "the provider may be contacted without a key")
		for _, x := range e.Args[1].L {
			on := bAnd(e.G, x.g)
			if sat(on) == bF {
				continue
			}
			switch strip(x.t) {
			case env:
				c.Check(sat(bAnd(on, empty(env))) == bF, "optin", "key", pos, "an empty key of the environment may be used")
			case keyF:
				c.Check(sat(bAnd(on, bNot(empty(env)))) == bF, "optin", "key order", pos, "the option may replace the key of the environment")
			default:
				c.Fail("optin", "key", pos, "the key may be "+x.t.String())
			}
		}
		// either key serves equally
		envSet := bConstrainBy(e.G, bNot(empty(env)))
		optSet := bConstrainBy(e.G, bAnd(empty(env), bNot(empty(keyF))))
		c.Check(envSet != bF && sat(bXor(noAtoms(envSet, env, keyF), noAtoms(optSet, env, keyF))) == bF, "optin", "either key", pos, "a key of the environment and one given as option are not treated alike")
	}
	c.Check(strip(e.Args[0].single()) == prov, "optin", "provider chosen", pos, "the provider asked is "+e.Args[0].String())

	// afterwards
	r := e.Result
	bad := ""
	for _, x := range g.Events[eventPos(g.Events, e)+1:] {
		if (strings.HasPrefix(x.Name, "(*log.Logger).Print") || strings.HasPrefix(x.Name, "fmt.Fprint")) && !strings.Contains(x.Name, "Fatal") || x.Kind == "store" && x.VarOK {
			continue
		}
		if x.Kind == "store" {
			if a := x.Args[0].single(); a != nil && contains(a, func(t *Term) bool { return t.Op == "alloc" }) {
				continue
			}
		}
		dep := bHas(x.G, func(t *Term) bool { return t == r })
		for _, a := range x.Args {
			dep = dep || gvHas(a, func(t *Term) bool { return t == r })
		}
		if dep {
			bad = p.InstrPos(x.Ins) + " " + shortName(x.Name)
			break
		}
	}
	c.Check(bad == "", "verdict", "after", pos, "the outcome of the request decides what happens at "+bad)

	// callers
	for _, f := range p.Funcs {
		pk := FuncPkg(f)
		if pk == nil || pk.Path() == sub("autofix") || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range ins.Operands(ops) {
					x, ok := (*o).(*ssa.Function)
					if !ok || FuncPkg(x) == nil {
						continue
					}
					path := FuncPkg(x).Path()
					if path == sub("autofix") {
						c.Check(x == fn && ins == e.Ins, "callers", FuncName(f), p.InstrPos(ins), FuncName(f)+" uses "+x.Name())
					} else if strings.Contains(path, aiPkg) {
						c.Fail("callers", FuncName(f), p.InstrPos(ins), FuncName(f)+" uses "+x.Name())
					}
				}
			}
		}
	}
}

// bConstrainBy restricts a condition to the assignments allowed by d.
func bConstrainBy(b, d BDD) BDD { return bAnd(b, d) }

// noAtoms projects out the conditions which mention one of the terms.
func noAtoms(b BDD, ts ...*Term) BDD {
	return bExistsQ(b, func(a *Term) bool {
		return contains(a, func(x *Term) bool {
			for _, t := range ts {
				if x == t {
					return true
				}
			}
			return false
		})
	})
}

func checkAISolution(c *Ctx) {
	p := c.P
	fn := aiEntry(p)
	g := NewGate(p)
	r := g.Run(fn)
	issues := gparam(fn, len(fn.Params)-1)
	pos := p.Pos(fn.Pos())
	whatF := p.FieldVar("issue", "Issue", "What")
	var asks, news []*GEvent
	for _, e := range g.Events {
		if e.Kind != "call" {
			continue
		}
		switch {
		case e.Fn != nil && FuncPkg(e.Fn) != nil && strings.HasSuffix(FuncPkg(e.Fn).Path(), aiPkg):
			if e.Fn.Name() == "NewClient" {
				news = append(news, e)
			} else if e.Fn.Signature.Recv() != nil && sendsContext(e.Fn) {
				asks = append(asks, e)
			}
		case e.Name == "dynamic" && e.Method != nil && sendsContextSig(e.Method.Type().(*types.Signature)):
			asks = append(asks, e)
		}
	}
	if !c.Check(len(asks) > 0 && len(news) > 0, "prompt", "requests", pos, fmt.Sprintf("%d request(s), %d client(s) found", len(asks), len(news))) {
		return
	}
	isWhat := func(t, el *Term) bool {
		t = strip(t)
		return isFieldOfElem(t, el, whatF)
	}
	for _, e := range asks {
		ip := p.InstrPos(e.Ins)
		var el *Term
		for _, l := range e.Loops {
			if stripRev(l) == issues {
				el = elemOf(l, elemType(l.Typ))
			}
		}
		if !c.Check(el != nil, "prompt", "finding by finding", ip, "the request is not made for one finding of the list") {
			continue
		}
		// what is sent
		var parts []*Term
		for _, a := range e.Args {
			for _, x := range a.L {
				parts = append(parts, x.t)
			}
		}
		for _, v := range e.Var {
			for _, x := range v.L {
				parts = append(parts, x.t)
			}
		}
		sentOK, what := true, false
		detail := ""
		for _, t := range parts {
			var rec func(x *Term)
			rec = func(x *Term) {
				if isWhat(x, el) {
					what = true
					return
				}
				if x == el || x == issues {
					sentOK, detail = false, "the finding itself"
					return
				}
				if x == e.Recv.single() {
					return
				}
				if (x.Op == "deref" || x.Op == "field") && contains(x, func(y *Term) bool { return y == el }) && !contains(x, func(y *Term) bool { return isWhat(y, el) }) {
					sentOK, detail = false, x.String()
					return
				}
				for _, y := range x.Args {
					if y != nil {
						rec(y)
					}
				}
			}
			rec(t)
		}
		c.Check(what && sentOK, "prompt", "content", ip, "besides the description, the request contains "+detail)
		// the text itself is fixed
		for _, t := range parts {
			contains(t, func(x *Term) bool {
				if callName(x) == "fmt.Sprintf" {
					for _, q := range pieces(x) {
						if q.val != nil && !isWhat(q.val, el) {
							sentOK = false
							c.Fail("prompt", "content", ip, "the request contains "+brief(q.val.String()))
						}
					}
				}
				n := callName(x)
				if strings.HasPrefix(n, "os.") || strings.HasPrefix(n, "io") {
					c.Fail("prompt", "content", ip, "the request contains "+brief(x.String()))
				}
				return false
			})
		}
		// the limit
		checkLimit(c, g, e, ip)
		// once per description
		var cache *Term
		for _, a := range bSupport(e.G) {
			u := unverT(a)
			if u.Op == "has" && isWhat(u.Args[1], el) && sat(bAnd(e.G, bddOf(a))) == bF {
				cache = u.Args[0]
			}
		}
		if c.Check(cache != nil, "once", "asked before", ip, "a description may be sent although it was sent before: asked when "+bString(e.G)) {
			answered := bF
			for _, s := range g.Events {
				if s.Kind == "mapstore" && s.Args[0].single() == cache {
					k := s.Args[1].single()
					c.Check(k != nil && isWhat(k, el), "once", "remembered under", p.InstrPos(s.Ins), "an answer is remembered for "+s.Args[1].String())
					answered = bOr(answered, s.G)
				}
			}
			// a request that is not remembered ends the feature
			left := bAnd(e.G, bNot(answered))
			ends := bF
			for _, s := range g.Events {
				if s.Kind == "earlystop" && s.Args[0].single() == issues {
					for _, a := range bSupport(s.G) {
						if (a.Op == "exists" || a.Op == "stops") && a.Args[0] == issues {
							ends = bOr(ends, condTerms[a])
						}
					}
				}
			}
			d := sat(bAnd(unver(noExists(left)), bNot(unver(ends))))
			c.Check(d == bF, "once", "remembered", ip, "the answer may not be remembered when "+bString(d))
		}
		// what the answer does
		nf := 0
		for _, s := range g.Events {
			if s.Kind != "store" {
				continue
			}
			a := strip(s.Args[0].single())
			if a == nil || !contains(a, func(x *Term) bool { return x == el || x == issues }) {
				continue
			}
			sp := p.InstrPos(s.Ins)
			nm := addrName(a)
			if !c.Check(nm == "Autofix" && a.Args[0] == el, "fills", "field", sp, "the feature changes "+a.String()) {
				continue
			}
			nf++
			for _, x := range s.Args[1].L {
				on := bAnd(s.G, x.g)
				if sat(on) == bF {
					continue
				}
				t := unverT(strip(x.t))
				switch {
				case t.Op == "mapget" && isWhat(t.Args[1], el):
					c.Check(cache != nil && t.Args[0] == cache, "fills", "remembered answer", sp, "the suggestion is "+t.String())
					has := false
					for _, a := range bSupport(on) {
						u := unverT(a)
						if u.Op == "has" && u.Args[0] == t.Args[0] && isWhat(u.Args[1], el) && sat(bAnd(on, bNot(bddOf(a)))) == bF {
							has = true
						}
					}
					c.Check(has, "fills", "remembered answer", sp, "a missing answer may be used as suggestion")
				case contains(t, func(x *Term) bool { return x == e.Result }):
					er := errOf(e)
					c.Check(sat(bAnd(on, g.notNil(er))) == bF, "fills", "answer", sp, "a failed request may fill a suggestion")
				default:
					c.Fail("fills", "answer", sp, "the suggestion may be "+brief(t.String()))
				}
			}
		}
		c.Check(nf > 0, "fills", "filled", ip, "no suggestion is filled")
	}
	for _, e := range news {
		ip := p.InstrPos(e.Ins)
		checkLimit(c, g, e, ip)
		c.Check(len(e.Loops) == 0, "released", "one client", ip, "a client is made per finding")
		// closed when it was made
		good := bAnd(e.G, bNot(g.notNil(errOf(e))))
		closed := bF
		for _, x := range g.Events {
			if x.Kind == "store" || !strings.HasSuffix(shortName(x.Name), "Close") && !(x.Method != nil && x.Method.Name() == "Close") {
				continue
			}
			if x.Kind == "defer" || x.Kind == "call" {
				if closesClient(p, g, x, e, r.Mem) {
					closed = bOr(closed, x.G)
				}
			}
		}
		c.Check(sat(bAnd(good, bNot(closed))) == bF, "released", "client", ip, "the client stays open when "+bString(sat(bAnd(good, bNot(closed)))))
	}
	checkAsked(c, g, r, fn, news)
	checkAnswered(c, g, r, fn, asks, news, issues)
	for _, e := range g.Events {
		if e.Kind != "call" || !strings.HasPrefix(e.Name, "context.With") {
			continue
		}
		if !strings.HasPrefix(e.Name, "context.WithTimeout") && !strings.HasPrefix(e.Name, "context.WithCancel") && !strings.HasPrefix(e.Name, "context.WithDeadline") {
			continue
		}
		done := bF
		for _, x := range g.Events {
			if (x.Kind == "defer" || x.Kind == "call") && x.Recv.single() != nil && strip(x.Recv.single()) == res(e, 1) {
				done = bOr(done, x.G)
			}
		}
		c.Check(sat(bAnd(e.G, bNot(done))) == bF, "released", "limit", p.InstrPos(e.Ins), "the time limit is not released when "+bString(sat(bAnd(e.G, bNot(done)))))
	}
}

func sendsContext(f *ssa.Function) bool { return sendsContextSig(f.Signature) }

func sendsContextSig(s *types.Signature) bool {
	return s.Params().Len() > 0 && s.Params().At(0).Type().String() == "context.Context"
}

func isFieldOfElem(t, el *Term, f *types.Var) bool {
	if t.Op == "deref" {
		a := t.Args[0]
		return a.Op == "fieldaddr" && a.Obj == any(f) && a.Args[0] == el
	}
	if t.Op == "field" && t.Obj == any(f) {
		return t.Args[0].Op == "deref" && t.Args[0].Args[0] == el
	}
	return false
}

// checkLimit: the context of a request has a constant time limit that was set once for the run.
func checkLimit(c *Ctx, g *Gate, e *GEvent, ip string) {
	var ctxT *Term
	for _, a := range e.Args {
		for _, x := range a.L {
			if x.t.Typ != nil && x.t.Typ.String() == "context.Context" {
				ctxT = strip(x.t)
			}
		}
	}
	if !c.Check(ctxT != nil, "bounded", "context", ip, "the request has no context") {
		return
	}
	var mk *GEvent
	for _, x := range g.Events {
		if x.Kind == "call" && x.Result != nil && contains(ctxT, func(t *Term) bool { return t == x.Result }) && strings.HasPrefix(x.Name, "context.WithTimeout") {
			mk = x
		}
	}
	if !c.Check(mk != nil, "bounded", "limit", ip, "the request uses "+brief(ctxT.String())) {
		return
	}
	d, ok := constInt(strip(mk.Args[1].single()))
	c.Check(ok && d > 0 && d <= 600e9, "bounded", "duration", ip, "the time limit is "+mk.Args[1].String())
	c.Check(len(mk.Loops) == 0, "bounded", "one limit", ip, "each request gets a limit of its own")
}

// closesClient: the call closes the client itself, perhaps through a wrapper whose Close does.
func closesClient(p *Program, g *Gate, x, made *GEvent, mem GMem) bool {
	isC := func(t *Term) bool { return t == res(made, 0) }
	var recv GV
	if len(x.Args) > 0 {
		recv = x.Args[0]
	}
	if x.Recv.L != nil {
		recv = x.Recv
	}
	if x.Fn != nil && FuncPkg(x.Fn) != nil && strings.HasSuffix(FuncPkg(x.Fn).Path(), aiPkg) {
		return gvHas(recv, isC)
	}
	for _, y := range recv.L {
		t := strip(y.t)
		if isNilT(t) {
			continue
		}
		if t.Typ == nil {
			return false
		}
		m := p.SSA.LookupMethod(t.Typ, nil, "Close")
		if m == nil {
			if n, ok := deref2(t.Typ).(*types.Named); ok {
				m = p.SSA.LookupMethod(types.NewPointer(n), n.Obj().Pkg(), "Close")
			}
		}
		if m == nil || len(m.Blocks) == 0 {
			return false
		}
		ig := NewGate(p)
		ig.Run(m)
		cl := bF
		for _, e := range ig.Events {
			if (e.Kind == "call" || e.Kind == "defer") && e.Fn != nil && e.Fn.Name() == "Close" && FuncPkg(e.Fn) != nil && strings.HasSuffix(FuncPkg(e.Fn).Path(), aiPkg) {
				cl = bOr(cl, e.G)
			}
		}
		if sat(bNot(cl)) != bF {
			return false
		}
		// the wrapper holds the client
		held := false
		for _, e := range g.Events {
			if e.Kind == "store" {
				if a := e.Args[0].single(); a != nil && a.Op == "fieldaddr" && a.Args[0] == t && gvHas(e.Args[1], isC) {
					held = true
				}
			}
		}
		if !held {
			return false
		}
	}
	return true
}

func deref2(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func checkAISurvives(c *Ctx) {
	p := c.P
	n := 0
	for _, f := range p.PkgFuncs("autofix") {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				n++
				switch x := ins.(type) {
				case *ssa.Panic:
					c.Fail("survives", FuncName(f), p.InstrPos(ins), "the feature panics")
				case *ssa.TypeAssert:
					c.Check(x.CommaOk, "survives", FuncName(f), p.InstrPos(ins), "an assertion about an answer may fail")
				case ssa.CallInstruction:
					if cal := x.Common().StaticCallee(); cal != nil && (noReturn[funcQual(cal)] || strings.HasPrefix(cal.Name(), "Fatal") || strings.HasPrefix(cal.Name(), "Must")) {
						c.Fail("survives", FuncName(f), p.InstrPos(ins), "the feature may end the process")
					}
				}
			}
		}
	}
	c.Check(n > 0, "survives", "autofix", "-", fmt.Sprintf("%d instructions", n))
	// what an answer may lack
	x := newPanics(c)
	x.as = "survives"
	for _, f := range p.PkgFuncs("autofix") {
		if f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		x.want(f)
		for i := range f.Params {
			x.given[gparam(f, i)] = true
		}
	}
	x.run()
}

// checkAsked: the client is made with the key, and with the endpoint exactly when one is configured.
func checkAsked(c *Ctx, g *Gate, r *GResult, fn *ssa.Function, news []*GEvent) {
	p := c.P
	key, endpoint := gparam(fn, 1), gparam(fn, 2)
	none := g.eq1(endpoint, mkString(""))
	for _, e := range news {
		ip := p.InstrPos(e.Ins)
		keyed, placed, other := bF, bF, ""
		note := func(G BDD, v *Term) {
			v = strip(v)
			if sat(G) == bF {
				return
			}
			switch n := callName(v); {
			case strings.HasSuffix(n, "/option.WithAPIKey"):
				if len(v.Args) == 1 && strip(v.Args[0]) == key {
					keyed = bOr(keyed, G)
					return
				}
			case strings.HasSuffix(n, "/option.WithEndpoint"):
				if len(v.Args) == 1 && strip(v.Args[0]) == endpoint {
					placed = bOr(placed, G)
					return
				}
			}
			if other == "" {
				other = v.String()
			}
		}
		var all func(G BDD, t *Term)
		all = func(G BDD, t *Term) {
			base, parts := listParts(g, strip(t))
			for _, q := range parts {
				if q.L != nil {
					other = "a list of options"
					continue
				}
				for _, s := range splitTerm(q.f, bAnd(G, q.c)) {
					note(s.g, s.t)
				}
			}
			if base.Op == "gv" {
				for _, x := range gvTerms[base].L {
					all(bAnd(G, x.g), x.t)
				}
				return
			}
			if isEmptyList(base) {
				return
			}
			els, ok := g.sliceElems(r.Mem, base)
			if !ok {
				other = base.String()
			}
			for _, v := range els {
				for _, x := range v.L {
					for _, s := range splitTerm(x.t, bAnd(G, x.g)) {
						note(s.g, s.t)
					}
				}
			}
		}
		if e.VarOK {
			for _, v := range e.Var {
				for _, x := range v.L {
					note(bAnd(e.G, x.g), x.t)
				}
			}
		} else if len(e.Args) > 0 {
			for _, x := range e.Args[len(e.Args)-1].L {
				all(bAnd(e.G, x.g), x.t)
			}
		}
		c.Check(other == "", "asked", "options", ip, "a client is made with "+brief(other))
		c.Check(sat(bAnd(e.G, bNot(keyed))) == bF, "asked", "key", ip, "the client may be made without the configured key: with it when "+bString(keyed))
		c.Check(sat(bAnd(e.G, bXor(placed, bNot(none)))) == bF, "asked", "endpoint", ip, "the endpoint is used when "+bString(placed))
	}
}

// checkAnswered: an answer with a text is stored as the suggestion; everything else ends the feature with an
// error.
func checkAnswered(c *Ctx, g *Gate, r *GResult, fn *ssa.Function, asks, news []*GEvent, issues *Term) {
	p := c.P
	stops, ends := bF, bF
	for _, s := range g.Events {
		if s.Kind == "earlystop" && s.Args[0].single() == issues {
			for _, a := range bSupport(s.G) {
				if (a.Op == "exists" || a.Op == "stops") && a.Args[0] == issues {
					stops, ends = bOr(stops, bddOf(a)), bOr(ends, condTerms[a])
				}
			}
		}
	}
	for _, e := range asks {
		ip := p.InstrPos(e.Ins)
		var el *Term
		for _, l := range e.Loops {
			if stripRev(l) == issues {
				el = elemOf(l, elemType(l.Typ))
			}
		}
		if el == nil {
			continue
		}
		answer := func(t *Term) bool { return contains(t, func(x *Term) bool { return x == e.Result }) }
		stored := bF
		for _, s := range g.Events {
			if s.Kind != "store" {
				continue
			}
			a := strip(s.Args[0].single())
			if a == nil || a.Op != "fieldaddr" || a.Args[0] != el || addrName(a) != "Autofix" {
				continue
			}
			for _, x := range s.Args[1].L {
				on := bAnd(s.G, x.g)
				if sat(on) == bF || !answer(x.t) {
					continue
				}
				stored = bOr(stored, on)
				c.Check(sat(bAnd(on, g.eq1(strip(x.t), mkString("")))) == bF, "answered", "empty answer", p.InstrPos(s.Ins), "a suggestion may be empty")
			}
		}
		// an answer whose parts are all there
		good := bAnds(e.G, bNot(g.notNil(errOf(e))), bNot(stored))
		lost := bRestrict(good, func(a *Term) (bool, bool) {
			if !answer(a) {
				return false, false
			}
			t := a
			if isEq(t) {
				x, y := t.Args[0], t.Args[1]
				for i := 0; i < 2; i++ {
					if isNilT(x) || isEmptyText(x) {
						return false, true
					}
					if n, ok := constInt(x); ok && n == 0 && strip(y).Op == "len" {
						return false, true
					}
					x, y = y, x
				}
			}
			if t.Op == "bin" && t.Obj == "<" {
				if n, ok := constInt(t.Args[1]); ok && n == 1 && strip(t.Args[0]).Op == "len" {
					return false, true
				}
				if n, ok := constInt(t.Args[0]); ok && n == 0 && strip(t.Args[1]).Op == "len" {
					return true, true
				}
			}
			return false, false
		})
		c.Check(sat(lost) == bF, "answered", "answer", ip, "an answer may not become the suggestion: when "+bString(sat(lost)))
		// anything else ends the feature
		left := bAnd(e.G, bNot(stored))
		d := sat(bAnd(unver(noExists(left)), bNot(unver(ends))))
		c.Check(d == bF, "answered", "no answer", ip, "the run goes on without an answer when "+bString(d))
	}
	// success is told only of a run that was not cut short
	ok := bF
	for _, x := range r.Rets[len(r.Rets)-1].L {
		if isNilT(strip(x.t)) {
			ok = bOr(ok, bAnd(r.RetG, x.g))
		}
	}
	// whatever stops the run also holds of the finding it stopped at
	if cut := sat(bAnd(ok, stops)); cut != bF {
		ok = bAnd(ok, firstFacts(cut, bSupport(cut)...))
	}
	c.Check(sat(bAnd(ok, stops)) == bF, "answered", "reported", p.Pos(fn.Pos()), "no error although a request failed: when "+bString(sat(bAnd(ok, stops))))
	made := bF
	for _, e := range news {
		made = bOr(made, bAnd(e.G, bNot(g.notNil(errOf(e)))))
	}
	c.Check(sat(bAnd(ok, bNot(made))) == bF, "answered", "client", p.Pos(fn.Pos()), "no error although there is no client: when "+bString(sat(bAnd(ok, bNot(made)))))
}

func isEmptyText(t *Term) bool {
	s, ok := constStr(t)
	return ok && s == ""
}
