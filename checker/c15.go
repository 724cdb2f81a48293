package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C15", checkC15) }

func checkC15(c *Ctx) {
	c.Rule("queue", "every requested package is queued before the workers start")
	c.Rule("workers", "at least one worker runs whatever the concurrency value is")
	c.Rule("answer", "a worker loads each package it takes from the queue and hands over the outcome")
	c.Rule("files", "the files loaded are the Go and cgo files selected by the build tags, and the test files exactly when tests are scanned")
	c.Rule("tags", "the build tags of the run select the files of every package")
	c.Rule("consumer", "every loaded package is checked by rules and by analyzers")
	c.Rule("rules", "every Go file of a package is checked by the rules unless it is generated and those are excluded")
	c.Rule("analyzers", "every finding of every analyzer is recorded unless its file is generated and those are excluded")
	c.Rule("options", "the options of the scan are those given by the user")

	c.Guard("queue", "Process", func() { checkQueue(c) })
	c.Guard("answer", "Process", func() { checkWorker(c) })
	c.Guard("files", "Process", func() { checkLoadFiles(c) })
	c.Guard("consumer", "Process", func() { checkConsumer(c) })
	c.Guard("rules", "CheckRules", func() { checkRulesFiles(c) })
	c.Guard("analyzers", "CheckAnalyzers", func() { checkAnalyzerFiles(c) })
	c.Guard("options", "NewAnalyzer", func() { checkScanOptions(c) })
	for _, r := range []string{"queue", "workers", "answer", "files", "tags", "consumer", "rules", "analyzers", "options"} {
		c.Min(r, 1)
	}
}

// jobsOf is the channel a worker takes its packages from.
func (m *procModel) jobsOf(w *goRun) (ch *Term, got BDD, job *Term) {
	got = bF
	for _, e := range w.Events {
		if e.Kind != "recv" || e.Args[0].single() == nil || e.Args[0].single() == m.Results {
			continue
		}
		for _, s := range m.Main {
			if s.Kind == "send" && s.Args[0].single() == e.Args[0].single() {
				return e.Args[0].single(), e.G, e.Result
			}
		}
	}
	return nil, bF, nil
}

func checkQueue(c *Ctx) {
	m := c.P.processModel()
	g := m.G
	if !c.Check(m.Results != nil && len(m.Workers) > 0, "queue", "workers", c.P.Pos(m.Fn.Pos()), fmt.Sprintf("%d worker goroutine(s) send results", len(m.Workers))) {
		return
	}
	paths := gparam(m.Fn, len(m.Fn.Params)-1)
	for _, w := range m.Workers {
		jobs, _, _ := m.jobsOf(w)
		if !c.Check(jobs != nil, "queue", "jobs", c.P.InstrPos(w.Ev.Ins), "no queue of packages found") {
			continue
		}
		full := false
		for i, e := range m.Main {
			if e.Kind != "send" || e.Args[0].single() != jobs {
				continue
			}
			v := e.Args[1].single()
			ok := v != nil && len(e.Loops) == 1 && v == elemOf(e.Loops[0], v.Typ) && stripRev(e.Loops[0]) == paths && sat(bNot(noLoopVars(e.G))) == bF
			c.Check(ok, "queue", "every package", c.P.InstrPos(e.Ins), fmt.Sprintf("queued: %s over %v when %s", e.Args[1], e.Loops, bString(e.G)))
			if ok {
				full = true
				closed := false
				for _, x := range m.Main {
					if x.Name == "builtin.close" && x.Args[0].single() == jobs {
						closed = true
					}
				}
				// a worker that stops at an empty queue must not start before the queue is full
				c.Check(closed || i < eventPos(m.Main, w.Ev), "queue", "before the workers", c.P.InstrPos(e.Ins), "the workers may find the queue empty before it is filled")
			}
		}
		for _, e := range m.Main {
			if e.Kind == "earlystop" && len(e.Args) > 0 && e.Args[0].single() == paths {
				c.Fail("queue", "every package", c.P.InstrPos(e.Ins), "queueing may stop early")
			}
		}
		c.Check(full, "queue", "all", c.P.Pos(m.Fn.Pos()), "the requested packages are not all queued")
		// at least one worker
		G := w.Ev.G
		at0 := bMap(G, func(a *Term) BDD {
			s := newSubst(g, nil, func(t *Term) *Term {
				if l, ok := g.LoopInit[t]; ok {
					return l.single()
				}
				return nil
			})
			return s.bdd(bddOf(a))
		})
		for _, l := range w.Ev.Loops {
			if l.Op == "while" {
				continue
			}
			// a traversal: it must have at least one element
			if l.Op == "upto" {
				at0 = bAnd(at0, bNot(g.lt(l.Args[0], mkInt(1), types.Typ[types.Int])))
			} else {
				at0 = bF
			}
		}
		c.Check(sat(bNot(at0)) == bF, "workers", "at least one", c.P.InstrPos(w.Ev.Ins), "the first worker starts only when "+bString(at0))
	}
}

func eventPos(es []*GEvent, e *GEvent) int {
	for i, x := range es {
		if x == e {
			return i
		}
	}
	return -1
}

func checkWorker(c *Ctx) {
	m := c.P.processModel()
	for _, w := range m.Workers {
		jobs, got, job := m.jobsOf(w)
		ip := c.P.InstrPos(w.Ev.Ins)
		if jobs == nil {
			c.Fail("answer", "queue", ip, "no queue")
			continue
		}
		got = noLoopVars(got)
		sent, stop := BDD(bF), BDD(bF)
		for _, e := range w.Events {
			switch {
			case e.Kind == "send" && e.Args[0].single() == m.Results:
				okV := gvHas(e.Args[1], func(t *Term) bool { return t == job })
				c.Check(okV, "answer", "outcome", c.P.InstrPos(e.Ins), "what is handed over does not come from the package taken: "+brief(e.Args[1].String()))
				sent = bOr(sent, noLoopVars(e.G))
			case e.Kind == "recv" && e.Args[0].single() != jobs:
				if q := e.Args[0].single(); q != nil && m.quitOnError(q) {
					stop = bOr(stop, noLoopVars(e.G))
				}
			}
		}
		miss := sat(bAnd(got, bNot(bOr(sent, stop))))
		c.Check(miss == bF, "answer", "every package taken", ip, "a package may be taken from the queue without its outcome being handed over when "+bString(miss))
		// the worker goes on until the queue is empty
		early := sat(bAnd(noLoopVars(w.RetG), bAnd(got, bNot(stop))))
		for _, e := range w.Events {
			if e.Kind != "recv" || e.Args[0].single() != jobs || len(e.Loops) == 0 || e.Loops[len(e.Loops)-1].Op != "chanrange" {
				continue
			}
			// the worker traverses the queue: only an early end of the traversal counts
			early = bF
			for _, x := range w.Events {
				if x.Kind != "earlystop" || x.Args[0].single() != e.Loops[len(e.Loops)-1] {
					continue
				}
				for _, a := range bSupport(x.G) {
					if a.Op == "exists" && a.Args[0] == x.Args[0].single() {
						early = bOr(early, sat(bAnd(condTerms[a], bNot(stop))))
					}
				}
			}
		}
		c.Check(early == bF, "answer", "until the queue is empty", ip, "a worker may stop after a package when "+bString(early))
		ld := m.loads(w)
		c.Check(len(ld) == 1, "answer", "loads", ip, fmt.Sprintf("%d calls load packages", len(ld)))
	}
}

// quitOnError: a channel which is only closed when the scan ends with an error.
func (m *procModel) quitOnError(q *Term) bool {
	found := false
	for _, e := range m.Main {
		if e.Name == "builtin.close" && len(e.Args) == 1 && e.Args[0].single() == q {
			found = true
			// after it, Process returns an error
			if len(m.Res.Rets) != 1 {
				return false
			}
			isNil := m.G.eq(m.Res.Rets[0], mkNil())
			if sat(bAnd(e.G, isNil)) != bF {
				return false
			}
		}
		if e.Kind == "send" && e.Args[0].single() == q {
			return false
		}
	}
	return found
}

func (m *procModel) loads(w *goRun) []*GEvent {
	var out []*GEvent
	for _, e := range w.Events {
		if strings.HasSuffix(e.Name, "go/packages.Load") {
			out = append(out, e)
		}
	}
	return out
}

func checkLoadFiles(c *Ctx) {
	m := c.P.processModel()
	g := m.G
	gosec := gparam(m.Fn, 0)
	tests := g.anyField(gosec, "tests")
	tags := gparam(m.Fn, 1)
	for _, w := range m.Workers {
		_, got, job := m.jobsOf(w)
		got = noLoopVars(got)
		for _, e := range m.loads(w) {
			ip := c.P.InstrPos(e.Ins)
			// the directory scan
			var imp *GEvent
			for _, x := range w.Events {
				if strings.HasSuffix(x.Name, "build.Context).ImportDir") {
					imp = x
				}
			}
			if !c.Check(imp != nil, "files", "ImportDir", ip, "no ImportDir call") {
				return
			}
			c.Check(isDirOf(imp.Args[1], job, imp.G), "files", "directory", c.P.InstrPos(imp.Ins), "directory scanned: "+imp.Args[1].String())
			// conditions under which nothing is loaded
			for _, a := range bSupport(noLoopVars(e.G)) {
				if sat(bXor(bRestrict(e.G, func(t *Term) (bool, bool) { return t == a, true }), bRestrict(e.G, func(t *Term) (bool, bool) { return t == a, false }))) == bF {
					continue
				}
				s := ""
				switch {
				case len(bSupport(got)) > 0 && (a.Op == "selrecv" || a.Op == "recvok"):
					s = "a package was taken"
				case a.Op == "bin" && a.Obj == "==" && hasNil(a) && contains(a, func(x *Term) bool { return x.Op == "call" && strings.HasSuffix(funcNameOf(x), "ImportDir") }):
					s = "the directory could be read"
				case contains(a, func(x *Term) bool {
					n := funcNameOf(x)
					return x.Op == "call" && (strings.HasSuffix(n, "filepath.Abs") || strings.HasSuffix(n, "os.Stat") || strings.HasSuffix(n, "os.IsNotExist") || strings.HasSuffix(n, "errors.Is"))
				}) && (hasNil(a) || a.Op == "call"):
					s = "the path exists"
				}
				c.Check(s != "", "files", "loading a package depends only on whether it can be read", ip, "also on "+brief(a.String()))
			}
			// the files
			impRes := res(imp, 0)
			seen := map[string]BDD{}
			for _, cs := range caseSplit(e.Args[1]) {
				if sat(bAnd(cs.g, e.G)) == bF {
					continue
				}
				base, parts := listParts(g, cs.t)
				c.Check(isEmptyList(base) || isNilT(base), "files", "list", ip, "the list starts with "+brief(base.String()))
				for _, q := range parts {
					n := ""
					if q.L != nil && q.L.Op == "load" || q.L != nil {
						for _, f := range []string{"GoFiles", "CgoFiles", "TestGoFiles", "XTestGoFiles"} {
							if q.L == g.ptrField(impRes, f) || isFieldOfCall(q.L, f, "build.Context).ImportDir") {
								n = f
							}
						}
					}
					okF := n != "" && isPathJoin(q.f, job, bAnd(cs.g, e.G), elemOf(q.L, elemType(q.L.Typ)))
					c.Check(okF && q.c == bT, "files", "entry "+n, ip, "file list has "+brief(q.f.String())+" for "+fmt.Sprint(q.L)+" when "+bString(q.c))
					seen[n] = bOr(seen[n], bAnd(cs.g, e.G))
				}
			}
			all := e.G
			for _, f := range []string{"GoFiles", "CgoFiles"} {
				miss := sat(bAnd(all, bNot(seen[f])))
				c.Check(miss == bF, "files", f, ip, "not loaded when "+bString(miss))
			}
			tb := bddOf(tests)
			for _, f := range []string{"TestGoFiles", "XTestGoFiles"} {
				miss := sat(bAnd(all, bXor(seen[f], bAnd(all, tb))))
				c.Check(miss == bF, "files", f, ip, "loaded exactly with -tests does not hold when "+brief(bString(miss)))
			}
			checkBuildContext(c, m, w, imp, tags)
			checkLoadConfig(c, m, w, e, tags, tests)
		}
	}
}

func hasNil(a *Term) bool {
	return a.Op == "bin" && (isNilT(a.Args[0]) || isNilT(a.Args[1]))
}

func isNilT(t *Term) bool { return t != nil && t.Op == "nil" }

// isFieldOfCall: the named field of what a call returned first.
func isFieldOfCall(t *Term, field, call string) bool {
	if t == nil || t.Op != "load" || addrName(t.Args[0]) != field {
		return false
	}
	x := t.Args[0].Args[0]
	return x.Op == "extract" && fmt.Sprint(x.Obj) == "0" && strings.HasSuffix(funcNameOf(x.Args[0]), call)
}

// isDirOf: the directory itself or its absolute form.
func isDirOf(v GV, dir *Term, when BDD) bool {
	for _, cs := range caseSplit(v) {
		if sat(bAnd(cs.g, when)) == bF || cs.t == dir {
			continue
		}
		t := cs.t
		if t.Op == "call" && (funcNameOf(t) == "path/filepath.Clean" || funcNameOf(t) == "path.Clean") && t.Args[0] == dir {
			continue
		}
		if t.Op != "extract" || fmt.Sprint(t.Obj) != "0" || funcNameOf(t.Args[0]) != "path/filepath.Abs" || t.Args[0].Args[0] != dir {
			return false
		}
	}
	return true
}

func isPathJoin(f, dir *Term, when BDD, name *Term) bool {
	if f == nil || f.Op != "call" {
		return false
	}
	n := funcNameOf(f)
	if n != "path.Join" && n != "path/filepath.Join" {
		return false
	}
	return len(f.Args) == 2 && isDirOf(gvT(f.Args[0]), dir, when) && f.Args[1] == name
}

// checkBuildContext: the context is a copy of the default one with the tags of the run.
func checkBuildContext(c *Ctx, m *procModel, w *goRun, imp *GEvent, tags *Term) {
	ip := c.P.InstrPos(imp.Ins)
	ctx := imp.Args[0].single()
	if !c.Check(ctx != nil && localObj(ctx), "tags", "context", ip, "the build context used is not a private copy: "+imp.Args[0].String()) {
		return
	}
	base, set := false, false
	for _, e := range w.Events {
		if e.Kind != "store" || eventPos(w.Events, e) > eventPos(w.Events, imp) {
			continue
		}
		a := e.Args[0].single()
		switch {
		case a == ctx:
			v := e.Args[1].single()
			base = v != nil && strings.Contains(v.String(), "Default")
		case a != nil && within(a, ctx):
			f := addrName(a)
			if f == "BuildTags" {
				set = e.Args[1].single() != nil && m.isTags(e.Args[1].single(), tags)
				c.Check(set, "tags", "BuildTags", c.P.InstrPos(e.Ins), "the build tags are "+e.Args[1].String())
				ok, d := implies(imp.G, e.G)
				c.Check(ok, "tags", "BuildTags always", c.P.InstrPos(e.Ins), d)
			} else {
				c.Fail("tags", "context", c.P.InstrPos(e.Ins), "also changes "+f)
			}
		}
	}
	c.Check(base, "tags", "default context", ip, "the build context is not the default one")
	c.Check(set, "tags", "tags of the run", ip, "the build tags are not set")
	// nobody changes the tags while the workers run
	for _, e := range append(append([]*GEvent{}, w.Events...), m.Main...) {
		if e.Kind != "store" {
			continue
		}
		a := e.Args[0].single()
		if a != nil && addrName(a) == "BuildFlags" && !m.privateConfig(w, a) {
			v := e.Args[1].single()
			c.Check(v == tags && e.Ins.Parent() == m.Fn, "tags", "shared configuration", c.P.InstrPos(e.Ins), "the build tags of later packages become "+e.Args[1].String())
		}
	}
}

// isTags: the value is the list of build tags given to Process, possibly through the shared configuration.
func (m *procModel) isTags(t, tags *Term) bool {
	return t == tags
}

// privateConfig: the address is inside an object allocated by the worker itself.
func (m *procModel) privateConfig(w *goRun, a *Term) bool {
	for a.Op == "fieldaddr" || a.Op == "indexaddr" {
		a = a.Args[0]
	}
	if !localObj(a) {
		return false
	}
	v, ok := a.Obj.(ssa.Value)
	return ok && v.Parent() != m.Fn
}

func addrName(a *Term) string {
	if a.Op == "fieldaddr" {
		if f, ok := a.Obj.(*types.Var); ok {
			return f.Name()
		}
	}
	return ""
}

// checkLoadConfig: mode, tests and flags of the loader's configuration.
func checkLoadConfig(c *Ctx, m *procModel, w *goRun, e *GEvent, tags, tests *Term) {
	g := m.G
	ip := c.P.InstrPos(e.Ins)
	cfg := e.Args[0].single()
	if cfg == nil || e.Mem == nil {
		c.Fail("files", "loader configuration", ip, "unknown "+e.Args[0].String())
		return
	}
	tv := g.memField(e.Mem, cfg, "Tests")
	c.Check(tv.single() == tests || sat(bXor(tv.bool(), bddOf(tests))) == bF, "files", "loader: tests", ip, "test variants are loaded when "+tv.String())
	mv := g.memField(e.Mem, cfg, "Mode").single()
	want := []string{"NeedName", "NeedFiles", "NeedCompiledGoFiles", "NeedImports", "NeedTypes", "NeedTypesSizes", "NeedTypesInfo", "NeedSyntax", "NeedDeps", "NeedModule"}
	n, okN := constInt(mv)
	okM := okN
	missing := ""
	if pk := c.P.depPackage("golang.org/x/tools/go/packages"); pk != nil && okN {
		for _, s := range want[:8] {
			if k, ok := pk.Scope().Lookup(s).(*types.Const); ok {
				if b, ok := constant.Int64Val(k.Val()); !ok || n&b == 0 {
					okM = false
					missing += " " + s
				}
			}
		}
	}
	c.Check(okM, "files", "loader: mode", ip, "mode lacks"+missing)
	for _, f := range []string{"Dir", "Env", "Fset", "ParseFile", "Overlay", "Context"} {
		v := g.memField(e.Mem, cfg, f)
		t := v.single()
		if f == "Dir" {
			s, ok := "", false
			if t != nil {
				s, ok = constStr(t)
			}
			c.Check(ok && s == "", "files", "loader: "+f, ip, "set to "+v.String())
			continue
		}
		c.Check(t != nil && isNilT(t), "files", "loader: "+f, ip, "set to "+v.String())
	}
}

func checkConsumer(c *Ctx) {
	m := c.P.processModel()
	g := m.G
	for _, n := range []string{"CheckRules", "CheckAnalyzers"} {
		var es []*GEvent
		for _, e := range m.Main {
			if e.Fn == m.check[n] {
				es = append(es, e)
			}
		}
		if !c.Check(len(es) == 1, "consumer", n, c.P.Pos(m.Fn.Pos()), fmt.Sprintf("%d calls", len(es))) {
			continue
		}
		e := es[0]
		ip := c.P.InstrPos(e.Ins)
		if !c.Check(len(e.Loops) == 2 && e.Loops[0] == m.Recv && m.Recv != nil, "consumer", n+" over the results", ip, fmt.Sprintf("%v", e.Loops)) {
			continue
		}
		L := e.Loops[1]
		okL := L.Op == "field" && L.Args[0].Op == "elem" && L.Args[0].Args[0] == m.Recv && len(L.Args) == 1
		c.Check(okL, "consumer", n+" over the packages", ip, "traverses "+L.String())
		pkg := e.Args[1].single()
		c.Check(pkg != nil && pkg == elemOf(L, pkg.Typ), "consumer", n+" on the package", ip, e.Args[1].String())
		if pkg == nil {
			continue
		}
		W := noLoopVars(e.G)
		// an earlier end of the traversal must end the scan with an error
		stop := BDD(bF)
		for _, x := range m.Main {
			if x.Kind != "earlystop" || x.Args[0].single() != L {
				continue
			}
			for _, a := range bSupport(x.G) {
				if a.Op == "exists" && a.Args[0] == L {
					stop = bOr(stop, condTerms[a])
				}
			}
		}
		name := g.ptrField(pkg, "Name")
		unnamed := g.eq(gvT(name), mkString(""))
		// conditions of this element alone
		W = bExistsQ(W, func(t *Term) bool { return t.Op == "exists" })
		miss := sat(bAnd(bNot(W), bNot(bOr(unnamed, stop))))
		c.Check(miss == bF, "consumer", n+" for every package", ip, "not for a package when "+bString(miss))
	}
	// the traversals end early only with an error
	for _, x := range m.Main {
		if x.Kind == "earlystop" {
			L := x.Args[0].single()
			if L == m.Recv || L != nil && contains(L, func(t *Term) bool { return t == m.Recv }) {
				bad := sat(bAnd(noLoopVars(x.G), g.eq(m.Res.Rets[0], mkNil())))
				if len(x.Loops) > 0 {
					// the inner traversal: the outer one must end as well, which is checked for it
					bad = bF
					found := false
					for _, y := range m.Main {
						if y.Kind == "earlystop" && y.Args[0].single() == m.Recv {
							for _, a := range bSupport(y.G) {
								if a.Op == "exists" && a.Args[0] == m.Recv {
									for _, b := range bSupport(x.G) {
										if b.Op == "exists" && b.Args[0] == L && sat(bAnd(bddOf(b), bNot(noLoopVars(condTerms[a])))) == bF {
											found = true
										}
									}
								}
							}
						}
					}
					c.Check(found, "consumer", "early end", c.P.InstrPos(x.Ins), "the packages after it are skipped but the scan goes on")
				}
				c.Check(bad == bF, "consumer", "early end with an error", c.P.InstrPos(x.Ins), "the scan ends early without an error when "+bString(bad))
			}
		}
	}
	// the loop over the results always starts
	for _, e := range m.Main {
		if e.Kind == "recv" && e.Args[0].single() == m.Results {
			rest := sat(bNot(noLoopVars(e.G)))
			c.Check(rest == bF, "consumer", "results are read", c.P.InstrPos(e.Ins), "not when "+bString(rest))
		}
	}
}

// fileAtoms sorts the conditions about a file into located, Go file, exclusion requested and generated.
func (g *Gate) fileAtom(a, file, pkg, recv *Term) string {
	isFile := func(t *Term) bool {
		return t.Op == "call" && strings.HasSuffix(funcNameOf(t), "token.FileSet).File") && isPosOf(t.Args[len(t.Args)-1], file)
	}
	switch {
	case a == g.anyField(recv, "excludeGenerated"):
		return "exclude"
	case a.Op == "call" && strings.HasSuffix(funcNameOf(a), "ast.IsGenerated") && a.Args[0] == file:
		return "generated"
	case hasNil(a) && (isFile(a.Args[0]) || isFile(a.Args[1])):
		return "unlocated"
	}
	isName := func(t *Term) bool {
		return t.Op == "call" && strings.HasSuffix(funcNameOf(t), "token.File).Name") && isFile(t.Args[0])
	}
	if a.Op == "bin" && a.Obj == "==" {
		for i := 0; i < 2; i++ {
			if s, ok := constStr(a.Args[i]); ok && s == ".go" {
				x := a.Args[1-i]
				if x.Op == "call" && strings.HasSuffix(funcNameOf(x), "filepath.Ext") && isName(x.Args[0]) {
					return "go"
				}
			}
		}
	}
	if a.Op == "call" && funcNameOf(a) == "strings.HasSuffix" && isName(a.Args[0]) {
		if s, ok := constStr(a.Args[1]); ok && s == ".go" {
			return "go"
		}
	}
	return ""
}

// isPosOf: a position inside the file's own syntax.
func isPosOf(t, file *Term) bool {
	if t.Op == "call" && (strings.HasSuffix(funcNameOf(t), "ast.File).Pos") || strings.HasSuffix(funcNameOf(t), "ast.File).End")) {
		return t.Args[0] == file
	}
	return contains(t, func(x *Term) bool { return x == file }) && t.Op == "load"
}

func checkRulesFiles(c *Ctx) {
	p := c.P
	fn := p.Method("", "Analyzer", "CheckRules")
	g := NewGate(p)
	p.inlineTowards(g, "go/ast.Walk", "go/ast.Inspect")
	g.Run(fn)
	recv, pkg := gparam(fn, 0), gparam(fn, 1)
	L := g.ptrField(pkg, "Syntax")
	n := 0
	for _, e := range g.Events {
		if e.Kind == "earlystop" && e.Args[0].single() == L {
			c.Fail("rules", "all files", p.InstrPos(e.Ins), "the files after it are skipped when "+bString(e.G))
		}
		if e.Name != "go/ast.Walk" && e.Name != "go/ast.Inspect" {
			continue
		}
		n++
		ip := p.InstrPos(e.Ins)
		fi := e.Args[1].single()
		if fi != nil {
			fi = strip(fi)
		}
		if !c.Check(fi != nil && len(e.Loops) == 1 && stripRev(e.Loops[0]) == L && fi == elemOf(e.Loops[0], fi.Typ), "rules", "walk", ip, fmt.Sprintf("walks %s over %v", e.Args[1], e.Loops)) {
			continue
		}
		v := e.Args[0].single()
		c.Check(v != nil && strip(v) == recv, "rules", "visitor", ip, e.Args[0].String())
		W := noExists(noLoopVars(e.G))
		at := map[string]BDD{}
		for _, k := range []string{"exclude", "generated", "unlocated", "go"} {
			at[k] = bddOf(mk("atom", k, "", types.Typ[types.Bool]))
		}
		F := bMap(W, func(a *Term) BDD {
			if k := g.fileAtom(a, fi, pkg, recv); k != "" {
				return at[k]
			}
			return bddOf(a)
		})
		want := bAnds(bNot(at["unlocated"]), at["go"], bNot(bAnd(at["exclude"], at["generated"])))
		miss := sat(bAnd(want, bNot(F)))
		c.Check(miss == bF, "rules", "every file", ip, "a file is left out when "+bString(miss))
		extra := sat(bAnd(F, bAnd(at["exclude"], at["generated"])))
		c.Check(extra == bF, "rules", "generated files", ip, "a generated file is checked when "+bString(extra))
	}
	c.Check(n == 1, "rules", "walks", p.Pos(fn.Pos()), fmt.Sprintf("%d traversals of the files", n))
}

func checkAnalyzerFiles(c *Ctx) {
	p := c.P
	fn := p.Method("", "Analyzer", "CheckAnalyzers")
	rec := p.recorders()
	if !c.Check(len(rec) > 0, "analyzers", "recorder", p.Pos(fn.Pos()), "no method records a finding") {
		return
	}
	g := NewGate(p)
	g.noInline(rec...)
	g.Run(fn)
	recv, pkg := gparam(fn, 0), gparam(fn, 1)
	n := 0
	var anL *Term
	for _, e := range g.Events {
		isRec := false
		for _, f := range rec {
			isRec = isRec || e.Fn == f
		}
		if !isRec {
			continue
		}
		n++
		ip := p.InstrPos(e.Ins)
		if !c.Check(len(e.Loops) == 2, "analyzers", "loops", ip, fmt.Sprint(e.Loops)) {
			continue
		}
		A, I := e.Loops[0], e.Loops[1]
		anL = A
		c.Check(A == g.ptrFieldOf(recv, "analyzerSet", "Analyzers"), "analyzers", "every analyzer", ip, "runs over "+A.String())
		iss := e.Args[len(e.Args)-1].single()
		c.Check(iss != nil && iss == elemOf(I, iss.Typ), "analyzers", "every finding", ip, e.Args[len(e.Args)-1].String())
		an := elemOf(A, elemType(A.Typ))
		run := func(t *Term, own bool) bool {
			return t.Op == "call" && t.Obj != nil && callName(t) == "dynamic" && len(t.Args) > 0 && contains(t.Args[0], func(x *Term) bool { return x == an }) == own && strings.Contains(t.String(), ".Run")
		}
		src := I
		for src.Op == "tassert" || src.Op == "iface" || src.Op == "conv" {
			src = src.Args[0]
		}
		c.Check(src.Op == "extract" && run(src.Args[0], true), "analyzers", "result of the analyzer", ip, "findings come from "+I.String())
		at := map[string]BDD{}
		for _, k := range []string{"exclude", "generated", "ssaerr", "ssanil", "runerr", "runnil", "kind", "none"} {
			at[k] = bddOf(mk("atom", k, "", types.Typ[types.Bool]))
		}
		W := noExists(noLoopVars(e.G))
		F := bMap(W, func(a *Term) BDD {
			if a == g.anyField(recv, "excludeGenerated") {
				return at["exclude"]
			}
			if hasNil(a) {
				x := a.Args[0]
				if isNilT(x) {
					x = a.Args[1]
				}
				if strip(x) == iss && iss != nil {
					return at["none"] // there is no finding at that place of the list
				}
				if x.Op == "extract" {
					k := map[string]string{"0": "nil", "1": "err"}[fmt.Sprint(x.Obj)]
					// the atom says that the value is nil
					if run(x.Args[0], true) && k == "nil" {
						return at["runnil"]
					}
					if run(x.Args[0], true) && k == "err" {
						return bNot(at["runerr"])
					}
					if run(x.Args[0], false) && k == "nil" {
						return at["ssanil"]
					}
					if run(x.Args[0], false) && k == "err" {
						return bNot(at["ssaerr"])
					}
				}
			}
			if a.Op == "tassertok" && a.Args[0].Op == "extract" && run(a.Args[0].Args[0], true) {
				return at["kind"]
			}
			if (a.Op == "has" || a.Op == "mapget") && iss != nil && a.Args[1] == g.ptrField(iss, "File") && generatedSet(c, g, a.Args[0], pkg, recv) {
				return at["generated"]
			}
			return bddOf(a)
		})
		want := bAnds(bNot(at["ssaerr"]), bNot(at["ssanil"]), bNot(at["runerr"]), bNot(at["runnil"]), at["kind"], bNot(at["none"]), bNot(bAnd(at["exclude"], at["generated"])))
		miss := sat(bAnd(want, bNot(F)))
		c.Check(miss == bF, "analyzers", "every finding recorded", ip, "a finding is left out when "+bString(miss))
		extra := sat(bAnd(F, bAnd(at["exclude"], at["generated"])))
		c.Check(extra == bF, "analyzers", "generated files", ip, "a finding in a generated file is recorded when "+bString(extra))
	}
	c.Check(n == 1, "analyzers", "records", p.Pos(fn.Pos()), fmt.Sprintf("%d places record findings", n))
	for _, e := range g.Events {
		if e.Kind == "earlystop" {
			L := e.Args[0].single()
			if L == anL || L != nil && len(e.Loops) > 0 && e.Loops[0] == anL {
				c.Fail("analyzers", "all analyzers", p.InstrPos(e.Ins), "the rest is skipped when "+bString(e.G))
			}
		}
	}
}

func (g *Gate) ptrFieldOf(p *Term, names ...string) *Term {
	for _, n := range names {
		p = g.ptrField(p, n)
	}
	return p
}

// generatedSet: the map holds exactly the names of the generated files of the package.
func generatedSet(c *Ctx, g *Gate, m, pkg, recv *Term) bool {
	L := g.ptrField(pkg, "Syntax")
	n := 0
	for _, e := range g.Events {
		if e.Kind != "mapstore" || e.Args[0].single() != m {
			continue
		}
		n++
		if len(e.Loops) != 1 || stripRev(e.Loops[0]) != L {
			return false
		}
		file := elemOf(e.Loops[0], elemType(L.Typ))
		at := map[string]BDD{}
		for _, k := range []string{"exclude", "generated", "unlocated", "go"} {
			at[k] = bddOf(mk("atom", k, "", types.Typ[types.Bool]))
		}
		F := bMap(noExists(e.G), func(a *Term) BDD {
			if k := g.fileAtom(a, file, pkg, recv); k != "" {
				return at[k]
			}
			return bddOf(a)
		})
		F = bExistsQ(F, func(t *Term) bool { return t.Op == "bin" && strings.Contains(t.String(), "dynamic") })
		// the set matters only when generated files are excluded
		if sat(bAnd(bAnds(at["exclude"], at["generated"], bNot(at["unlocated"])), bNot(F))) != bF || sat(bAnd(F, bNot(at["generated"]))) != bF {
			c.Fail("analyzers", "set of generated files", c.P.InstrPos(e.Ins), "filled when "+bString(F))
			return false
		}
		k := e.Args[1].single()
		if k == nil || k.Op != "call" || !strings.HasSuffix(funcNameOf(k), "token.File).Name") || g.fileAtom(mk("bin", "==", "", nil, k.Args[0], mkNil()), file, pkg, recv) != "unlocated" {
			c.Fail("analyzers", "set of generated files", c.P.InstrPos(e.Ins), "holds "+e.Args[1].String())
			return false
		}
		if v := e.Args[2].single(); v == nil || isConst(v) && v != mkBool(true) {
			return false
		}
	}
	for _, e := range g.Events {
		if e.Kind == "earlystop" && stripRev(e.Args[0].single()) == L {
			c.Fail("analyzers", "set of generated files", c.P.InstrPos(e.Ins), "filling it may stop early")
			return false
		}
	}
	return n == 1
}

// checkScanOptions: the settings of the scanner are the constructor's arguments, given the flags in main.
func checkScanOptions(c *Ctx) {
	p := c.P
	fn := p.Func("", "NewAnalyzer")
	g := NewGate(p)
	r := g.Run(fn)
	for i, n := range map[int]string{1: "tests", 2: "excludeGenerated", 3: "trackSuppressions", 4: "concurrency"} {
		v := g.fieldOfValue(r, r.Rets[0], n)
		c.Check(v.single() == gparam(fn, i), "options", n, p.Pos(fn.Pos()), "set to "+v.String())
		// never changed afterwards
		fv := p.FieldVar("", "Analyzer", n)
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if st, ok := ins.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && addrField(fa) == fv && f != fn && !isLocalAlloc(fa.X) {
							c.Fail("options", n, p.InstrPos(ins), "changed after construction")
						}
					}
				}
			}
		}
	}
	m := p.mainModel()
	e := m.one("gosec.NewAnalyzer")
	for i, f := range map[int]string{1: "tests", 2: "exclude-generated", 3: "track-suppressions", 4: "concurrency"} {
		v := e.Args[i].single()
		c.Check(v == m.flagTerm(f), "options", "-"+f, p.InstrPos(e.Ins), "the scanner gets "+e.Args[i].String())
	}
	pe := m.one("(*gosec.Analyzer).Process")
	tv := pe.Args[1]
	tags := m.flagTerm("tags")
	ok := true
	for _, cs := range caseSplit(tv) {
		t := cs.t
		switch {
		case isNilT(t):
			ok = ok && sat(bAnd(cs.g, bNot(m.G.eq(gvT(tags), mkString(""))))) == bF
		case t.Op == "call" && funcNameOf(t) == "strings.Split":
			s, o := constStr(t.Args[1])
			ok = ok && t.Args[0] == tags && o && s == ","
		default:
			ok = false
		}
	}
	c.Check(ok, "options", "-tags", p.InstrPos(pe.Ins), "the build tags are "+tv.String())
}
