package main

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C16", checkC16) }

func checkC16(c *Ctx) {
	c.Rule("plain", "a path without the ... suffix is used as it is")
	c.Rule("walk", "a path ending in ... is walked from the directory before the suffix, and nothing cuts the walk short")
	c.Rule("collect", "the directory of an entry with extension .go is kept unless an exclusion pattern matches it")
	c.Rule("result", "the result is every directory kept, once, sorted")
	c.Rule("patterns", "every exclusion becomes a pattern that matches wherever its text occurs")
	c.Rule("defaults", "vendor and .git are excluded before the user's exclusions are added")
	c.Rule("use", "the command expands every path with all the exclusions and scans every directory found")
	c.Guard("walk", "PackagePaths", func() { checkPackagePaths(c) })
	c.Guard("patterns", "ExcludedDirsRegExp", func() { checkExclusions(c) })
	c.Guard("defaults", "main", func() { checkDefaultExclusions(c) })
	for _, r := range []string{"plain", "walk", "collect", "result", "patterns", "defaults", "use"} {
		c.Min(r, 1)
	}
}

var walkFns = map[string]bool{"path/filepath.Walk": true, "path/filepath.WalkDir": true}

func checkPackagePaths(c *Ctx) {
	p := c.P
	fn := p.Func("", "PackagePaths")
	if fn == nil {
		c.Fail("walk", "PackagePaths", "-", "no such function")
		return
	}
	g := NewGate(p)
	g.KeepMem = func(e *GEvent) bool { return walkFns[e.Name] }
	r := g.Run(fn)
	root := gparam(fn, 0)
	excl := gparam(fn, 1)
	pos := p.Pos(fn.Pos())
	var w *GEvent
	for _, e := range g.Events {
		if walkFns[e.Name] {
			if w != nil {
				c.Fail("walk", "one walk", p.InstrPos(e.Ins), "the tree is walked twice")
			}
			w = e
		}
	}
	if w == nil {
		c.Fail("walk", "walk", pos, "no walk over the directory tree")
		return
	}
	wp := p.InstrPos(w.Ins)
	// the condition of the walk: the path ends in ...
	var suffixed BDD = bF
	ok := false
	for _, a := range bSupport(w.G) {
		if isSuffixTest(a, root) {
			suffixed, ok = bddOf(a), true
		}
	}
	c.Check(ok && sat(bXor(w.G, suffixed)) == bF, "walk", "when", wp, "the tree is walked when "+bString(w.G))
	// its root is the path without the suffix
	rt := w.Args[0].single()
	c.Check(rt != nil && isCutSuffix(rt, root), "walk", "root", wp, "the walk starts at "+w.Args[0].String())
	// results
	n := 0
	for _, x := range r.Rets[0].L {
		rest := bAnd(x.g, bNot(suffixed))
		if sat(rest) != bF {
			es, ok := g.sliceElems(r.Mem, x.t)
			c.Check(ok && len(es) == 1 && es[0].constrain(rest).single() == root, "plain", "result", pos, "a plain path gives "+x.t.String())
			n++
		}
	}
	c.Check(n > 0 && sat(bAnd(bNot(suffixed), bNot(g.eq(r.Rets[1], mkNil())))) == bF, "plain", "error", pos, "a plain path may be refused")
	werr := res(w, 0)
	good := bAnd(suffixed, g.eq1(werr, mkNil()))
	c.Check(sat(bAnd(bAnd(suffixed, bNot(g.eq1(werr, mkNil()))), g.eq(r.Rets[1], mkNil()))) == bF, "walk", "error", pos, "a failed walk may go unreported")
	c.Check(sat(bAnd(good, bNot(g.eq(r.Rets[1], mkNil())))) == bF, "walk", "no error", pos, "a completed walk may be refused")

	// the callback
	cb := strip(w.Args[1].single())
	cf, _ := cb.Obj.(*ssa.Function)
	if cf == nil {
		c.Fail("collect", "callback", wp, "the callback of the walk is not known")
		return
	}
	old := g.Events
	g.Events = nil
	var args []GV
	for i := range cf.Params {
		args = append(args, gvT(gparam(cf, i)))
	}
	ret := g.callClosure(w.Args[1], cloneMem(w.Mem), args...)
	evs := g.Events
	g.Events = old
	c.Check(sat(bNot(g.eq(ret, mkNil()))) == bF, "walk", "callback", p.Pos(cf.Pos()), "the callback may end the walk or skip a directory: "+ret.String())
	path := gparam(cf, 0)
	var m *Term
	kept := BDD(bF)
	for _, e := range evs {
		if e.Kind != "mapstore" {
			continue
		}
		k := e.Args[1].single()
		c.Check(k != nil && isDirCall(k, path), "collect", "directory", p.InstrPos(e.Ins), "what is kept is "+e.Args[1].String())
		c.Check(m == nil || m == e.Args[0].single(), "collect", "map", p.InstrPos(e.Ins), "the directories are kept in several maps")
		m = e.Args[0].single()
		kept = bOr(kept, e.G)
	}
	if !c.Check(m != nil, "collect", "map", p.Pos(cf.Pos()), "the callback keeps nothing") {
		return
	}
	// expected: the extension is .go and no pattern matches
	var ext BDD = bF
	extOK := false
	var match *Term
	for _, a := range bSupport(kept) {
		if isGoExtTest(a, path) {
			ext, extOK = bddOf(a), true
		}
		if a.Op == "exists" && a.Args[0] == excl {
			match = a
		}
	}
	c.Check(extOK, "collect", "extension", p.Pos(cf.Pos()), "kept when "+bString(kept))
	if c.Check(match != nil, "collect", "exclusions", p.Pos(cf.Pos()), "the exclusions are not consulted: kept when "+bString(kept)) {
		want := bAnd(ext, bNot(bddOf(match)))
		// without exclusions there is no element to match
		none := g.eq1(excl, mkNil())
		want = bOr(want, bAnd(ext, none))
		diff := sat(bAnd(bXor(kept, want), bNot(bAnd(none, bddOf(match)))))
		c.Check(diff == bF, "collect", "condition", p.Pos(cf.Pos()), "kept when "+bString(kept))
		checkMatch(c, g, match, excl, path, p.Pos(cf.Pos()))
	}
	// the list returned
	for _, x := range r.Rets[0].L {
		if sat(bAnd(x.g, good)) == bF {
			continue
		}
		t := strip(x.t)
		from := t
		sorted := sortedList(t)
		if t.Op == "call" && len(t.Args) > 0 && genericName(t.Obj.(*ssa.Function)) == "slices.Sorted" {
			sorted = true
		}
		km := keysOf(from)
		c.Check(km == m, "result", "every directory", pos, "the result is "+brief(t.String()))
		if !sorted {
			for _, e := range g.Events {
				if sortFns[genericNameOf(e)] && len(e.Args) > 0 && e.Args[0].single() != nil && strip(e.Args[0].single()) == t && sat(bAnd(good, bNot(e.G))) == bF {
					sorted = true
				}
			}
		}
		c.Check(sorted, "result", "order", pos, "the directories found are returned in the order of a map")
	}
	// nothing is taken out again
	for _, e := range append(append([]*GEvent{}, g.Events...), evs...) {
		if (e.Name == "builtin.delete" || e.Name == "builtin.clear") && len(e.Args) > 0 && e.Args[0].single() == m {
			c.Fail("result", "every directory", p.InstrPos(e.Ins), "a directory that was kept may be removed")
		}
	}
}

var sortFns = map[string]bool{"sort.Strings": true, "slices.Sort": true}

func genericNameOf(e *GEvent) string {
	if e.Fn != nil {
		return genericName(e.Fn)
	}
	return e.Name
}

func sortedList(t *Term) bool { return false }

func isSuffixTest(a, root *Term) bool {
	switch {
	case callName(a) == "strings.HasSuffix":
		s, ok := constStr(a.Args[1])
		return ok && s == "..." && strip(a.Args[0]) == root
	case strings.HasPrefix(callName(a), "strings.CutSuffix"):
		s, ok := constStr(a.Args[1])
		return ok && s == "..." && strip(a.Args[0]) == root
	}
	return false
}

// isCutSuffix: the path without its last three characters.
func isCutSuffix(t, root *Term) bool {
	t = strip(t)
	switch t.Op {
	case "slice":
		if t.Args[0] != root || len(t.Args) < 3 {
			return false
		}
		if k, ok := constInt(t.Args[1]); !(ok && k == 0) && t.Args[1] != nil && !isNilT(t.Args[1]) {
			return false
		}
		h := t.Args[2]
		if h.Op != "bin" || h.Obj != "-" {
			return false
		}
		k, ok := constInt(h.Args[1])
		return ok && k == 3 && h.Args[0].Op == "len" && h.Args[0].Args[0] == root
	case "call":
		switch callName(t) {
		case "strings.TrimSuffix", "strings.CutSuffix":
			s, ok := constStr(t.Args[1])
			return ok && s == "..." && strip(t.Args[0]) == root
		}
	case "extract":
		return isCutSuffix(t.Args[0], root)
	}
	return false
}

func isDirCall(t, path *Term) bool {
	t = strip(t)
	if callName(t) == "path/filepath.ToSlash" || callName(t) == "path/filepath.Clean" {
		return isDirCall(t.Args[0], path)
	}
	return callName(t) == "path/filepath.Dir" && strip(t.Args[0]) == path
}

func isGoExtTest(a, path *Term) bool {
	if callName(a) == "strings.HasSuffix" {
		s, ok := constStr(a.Args[1])
		return ok && s == ".go" && strip(a.Args[0]) == path
	}
	if a.Op != "bin" || a.Obj != "==" {
		return false
	}
	for i := 0; i < 2; i++ {
		s, ok := constStr(a.Args[i])
		o := strip(a.Args[1-i])
		if ok && s == ".go" && callName(o) == "path/filepath.Ext" && strip(o.Args[0]) == path {
			return true
		}
	}
	return false
}

// checkMatch: an element counts exactly when its pattern matches the directory in slash form.
func checkMatch(c *Ctx, g *Gate, ex, excl, path *Term, pos string) {
	cond := condTerms[ex]
	el := elemOf(excl, elemType(excl.Typ))
	var hit *Term
	for _, a := range bSupport(cond) {
		if n := callName(a); n == "(*regexp.Regexp).MatchString" && strip(a.Args[0]) == el {
			hit = a
		}
	}
	if !c.Check(hit != nil, "collect", "match", pos, "an exclusion applies when "+bString(cond)) {
		return
	}
	nn := bNot(g.eq1(el, mkNil()))
	c.Check(sat(bXor(cond, bAnd(nn, bddOf(hit)))) == bF || sat(bXor(cond, bddOf(hit))) == bF, "collect", "match", pos, "an exclusion applies when "+bString(cond))
	s := strip(hit.Args[1])
	c.Check(callName(s) == "path/filepath.ToSlash" && isDirCall(s.Args[0], path), "collect", "matched text", pos, "the exclusions are compared with "+s.String())
}

func checkExclusions(c *Ctx) {
	p := c.P
	fn := p.Func("", "ExcludedDirsRegExp")
	if fn == nil {
		c.Fail("patterns", "ExcludedDirsRegExp", "-", "no such function")
		return
	}
	g := NewGate(p)
	r := g.Run(fn)
	dirs := gparam(fn, 0)
	pos := p.Pos(fn.Pos())
	v := r.Rets[0].single()
	if !c.Check(v != nil, "patterns", "list", pos, "the result is "+r.Rets[0].String()) {
		return
	}
	base, parts := listParts(g, strip(v))
	c.Check(isEmptyList(base) && len(parts) == 1 && parts[0].L == dirs && sat(bNot(parts[0].c)) == bF, "patterns", "every exclusion", pos, "the patterns are "+brief(v.String()))
	for _, q := range parts {
		f := strip(q.f)
		if f.Op == "extract" {
			f = f.Args[0]
		}
		n := callName(f)
		if !c.Check(n == "regexp.MustCompile" || n == "regexp.Compile", "patterns", "pattern", pos, "an exclusion becomes "+brief(f.String())) {
			continue
		}
		lits := []string{""}
		vals := 0
		okV := true
		for _, x := range pieces(f.Args[0]) {
			if x.val == nil {
				lits[len(lits)-1] += x.lit
				continue
			}
			vals++
			lits = append(lits, "")
			okV = okV && isUserDir(x.val, elemOf(dirs, types.Typ[types.String]))
		}
		c.Check(vals == 1 && okV, "patterns", "text", pos, "the pattern is built from "+brief(f.Args[0].String()))
		for _, l := range lits {
			c.Check(nullable(l), "patterns", "context", pos, fmt.Sprintf("the pattern requires %q around the excluded directory", l))
		}
	}
}

// isUserDir: the exclusion as given, at most with its slashes normalised.
func isUserDir(t, el *Term) bool {
	t = strip(t)
	if t == el {
		return true
	}
	switch callName(t) {
	case "path/filepath.ToSlash":
		return isUserDir(t.Args[0], el)
	case "strings.ReplaceAll", "strings.Replace":
		a, ok1 := constStr(t.Args[1])
		b, ok2 := constStr(t.Args[2])
		if len(t.Args) > 3 {
			if k, ok := constInt(t.Args[3]); !ok || k >= 0 {
				return false
			}
		}
		return ok1 && ok2 && a == "/" && (b == `\/` || b == `/` || b == `[\\/]`) && isUserDir(t.Args[0], el)
	}
	return false
}

// nullable: the regular expression matches the empty string wherever it stands.
func nullable(s string) bool {
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return false
	}
	var n func(r *syntax.Regexp) bool
	n = func(r *syntax.Regexp) bool {
		switch r.Op {
		case syntax.OpEmptyMatch, syntax.OpStar, syntax.OpQuest:
			return true
		case syntax.OpCapture, syntax.OpPlus:
			return n(r.Sub[0])
		case syntax.OpRepeat:
			return r.Min == 0 || n(r.Sub[0])
		case syntax.OpConcat:
			for _, s := range r.Sub {
				if !n(s) {
					return false
				}
			}
			return true
		case syntax.OpAlternate:
			for _, s := range r.Sub {
				if n(s) {
					return true
				}
			}
		}
		return false
	}
	return n(re)
}

func checkDefaultExclusions(c *Ctx) {
	p := c.P
	m := p.mainModel()
	g := m.G
	var gl *ssa.Global
	for v, n := range m.flagVar {
		if n == "exclude-dir" {
			gl = v
		}
	}
	if !c.Check(gl != nil, "defaults", "flag", "-", "the exclude-dir option is not bound to a variable") {
		return
	}
	var bind, parse *GEvent
	var defs []*GEvent
	for _, e := range g.Events {
		switch e.Name {
		case "flag.Parse":
			parse = e
		case "flag.Var":
			if s, ok := constStr(e.Args[1].single()); ok && s == "exclude-dir" {
				bind = e
			}
		case "flag.Set":
			if s, ok := constStr(e.Args[0].single()); ok && s == "exclude-dir" {
				defs = append(defs, e)
			}
		}
	}
	if !c.Check(bind != nil && parse != nil, "defaults", "bound", "-", "the option is not defined before the command line is read") {
		return
	}
	at := func(e *GEvent) int { return eventPos(g.Events, e) }
	for _, want := range []string{"vendor", ".git"} {
		found := false
		for _, e := range defs {
			s, ok := constStr(e.Args[1].single())
			if !ok {
				continue
			}
			hit := false
			for _, d := range []string{want + "/x", "a/" + want + "/x/y"} {
				re, err := syntaxMatch(s, d)
				hit = err == nil && re
				if !hit {
					break
				}
			}
			if hit && sat(bNot(e.G)) == bF && at(bind) < at(e) && at(e) < at(parse) {
				found = true
			}
		}
		c.Check(found, "defaults", want, p.InstrPos(bind.Ins), "directories named "+want+" are not excluded by default")
	}
	// no default excludes anything else
	for _, e := range defs {
		s, _ := constStr(e.Args[1].single())
		c.Check(strings.Contains(s, "vendor") || strings.Contains(s, "git"), "defaults", "others", p.InstrPos(e.Ins), fmt.Sprintf("%q is excluded by default", s))
		for _, d := range []string{"cmd/x", "internal/.github/y", "a/github.com/b", "."} {
			hit, err := syntaxMatch(s, d)
			c.Check(err == nil && !hit, "defaults", "others", p.InstrPos(e.Ins), fmt.Sprintf("the default exclusion %q matches %s", s, d))
		}
	}
	// each further value is added
	vt := gl.Type().Underlying().(*types.Pointer).Elem()
	set := p.SSA.LookupMethod(types.NewPointer(vt), gl.Pkg.Pkg, "Set")
	if c.Check(set != nil, "defaults", "Set", p.InstrPos(bind.Ins), "no Set method") {
		sg := NewGate(p)
		sr := sg.Run(set)
		recv, val := gparam(set, 0), gparam(set, 1)
		now := sg.load(sr.Mem, recv).single()
		ok := now != nil
		if ok {
			base, added := appendParts(now)
			ok = len(added) == 1 && strip(added[0]) == val && strip(base) == mk("deref", nil, "", vt, recv)
			c.Check(ok, "defaults", "added", p.Pos(set.Pos()), "setting the option leaves "+brief(now.String()))
		} else {
			c.Fail("defaults", "added", p.Pos(set.Pos()), "setting the option leaves "+sg.load(sr.Mem, recv).String())
		}
	}

	// use in the command
	pp := m.one("gosec.PackagePaths")
	pos := p.InstrPos(pp.Ins)
	x := pp.Args[1].single()
	x = strip(x)
	c.Check(x != nil && callName(x) != "" && strings.HasSuffix(callName(x), "ExcludedDirsRegExp") && strip(x.Args[0]) == m.flagTerm("exclude-dir"), "use", "exclusions", pos, "the paths are expanded with the exclusions "+pp.Args[1].String())
	pr := m.one("(*gosec.Analyzer).Process")
	if c.Check(len(pp.Loops) == 1, "use", "every path", pos, "the expansion is not done path by path") {
		L := pp.Loops[0]
		c.Check(strip(pp.Args[0].single()) == elemOf(L, types.Typ[types.String]), "use", "path", pos, "the path expanded is "+pp.Args[0].String())
		// every argument of the command line
		for _, q := range gvT(L).L {
			for _, s := range splitTerm(q.t, q.g) {
				base, added := appendParts(s.t)
				ok := callName(strip(base)) == "flag.Args"
				if ok && len(added) > 0 {
					ok = false
					for _, a := range bSupport(s.g) {
						if contains(a, func(x *Term) bool { return x.Op == "len" && x.Args[0] == base }) && sat(bAnd(s.g, bNot(bddOf(a)))) == bF {
							ok = true
						}
					}
				}
				c.Check(ok, "use", "arguments", pos, "the paths expanded are "+brief(s.t.String()))
			}
		}
		// all directories found are scanned
		pk := pr.Args[2].single()
		ok := false
		if pk != nil && strip(pk).Op == "flat" {
			f := strip(pk)
			good := g.eq1(res(pp, 1), mkNil())
			ok = isEmptyList(f.Args[0]) && f.Args[1] == L && strip(f.Args[2]) == res(pp, 0) && sat(bAnd(good, bNot(condTerms[f]))) == bF
		}
		c.Check(ok, "use", "every directory", p.InstrPos(pr.Ins), "the packages scanned are "+pr.Args[2].String())
	}
}

// syntaxMatch decides whether a constant exclusion text, embedded as a pattern, matches a directory name.
func syntaxMatch(pat, dir string) (bool, error) {
	re, err := regexp.Compile(strings.ReplaceAll(pat, "/", `\/`))
	if err != nil {
		return false, err
	}
	return re.MatchString(dir), nil
}
