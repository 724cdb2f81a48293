package main

import (
	"fmt"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C33", checkC33) }

func checkC33(c *Ctx) {
	c.Rule("source", "the version is the configured one, else the module's, else the toolchain's")
	c.Rule("module", "the version of the module is what the go command says about it")
	c.Rule("parts", "major, minor and patch are read from the version; what cannot be read counts as the oldest")
	c.Rule("pattern", "the pattern accepts versions, and separates their parts at the dots")
	c.Rule("gate", "the loop variable check is active exactly before 1.22")
	p := c.P
	fn := p.Func("", "GoVersion")
	if fn == nil {
		c.Fail("source", "GoVersion", "-", "not found")
		return
	}
	c.Guard("source", "GoVersion", func() { checkVersionSource(c, fn) })
	c.Guard("gate", "users of the version", func() { checkVersionGates(c, fn) })
}

// versionCase is one way the sources of the version can turn out.
type versionCase struct {
	name      string
	env       bool // it is configured
	ran       bool // the go command worked
	decoded   bool // and its output could be read
	trim, src string
}

func checkVersionSource(c *Ctx, fn *ssa.Function) {
	p := c.P
	g := NewGate(p)
	r := g.Run(fn)
	pos := p.Pos(fn.Pos())
	if len(r.Rets) != 3 {
		panic(undecided{"GoVersion does not give three numbers"})
	}
	cases := []versionCase{
		{"configured", true, false, false, "go", "env"},
		{"configured, in a module", true, true, true, "go", "env"},
		{"not configured, in a module", false, true, true, "", "module"},
		{"not configured, the go command fails", false, false, false, "go", "toolchain"},
		{"not configured, the go command says something else", false, true, false, "go", "toolchain"},
	}
	isLookup := func(t *Term) bool { return t.Op == "call" && callName(t) == "os.LookupEnv" }
	isCmd := func(t *Term) bool {
		return t.Op == "call" && strings.HasPrefix(callName(t), "(*os/exec.Cmd).")
	}
	isDecode := func(t *Term) bool {
		return t.Op == "call" && (callName(t) == "(*encoding/json.Decoder).Decode" || callName(t) == "encoding/json.Unmarshal")
	}
	var patterns []string
	for i := range r.Rets {
		what := []string{"major", "minor", "patch"}[i]
		for _, vc := range cases {
			for _, matched := range []bool{true, false} {
				fix := func(a *Term) (bool, bool) {
					has := func(f func(*Term) bool) bool { return contains(a, f) }
					switch {
					case a.Op == "extract" && isLookup(strip(a.Args[0])):
						return vc.env, true
					case has(isSubmatch) && isEq(a) && (isNilT(a.Args[0]) || isNilT(a.Args[1])):
						return !matched, true
					case has(isSubmatch) && a.Op == "bin" && (a.Obj == any("<") || a.Obj == any("==")):
						// a comparison of the number of parts: 0 or 4
						n := int64(0)
						if matched {
							n = 4
						}
						x, ok1 := lenValue(a.Args[0], n)
						y, ok2 := lenValue(a.Args[1], n)
						if !ok1 || !ok2 {
							return false, false
						}
						if a.Obj == any("<") {
							return x < y, true
						}
						return x == y, true
					case isEq(a) && (isNilT(a.Args[0]) || isNilT(a.Args[1])) && has(isDecode):
						return vc.decoded, true
					case isEq(a) && (isNilT(a.Args[0]) || isNilT(a.Args[1])) && has(isCmd):
						return vc.ran, true
					}
					return false, false
				}
				var ts []*Term
				open := false
				for _, x := range r.Rets[i].L {
					b := bRestrict(x.g, fix)
					if b == bF {
						continue
					}
					open = open || b != bT
					ts = append(ts, fixTerm(strip(x.t), fix))
				}
				name := what + " when " + vc.name
				if len(ts) != 1 || open {
					c.Fail("source", name, pos, fmt.Sprintf("the version is not decided: %v", ts))
					continue
				}
				t := ts[0]
				if !matched {
					c.Check(t == mkInt(0), "parts", name+", unreadable", pos, "is "+brief(t.String()))
					continue
				}
				// Atoi(part i+1 of the match of the text)
				var sub, part *Term
				contains(t, func(x *Term) bool {
					if x.Op == "index" && part == nil && isSubmatch(strip(x.Args[0])) {
						part, sub = x, strip(x.Args[0])
					}
					return false
				})
				atoi := contains(t, func(x *Term) bool {
					return x.Op == "call" && (callName(x) == "strconv.Atoi" || callName(x) == "strconv.ParseInt" || callName(x) == "strconv.ParseUint") && strip(x.Args[0]) == part
				})
				if !c.Check(part != nil && atoi && part.Args[1] == mkInt(int64(i+1)), "parts", name, pos, "is "+brief(t.String())) {
					continue
				}
				re := ""
				contains(sub, func(x *Term) bool {
					if x.Op == "call" && (callName(x) == "regexp.MustCompile" || callName(x) == "regexp.Compile") {
						re, _ = constStr(strip(x.Args[0]))
					}
					return false
				})
				if re == "" {
					re = p.patternOfGlobal(sub.Args[0])
				}
				patterns = append(patterns, re)
				text := strip(sub.Args[len(sub.Args)-1])
				trim := ""
				for text.Op == "call" && (callName(text) == "strings.TrimPrefix" || callName(text) == "strings.TrimSpace") {
					if callName(text) == "strings.TrimPrefix" {
						trim, _ = constStr(text.Args[1])
					}
					text = strip(text.Args[0])
				}
				ok := false
				switch vc.src {
				case "env":
					ok = (text.Op == "extract" || text.Op == "res") && isLookup(strip(text.Args[0])) || text.Op == "call" && callName(text) == "os.Getenv"
					ok = ok && contains(text, func(x *Term) bool { s, is := constStr(x); return is && s == "GOSECGOVERSION" }) && !contains(text, isRuntimeVersion)
				case "module":
					ok = !contains(text, isLookup) && !contains(text, isRuntimeVersion) && (strings.HasSuffix(text.String(), ".GoVersion") || (text.Op == "extract" || text.Op == "res") && isCmd(strip(text.Args[0])))
				case "toolchain":
					ok = isRuntimeVersion(text)
				}
				ok = ok && (trim == "" || trim == "go")
				c.Check(ok, "source", name, pos, "is read from "+brief(text.String()))
			}
		}
	}
	seenRe := map[string]bool{}
	for _, re := range patterns {
		if seenRe[re] {
			continue
		}
		seenRe[re] = true
		why := versionPattern(re)
		c.Check(why == "", "pattern", fmt.Sprintf("pattern %q", re), pos, why)
	}
	// what the go command is asked
	n := 0
	for _, e := range g.Events {
		if e.Kind != "call" {
			continue
		}
		if e.Name == "os/exec.Command" || e.Name == "os/exec.CommandContext" {
			var as []string
			for _, v := range e.Var {
				s := ""
				if t := v.single(); t != nil {
					s, _ = constStr(strip(t))
				}
				as = append(as, s)
			}
			prog := ""
			if t := e.Args[len(e.Args)-2].single(); t != nil {
				prog, _ = constStr(strip(t))
			}
			n++
			all := strings.Join(as, " ")
			ok := e.VarOK && prog == "go" && len(as) >= 3 && as[0] == "list" && as[1] == "-m" && (all == "list -m -json" || strings.Contains(all, "GoVersion"))
			c.Check(ok, "module", "the go command", p.InstrPos(e.Ins), prog+" "+all)
		}
		if strings.HasPrefix(e.Name, "(*os/exec.Cmd).") {
			c.Check(e.Name == "(*os/exec.Cmd).Output", "module", "what the go command prints", p.InstrPos(e.Ins), shortName(e.Name)+" is read: messages are mixed into the output")
		}
	}
	c.Check(n > 0, "module", "the go command is asked", pos, "")
	tag := jsonTagOf(p)
	c.Check(tag, "module", "the version is decoded from GoVersion", pos, "no field is decoded from GoVersion")
}

// jsonTagOf: some struct decodes GoVersion into a text field.
func jsonTagOf(p *Program) bool {
	pk := p.SPkg[modPath].Pkg
	for _, n := range pk.Scope().Names() {
		tn, ok := pk.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			t := strings.Split(structTag(st.Tag(i), "json"), ",")[0]
			if st.Field(i).Name() == "GoVersion" && (t == "" || t == "GoVersion") {
				return true
			}
		}
	}
	return false
}

func isRuntimeVersion(t *Term) bool { return t.Op == "call" && callName(t) == "runtime.Version" }

func isSubmatch(t *Term) bool {
	return t.Op == "call" && callName(t) == "(*regexp.Regexp).FindStringSubmatch"
}

// lenValue is a number, with n for the length of the match.
func lenValue(t *Term, n int64) (int64, bool) {
	t = strip(t)
	if v, ok := constInt(t); ok {
		return v, true
	}
	if t.Op == "len" && contains(t, isSubmatch) {
		return n, true
	}
	return 0, false
}

// fixTerm chooses among the values of a term.
func fixTerm(t *Term, fix func(*Term) (bool, bool)) *Term {
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if d > 12 {
			return t
		}
		if t.Op == "gv" {
			for _, x := range gvTerms[t].L {
				if bRestrict(x.g, fix) == bT {
					return rec(x.t, d+1)
				}
			}
			return t
		}
		for _, a := range t.Args {
			if b := rec(a, d+1); b != a {
				return rec(replaceTerm(t, a, b), d+1)
			}
		}
		return t
	}
	return rec(t, 0)
}

// patternOfGlobal is the pattern of a compiled expression kept in a variable.
func (p *Program) patternOfGlobal(t *Term) string {
	re := ""
	contains(t, func(x *Term) bool {
		if gl, ok := x.Obj.(*ssa.Global); ok && p.immutableGlobal(gl) {
			gi, mi := p.gateInit(gl.Pkg)
			if v := gi.load(mi, mk("global", gl, "", gl.Type())).single(); v != nil {
				contains(v, func(y *Term) bool {
					if y.Op == "call" && callName(y) == "regexp.MustCompile" {
						re, _ = constStr(strip(y.Args[0]))
					}
					return false
				})
			}
		}
		return false
	})
	return re
}

// versionPattern says what is wrong with a pattern for versions: it must be digits, a dot, digits, and
// optionally a dot and digits, and have these as its first three groups; anything may follow.
func versionPattern(s string) string {
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return "is not a regular expression"
	}
	re = re.Simplify()
	parts := []*syntax.Regexp{re}
	if re.Op == syntax.OpConcat {
		parts = re.Sub
	}
	digits := func(r *syntax.Regexp) bool {
		return r.Op == syntax.OpPlus && r.Sub[0].Op == syntax.OpCharClass && string(r.Sub[0].Rune) == "09"
	}
	group := func(r *syntax.Regexp, n int) bool {
		return r.Op == syntax.OpCapture && r.Cap == n && digits(r.Sub[0])
	}
	dot := func(r *syntax.Regexp) bool {
		return r.Op == syntax.OpLiteral && string(r.Rune) == "."
	}
	i := 0
	if len(parts) > 0 && (parts[0].Op == syntax.OpBeginText || parts[0].Op == syntax.OpBeginLine) {
		i++
	}
	if len(parts) < i+3 || !group(parts[i], 1) || !group(parts[i+2], 2) {
		return "does not start with major and minor version"
	}
	if !dot(parts[i+1]) {
		return "major and minor version are not separated by a dot"
	}
	i += 3
	if i == len(parts) || parts[i].Op != syntax.OpQuest {
		return "has no optional patch version"
	}
	q := parts[i].Sub[0]
	if q.Op == syntax.OpCapture && q.Cap != 3 {
		return "the patch version is not the third group"
	}
	if q.Op != syntax.OpConcat || len(q.Sub) != 2 || !group(q.Sub[1], 3) {
		return "the patch version is not read"
	}
	if !dot(q.Sub[0]) {
		return "minor and patch version are not separated by a dot"
	}
	for i++; i < len(parts); i++ {
		if r := parts[i]; r.Op != syntax.OpStar || r.Sub[0].Op != syntax.OpAnyCharNotNL && r.Sub[0].Op != syntax.OpAnyChar {
			return "does not accept every suffix"
		}
	}
	return ""
}

// checkVersionGates: every rule that asks for the version is active exactly before 1.22.
func checkVersionGates(c *Ctx, gv *ssa.Function) {
	p := c.P
	defs := map[*ssa.Function]string{}
	n := 0
	for _, d := range p.ruleTable("rules") {
		if d.Create == nil {
			continue
		}
		if d.ID == "G601" {
			defs[d.Create] = d.ID
		}
	}
	for create, id := range defs {
		gg := NewGate(p)
		r := gg.Run(create)
		rule := r.Rets[0].single()
		if rule == nil {
			panic(undecided{"the rule made is not one value"})
		}
		rule = strip(rule)
		fn := p.methodOf(rule.Typ, "Match")
		g := NewGate(p)
		newIssue := p.Method("", "Context", "NewIssue")
		g.noInline(gv, newIssue)
		res2 := g.Run(fn)
		pos := p.Pos(fn.Pos())
		var ver *Term
		for _, e := range g.Events {
			if e.Fn == gv {
				if e.G != bT || ver != nil {
					panic(undecided{"the version is asked for in a way which is not known"})
				}
				ver = e.Result
				n++
			}
		}
		if !c.Check(ver != nil, "gate", id+" asks for the version", pos, "") {
			continue
		}
		found := bF
		for _, x := range res2.Rets[0].L {
			if !isNilT(x.t) {
				found = bOr(found, x.g)
			}
		}
		found = noExists(noLoopVars(bAnd(found, res2.RetG)))
		// the numbers compared with
		nums := map[int64]bool{0: true, 1: true, 2: true, 21: true, 22: true, 23: true}
		for _, a := range bSupport(found) {
			if a.Op == "bin" && contains(a, func(x *Term) bool { return x == ver }) {
				for _, q := range a.Args {
					if v, ok := constInt(strip(q)); ok {
						for d := int64(-1); d <= 1; d++ {
							if v+d >= 0 {
								nums[v+d] = true
							}
						}
					}
				}
			}
		}
		part := func(t *Term, v [3]int64) (int64, bool) {
			t = strip(t)
			if k, ok := constInt(t); ok {
				return k, true
			}
			for i := 0; i < 3; i++ {
				if t == strip(resultAt(g, gv, i)) {
					return v[i], true
				}
			}
			return 0, false
		}
		active := BDD(-1)
		bad := ""
		tried := 0
		for maj := range nums {
			for min := range nums {
				for _, patch := range []int64{0, 1} {
					v := [3]int64{maj, min, patch}
					b := bRestrict(found, func(a *Term) (bool, bool) {
						if a.Op != "bin" || a.Obj != any("<") && a.Obj != any("==") {
							return false, false
						}
						x, ok1 := part(a.Args[0], v)
						y, ok2 := part(a.Args[1], v)
						if !ok1 || !ok2 {
							return false, false
						}
						if a.Obj == any("<") {
							return x < y, true
						}
						return x == y, true
					})
					tried++
					before := maj < 1 || maj == 1 && min < 22
					if !before {
						if b != bF && bad == "" {
							bad = fmt.Sprintf("active for Go %d.%d.%d", maj, min, patch)
						}
						continue
					}
					if active < 0 {
						active = b
					}
					if b != active && bad == "" {
						bad = fmt.Sprintf("for Go %d.%d.%d the check is not what it is for others", maj, min, patch)
					}
				}
			}
		}
		if active == bF {
			bad = "never active"
		}
		c.Check(bad == "", "gate", id+" follows the version", pos, bad)
		c.Stat("versions decided", tried)
	}
	c.Check(n > 0, "gate", "G601 is gated", "-", "")
}

func resultAt(g *Gate, fn *ssa.Function, i int) *Term {
	for _, e := range g.Events {
		if e.Fn == fn {
			return res(e, i)
		}
	}
	return nil
}
